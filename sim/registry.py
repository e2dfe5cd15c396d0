"""Which simulated systems decide which property, and how much is run."""

HOOK_GUARD = 'TFMOT_SIM'

ASSUMPTIONS = [
    'TensorFlow 2.16.2 / tf_keras 2.16 CPU kernels are correct and, with one '
    'intra-op and one inter-op thread, deterministic.',
    'A clean batch of simulated runs is evidence, not proof: runs are sampled.',
]

REAL_TRAIN = ['tensorflow_model_optimization from /repo (unmodified)',
              'tf_keras fit/evaluate/predict loops, optimizers, losses',
              'TensorFlow CPU kernels',
              'checkpoint / HDF5 / .keras / SavedModel I/O on a scratch '
              'directory']
STUB_TRAIN = ['training data (seeded generator)',
              'process crash (all Python objects dropped, model rebuilt from '
              'code; the interpreter itself lives on)',
              'clock (no code under test reads one; one simulated second per '
              'operation)',
              'thread pools (pinned to one thread)']
REAL_ENC = ['internal/tensor_encoding from /repo (unmodified): composer, core, '
            'gather and simple encoders, every shipped stage',
            'TensorFlow CPU kernels and bit-packing ops']
STUB_ENC = ['network (discrete-event queue carrying serialised messages)',
            'clock and timers of every node (simulated time)',
            'server disk (the bytes of the last committed state)',
            'user-written and adaptive stages (the repository ships none '
            'outside its tests)', 'client values (seeded generator)',
            'process crash (all Python objects of a node dropped)']
RULE = ('One run = one seeded plan (configuration, operations, faults at '
        'seeded positions) executed from scratch. Non-trivial: %s. Distinct: '
        'different digest of the recorded history.')


def prop(scenarios, quick, nontrivial, state_measure, thorough=None, real=None,
         stub=None, **kw):
  return dict(scenarios=scenarios,
              runs={'quick': quick, 'thorough': thorough or quick * 30},
              rule=RULE % nontrivial, state_measure=state_measure,
              real=real or REAL_TRAIN, stub=stub or STUB_TRAIN, **kw)


PROPS = {
    'P01': prop(
        ['pruning:PruneHistory'], 144,
        'at least one operation on the model was executed and checked',
        'distinct (schedule kind, in/out of schedule window, due step) '
        'situations reached'),
    'P02': prop(
        ['pruning:PruneStructured'], 144,
        'at least one operation on the model was executed and checked',
        'distinct (schedule kind, in/out of schedule window, due step) '
        'situations reached'),
    'P03': prop(
        ['pruning:PruneResume'], 112,
        'at least one segment, save or restart was executed and compared with '
        'the golden job',
        'distinct (kind of restart, storage format, segment, life) reached'),
    'P04': prop(
        ['pruning:PruneGuard', 'pruning:PruneAssembled'], 160,
        'at least one operation on the model was executed and checked',
        'distinct (operation, managed yet?, step) and (steps, ages of the '
        'parts) combinations reached'),
    'P05': prop(
        ['pruning:PruneStrip'], 96,
        'at least one export was checked',
        'distinct (export format, settling event, segment, life) reached'),
    'C01': prop(
        ['clustering:ClusterHistory'], 144,
        'at least one training step or inference was executed and compared '
        'with the reference',
        'distinct (operation, step, frozen layers, sparsity preservation, '
        'gradient aggregation, initialisation) situations reached'),
    'C02': prop(
        ['clustering:ClusterResume'], 112,
        'at least one segment, save or restart was executed and compared with '
        'the golden job',
        'distinct (kind of restart, storage format, segment, life) reached'),
    'C03': prop(
        ['clustering:ClusterStrip'], 96,
        'at least one export was checked',
        'distinct (export format, segment, life) reached'),
    'E01': prop(
        ['encoding:Federation'], 480,
        'at least one round of aggregation was attempted over the simulated '
        'network',
        'distinct (contributors, workers, aggregators, server crashed?, '
        'attempt, outermost stage) situations reached',
        real=REAL_ENC, stub=STUB_ENC),
    'E02': prop(
        ['encoding:Unbiased'], 144,
        'a crowd of clients encoded a value and the mean was compared',
        'distinct (messages that arrived, outermost stage) situations reached',
        real=REAL_ENC, stub=STUB_ENC),
    'E03': prop(
        ['encoding:Broadcast'], 400,
        'at least one message was encoded and decoded',
        'distinct (outermost stage, age of the message, receiver) situations '
        'reached', real=REAL_ENC, stub=STUB_ENC),
    'E04': prop(
        ['encoding:AdaptiveFederation'], 480,
        'at least one round of aggregation was attempted over the simulated '
        'network',
        'distinct (contributors, workers, aggregators, server crashed?, '
        'attempt, outermost stage) situations reached',
        real=REAL_ENC, stub=STUB_ENC),
    'Q01': prop(
        ['qat:QatHistory'], 176,
        'at least one training step or inference was executed and compared '
        'with the reference interpreter',
        'distinct (operation, quantization scheme, frozen layers?, kinds of '
        'layers in the graph) situations reached'),
    'Q02': prop(
        ['qat:QatResume'], 80,
        'at least one segment, save or restart was executed and compared with '
        'the golden job',
        'distinct (kind of restart, storage format, segment, life) reached'),
    'K01': prop(
        ['collab:CollabHistory'], 160,
        'at least one training step or inference was executed and compared '
        'with the reference interpreter',
        'distinct (operation, quantization scheme, frozen layers?, kinds of '
        'layers in the graph) situations reached'),
    'K02': prop(
        ['collab:CollabResume', 'collab:CollabReload'], 64,
        'at least one segment, save or restart was executed and compared with '
        'the golden job',
        'distinct (kind of restart, storage format, segment, life) reached'),
    'I01': prop(
        ['iso:Isolation'], 64,
        'at least one operation of a job was compared with the job run alone',
        'distinct (kind of job, operation, outcome, threads?) reached'),
    'K03': prop(
        ['pipe:Pipeline'], 96,
        'at least one stage was trained and its weights were checked',
        'distinct (stage, operation, route, interrupted?) reached'),
    'P06': prop(
        ['replica:PruneReplicas'], 96,
        'at least one step on several replicas was compared with one replica',
        'distinct (operation, number of replicas, eager?, layer kinds) reached',
        logical_cpus=3),
    'C04': prop(
        ['replica:ClusterReplicas'], 96,
        'at least one step on several replicas was compared with one replica',
        'distinct (operation, number of replicas, eager?, layer kinds) reached',
        logical_cpus=3),
    'W01': prop(
        ['compress:CompressHistory'], 144,
        'at least one training step, inference or export was executed and '
        'compared with the reference',
        'distinct (operation, algorithm, step, life, storage format) reached'),
}
