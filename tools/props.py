"""Single source of properties.jsonl and MANIFEST.json (run tools/mkfiles.py)."""

C = 'tensorflow_model_optimization/python/core/'
SP = C + 'sparsity/keras/'
CL = C + 'clustering/keras/'
TE = C + 'internal/tensor_encoding/'
Q = C + 'quantization/keras/'
KP = Q + 'collab_opts/'


def P(id, title, statement, over, text, why, files, mech, state=(), observe=(),
      hook=None, technique=None, note=None, na=None):
  return dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files,
                   mechanism=[dict(name=n, where=w) for n, w in mech],
                   state=[dict(name=n, meaning=m, where=w)
                          for n, m, w in state],
                   observe_at=list(observe), hook_needed=hook),
      technique=technique, note=note, na=na)


DST = 'deterministic simulation with fault injection: '

PROPS = [
    P('P01', 'Pruning follows its schedule exactly through any training history',
      'After every training step, each pruned weight tensor has exactly the '
      'sparsity its schedule prescribes for the number of training steps the '
      'model has really taken, the pruned entries are the smallest in magnitude '
      'at the step the mask was taken, and the mask stays unchanged between '
      'scheduled updates. The kept weights evolve as ordinary training of the '
      'masked model would make them, and pruned weights are zero in every '
      'forward pass. Evaluation, prediction, interrupted or early-stopped '
      'epochs, recompilation and re-entry into training neither advance nor '
      'reset the schedule.',
      ['histories', 'schedules', 'fault_sequences', 'configurations'],
      'every sequence of fit / custom-loop / evaluate / predict / recompile '
      'calls with interruptions at any batch, every architecture of supported '
      'layers, every constant, polynomial or user-written schedule',
      'unit tests check mask values for a handful of hand-picked steps, one '
      'layer at a time; they never interleave interrupted training, evaluation '
      'and re-entry, and never compare weights with a reference trainer',
      [SP + 'pruning_wrapper.py', SP + 'pruning_impl.py',
       SP + 'pruning_schedule.py', SP + 'pruning_callbacks.py'],
      [('conditional mask update and masked forward pass',
        SP + 'pruning_impl.py'),
       ('schedules', SP + 'pruning_schedule.py'),
       ('step bookkeeping', SP + 'pruning_callbacks.py')],
      [('pruning step', 'training steps taken by a pruned layer',
        SP + 'pruning_wrapper.py'),
       ('mask', 'which entries of a weight are kept', SP + 'pruning_wrapper.py')],
      ['layer weights, masks and step after every batch and epoch'],
      technique=DST + 'seeded training histories with interrupts, checked step '
      'by step against an executable reference trainer',
      note='Sampled histories; small models; trusts TF CPU kernels.'),
    P('P02', 'Block and M:N sparsity patterns hold at every update',
      'Whenever a structured mask is refreshed, a block mask is constant on '
      'each block and keeps the blocks with the largest pooled magnitude at '
      'the scheduled sparsity, and an M-by-N mask leaves exactly M zeros, the '
      'smallest in magnitude, in every group of N consecutive entries along '
      'the input-channel axis. The pattern survives training, interruption '
      'and re-entry unchanged between updates.',
      ['histories', 'configurations', 'inputs'],
      'every block size, pooling type, M:N ratio and weight shape, including '
      'shapes the block or group does not divide, along every training history',
      'tests cover a few divisible shapes at a single step',
      [SP + 'pruning_impl.py', SP + 'pruning_utils.py'],
      [('block and M:N mask computation', SP + 'pruning_impl.py'),
       ('block pooling/expansion, M:N mask', SP + 'pruning_utils.py')],
      [('mask', 'which entries of a weight are kept', SP + 'pruning_wrapper.py')],
      ['masks and weights after every batch'],
      technique=DST + 'seeded histories, structured-mask invariants after '
      'every step plus reference trainer',
      note='Sampled histories; trusts TF CPU kernels.'),
    P('P03', 'A crashed pruning job resumes exactly where its checkpoint was',
      'A pruning job that is killed at any instant and restarted from its '
      'newest complete checkpoint or saved model continues exactly as the '
      'uninterrupted job: same step counters, masks, weights and optimizer '
      'state from there on. Saving never disturbs the running job, and a torn '
      'save is never needed to recover.',
      ['crash_points', 'fault_sequences', 'histories', 'configurations'],
      'every crash point (between or inside epochs, during a save), every '
      'number of crashes, every storage format the toolkit documents '
      '(TF checkpoints, TF and HDF5 weights, HDF5, .keras and SavedModel '
      'whole models)',
      'tests save and load once, right after construction or one epoch, and '
      'compare configs or one prediction, never the continued trajectory',
      [SP + 'pruning_wrapper.py', SP + 'prune.py', SP + 'pruning_schedule.py'],
      [('wrapper (de)serialisation and tracked variables',
        SP + 'pruning_wrapper.py'),
       ('custom object scope', SP + 'prune.py')],
      [('pruning step, masks, thresholds', 'all schedule state',
        SP + 'pruning_wrapper.py')],
      ['weights, masks, steps and optimizer slots at segment boundaries'],
      technique=DST + 'crash/restart at seeded points with only durable state '
      'surviving, compared with the uninterrupted golden job',
      note='Sampled crash schedules; real checkpoint I/O into a scratch '
      'directory; trusts TF/keras serialisation.'),
    P('P04', 'Pruned models only train under step management, and count each step once',
      'A pruned model whose pruning step was never initialised refuses every '
      'training attempt with an error naming the missing step callback, and a '
      'refused attempt changes neither the step nor the masks. Once managed, '
      'each training step counts exactly once per layer, whatever mix of '
      'restored and freshly created layers the model is assembled from, and '
      'inference never counts.',
      ['histories', 'fault_sequences', 'configurations'],
      'every order of managed and unmanaged training attempts, inference, '
      'recompilation and restarts; every mix of restored and new parts',
      'tests try a single unmanaged step on a fresh model',
      [SP + 'pruning_callbacks.py', SP + 'pruning_impl.py',
       SP + 'pruning_wrapper.py'],
      [('step initialisation and synchronisation', SP + 'pruning_callbacks.py'),
       ('refusal of unmanaged training', SP + 'pruning_wrapper.py')],
      [('pruning step', 'training steps taken; -1 before management',
        SP + 'pruning_wrapper.py')],
      ['raised errors; pruning step after every batch'],
      technique=DST + 'missing-callback faults and part-wise restarts in '
      'seeded order, against a counting model',
      note='Sampled histories; trusts TF CPU kernels.'),
    P('P05', 'Stripping a pruned model keeps its function and its zeros',
      'At any moment of a job - before, between or after training segments, '
      'after an interruption or a restart - the stripped model computes the '
      'same outputs as the pruned model, holds exactly the weights of the '
      'original architecture, and keeps every pruned entry exactly zero. '
      'The stripped model can be saved and served without the toolkit.',
      ['histories', 'crash_points', 'configurations'],
      'every moment of every history, every export format',
      'tests strip freshly built or once-trained models only',
      [SP + 'prune.py', SP + 'pruning_wrapper.py'],
      [('wrapper removal', SP + 'prune.py'),
       ('masked forward pass', SP + 'pruning_impl.py')],
      [], ['predictions and weights of stripped and re-loaded models'],
      technique=DST + 'exports at seeded instants around interrupts and '
      'restarts, served from another (toolkit-free) model',
      note='Sampled histories; trusts TF/keras serialisation.'),
    P('C01', 'Clustered training is exactly training through the centroids',
      'At every training step each clustered weight tensor is served as its '
      'nearest centroid, and only the permitted number of distinct values is '
      'served. Gradients reach the original weights unchanged and reach each '
      'centroid as the sum (or average) over the weights it stands for, so the '
      'whole trajectory equals a reference trainer that substitutes '
      'centroid values; layers behave in training mode as they do unclustered, '
      'frozen layers stay frozen, sparsity-preserving clustering keeps zeros '
      'exactly zero, and inference or stripping never changes the job.',
      ['histories', 'configurations', 'fault_sequences', 'inputs'],
      'every sequence of fit / evaluate / predict / freeze / recompile / strip '
      'with interruptions at any batch, every supported layer type, centroid '
      'initialisation, number of clusters, per-channel and sparsity options',
      'unit tests check associations or gradients of single layers for one '
      'step; they never follow a trajectory or interleave freezing, '
      'interruption and inference',
      [CL + 'cluster_wrapper.py', CL + 'clustering_algorithm.py',
       CL + 'clustering_registry.py', CL + 'clustering_centroids.py',
       CL + 'cluster.py'],
      [('substitution of centroids in the forward pass',
        CL + 'cluster_wrapper.py'),
       ('straight-through gradients and aggregation',
        CL + 'clustering_algorithm.py'),
       ('initial centroids', CL + 'clustering_centroids.py')],
      [('centroids', 'values the clustered tensor may take',
        CL + 'cluster_wrapper.py'),
       ('pulling indices', 'centroid each weight uses',
        CL + 'cluster_wrapper.py')],
      ['weights, centroids and indices after every batch; predictions'],
      technique=DST + 'seeded training histories with interrupts and freezes, '
      'checked step by step against an executable reference trainer',
      note='Sampled histories; small models; trusts TF CPU kernels.'),
    P('C02', 'A crashed clustering job resumes exactly where its checkpoint was',
      'A clustering job killed at any instant and restarted from its newest '
      'complete checkpoint or saved model continues exactly as the '
      'uninterrupted job: same centroids, associations, sparsity masks, '
      'weights and optimizer state from there on, in every storage format '
      'that accepts the model. Saving never disturbs the running job.',
      ['crash_points', 'fault_sequences', 'histories', 'configurations'],
      'every crash point, every number of crashes, every storage format, '
      'every clustering option including sparsity preservation',
      'tests save and load a model once and compare predictions, never the '
      'continued trajectory',
      [CL + 'cluster_wrapper.py', CL + 'cluster.py',
       CL + 'experimental/cluster.py'],
      [('wrapper (de)serialisation and tracked variables',
        CL + 'cluster_wrapper.py'),
       ('custom object scope', CL + 'cluster.py')],
      [('centroids, indices, sparsity mask', 'all clustering state',
        CL + 'cluster_wrapper.py')],
      ['weights, centroids and optimizer slots at segment boundaries'],
      technique=DST + 'crash/restart at seeded points with only durable state '
      'surviving, compared with the uninterrupted golden job',
      note='Formats in which tf_keras refuses the wrapped layer (recurrent: '
      '.keras and SavedModel; attention: all but weights) fail loudly and are '
      'outside the property.'),
    P('C03', 'Stripping a clustered model keeps its function and its clusters',
      'At any moment of a job - before, between or after training segments, '
      'after an interruption or a restart - the stripped model computes the '
      'same outputs as the clustered model, holds exactly the weights of the '
      'original architecture, each clustered tensor has at most the requested '
      'number of distinct values (per channel where asked for), zeros of a '
      'sparsity-preserving job are still zero, and the job itself is not '
      'disturbed. The stripped model can be saved and served without the '
      'toolkit.',
      ['histories', 'crash_points', 'configurations'],
      'every moment of every history, every export format and layer type',
      'tests strip freshly built or once-trained models of a few layer types',
      [CL + 'cluster.py', CL + 'cluster_wrapper.py'],
      [('wrapper removal', CL + 'cluster.py'),
       ('restoring the original weights', CL + 'cluster_wrapper.py')],
      [], ['predictions and weights of stripped and re-loaded models'],
      technique=DST + 'exports at seeded instants around interrupts and '
      'restarts, served from another (toolkit-free) model',
      note='Sampled histories; trusts TF/keras serialisation.'),
    P('E01', 'Decoding an encoded sum recovers the sum of what arrived',
      'In any round of encoded aggregation - however messages are lost, '
      'delayed, duplicated or reordered, and whichever nodes crash - decoding '
      'the aggregate of the contributions that were counted, with their '
      'number, gives the sum of the values those contributions stand for, '
      'within the error of the lossy stages used. The result has the original '
      'shape and type, whether parts are summed by the server or by '
      'intermediaries, and however many contributions there are. Encoders '
      'that claim to commute with sum fully need no decoding before '
      'summation.',
      ['fault_sequences', 'inputs', 'configurations'],
      'every tree of shipped or user-written stages, tensor shape and type, '
      'set of contributors, tiering, and every pattern of loss, delay, '
      'duplication, reordering, partition and crash',
      'tests encode one tensor with fixed encoders and sum in one place; they '
      'never vary who contributes, in what order parts meet, or which process '
      'holds which encoder object',
      [TE + 'core/core_encoder.py', TE + 'core/gather_encoder.py',
       TE + 'stages/stages_impl.py', TE + 'stages/research/quantization.py',
       TE + 'stages/research/kashin.py', TE + 'stages/research/misc.py',
       TE + 'encoders/common_encoders.py', TE + 'utils/tf_utils.py'],
      [('splitting decoding before and after the sum',
        TE + 'core/gather_encoder.py'),
       ('recursive encoding of parts', TE + 'core/core_encoder.py')],
      [], ['decoded sum of every closed round'],
      technique=DST + 'server, aggregators and workers as nodes of a '
      'discrete-event network with loss, delay, duplication, partitions and '
      'crashes; sums compared with a reference model of the encoder tree',
      note='Sampled encoder trees and schedules; error bounds of lossy stages '
      'are worst-case bounds, biases inside them are decided by E02.'),
    P('E02', 'Randomised compression is unbiased over a crowd of clients',
      'For encoders whose only loss is randomised rounding, the average of '
      'many independent encodings of a value converges to the value itself at '
      'the statistical rate, whatever the encoder tree, the number of bits '
      'and the value, and whichever messages are lost: compression noise '
      'averages out instead of accumulating.',
      ['inputs', 'fault_sequences', 'configurations'],
      'every tree of randomised stages, every value, every loss pattern that '
      'does not depend on the content',
      'a unit test can check a mean for one vector and one stage; it cannot '
      'settle it for compositions of rotations, splits and quantisers',
      [TE + 'stages/stages_impl.py', TE + 'stages/research/quantization.py',
       TE + 'stages/research/kashin.py', TE + 'utils/tf_utils.py'],
      [('stochastic rounding', TE + 'stages/stages_impl.py'),
       ('subtractive dithering from a shared seed',
        TE + 'stages/research/quantization.py'),
       ('random rotation', TE + 'utils/tf_utils.py')],
      [], ['mean of decoded sums over hundreds of simulated clients'],
      technique=DST + 'crowds of simulated clients with seeded randomness, '
      'message loss, duplicates and restarts; mean compared within a '
      'concentration bound',
      note='A bias far below the noise of a few hundred clients stays unseen.'),
    P('E03', 'Every receiver decodes a one-to-many message alike',
      'A message produced by a one-to-many encoder decodes, at any receiver '
      'that built its own encoder from the same description, to the value that '
      'was sent within the error of the lossy stages, with its shape and type '
      '- also late, repeatedly, out of order, with its parts in any order, '
      'after newer messages, and after the sender or the receiver restarted. '
      'All receivers obtain the identical result.',
      ['schedules', 'fault_sequences', 'configurations'],
      'every encoder tree, tensor and order of sends, deliveries and restarts',
      'tests decode in the same process with the same encoder object right '
      'after encoding',
      [TE + 'core/simple_encoder.py', TE + 'core/core_encoder.py',
       TE + 'utils/py_utils.py', TE + 'stages/stages_impl.py',
       TE + 'stages/research/misc.py'],
      [('self-contained messages', TE + 'core/simple_encoder.py'),
       ('structure of a message', TE + 'utils/py_utils.py')],
      [], ['decoded value of every delivery'],
      technique=DST + 'one sender, several receivers, deliveries repeated and '
      'out of order, crashes of either side',
      note='Sampled; trusts serialisation of plain tensors.'),
    P('E04', 'Adaptive encoder state follows the counted contributions exactly',
      'The state of an adaptive encoder after each round is the declared '
      'update applied to the previous state with the sum, minimum, maximum or '
      'collection of the updates of exactly the contributions counted in that '
      'round, once each, for every adaptive stage of the tree. A server that '
      'crashes and restarts from its last committed state continues as if the '
      'lost round had never started, and parameters handed out always belong '
      'to the committed state.',
      ['histories', 'crash_points', 'fault_sequences'],
      'every encoder tree with adaptive stages, every history of rounds with '
      'crashes at any point and torn commits',
      'tests update state once or twice in process; they never restart, lose a '
      'commit, or aggregate updates along a tree',
      [TE + 'core/core_encoder.py', TE + 'core/gather_encoder.py',
       TE + 'core/simple_encoder.py', TE + 'core/encoding_stage.py'],
      [('state update and aggregation modes', TE + 'core/core_encoder.py'),
       ('flattened state and update structures', TE + 'core/gather_encoder.py')],
      [('encoder state', 'committed by the server after each round',
        TE + 'core/gather_encoder.py')],
      ['state after every round and restart, updates sent by every worker'],
      technique=DST + 'rounds over a faulty network with server crashes and '
      'torn commits; state compared with a reference model after each commit',
      note='The repository ships no adaptive stage outside its tests; two are '
      'written for the simulation.'),
    P('Q01', 'Quantization-aware training follows its documented placement and '
      'range rules',
      'A model prepared for quantization-aware training computes the user\'s '
      'own graph with fake quantization exactly where the scheme documents it '
      '(inputs, kernels, activations or outputs, not inside fused '
      'convolution/dense + normalisation + ReLU groups, once after a '
      'concatenation), with the bits and granularity the scheme or the user\'s '
      'own QuantizeConfig asks for. After every training step the ranges '
      'follow their documented rule (last value for kernels, moving average '
      'for activations, all values seen for inputs) and the weights are those '
      'of ordinary training of that graph with straight-through gradients; '
      'frozen layers stay. Conversion keeps all weights and leaves the user\'s '
      'model alone; inference, evaluation and recompilation change nothing.',
      ['histories', 'configurations', 'inputs', 'fault_sequences'],
      'every graph of supported layers, every annotation of it, every scheme '
      'and bit width, every interleaving of fit, custom loops, calibration, '
      'inference, freezing, recompilation, interrupts and shifts of the input '
      'distribution',
      'unit tests check single layers, single transforms or a few hand-built '
      'graphs; combinations of transforms are never compared with what the '
      'whole graph should compute, nor ranges along a training history',
      [Q + 'quantize.py', Q + 'quantize_wrapper.py', Q + 'quantizers.py',
       Q + 'quant_ops.py', Q + 'quantize_aware_activation.py',
       Q + 'quantize_layer.py', Q + 'graph_transformations/model_transformer.py',
       Q + 'default_8bit/default_8bit_transforms.py',
       Q + 'default_8bit/default_8bit_quantize_registry.py',
       Q + 'experimental/default_n_bit/default_n_bit_transforms.py'],
      [('graph rewriting', Q + 'graph_transformations/model_transformer.py'),
       ('placement rules', Q + 'default_8bit/default_8bit_transforms.py'),
       ('range updates', Q + 'quant_ops.py'),
       ('wrapping and straight-through kernels', Q + 'quantize_wrapper.py')],
      [('ranges', 'min/max of every quantizer', Q + 'quantizers.py')],
      ['all variables after every step, outputs of every inference'],
      technique=DST + 'seeded training histories of seeded graphs, checked '
      'step by step against a reference interpreter of the documented '
      'placement and range rules',
      note='Sampled graphs and histories; steps in which a value falls within '
      'rounding noise of a quantization boundary are not compared.'),
    P('Q02', 'A quantization-aware training job survives crash and restart',
      'Whatever a quantization-aware training job has committed to storage - '
      'checkpoint, weights in either format, whole model as HDF5, .keras or '
      'SavedModel - restores, into the same or a freshly built job, to a model '
      'with the same weights, ranges, trainability and outputs, and continued '
      'training is indistinguishable from never having crashed.',
      ['crash_points', 'fault_sequences', 'histories', 'configurations'],
      'every graph and scheme, every crash point between and within training '
      'segments, torn and repeated saves, every sequence of storage formats',
      'tests save and load one freshly converted model and compare a single '
      'prediction',
      [Q + 'quantize.py', Q + 'quantize_wrapper.py', Q + 'quantize_layer.py',
       Q + 'quantize_aware_activation.py', Q + 'quantizers.py',
       Q + 'default_8bit/default_8bit_quantize_registry.py',
       Q + 'experimental/default_n_bit/default_n_bit_quantize_configs.py'],
      [('configuration of wrappers and quantizers', Q + 'quantize_wrapper.py'),
       ('custom objects needed to load', Q + 'quantize.py')],
      [('ranges', 'min/max of every quantizer', Q + 'quantizers.py')],
      ['all variables and the served outputs after every restart and segment'],
      technique=DST + 'crash/restart schedules, every segment boundary compared '
      'with the uninterrupted job',
      note='Models with transposed convolutions are not saved as SavedModel '
      '(tf_keras refuses loudly).'),
    P('K01', 'Collaborative quantization keeps sparsity and clusters while training',
      'Quantization-aware training that starts from a sparse and/or clustered '
      'model through the prune-preserving or cluster-preserving schemes keeps '
      'every zero weight zero and never lets a preserved kernel hold more '
      'distinct values than it started with, after every step of any training '
      'history; centroids move by the summed gradients of their members, '
      'memberships follow the original weights, everything else is ordinary '
      'quantization-aware training; stripping the clustering variables changes '
      'neither weights nor outputs.',
      ['histories', 'fault_sequences', 'configurations'],
      'every graph of supported layers, every mix of sparse, clustered and '
      'plain layers in one model, every sequence of fit (interrupted or not), '
      'custom loops, calibration, freezing, recompiling, distribution shifts',
      'tests train one small model per scheme for an epoch and look at one '
      'layer',
      [KP + 'cluster_preserve/cluster_preserve_quantize_registry.py',
       KP + 'prune_preserve/prune_preserve_quantize_registry.py',
       KP + 'cluster_preserve/cluster_utils.py', Q + 'quantize.py'],
      [('masks, centroids and memberships',
        KP + 'cluster_preserve/cluster_preserve_quantize_registry.py')],
      [('centroids, memberships, original weights', 'variables of each layer',
        KP + 'cluster_preserve/cluster_preserve_quantize_registry.py')],
      ['all variables after every simulated step; zeros and distinct values of '
       'every preserved kernel after every operation'],
      technique=DST + 'seeded histories with interrupts, freezes and shifts, '
      'checked step by step against a reference interpreter plus invariants',
      note='Sampled graphs and histories; layers directly followed by a ReLU '
      'are not quantized by the scheme and therefore not preserved.'),
    P('K02', 'A collaborative quantization job survives crash and restart',
      'A prune- or cluster-preserving quantization-aware job, rebuilt by code '
      'from the same pre-trained model and restored from a checkpoint or '
      'weights file, continues exactly like the uninterrupted job; a whole '
      'saved model either refuses to load or still keeps zeros and clusters.',
      ['crash_points', 'fault_sequences', 'histories', 'configurations'],
      'every graph, scheme and crash point; torn and repeated saves',
      'no test restores such a job',
      [KP + 'cluster_preserve/cluster_preserve_quantize_registry.py',
       KP + 'prune_preserve/prune_preserve_quantize_registry.py'],
      [('what is a saved variable and what is rebuilt',
        KP + 'cluster_preserve/cluster_preserve_quantize_registry.py')],
      [('centroids, memberships, original weights', 'variables of each layer',
        KP + 'cluster_preserve/cluster_preserve_quantize_registry.py')],
      ['all variables and served outputs after every restart and segment'],
      technique=DST + 'crash/restart schedules, every segment boundary compared '
      'with the uninterrupted job',
      note='Two known findings: whole saved models silently lose sparsity '
      '(PQAT) or clusters (SavedModel).'),
    P('K03', 'What a pipeline stage establishes holds through every later stage',
      'Along prune, strip, cluster (keeping sparsity), strip and '
      'quantization-aware training that keeps zeros and clusters, whatever an '
      'earlier stage established still holds at every later moment: pruned '
      'weights stay exactly zero, no kernel ever holds more distinct values '
      'than clustering left it, and handing a model to the next stage (in '
      'memory or through a file) or restarting a stage from its checkpoint '
      'changes neither its weights nor its function.',
      ['histories', 'crash_points', 'fault_sequences', 'configurations'],
      'every route through the stages, every graph of supported layers, every '
      'training history per stage, every crash point and hand-over medium',
      'tests run one or two stages on one fixed model and look at the end '
      'result',
      [SP + 'prune.py', CL + 'cluster.py', CL + 'experimental/cluster.py',
       KP + 'cluster_preserve/cluster_preserve_quantize_registry.py',
       KP + 'cluster_preserve/cluster_utils.py', Q + 'quantize.py'],
      [('stripping', SP + 'prune.py'), ('stripping', CL + 'cluster.py'),
       ('deciding what there is to preserve',
        KP + 'cluster_preserve/cluster_preserve_quantize_registry.py')],
      [('kernels', 'weights of every dense and convolutional layer',
        CL + 'cluster_wrapper.py')],
      ['zeros and distinct values of every kernel after every operation; '
       'weights and outputs at every hand-over'],
      technique=DST + 'seeded routes through all stages with interrupts, '
      'crashes and hand-overs, checked by invariants over the whole history',
      note='Sampled routes and graphs.'),
    P('P06', 'Pruning on several replicas is pruning on one',
      'A pruning job trained under a synchronous multi-replica strategy takes '
      'the same steps, masks and weights as the same job without a strategy fed '
      'with the joined batches; all replicas hold the same steps, masks and '
      'thresholds at every moment, in whatever order they run, and a job '
      'restarted from its checkpoint on another number of replicas continues '
      'the same history.',
      ['interleavings', 'crash_points', 'histories', 'configurations'],
      'every order in which replicas reach each meeting point, every replica '
      'count and batch partition, every crash point, every pruned model and '
      'schedule',
      'tests run one strategy with one replica and one order',
      [SP + 'pruning_impl.py', SP + 'pruning_wrapper.py', SP + 'pruning_utils.py'],
      [('mask update across replicas', SP + 'pruning_impl.py'),
       ('variable aggregation and synchronisation', SP + 'pruning_wrapper.py')],
      [('mask, threshold, pruning_step', 'mirrored variables',
        SP + 'pruning_wrapper.py')],
      ['every variable on every replica after every step'],
      technique=DST + 'replica threads run in a seeded order at every meeting '
      'point, with crashes there and restarts on other replica counts, compared '
      'with the one-replica job',
      note='Logical CPU devices stand in for accelerators; 2 or 3 replicas in '
      'one process (MirroredStrategy), no multi-worker network.'),
    P('C04', 'Clustering on several replicas is clustering on one',
      'A clustering job trained under a synchronous multi-replica strategy has '
      'the same centroids, memberships and weights as the same job without a '
      'strategy fed with the joined batches; all replicas agree at every '
      'moment, in whatever order they run; preserved zeros stay zero on every '
      'replica; a restart on another number of replicas continues the same '
      'history.',
      ['interleavings', 'crash_points', 'histories', 'configurations'],
      'every order in which replicas reach each meeting point, every replica '
      'count and batch partition, every crash point, every clustered model',
      'tests run one strategy once and look at the number of clusters',
      [CL + 'cluster_wrapper.py', CL + 'clustering_algorithm.py',
       CL + 'clustering_registry.py'],
      [('centroid gradients and index updates', CL + 'cluster_wrapper.py')],
      [('centroids, indices, sparsity masks', 'mirrored variables',
        CL + 'cluster_wrapper.py')],
      ['every variable on every replica after every step'],
      technique=DST + 'replica threads run in a seeded order at every meeting '
      'point, with crashes there and restarts on other replica counts, compared '
      'with the one-replica job',
      note='Logical CPU devices stand in for accelerators; 2 or 3 replicas in '
      'one process (MirroredStrategy).'),
    P('I01', 'Jobs that share a process do not influence each other',
      'Pruning, clustering, quantization-aware and collaborative jobs run in '
      'one process, interleaved in any order and on one or two threads, '
      'sharing schedules, callbacks, schemes, user configurations or the '
      'pre-trained model, next to interrupted trainings and API calls that were '
      'refused, behave bit for bit as each one does alone; applying an '
      'optimization leaves the model it was given unchanged.',
      ['interleavings', 'histories', 'fault_sequences', 'configurations'],
      'every set of jobs, every interleaving of their operations (and, on two '
      'threads, of the library\'s own source lines), every shared object',
      'each test runs one job in a fresh context',
      [SP + 'prune.py', CL + 'cluster.py', Q + 'quantize.py',
       Q + 'default_8bit/default_8bit_quantize_registry.py',
       Q + 'default_8bit/default_8bit_transforms.py',
       KP + 'cluster_preserve/cluster_preserve_quantize_registry.py'],
      [('cloning and wrapping', Q + 'quantize.py'),
       ('graph rewriting', Q + 'graph_transformations/model_transformer.py')],
      [('registries and schemes', 'objects shared by jobs',
        Q + 'default_8bit/default_8bit_quantize_registry.py')],
      ['every variable and output of every job after every operation'],
      technique=DST + 'seeded interleaving of whole jobs and, on two threads, '
      'of library source lines behind a baton; each history compared bit for '
      'bit with the same job alone',
      note='Thread switches at library source lines only, not inside '
      'TensorFlow kernels.'),
    P('W01', 'Compression-aware training projects, updates and ships weights as declared',
      'A model prepared by a weight-compression algorithm computes with the '
      'projection of its training weights and otherwise is the given model: '
      'pretrained and frozen weights stay, all other layers behave as before. '
      'Every training step applies the gradients through the projection and '
      'the algorithm\'s own update exactly once (the periodical SVD counts the '
      'step and, every update period, lowers the rank on its warm-up line); '
      'inference, evaluation, saving and exporting change nothing. An exported '
      'model computes with the decompressed form of exactly the current '
      'training weights, served from memory or storage, and a job restarted '
      'from its checkpoint continues where it was.',
      ['histories', 'crash_points', 'fault_sequences', 'configurations'],
      'every shipped or user-written algorithm, every graph of supported '
      'layers, every interleaving of fit, custom loops, inference, freezing, '
      'recompilation, interrupts, crashes, saves and exports',
      'tests compress a freshly built LeNet once and look at sizes and weight '
      'counts; no test follows a training step',
      [C + 'common/keras/compression/algorithm.py',
       C + 'common/keras/compression/internal/optimize.py',
       C + 'common/keras/compression/algorithms/periodical_update_and_scheduling.py',
       C + 'common/keras/compression/algorithms/same_training_and_inference.py',
       C + 'common/keras/compression/algorithms/weight_clustering.py'],
      [('wrapping, projection and export of layers',
        C + 'common/keras/compression/internal/optimize.py'),
       ('own updates of training weights',
        C + 'common/keras/compression/algorithm.py')],
      [('training weights', 'compressed form of each weight, step counters',
        C + 'common/keras/compression/internal/optimize.py')],
      ['all variables after every step, outputs of every inference and export'],
      technique=DST + 'seeded training histories with interrupts, crashes and '
      'exports, checked step by step against an executable reference trainer',
      note='Sampled graphs and histories; the entropy-coding algorithm (EPR) '
      'needs tensorflow_compression, which is not installed, and is not run; '
      'steps whose rank cut is numerically ill-defined are not compared.'),
]

NOT_APPLICABLE = [
    P('N01', 'TFLite conversion preserves quantization-aware accuracy',
      'A model converted from quantization-aware training produces the same '
      'integer results in the deployed interpreter as the emulated training '
      'graph, up to one quantization step.',
      ['inputs', 'programs'],
      'every supported model and every input',
      'tests convert a few fixed models',
      [C + 'quantization/keras/quantize.py'],
      [('fake-quantised graph', C + 'quantization/keras/quantize_wrapper.py')],
      na='A pure function from (model, input) to outputs computed by an '
      'external converter and interpreter: no schedule, clock, I/O or fault '
      'for a simulator to decide.'),
    P('N03', 'Encoding transforms invert within their stated error',
      'Each single encoding transform, taken alone, is decoded to its input '
      'within the error its parameters state.',
      ['inputs'], 'every tensor and parameter value',
      'tests sample a few tensors per stage',
      [C + 'internal/tensor_encoding/stages/stages_impl.py'],
      [('encode/decode pairs',
        C + 'internal/tensor_encoding/stages/stages_impl.py')],
      na='A pure function of one tensor; the multi-party and stateful '
      'behaviour of encoders is what the simulator decides (E-properties).'),
    P('N04', 'Pruning policy selects only kernels the sparse runtime accelerates',
      'The latency-oriented pruning policy accepts exactly the models the '
      'sparse inference runtime can run and marks exactly the layers it '
      'accelerates.',
      ['programs'], 'every model graph', 'tests check a few graphs',
      [SP + 'pruning_policy.py'],
      [('policy', SP + 'pruning_policy.py')],
      na='A pure predicate on a model graph: no schedule, clock, I/O, '
      'interleaving or fault to simulate.'),
]
