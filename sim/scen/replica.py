"""Synchronous training on several replicas is training on one.

The library's jobs run under tf.distribute.MirroredStrategy: every replica is a
thread of its own, and wherever replicas meet (variable creation, counters,
masks, gradients) the order in which they reach the meeting point is decided by
the simulator.  The oracle is the same job without any strategy, fed with the
joined batches; and at every moment all replicas must hold the same state.
"""
import inspect
import random

import numpy as np
import tensorflow as tf
from tensorflow.python.distribute import mirrored_run

from tensorflow_model_optimization.python.core.clustering.keras import cluster
from tensorflow_model_optimization.python.core.keras.compat import keras
from tensorflow_model_optimization.python.core.sparsity.keras import prune
from tensorflow_model_optimization.python.core.sparsity.keras import pruning_callbacks

from sim import core
from sim import kit
from sim.scen import clustering
from sim.scen import pruning


class Schedule:
  """Decides in which order the replica threads run; may end the process."""
  rng = None
  crash_at = None
  points = 0

  @classmethod
  def order(cls, threads):
    cls.points += 1
    if cls.crash_at is not None and cls.points >= cls.crash_at:
      cls.crash_at = None
      raise core.SimulatedCrash()
    threads = list(threads)
    if cls.rng is not None:
      cls.rng.shuffle(threads)
    return threads


def hook_replicas():
  src = inspect.getsource(mirrored_run._call_for_each_replica)
  old = """          for t in threads:
            t.should_run.set()
            t.has_paused.wait()
"""
  assert src.count(old) == 1
  src = src.replace(old, old.replace('in threads:', 'in _sim_order(threads):'))
  mirrored_run._sim_order = Schedule.order
  exec(compile(src, mirrored_run.__file__, 'exec'), mirrored_run.__dict__)  # pylint: disable=exec-used


hook_replicas()


class Job:
  """One job, on `nrep` replicas (0: without any strategy)."""

  def __init__(self, cfg, nrep):
    self.cfg, self.nrep = cfg, nrep
    self.strategy = None
    if nrep:
      self.strategy = tf.distribute.MirroredStrategy(
          ['/cpu:%d' % i for i in range(nrep)],
          cross_device_ops=tf.distribute.ReductionToOneDevice())
    with self.scope():
      if cfg['kind'] == 'prune':
        base = kit.build_model(cfg['job']['arch'])
        kit.init_weights(base, cfg['job']['wseed'])
        self.model = pruning.wrap_pruned(cfg['job'], base)
        self.cb = pruning_callbacks.UpdatePruningStep()
        self.cb.set_model(self.model)
      else:
        tf.random.set_seed(5)
        self.model = clustering.build_clustered(
            cfg['job'], cfg['job']['wseed'])[0]
        self.cb = None
      self.opt = kit.mk_opt(cfg['opt'])
      self.model.optimizer = self.opt
      self.opt.build(self.model.trainable_variables)
    self.fn = self.train_fn
    if self.strategy is not None:
      self.fn = self.everywhere
    if not cfg['eager']:
      self.fn = tf.function(self.fn)

  def everywhere(self, x, y):
    return self.strategy.run(self.train_fn, args=(x, y))

  def scope(self):
    if self.strategy is None:
      import contextlib
      return contextlib.nullcontext()
    return self.strategy.scope()

  def begin(self):
    if self.cb is not None:
      with self.scope():
        self.cb.on_train_begin()

  def end(self):
    if self.cb is not None:
      with self.scope():
        self.cb.on_epoch_end(0)

  def train_fn(self, x, y):
    with tf.GradientTape() as t:
      p = self.model(x, training=True)
      loss = tf.reduce_sum(tf.reduce_mean(tf.square(p - y), axis=-1))
      loss = loss / self.total
    tv = self.model.trainable_variables
    g = t.gradient(loss, tv)
    self.opt.apply_gradients([(a, v) for a, v in zip(g, tv) if a is not None])
    return loss

  def split(self, x, parts):
    i, out = 0, []
    for n in parts:
      out.append(tf.constant(x[i:i + n]))
      i += n
    return out

  def step(self, x, y, parts):
    self.total = float(len(x))
    if self.strategy is None:
      return float(self.fn(tf.constant(x), tf.constant(y)))
    xs, ys = self.split(x, parts), self.split(y, parts)
    ctx = lambda a: self.strategy.experimental_distribute_values_from_function(
        lambda c: a[c.replica_id_in_sync_group])
    l = self.fn(ctx(xs), ctx(ys))
    return float(self.strategy.reduce('SUM', l, axis=None))

  def infer(self, x):
    """The output of every replica."""
    x = tf.constant(x)
    if self.strategy is None:
      return [self.model(x, training=False).numpy()]
    o = self.strategy.run(lambda: self.model(x, training=False))
    return [a.numpy() for a in self.strategy.experimental_local_results(o)]

  def variables(self):
    return list(self.model.weights)

  def copies(self, v):
    if hasattr(v, 'values') and isinstance(v.values, tuple):
      return [a.numpy() for a in v.values]
    return [v.numpy()]

  def stripped(self):
    if self.cfg['kind'] == 'prune':
      return prune.strip_pruning(self.model)
    return cluster.strip_clustering(self.model)

  def checkpoint(self):
    return tf.train.Checkpoint(model=self.model, optimizer=self.opt)


class Replicas(core.Scenario):
  NAME = 'replica:Replicas'
  KIND = None

  def gen(self, rng, tier):
    cfg = dict(kind=self.KIND, eager=rng.random() < 0.75)
    if self.KIND == 'prune':
      while True:
        job = pruning.gen_prune_cfg(rng, 5)
        if not any(l['t'] == 'bn' for l in job['arch']['layers']):
          break
      job['ties'] = False
    else:
      while True:
        job = clustering.gen_cluster_cfg(rng, [
            'mlp', 'mlp', 'branch', 'cnn', 'cnn', 'cnn1d', 'conv3d', 'embed'])
        if not any(l['t'] == 'bn' for l in job['arch']['layers']):
          break
      job['ties'] = False
    cfg['job'] = job
    cfg['opt'] = kit.gen_opt(rng, noclip=True)
    cfg['nrep'] = rng.choice([2, 2, 2, 3])
    cfg['sseed'] = rng.getrandbits(30)
    ops = []
    for _ in range(rng.randint(3, 6 if tier == 'quick' else 10)):
      k = core.weighted(rng, [('step', 6), ('end', 1), ('infer', 1.5),
                              ('save', 1.2), ('crash', 1), ('strip', 0.7)])
      o = dict(op=k, dseed=rng.getrandbits(20))
      if k == 'step':
        o['n'] = rng.randint(1, 3)
        # replicas may get differently sized parts of the batch
        o['parts'] = [rng.randint(1, 3) for _ in range(3)]
      if k == 'crash':
        # at the n-th meeting of the replicas inside one more step
        o['at'] = rng.randint(1, 25)
        o['nrep'] = rng.choice([2, 2, 3, 0])
      ops.append(o)
    ops.append(dict(op='step', n=1, parts=[1, 2, 1], dseed=3))
    return dict(cfg=cfg, ops=ops)

  def simplify(self, plan):
    c = plan['cfg']
    if not c['eager']:
      p = core.clone(plan)
      p['cfg']['eager'] = True
      yield p
    if c['nrep'] > 2:
      p = core.clone(plan)
      p['cfg']['nrep'] = 2
      yield p
    if c['opt']['k'] != 'sgd':
      p = core.clone(plan)
      p['cfg']['opt'] = dict(k='sgd', lr=0.05, noclip=True)
      yield p
    for i, o in enumerate(plan['ops']):
      if o.get('n', 1) > 1:
        p = core.clone(plan)
        p['ops'][i]['n'] -= 1
        yield p

  # -- oracle
  def compare(self, env, job, gold, where):
    """Replicas agree with each other and with the job without replicas."""
    a, b = job.variables(), gold.variables()
    env.check(len(a) == len(b), 'structure', where)
    arr = []
    for v, w in zip(a, b):
      c = job.copies(v)
      g = w.numpy()
      arr.append(c[0])
      for i, x in enumerate(c[1:]):
        env.check(np.array_equal(c[0], x), 'replicas-differ', lambda: (
            '%s: %s differs between replica 0 and replica %d by %s' % (
                where, v.name, i + 1, kit.maxdiff(c[0], x))))
      env.diverged([g])
      if v.dtype.is_integer or v.name.split(':')[0].endswith('mask'):
        # (the sum of parts is rounded differently: ties may fall either way)
        ok = np.mean(c[0] != g) < 0.02
      else:
        ok = kit.close(c[0], g, 1e-3, 1e-4)
      env.check(ok, 'not-like-one-replica', lambda: (
          '%s: %s of %d replicas differs from training on one replica by %s' % (
              where, v.name, job.nrep, kit.maxdiff(c[0], g))))
    # (rounding differences must not grow from step to step)
    ov, gv = ([v for v in j.opt.variables] for j in (job, gold))
    env.check(len(ov) == len(gv), 'structure', 'optimizer')
    for v, w in zip(a + ov, b + gv):
      w.assign(job.copies(v)[0])
    env.probe('states_compared')
    env.log_arrays('w', arr)

  def execute(self, plan, env):
    cfg = plan['cfg']
    Schedule.rng = random.Random(cfg['sseed'])
    Schedule.crash_at, Schedule.points = None, 0
    try:
      self.play(plan, env, cfg)
    finally:
      env.probe('replica_meetings', Schedule.points)
      Schedule.rng = Schedule.crash_at = None

  def play(self, plan, env, cfg):
    with env.lib('build'):
      job = Job(cfg, cfg['nrep'])
    gold = Job(cfg, 0)
    for j in (job, gold):
      j.begin()
    self.compare(env, job, gold, 'start')
    saved = None
    for n, o in enumerate(plan['ops']):
      where = 'operation %d (%s)' % (n, o['op'])
      env.op(o['op'])
      if o['op'] == 'step':
        parts = o['parts'][:max(1, job.nrep)]
        if not cfg['eager']:
          parts = [2] * len(parts)
        for i, (x, y) in enumerate(kit.batches(
            cfg['job']['arch']['in'], cfg['job']['out'], o['n'], sum(parts),
            o['dseed'])):
          before = Schedule.points
          with env.lib('step'):
            a = job.step(x, y, parts)
          b = gold.step(x, y, parts)
          env.fault('replicas_reordered', Schedule.points - before)
          self.compare(env, job, gold, '%s, step %d' % (where, i))
          env.check(kit.close(a, b, 1e-3, 1e-4), 'not-like-one-replica',
                    lambda: '%s: loss %s, on one replica %s' % (where, a, b))
      elif o['op'] == 'end':
        with env.lib('epoch end'):
          job.end()
        gold.end()
      elif o['op'] in ('infer', 'strip'):
        x = kit.batches(cfg['job']['arch']['in'], cfg['job']['out'], 1, 2,
                        o['dseed'])[0][0]
        with env.lib(o['op']):
          if o['op'] == 'infer':
            got = job.infer(x)
          else:
            for j in (job, gold):
              j.end()
            got = [job.stripped()(x, training=False).numpy()]
        want = gold.infer(x)[0]
        for r, a in enumerate(got):
          env.check(np.array_equal(a, got[0]), 'replicas-differ',
                    '%s: outputs of replica %d' % (where, r))
          env.check(kit.close(a, want, 1e-3, 1e-4), 'not-like-one-replica',
                    lambda: '%s: output differs by %s' % (
                        where, kit.maxdiff(a, want)))
      elif o['op'] == 'save':
        p = env.path('ck%d' % n)
        with env.lib('save'):
          saved = (job.checkpoint().write(p), gold.checkpoint().write(p + 'g'))
      elif o['op'] == 'crash' and job.nrep:
        parts = [2] * job.nrep
        (x, y), = kit.batches(cfg['job']['arch']['in'], cfg['job']['out'], 1,
                              sum(parts), o['dseed'])
        Schedule.crash_at = Schedule.points + o['at']
        try:
          job.step(x, y, parts)
          job.end()
          env.probe('crash_came_too_late')
        except core.SimulatedCrash:
          env.fault('crash_at_replica_meeting')
        Schedule.crash_at = None
        env.fault('restart_on_%d_replicas' % o['nrep'])
        with env.lib('rebuild'):
          job = Job(cfg, o['nrep'])
        gold = Job(cfg, 0)
        if saved:
          with env.lib('restore'):
            with job.scope():
              job.checkpoint().restore(saved[0]).assert_nontrivial_match()
          gold.checkpoint().restore(saved[1])
        for j in (job, gold):
          j.begin()
      self.compare(env, job, gold, where)
      env.state(o['op'], job.nrep, cfg['eager'],
                tuple(sorted({l['t'] for l in cfg['job']['arch']['layers']})))


class PruneReplicas(Replicas):
  NAME = 'replica:PruneReplicas'
  KIND = 'prune'


class ClusterReplicas(Replicas):
  NAME = 'replica:ClusterReplicas'
  KIND = 'cluster'
