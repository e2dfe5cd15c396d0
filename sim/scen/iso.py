"""Several optimization jobs in one process do not influence each other.

N jobs (pruning, clustering, quantization-aware training, collaborative
optimization) are run twice: each one alone, and all of them in one process
under a seeded schedule of their operations -- with shared schedules, callbacks,
schemes, user configurations and pre-trained models where sharing is ordinary
use, with interrupted trainings and rejected API calls in between.  Every job
must record bit for bit the same history.

A part of the runs lets two jobs run on two threads; a seeded scheduler passes
a baton at single source lines of the library, so the interleaving inside the
library is the simulator's choice, too.
"""
import random
import sys
import threading
import traceback

import numpy as np
import tensorflow as tf

import tensorflow_model_optimization as tfmot
from tensorflow_model_optimization.python.core.clustering.keras import cluster
from tensorflow_model_optimization.python.core.keras.compat import keras
from tensorflow_model_optimization.python.core.quantization.keras import quantize
from tensorflow_model_optimization.python.core.sparsity.keras import prune
from tensorflow_model_optimization.python.core.sparsity.keras import pruning_callbacks

from sim import boot
from sim import core
from sim import kit
from sim.scen import clustering
from sim.scen import collab
from sim.scen import pruning
from sim.scen import qat


class Interrupt(keras.callbacks.Callback):

  def __init__(self, at):
    super().__init__()
    self.at = at

  def on_train_batch_end(self, batch, logs=None):
    self.at -= 1
    if self.at == 0:
      raise core.SimulatedInterrupt()


class Odd(keras.layers.Layer):
  """A layer no optimization API knows."""

  def build(self, shape):
    self.w = self.add_weight(name='w', shape=[shape[-1]])

  def call(self, x):
    return x * self.w


def seed_all(seed):
  random.seed(seed)
  np.random.seed(seed)
  tf.random.set_seed(seed)


class Shared:
  """Objects several jobs may use together; rebuilt for every execution."""

  def __init__(self, doc):
    self.doc = doc
    self.objs = {}

  def get(self, key, make):
    if key not in self.objs:
      self.objs[key] = make()
    return self.objs[key]


class Job:
  """One optimization job: built by its first operation, then trained."""

  def __init__(self, doc, shared):
    self.doc, self.cfg, self.sh = doc, doc['cfg'], shared
    self.kind = doc['kind']
    self.log = []
    self.model = None
    self.cb = []

  # -- construction
  def build(self):
    m = getattr(self, 'build_' + self.kind)()
    self.model = m
    kit.compile_model(m, self.cfg['opt'], self.cfg['eager'])

  def build_prune(self):
    cfg = self.cfg
    base = kit.build_model(cfg['arch'])
    kit.init_weights(base, cfg['wseed'], cfg.get('ties', False))

    def params(p):
      d = pruning.prune_params(p)
      if 'sched' in self.doc:
        d['pruning_schedule'] = self.sh.get(
            ('sched', self.doc['sched']), lambda: d['pruning_schedule'])
      return d
    if 'cb' in self.doc:
      self.cb = [self.sh.get(('cb', self.doc['cb']),
                             pruning_callbacks.UpdatePruningStep)]
    else:
      self.cb = [pruning_callbacks.UpdatePruningStep()]
    return pruning.wrap_pruned(cfg, base, params)

  def build_cluster(self):
    return clustering.build_clustered(self.cfg, self.cfg['wseed'])[0]

  def build_qat(self):
    cfg, g = self.cfg, self.cfg['graph']
    b = self.doc.get('base')
    if b is None:
      base = self.new_base()
    else:
      base = self.sh.get(('base', b), self.new_base)
    if b is None or cfg['how'] == 'model':
      return qat.quantize_job(cfg, base)
    # the annotated model and the scheme are shared as well
    with qat.scope():
      ann = self.sh.get(('ann', b), lambda: qat.annotate(g, base))
      scheme = self.sh.get(('scheme', b, cfg['scheme'], str(cfg['bits']),
                            cfg.get('collab')), lambda: qat.scheme_of(cfg))
      return quantize.quantize_apply(ann, scheme)

  build_collab = build_qat

  def new_base(self):
    cfg = self.cfg
    base = qat.build_graph(cfg['graph'])
    kit.init_weights(base, cfg['wseed'], scale=cfg['scale'])
    if 'style' in cfg:
      collab.shape_weights(cfg, base)
    base.compile(optimizer='sgd', loss='mse', run_eagerly=True)
    return base

  def build_base(self):
    """The user's own model, from which other jobs are converted."""
    return self.sh.get(('base', self.doc['base']), self.new_base)

  # -- operations
  def data(self, n, seed):
    cfg = self.cfg
    if 'graph' in cfg:
      r = np.random.RandomState(seed)
      out = []
      for _ in range(n):
        xs = [r.standard_normal([2] + s).astype('float32')
              for s in cfg['graph']['inputs']]
        out.append((xs if len(xs) > 1 else xs[0],
                    qat.targets(r, cfg['graph'], 2)))
      return out
    return kit.batches(cfg['arch']['in'], cfg['out'], n, 2, seed)

  def run(self, o):
    """One operation; appends everything observable to the job's log."""
    seed_all(o['dseed'])
    res = None
    try:
      res = getattr(self, 'op_' + o['op'])(o)
    except core.SimulatedInterrupt:
      res = 'interrupted'
    except (core.Violation, core.EndRun):
      raise
    except Exception as e:  # pylint: disable=broad-except
      res = 'raised ' + type(e).__name__
      self.why = traceback.format_exc()[-1500:]
    obs = [res if res is None or isinstance(res, str) else
           [np.asarray(a) for a in res]]
    if self.model is not None:
      obs.append([np.asarray(v.numpy()) for v in self.model.weights])
    self.log.append((o['op'], obs))

  def op_build(self, o):
    self.build()

  def op_fit(self, o):
    cbs = list(self.cb)
    if o.get('stop'):
      cbs.append(Interrupt(o['stop']))
    h = self.model.fit(kit.Batches(self.data(o['n'], o['dseed'])),
                       epochs=o.get('e', 1), verbose=0, shuffle=False,
                       callbacks=cbs)
    return h.history['loss']

  def op_eval(self, o):
    return [self.model.evaluate(kit.Batches(self.data(1, o['dseed'])),
                                verbose=0)]

  def op_predict(self, o):
    return [qat.flat(self.model.predict(self.data(1, o['dseed'])[0][0],
                                        verbose=0))]

  def op_config(self, o):
    """Copying a job through its configuration leaves the job alone."""
    with self.scope():
      m = self.model.__class__.from_config(self.model.get_config())
    return [len(m.weights)]

  def scope(self):
    if self.kind == 'prune':
      return prune.prune_scope()
    if self.kind == 'cluster':
      return cluster.cluster_scope()
    return qat.scope()

  def op_strip(self, o):
    if self.kind == 'prune':
      m = prune.strip_pruning(self.model)
    elif self.kind == 'cluster':
      m = cluster.strip_clustering(self.model)
    else:
      return None
    return [np.asarray(v.numpy()) for v in m.weights] + [
        qat.flat(m(self.data(1, o['dseed'])[0][0], training=False))]

  def op_reject(self, o):
    """A call the library must refuse; nothing may remember it."""
    k, L = o['k'], keras.layers
    try:
      if k == 'prune':
        prune.prune_low_magnitude(keras.Sequential(
            [L.Dense(2, input_shape=(2,)), Odd()]))
      elif k == 'sched':
        tfmot.sparsity.keras.ConstantSparsity(1.5, 0)
      elif k == 'cluster':
        cluster.cluster_weights(
            keras.Sequential([L.Dense(2, input_shape=(2,)), Odd()]),
            number_of_clusters=2, cluster_centroids_init=(
                clustering.API.CentroidInitialization.LINEAR))
      elif k == 'quant':
        quantize.quantize_model(keras.Sequential(
            [L.Dense(2, input_shape=(2,)), Odd()]))
      elif k == 'apply':
        with qat.scope():
          quantize.quantize_apply(keras.Sequential(
              [L.Dense(2, input_shape=(2,))]))
      elif k == 'again':
        quantize.quantize_model(self.model)
    except (ValueError, AttributeError, TypeError, RuntimeError) as e:
      return 'refused'
    return 'accepted'


def same(a, b):
  if isinstance(a, (list, tuple)):
    return (isinstance(b, (list, tuple)) and len(a) == len(b)
            and all(same(x, y) for x, y in zip(a, b)))
  if isinstance(a, np.ndarray):
    return (isinstance(b, np.ndarray) and a.dtype == b.dtype
            and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f'))
  return a == b


class Baton:
  """Two threads; exactly one runs; the holder is chosen at library lines."""

  def __init__(self, rng, p, env):
    self.rng, self.p, self.env = rng, p, env
    self.ev = [threading.Event(), threading.Event()]
    self.alive = [True, True]
    self.me = threading.local()
    self.switches = 0
    self.dir = boot.REPO + '/tensorflow_model_optimization'

  def trace(self, frame, event, arg):
    if not frame.f_code.co_filename.startswith(self.dir):
      return None
    return self.local

  def local(self, frame, event, arg):
    if event == 'line' and self.rng.random() < self.p:
      self.yield_()
    return self.local

  def yield_(self):
    i = self.me.i
    if self.alive[1 - i]:
      self.switches += 1
      self.ev[i].clear()
      self.ev[1 - i].set()
      self.ev[i].wait()

  def run(self, fns):
    errs = [None, None]

    def body(i):
      self.me.i = i
      self.ev[i].wait()
      sys.settrace(self.trace)
      try:
        fns[i]()
      except BaseException as e:  # pylint: disable=broad-except
        errs[i] = e
      finally:
        sys.settrace(None)
        self.alive[i] = False
        self.ev[1 - i].set()
    ts = [threading.Thread(target=body, args=(i,)) for i in range(2)]
    for t in ts:
      t.start()
    self.ev[0].set()
    for t in ts:
      t.join()
    for e in errs:
      if e is not None:
        raise e


class Isolation(core.Scenario):
  NAME = 'iso:jobs'

  def gen(self, rng, tier):
    threads = rng.random() < 0.3
    njobs = 2 if threads else rng.randint(2, 3 if tier == 'quick' else 4)
    jobs = []
    for _ in range(njobs):
      kind = rng.choice(['prune', 'prune', 'cluster', 'qat', 'collab'])
      d = dict(kind=kind)
      if kind == 'prune':
        d['cfg'] = pruning.gen_prune_cfg(rng, 6)
      elif kind == 'cluster':
        d['cfg'] = clustering.gen_cluster_cfg(rng)
      elif kind == 'qat':
        d['cfg'] = qat.QatHistory().gen_cfg(rng, tier)
      else:
        d['cfg'] = collab.CollabHistory().gen_cfg(rng, tier)
      if threads:
        # (random draws come from one generator of the process)
        d['cfg'].pop('fixed', None)
        for n in d['cfg'].get('graph', {}).get('nodes', []):
          if n['t'] == 'drop':
            n['r'] = 0.0
        for q in d['cfg'].get('params', []):
          if q['init'] != 'LINEAR':
            q['init'] = 'DENSITY_BASED'
      d['cfg']['opt'] = kit.gen_opt(rng, noclip=True)
      d['cfg']['eager'] = threads or rng.random() < 0.85
      if rng.random() < 0.6 and jobs:
        # a job like another one
        src = rng.choice(jobs)
        d = core.clone(src)
        d['cfg']['wseed'] = rng.getrandbits(24)
        d['cfg']['opt'] = kit.gen_opt(rng, noclip=True)
      jobs.append(d)
    if not threads:
      for i, d in enumerate(jobs):
        if d['kind'] in ('qat', 'collab') and 'base' not in d \
            and not d['cfg'].get('fixed') and rng.random() < 0.6:
          d['base'] = i
          for e in jobs[i + 1:]:
            if rng.random() < 0.7 and 'base' not in e:
              # one pre-trained model, several jobs
              keep = e['cfg']['opt']
              e.clear()
              e.update(core.clone(d))
              e['cfg']['opt'] = keep
              if d['kind'] == 'collab' and rng.random() < 0.5:
                e['cfg']['collab'] = rng.choice(['pqat', 'cqat', 'pcqat'])
          jobs.append(dict(core.clone(d), kind='base'))
        if d['kind'] == 'prune' and d['cfg']['how'] == 'model':
          for e in jobs[i + 1:]:
            if e['kind'] == 'prune' and e['cfg']['how'] == 'model' and \
                'sched' not in d:
              e['cfg']['prune'][0]['sched'] = d['cfg']['prune'][0]['sched']
              d['sched'] = e['sched'] = i
        if d['kind'] == 'prune' and 'cb' not in d:
          for e in jobs[i + 1:]:
            if e['kind'] == 'prune' and rng.random() < 0.75:
              # one step callback, several models
              d['cb'] = e['cb'] = i
    ops, todo = [], []
    for j, d in enumerate(jobs):
      seq = [dict(op='build', j=j, dseed=rng.getrandbits(20))]
      for _ in range(rng.randint(2, 4)):
        k = core.weighted(rng, [('fit', 4), ('predict', 1), ('eval', 1),
                                ('strip', 0.6), ('reject', 0.8),
                                ('config', 0.5)])
        o = dict(op=k, j=j, dseed=rng.getrandbits(20))
        if k == 'fit':
          o['n'] = rng.randint(1, 3)
          o['e'] = rng.choice([1, 1, 2])
          if rng.random() < 0.35:
            o['stop'] = rng.randint(1, o['n'] * o['e'])
        if k == 'reject':
          o['k'] = rng.choice(['prune', 'sched', 'cluster', 'quant', 'apply'])
        seq.append(o)
      seq.append(dict(op='predict', j=j, dseed=rng.getrandbits(20)))
      todo.append(seq)
    while any(todo):
      live = [s for s in todo if s]
      s = rng.choice(live)
      for _ in range(rng.choice([1, 1, 1, 2, 9])):
        if s:
          ops.append(s.pop(0))
    cfg = dict(jobs=jobs)
    if threads:
      cfg['threads'] = dict(seed=rng.getrandbits(30),
                            p=rng.choice([0.01, 0.05, 0.3]))
    return dict(cfg=cfg, ops=ops)

  def simplify(self, plan):
    c = plan['cfg']
    if c.get('threads'):
      p = core.clone(plan)
      del p['cfg']['threads']
      yield p
    for j in range(len(c['jobs'])):
      if any(o['j'] == j for o in plan['ops']):
        p = core.clone(plan)
        p['ops'] = [o for o in p['ops'] if o['j'] != j]
        yield p
      for k in ('sched', 'cb'):
        if k in c['jobs'][j]:
          p = core.clone(plan)
          del p['cfg']['jobs'][j][k]
          yield p
    for i, o in enumerate(plan['ops']):
      for k in ('n', 'e'):
        if o.get(k, 1) > 1:
          p = core.clone(plan)
          p['ops'][i][k] -= 1
          yield p
      if 'stop' in o:
        p = core.clone(plan)
        del p['ops'][i]['stop']
        yield p

  def execute(self, plan, env):
    docs = plan['cfg']['jobs']
    ops = plan['ops']
    # (the minimiser may have dropped a job's first operation)
    started, todo = set(), []
    for o in ops:
      if o['op'] == 'build':
        started.add(o['j'])
      elif o['j'] not in started:
        continue
      todo.append(o)
    th = plan['cfg'].get('threads')
    sh = Shared(plan)
    jobs = [Job(d, sh) for d in docs]
    frozen = {}

    def do(o, note=True):
      j = o['j']
      d = docs[j]
      if o['op'] == 'build' and 'base' in d and d['kind'] != 'base':
        b = sh.objs.get(('base', d['base']))
        frozen[j] = None if b is None else [v.numpy() for v in b.weights]
      jobs[j].run(o)
      if note:
        env.op(o['op'])
      if o.get('stop'):
        env.fault('training_interrupted')
      if o['op'] == 'reject':
        env.fault('rejected_api_call')

    if th:
      mine = [[o for o in todo if o['j'] == i] for i in range(2)]
      baton = Baton(core.rng_for(th['seed'], 'baton'), th['p'], env)

      def thread(i):
        def body():
          for o in mine[i]:
            do(o)
            baton.yield_()
        return body
      baton.run([thread(0), thread(1)])
      env.probe('thread_switches', baton.switches)
      env.fault('preempted_inside_library', baton.switches)
      env.log('switches', baton.switches)
    else:
      last = None
      for o in todo:
        do(o)
        if last is not None and last != o['j']:
          env.probe('job_switches')
        last = o['j']
    together = [j.log for j in jobs]
    del jobs
    sh = None
    # -- each job alone, in a fresh world
    for i, d in enumerate(docs):
      alone = [o for o in todo if o['j'] == i]
      if not alone:
        continue
      sh = Shared(plan)
      job = Job(d, sh)
      if frozen.get(i) is not None:
        seed_all(1)
        base = sh.get(('base', d['base']), job.new_base)
        for v, a in zip(base.weights, frozen[i]):
          v.assign(a)
      for n, o in enumerate(alone):
        job.run(o)
        got, want = together[i][n], job.log[n]
        env.log(i, o['op'], want[1][0] if isinstance(want[1][0], str) else '')
        env.log_arrays('w', want[1][1] if len(want[1]) > 1 else [])
        env.state(d['kind'], o['op'], str(want[1][0])[:20]
                  if isinstance(want[1][0], str) else 'ok', bool(th))
        env.check(same(got[1][0], want[1][0]), 'jobs-interfere', lambda: (
            'job %d (%s), operation %d (%s): %s when run among others, %s when '
            'run alone' % (i, d['kind'], n, o['op'], brief(got[1][0]),
                           brief(want[1][0]))))
        env.check(same(got[1][1:], want[1][1:]), 'jobs-interfere', lambda: (
            'job %d (%s), operation %d (%s): weights differ from those of the '
            'job run alone' % (i, d['kind'], n, o['op'])))
        if isinstance(want[1][0], str) and want[1][0].startswith('raised'):
          env.probe('job_refused')
          if o['op'] == 'build':
            env.check(False, 'api-error[build]', job.why)
        env.probe('operations_compared')
        if len(want[1]) > 1 and not all(
            np.isfinite(w).all() for w in want[1][1] if w.dtype.kind == 'f'):
          # (a training that has blown up shows nothing any more)
          env.probe('training_diverged')
          break


def brief(a):
  if isinstance(a, list) and a:
    return str(np.asarray(a[0]).ravel()[:4])
  return str(a)
