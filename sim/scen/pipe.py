"""The whole compression pipeline, from a trained model to the last stage.

prune -> strip -> cluster (keeping sparsity) -> strip -> quantization-aware
training that keeps both: every stage is trained for a while, interrupted,
crashed and rebuilt from its durable state, and handed over to the next stage
in memory or through a file.  What an earlier stage has established -- the
zeros, the number of distinct weights, the function at the hand-over -- must
hold at every later moment.
"""
import numpy as np
import tensorflow as tf

from tensorflow_model_optimization.python.core.clustering.keras import cluster
from tensorflow_model_optimization.python.core.clustering.keras import cluster_config
from tensorflow_model_optimization.python.core.clustering.keras.experimental import cluster as experimental
from tensorflow_model_optimization.python.core.keras.compat import keras
from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve import cluster_utils
from tensorflow_model_optimization.python.core.sparsity.keras import prune
from tensorflow_model_optimization.python.core.sparsity.keras import pruning_callbacks
from tensorflow_model_optimization.python.core.sparsity.keras import pruning_schedule

from sim import core
from sim import kit
from sim.scen import collab
from sim.scen import qat

INIT = cluster_config.CentroidInitialization
ROUTES = [['prune', 'cluster', 'pcqat'], ['prune', 'cluster', 'pcqat'],
          ['prune', 'cluster', 'pqat'], ['prune', 'cluster', 'cqat'],
          ['prune', 'pqat'], ['cluster', 'cqat'], ['prune', 'cluster'],
          ['prune', 'pcqat']]


def kernels(model):
  """{layer: kernel} of a plain (stripped) model's dense and conv layers."""
  return {l.name: l.kernel.numpy() for l in model.layers
          if l.__class__.__name__ in ('Dense', 'Conv2D')}


def distinct(k, per):
  if per:
    return [len(np.unique(k[..., c])) for c in range(k.shape[-1])]
  return [len(np.unique(k))]


class Pipeline(core.Scenario):
  NAME = 'pipe:Pipeline'

  def gen(self, rng, tier):
    cfg = collab.CollabHistory().gen_cfg(rng, tier)
    for k in ('collab', 'style', 'cseed'):
      cfg.pop(k)
    for n in cfg['graph']['nodes']:
      n.pop('cc', None)
      n.pop('q', None)
    cfg['opt']['noclip'] = True
    cfg['eager'] = rng.random() < 0.9
    cfg['route'] = rng.choice(ROUTES)
    cfg['dseed'] = rng.getrandbits(20)
    st = {}
    for s in cfg['route']:
      d = st[s] = {}
      if s == 'prune':
        d['how'] = rng.choice(['const', 'const', 'poly', 'mbyn'])
        if d['how'] == 'mbyn' and any(
            n['t'] == 'sep1d' for n in cfg['graph']['nodes']):
          d['how'] = 'const'      # (no pattern for 3-d kernels, says the error)
        d['target'] = round(rng.uniform(0.2, 0.8), 2)
      if s == 'cluster':
        d['k'] = rng.randint(3, 6)
        d['psp'] = cfg['route'][0] == 'prune'
        d['init'] = rng.choice(['LINEAR', 'DENSITY_BASED', 'RANDOM',
                                'KMEANS_PLUS_PLUS'])
        d['pc'] = rng.random() < 0.4
        d['seed'] = rng.getrandbits(20)
    cfg['stages'] = st
    ops = []
    for i, s in enumerate(cfg['route']):
      for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.65:
          o = dict(op='train', n=rng.randint(1, 4), how=rng.choice(
              ['fit', 'fit', 'loop']))
          if rng.random() < 0.25:
            o['stop'] = rng.randint(1, o['n'])
          ops.append(o)
        elif r < 0.8:
          ops.append(dict(op='peek'))
        else:
          ops.append(dict(op='crash', medium=rng.choice(['ckpt', 'tfw']),
                          unsaved=rng.randint(0, 2)))
      if rng.random() < 0.7:
        ops.append(dict(op='train', n=rng.randint(2, 4), how='fit'))
      if i + 1 < len(cfg['route']):
        ops.append(dict(op='next', medium=rng.choice(
            ['memory', 'h5', 'keras', 'sm'])))
    ops.append(dict(op='peek'))
    return dict(cfg=cfg, ops=ops)

  def simplify(self, plan):
    for i, o in enumerate(plan['ops']):
      if o.get('n', 1) > 1:
        p = core.clone(plan)
        p['ops'][i]['n'] -= 1
        yield p
      for k, v in (('medium', 'memory'),):
        if o['op'] == 'next' and o[k] != v:
          p = core.clone(plan)
          p['ops'][i][k] = v
          yield p
      if 'stop' in o:
        p = core.clone(plan)
        del p['ops'][i]['stop']
        yield p
    for p in qat.QatHistory().simplify(dict(plan, ops=[])):
      yield dict(p, ops=core.clone(plan['ops']))

  # -- stages
  def enter(self, env, start):
    """Builds the current stage's job by code from its (durable) start."""
    cfg, s = self.cfg, self.stage
    base = qat.build_graph(cfg['graph'])
    base.set_weights(start)
    d = cfg['stages'].get(s, {})
    self.ref = None
    with env.lib('start ' + s):
      if s == 'prune':
        if d['how'] == 'mbyn':
          p = dict(sparsity_m_by_n=(2, 4))
        elif d['how'] == 'const':
          p = dict(pruning_schedule=pruning_schedule.ConstantSparsity(
              d['target'], 0, frequency=1))
        else:
          p = dict(pruning_schedule=pruning_schedule.PolynomialDecay(
              d['target'] / 2, d['target'], 0, 3, frequency=1))
        model = prune.prune_low_magnitude(base, **p)
      elif s == 'cluster':
        tf.random.set_seed(d['seed'])
        self.clustered = {}

        def fn(l):
          if l.__class__.__name__ not in ('Dense', 'Conv2D'):
            return l
          k = l.kernel.numpy()
          per = d['pc'] and k.ndim == 4
          rows = ([k[..., c] for c in range(k.shape[-1])] if per else [k])
          if min(len(np.unique(a[a != 0])) for a in rows) <= d['k']:
            return l
          self.clustered[l.name] = per
          kw = dict(number_of_clusters=d['k'], cluster_per_channel=per,
                    cluster_centroids_init=INIT[d['init']])
          if d['psp']:
            return experimental.cluster_weights(l, preserve_sparsity=True, **kw)
          return cluster.cluster_weights(l, **kw)
        model = keras.models.clone_model(base, clone_function=fn)
      else:
        c = dict(cfg, collab=s, scheme='8bit', bits=[8, 8], how='apply')
        self.ref = collab.CollabRef(cfg['graph'], c)
        self.ref.weights_from(base)
        model = qat.quantize_job(c, base)
        self.mv = qat.map_vars(env, self.ref, model)
      kit.compile_model(model, cfg['opt'], cfg['eager'])
    self.model = model
    self.cb = ([pruning_callbacks.UpdatePruningStep()] if s == 'prune' else [])

  def stripped(self, env):
    with env.lib('strip ' + self.stage):
      if self.stage == 'prune':
        return prune.strip_pruning(self.model)
      if self.stage == 'cluster':
        return cluster.strip_clustering(self.model)
    return self.model

  def served(self, env):
    """{layer: kernel the job serves right now}."""
    if self.ref is None:
      return kernels(self.stripped(env))
    return {i: self.mv[i + '/kernel'].numpy() for i in self.ref.base}

  def data(self, n):
    out = []
    for _ in range(n):
      self.batch += 1
      r = np.random.RandomState((self.cfg['dseed'] * 31 + self.batch) % 2**32)
      xs = [r.standard_normal([2] + s).astype('float32')
            for s in self.cfg['graph']['inputs']]
      out.append((xs if len(xs) > 1 else xs[0],
                  qat.targets(r, self.cfg['graph'], 2)))
    return out

  def train(self, o):
    bts = self.data(o['n'])
    if o['how'] == 'loop':
      for cb in self.cb:
        cb.set_model(self.model)
        cb.on_train_begin()
      for x, y in bts:
        self.model.train_on_batch(x, y)
      for cb in self.cb:
        cb.on_epoch_end(0)
      return
    w = qat.Watch(lambda n, l: None, o.get('stop'))
    try:
      self.model.fit(kit.Batches(bts), epochs=1, shuffle=False, verbose=0,
                     callbacks=self.cb + [w])
    except core.SimulatedInterrupt:
      return True

  def x(self):
    r = np.random.RandomState(4)
    xs = [r.standard_normal([2] + s).astype('float32')
          for s in self.cfg['graph']['inputs']]
    return xs if len(xs) > 1 else xs[0]

  # -- oracle
  def hold(self, env, where, interrupted=False):
    if interrupted and self.stage == 'prune':
      return            # (masks are re-applied at the end of an epoch)
    ks = self.served(env)
    env.diverged(list(ks.values()), 1e4)
    for n, z in self.zeros.items():
      # (cluster-only schemes do not promise sparsity)
      if n in ks and self.stage not in ('cqat',) and (
          self.stage != 'cluster' or n in self.clustered):
        env.check(np.all(ks[n][z] == 0), 'sparsity-lost', lambda: (
            '%s (%s stage): %d of %d pruned weights of %s are not zero' % (
                where, self.stage, np.count_nonzero(ks[n][z]), z.sum(), n)))
        env.probe('pruned_kernels_checked')
    for n, (per, lim) in self.limit.items():
      if n in ks and self.stage not in ('pqat',):
        d = distinct(ks[n], per)
        env.check(all(a <= b for a, b in zip(d, lim)), 'clusters-lost',
                  lambda: '%s (%s stage): %s has %s distinct weights, allowed '
                  '%s' % (where, self.stage, n, d, lim))
        env.probe('clustered_kernels_checked')
    env.log_arrays(where, [ks[n] for n in sorted(ks)])

  def execute(self, plan, env):
    cfg = self.cfg = plan['cfg']
    self.zeros, self.limit, self.batch = {}, {}, 0
    base = qat.build_graph(cfg['graph'])
    kit.init_weights(base, cfg['wseed'], scale=cfg['scale'])
    start = base.get_weights()
    todo = list(cfg['route'])
    self.stage = todo.pop(0)
    self.enter(env, start)
    saves = 0
    for n, o in enumerate(plan['ops']):
      where = 'operation %d (%s)' % (n, o['op'])
      env.op(o['op'])
      hurt = False
      if o['op'] == 'train':
        with env.lib('train ' + self.stage):
          hurt = self.train(o)
        if hurt:
          env.fault('interrupt_mid_fit')
      elif o['op'] == 'crash':
        saves += 1
        path = env.path('ck%d' % saves)
        with env.lib('save ' + self.stage):
          if o['medium'] == 'ckpt':
            tf.train.Checkpoint(model=self.model).write(path)
          else:
            self.model.save_weights(path)
        old = {i: k for i, k in self.served(env).items()}
        if o['unsaved']:
          self.train(dict(n=o['unsaved'], how='fit'))
        env.fault('crash_restart')
        self.enter(env, start)
        with env.lib('restore ' + self.stage):
          if o['medium'] == 'ckpt':
            tf.train.Checkpoint(model=self.model).restore(path)
          else:
            self.model.load_weights(path)
        new = self.served(env)
        for i in old:
          env.check(np.array_equal(old[i], new[i]), 'restart-changes-weights',
                    lambda: '%s: %s differs after a restart of the %s stage' % (
                        where, i, self.stage))
      elif o['op'] == 'peek':
        m = self.stripped(env)
        if self.stage in ('cqat', 'pcqat'):
          want = qat.flat(self.model(self.x(), training=False))
          with env.lib('strip_clustering_cqat'):
            m = cluster_utils.strip_clustering_cqat(self.model)
          got = qat.flat(m(self.x(), training=False))
          env.check(kit.close(want, got, 1e-5, 1e-6), 'hand-over', (
              'stripping the last stage changes its outputs'))
      elif o['op'] == 'next':
        if not todo:
          continue
        start = self.leave(env, o, where)
        self.stage = todo.pop(0)
        self.enter(env, start)
        env.log('stage', self.stage)
      self.hold(env, where, hurt)
      env.state(self.stage, o['op'], tuple(cfg['route']), bool(hurt))

  def leave(self, env, o, where):
    """Strips the stage and hands its model over; returns the weights."""
    kind = self.stage
    if kind == 'prune':
      # a job that is handed over ends with a complete epoch
      self.train(dict(n=2, how='fit'))
      env.diverged([w.numpy() for w in self.model.weights], 1e4)
    want = qat.flat(self.model(self.x(), training=False))
    m = self.stripped(env)
    got = qat.flat(m(self.x(), training=False))
    env.check(kit.close(want, got, 1e-4, 1e-5), 'hand-over', lambda: (
        '%s: stripping the %s stage changes the outputs by %s' % (
            where, kind, kit.maxdiff(want, got))))
    if o['medium'] != 'memory':
      env.fault('hand_over_through_' + o['medium'])
      path = env.path('h') + {'h5': '.h5', 'keras': '.keras',
                              'sm': ''}[o['medium']]
      with env.lib('hand over through ' + o['medium']):
        m.save(path)
        m = keras.models.load_model(path)
      got = qat.flat(m(self.x(), training=False))
      env.check(kit.close(want, got, 1e-4, 1e-5), 'hand-over', lambda: (
          '%s: saving the stripped model as %s changes the outputs by %s' % (
              where, o['medium'], kit.maxdiff(want, got))))
    ks = kernels(m)
    if kind == 'prune':
      d = self.cfg['stages']['prune']
      for n, k in ks.items():
        z = k == 0
        if d['how'] == 'mbyn':
          if k.shape[-2] % 4 == 0:
            g = z.reshape(-1, k.shape[-1]) if k.ndim == 2 else z.reshape(
                -1, k.shape[-2], k.shape[-1])
            g = g.reshape(-1, 4, k.shape[-1]).sum(1)
            env.check(np.all(g >= 2), 'not-sparse', '2:4 pattern of ' + n)
        elif d['how'] == 'const':
          want = k.size - max(1, int(np.ceil(k.size * (1 - d['target']))))
          env.check(z.sum() >= want, 'not-sparse', lambda: (
              '%s: %s has %d zeros, scheduled %d' % (where, n, z.sum(), want)))
        self.zeros[n] = z
    if kind == 'cluster':
      k = self.cfg['stages']['cluster']['k']
      for n, per in self.clustered.items():
        d = distinct(ks[n], per)
        env.check(max(d) <= k, 'clusters-lost', lambda: (
            '%s: %s has %s distinct weights, %d clusters' % (where, n, d, k)))
        self.limit[n] = (per, d)
      for n, z in self.zeros.items():
        if n in self.clustered:
          env.check(np.all(ks[n][z] == 0), 'sparsity-lost', lambda: (
              '%s: clustering revived %d pruned weights of %s' % (
                  where, np.count_nonzero(ks[n][z]), n)))
      # a layer clustering has not touched was trained freely
      self.zeros = {n: ks[n] == 0 for n in self.zeros}
    return m.get_weights()
