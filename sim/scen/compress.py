"""Weight-compression jobs (common/keras/compression) against a reference.

A compression algorithm replaces weights of a layer by *training weights* and
projects them back in every forward pass; some algorithms also update training
weights by themselves in each training step (the periodical SVD counts steps
and lowers the rank).  The reference trains a plain keras model whose weights
are the projections, computes the gradients of the training weights through its
own projections and applies the algorithm's updates once per training step.
"""
import numpy as np
import tensorflow as tf

from tensorflow_model_optimization.python.core.clustering.keras import cluster_config
from tensorflow_model_optimization.python.core.common.keras.compression import algorithm as algorithm_api
from tensorflow_model_optimization.python.core.common.keras.compression.algorithms import bias_only
from tensorflow_model_optimization.python.core.common.keras.compression.algorithms import different_training_and_inference as svd_diff
from tensorflow_model_optimization.python.core.common.keras.compression.algorithms import periodical_update_and_scheduling as svd_periodic
from tensorflow_model_optimization.python.core.common.keras.compression.algorithms import same_training_and_inference as svd_same
from tensorflow_model_optimization.python.core.common.keras.compression.algorithms import weight_clustering
from tensorflow_model_optimization.python.core.keras.compat import keras

from sim import core
from sim import kit

COMPRESSIBLE = ('dense', 'conv2d', 'conv2dt')
EXPORTS = ('per', 'user')          # algorithms with a separate inference form
SELF_UPDATING = ('per', 'user')


class UserCompressor(algorithm_api.WeightCompressor):
  """A user's algorithm: small weights are cut, a running mean is shipped."""

  def __init__(self, attrs, cut):
    self.attrs = attrs
    self.cut = cut

  def get_compressible_weights(self, original_layer):
    if not isinstance(original_layer,
                      (keras.layers.Dense, keras.layers.Conv2D)):
      return []
    out = []
    for a in self.attrs:
      v = getattr(original_layer, a, None)
      if v is not None:
        out.append(v)
    return out

  def init_training_weights(self, pretrained_weight):
    for name in ('w', 'mean'):
      self.add_training_weight(
          name=name, shape=pretrained_weight.shape,
          dtype=pretrained_weight.dtype,
          initializer=keras.initializers.Constant(pretrained_weight))

  def project_training_weights(self, w, mean):
    self.update_training_weight(mean, 0.5 * mean + 0.5 * w)
    return w * tf.cast(tf.abs(w) > self.cut, w.dtype)

  def compress_training_weights(self, w, mean):
    return [mean]

  def decompress_weights(self, mean):
    return mean


# ------------------------------------------------- independent reference maths
def low_rank(a, r):
  """(best rank-r approximation, is it numerically well defined?)"""
  a = np.asarray(a, 'float64')
  u, s, v = np.linalg.svd(a, full_matrices=False)
  r = min(r, s.shape[-1])
  ok = True
  if r < s.shape[-1] and r > 0:
    gap = s[..., r - 1] - s[..., r]
    ok = bool(np.all(gap > 1e-2 * np.maximum(s[..., 0], 1e-6)))
  if r <= 0:
    return np.zeros_like(a), True
  return (u[..., :r] * s[..., None, :r]) @ v[..., :r, :], ok


def project(al, tvs):
  """Differentiable projection of one compressed weight."""
  k = al['k']
  if k == 'per' or k == 'diff':
    return tvs[0]
  if k == 'same':
    return tf.linalg.matmul(tvs[0], tvs[1])
  if k == 'wc':
    return tf.gather(tvs[0], tvs[1])
  if k == 'bo':
    return tf.zeros(tvs[1].numpy()) + tvs[0]
  return tvs[0] * tf.cast(tf.abs(tvs[0]) > al['cut'], tf.float32)


def own_update(al, tvs):
  """Values of the training weights after the algorithm's own update."""
  k = al['k']
  if k == 'user':
    return [tvs[0], 0.5 * tvs[1] + 0.5 * tvs[0]], True
  if k == 'per':
    w, step = tvs[0], int(tvs[1])
    ok = True
    if step % al['freq'] == 0:
      full = min(w.shape[-1], w.shape[-2])
      r = al['rank']
      if step < al['warm']:
        r = (full * (al['warm'] - step) + al['rank'] * step) // al['warm']
      w, ok = low_rank(w, min(r, full))
    return [np.asarray(w, 'float32'), np.int32(step + 1)], ok
  return list(tvs), True


def shipped(al, tvs):
  """The weight an exported model computes with."""
  k = al['k']
  if k == 'user':
    return tvs[1], True
  if k in ('per', 'diff'):
    a, ok = low_rank(tvs[0], al['rank'])
    return a.astype('float32'), ok
  return np.asarray(project(al, [tf.constant(t) for t in tvs])), True


def gen_compress_arch(rng, need_bias):
  b = lambda: True if need_bias else rng.random() < 0.75
  act = lambda: rng.choice(['relu', 'tanh', 'linear'])
  out = rng.randint(1, 3)
  kind = rng.choice(['seq', 'func'])
  r = rng.random()
  if r < 0.35:
    ls = []
    for _ in range(rng.randint(1, 3)):
      ls.append(dict(t='dense', u=rng.randint(2, 6), act=act(), bias=b()))
      if rng.random() < 0.35:
        ls.append(dict(t='bn'))
      if rng.random() < 0.2:
        ls.append(dict(t='relu'))
    shape = [rng.randint(2, 6)]
  elif r < 0.5:
    w = rng.randint(2, 5)
    kind = 'branch'
    ls = [dict(t='dense', u=rng.randint(2, 6), act=act(), bias=b()),
          dict(t='dense', u=w, act=act(), bias=b()),
          dict(t='dense', u=w, act=act(), bias=b()), dict(t='bn')]
    shape = [rng.randint(2, 6)]
  else:
    ls = [dict(t='conv2d', f=rng.randint(2, 5), k=rng.randint(1, 3),
               pad=rng.choice(['same', 'valid']), act=act(), bias=b())]
    if rng.random() < 0.5:
      ls.append(dict(t='bn'))
    if rng.random() < 0.3:
      ls.append(dict(t='relu'))
    if rng.random() < 0.3:
      ls.append(dict(t='dw2d', k=2))
    elif rng.random() < 0.3:
      ls.append(dict(t='conv2dt', f=rng.randint(2, 4), k=2, bias=b()))
    if rng.random() < 0.3:
      ls.append(dict(t='maxpool'))
    ls.append(dict(t=rng.choice(['flatten', 'gap'])))
    h = rng.randint(3, 5)
    shape = [h, h, rng.randint(1, 4)]
  ls.append(dict(t='dense', u=out, act='linear', bias=b()))
  for l in ls:
    if rng.random() < 0.06:
      l['frozen'] = l['t'] in ('dense', 'conv2d')
  return dict(kind=kind, **{'in': dict(shape=shape)}, layers=ls), [out]


def make_algorithm(al):
  k = al['k']
  if k == 'per':
    return svd_periodic.SVD(al['rank'], al['freq'], al['warm'])
  if k == 'same':
    return svd_same.SVD(al['rank'])
  if k == 'diff':
    return svd_diff.SVD(al['rank'])
  if k == 'bo':
    return bias_only.BiasOnly()
  if k == 'wc':
    return weight_clustering.WeightClustering(
        al['clusters'], cluster_config.CentroidInitialization[al['init']])
  return UserCompressor(al['attrs'], al['cut'])


class Reference:
  """Plain model plus training variables of the reference trainer."""

  def __init__(self, cfg, state):
    self.cfg = cfg
    self.al = cfg['alg']
    self.twin = kit.build_model(cfg['arch'], name='twin')
    self.frozen = {'l%d' % i for i, l in enumerate(cfg['arch']['layers'])
                   if l.get('frozen')}
    self.tv = {n: {a: [tf.Variable(v) for v in vs] for a, vs in d['tw'].items()}
               for n, d in state.items()}
    self.layers = {n: self.twin.get_layer(n) for n in state}
    self.adopt(state)

  def compile(self, opt):
    self.opt = kit.mk_opt(opt)

  def adopt(self, state):
    for n, d in state.items():
      for a, vs in d['tw'].items():
        for t, v in zip(self.tv[n][a], vs):
          t.assign(v)
      for v, x in zip(self.rest(n), d['rest']):
        v.assign(x)

  def rest(self, n):
    """The twin's weights of layer `n` that are not compressed."""
    l = self.layers[n]
    own = [getattr(l, a) for a in self.tv[n]]
    return [v for v in l.weights if not any(v is o for o in own)]

  def load(self, how=None):
    """Gives the twin the projected (or exported) weights."""
    ok = True
    for n, d in self.tv.items():
      for a, tvs in d.items():
        if how == 'export':
          v, good = shipped(self.al, [t.numpy() for t in tvs])
          ok = ok and good
        else:
          v = project(self.al, tvs)
        getattr(self.layers[n], a).assign(v)
    return ok

  def step(self, x, y):
    """One training step; False where the update is ill conditioned."""
    names = [n for n in self.tv if n not in self.frozen]
    pairs = []
    with tf.GradientTape() as tp:
      proj = {(n, a): project(self.al, tvs) for n in self.tv
              for a, tvs in self.tv[n].items()}
    for (n, a), v in proj.items():
      getattr(self.layers[n], a).assign(v)
    for n in self.tv:
      self.layers[n].trainable = n not in self.frozen
    with tf.GradientTape() as t2:
      out = self.twin(x, training=True)
      loss = tf.reduce_mean(tf.square(out - y))
    tgt = [getattr(self.layers[n], a) for n in names for a in self.tv[n]]
    free = [v for n in names for v in self.rest(n)
            if any(v is q for q in self.layers[n].trainable_weights)]
    g = t2.gradient(loss, tgt + free)
    pairs += list(zip(g[len(tgt):], free))
    flat, outs, og = [], [], []
    i = 0
    for n in names:
      for a in self.tv[n]:
        flat += [t for t in self.tv[n][a] if t.dtype.is_floating]
        outs.append(proj[n, a])
        og.append(g[i])
        i += 1
    if flat:
      gt = tp.gradient(outs, flat, output_gradients=og)
      pairs += [(tf.convert_to_tensor(q), v) for q, v in zip(gt, flat)
                if q is not None]
    bad = set()
    for n in self.tv:
      for a, tvs in self.tv[n].items():
        new, ok = own_update(self.al, [t.numpy() for t in tvs])
        if not ok:
          bad.add(n)
        for t, v in zip(tvs, new):
          t.assign(v)
    pairs = [(q, v) for q, v in pairs if q is not None]
    if pairs:
      self.opt.apply_gradients(pairs)
    return bad

  def compare(self, env, state, where, kind, skip=()):
    for n, d in state.items():
      for a, vs in d['tw'].items():
        if n in skip:
          continue
        for i, (t, v) in enumerate(zip(self.tv[n][a], vs)):
          env.check(kit.close(t.numpy(), v, 1e-3, 2e-4), kind,
                    lambda: '%s: training weight %d of %s/%s differs by %s' % (
                        where, i, n, a, kit.maxdiff(t.numpy(), v)))
      for r, v in zip(self.rest(n), d['rest']):
        env.check(kit.close(r.numpy(), v, 1e-3, 2e-4), kind,
                  lambda: '%s: %s differs by %s' % (
                      where, r.name, kit.maxdiff(r.numpy(), v)))


class Job:
  """The real model: wrapped layers by the name of the original layer."""

  def __init__(self, cfg, seed):
    self.cfg = cfg
    self.base = kit.build_model(cfg['arch'], name='base')
    kit.init_weights(self.base, seed)
    self.alg = make_algorithm(cfg['alg'])
    f = getattr(self.alg, 'optimize_model', None) or getattr(
        self.alg, 'compress_model', None)
    if f is not None:
      self.model = f(self.base)
    else:
      self.model = keras.models.clone_model(
          self.base, clone_function=lambda l: (
              algorithm_api.create_layer_for_training(l, self.alg)))
    self.wrapped = [l for l in self.model.layers if hasattr(l, 'layer')]

  def compile(self, opt, eager):
    kit.compile_model(self.model, opt, eager)
    self.model.optimizer.build(self.model.trainable_variables)

  def state(self):
    out = {}
    for w in self.wrapped:
      tw = getattr(w, 'training_weights', {})
      own = [v for vs in tw.values() for v in vs]
      rest = [v for v in w.weights if not any(v is o for o in own)]
      out[w.layer.name] = dict(
          tw={a: [v.numpy() for v in vs] for a, vs in tw.items()},
          rest=[v.numpy() for v in rest])
    return out

  def optimizer_values(self):
    return [v.numpy() for v in self.model.optimizer.variables]


def arrays(state):
  return [a for _, d in sorted(state.items())
          for vs in list(d['tw'].values()) + [d['rest']] for a in vs]


class CompressHistory(core.Scenario):
  """One weight-compression job, arbitrary history, crashes and exports."""
  NAME = 'compress_history'

  def gen(self, rng, tier):
    k = rng.choice(['per', 'per', 'per', 'user', 'user', 'same', 'wc', 'bo',
                    'diff'])
    arch, out = gen_compress_arch(rng, k == 'bo')
    al = dict(k=k)
    if k in ('per', 'same', 'diff'):
      al['rank'] = rng.randint(1, 4)
    if k == 'per':
      al['freq'] = rng.randint(1, 4)
      al['warm'] = rng.choice([1, 2, 4, 6, 9])
    if k == 'wc':
      al['clusters'] = rng.randint(2, 6)
      al['init'] = rng.choice(['LINEAR', 'DENSITY_BASED'])
    if k == 'user':
      al['attrs'] = rng.choice([['kernel'], ['kernel', 'bias']])
      al['cut'] = rng.choice([0.0, 0.2])
    # (weights of the same name in one layer do not fit into an HDF5 file, which
    # fails loudly; the user's algorithm names them alike)
    media = ['ckpt', 'tfw'] + ['h5w'] * (len(al.get('attrs', [])) < 2)
    cfg = dict(alg=al, arch=arch, out=out, wseed=rng.getrandbits(24),
               opt=kit.gen_opt(rng, noclip=True), bs=rng.randint(2, 5),
               eager=rng.random() < 0.8)
    ops = []
    for _ in range(rng.randint(2, 7 if tier == 'quick' else 14)):
      r = rng.random()
      if k == 'diff':
        r = 0.95 if r < 0.5 else 0.45
      if r < 0.40 or not ops:
        o = dict(op='fit', batches=rng.randint(1, 4), epochs=rng.randint(1, 2),
                 dseed=rng.getrandbits(24), loop=rng.random() < 0.2)
        if rng.random() < 0.3:
          o['interrupt'] = rng.randint(1, o['batches'] * o['epochs'])
        ops.append(o)
      elif r < 0.48:
        ops.append(dict(op='predict', dseed=rng.getrandbits(24)))
      elif r < 0.54:
        ops.append(dict(op='eval', dseed=rng.getrandbits(24)))
      elif r < 0.59:
        ops.append(dict(op='recompile', opt=kit.gen_opt(rng, noclip=True)))
      elif r < 0.64:
        ops.append(dict(op='freeze', layer=rng.randint(0, 7),
                        opt=kit.gen_opt(rng, noclip=True)))
      elif r < 0.79:
        ops.append(dict(op='save', medium=rng.choice(media)))
      elif r < 0.89:
        o = dict(op='crash')
        if rng.random() < 0.5:
          o['partial'] = rng.randint(1, 3)
          o['dseed'] = rng.getrandbits(24)
        ops.append(o)
      else:
        ops.append(dict(op='export', dseed=rng.getrandbits(24),
                        fmt=rng.choice(['none', 'none', 'tfw', 'sm'])))
    ops.append(dict(op='predict', dseed=rng.getrandbits(24)))
    return dict(cfg=cfg, ops=ops)

  def simplify(self, plan):
    c = plan['cfg']
    if not c['eager']:
      p = core.clone(plan)
      p['cfg']['eager'] = True
      yield p
    if c['opt']['k'] != 'sgd':
      p = core.clone(plan)
      p['cfg']['opt'] = dict(c['opt'], k='sgd')
      yield p
    for i, o in enumerate(plan['ops']):
      for key in ('batches', 'epochs'):
        if o.get(key, 1) > 1:
          p = core.clone(plan)
          p['ops'][i][key] = o[key] - 1
          yield p
      for key in ('interrupt', 'loop', 'partial'):
        if o.get(key):
          p = core.clone(plan)
          del p['ops'][i][key]
          yield p

  # ------------------------------------------------------------------ running
  def start(self, env, cfg, seed):
    with env.lib('optimize_model'):
      job = Job(cfg, seed)
    return job

  def check_initial(self, env, cfg, job):
    al = cfg['alg']
    base = {l.name: l for l in job.base.layers}
    kit.init_weights(base_copy := kit.build_model(cfg['arch'], name='copy'),
                     cfg['wseed'])
    for a, b in zip(job.base.get_weights(), base_copy.get_weights()):
      env.check(np.array_equal(a, b), 'given-model-changed', '')
    st = job.state()
    for i, spec in enumerate(cfg['arch']['layers']):
      n = 'l%d' % i
      l = base[n]
      comp = spec['t'] in COMPRESSIBLE
      want = []
      if comp and al['k'] == 'bo':
        want = ['bias']
      elif comp and al['k'] == 'user':
        want = [a for a in al['attrs'] if getattr(l, a, None) is not None]
      elif comp:
        want = ['kernel']
      env.check(sorted(st[n]['tw']) == sorted(want), 'wrong-weights-compressed',
                '%s: %s' % (n, sorted(st[n]['tw'])))
      own = [getattr(l, a) for a in want]
      rest = [v.numpy() for v in l.weights if not any(v is o for o in own)]
      env.check(len(rest) == len(st[n]['rest']) and all(
          np.array_equal(a, b) for a, b in zip(rest, st[n]['rest'])),
                'pretrained-weights-lost', n)
      for a in want:
        w = getattr(l, a).numpy()
        tvs = st[n]['tw'][a]
        p = np.asarray(project(al, [tf.constant(t) for t in tvs]))
        good = True
        if al['k'] == 'same':
          q, good = low_rank(w, al['rank'])
        elif al['k'] == 'bo':
          q = np.full(w.shape, w.mean())
        elif al['k'] == 'wc':
          cent = tvs[0]
          env.check(cent.shape == (al['clusters'],), 'number-of-clusters', n)
          q = p
          d = np.abs(w[..., None] - cent)
          env.check(np.all(np.abs(w - p) <= d.min(-1) + 1e-5),
                    'not-nearest-centroid', n)
        elif al['k'] == 'user':
          q = w * (np.abs(w) > al['cut'])
        else:
          q = w
        if good:
          env.check(kit.close(p, q, 1e-3, 1e-4), 'pretrained-weights-lost',
                    lambda: '%s/%s differs by %s' % (n, a, kit.maxdiff(p, q)))
        if al['k'] == 'per':
          env.check(int(tvs[1]) == 0, 'step-not-zero', n)
    return st

  def execute(self, plan, env):
    cfg = plan['cfg']
    if cfg['alg']['k'] == 'diff':
      return self.post_training(plan, env)
    job = self.start(env, cfg, cfg['wseed'])
    job.compile(cfg['opt'], cfg['eager'])
    ref = Reference(cfg, self.check_initial(env, cfg, job))
    ref.compile(cfg['opt'])
    opt = cfg['opt']
    saved = None
    t = lives = nsave = 0
    for o in plan['ops']:
      k = o['op']
      env.op(k, o.get('batches', 1) * o.get('epochs', 1))
      if k == 'fit':
        t = self.fit(env, cfg, job, ref, o, t)
      elif k in ('predict', 'eval'):
        self.infer(env, cfg, job, ref, o)
      elif k in ('recompile', 'freeze'):
        if k == 'freeze':
          if cfg['alg']['k'] in SELF_UPDATING:
            continue            # (who may update a frozen layer is undefined)
          n = 'l%d' % (o['layer'] % len(cfg['arch']['layers']))
          w = [w for w in job.wrapped if w.layer.name == n][0]
          if len([q for q in job.wrapped if q.trainable and q.weights]) < 2:
            continue
          w.trainable = False
          ref.frozen.add(n)
          env.probe('frozen_layer')
        opt = o['opt']
        with env.lib('compile'):
          job.compile(opt, cfg['eager'])
        ref.compile(opt)
      elif k == 'save':
        nsave += 1
        saved = self.save(env, cfg, job, ref, o, nsave, t, opt)
      elif k == 'crash':
        if o.get('partial'):
          data = kit.batches(cfg['arch']['in'], cfg['out'], o['partial'],
                             cfg['bs'], o['dseed'])
          with env.lib('fit'):
            job.model.fit(kit.Batches(data), verbose=0, shuffle=False)
          env.fault('crash_mid_segment')
        else:
          env.fault('crash_between_segments')
        lives += 1
        job, ref, t, opt = self.restart(env, cfg, saved, lives)
        env.fault('restart')
      elif k == 'export':
        nsave += 1
        self.export(env, cfg, job, ref, o, nsave)
      env.state(k, cfg['alg']['k'], min(t, 12), lives, o.get('medium'),
                o.get('fmt'))
      env.log(k, t, lives)
      env.log_arrays('s', arrays(job.state()))

  def fit(self, env, cfg, job, ref, o, t):
    data = kit.batches(cfg['arch']['in'], cfg['out'], o['batches'], cfg['bs'],
                       o['dseed'])
    rec = []

    def record(i):
      rec.append((i, job.state()))
      if len(rec) == o.get('interrupt'):
        raise core.SimulatedInterrupt()

    class Rec(keras.callbacks.Callback):

      def on_train_batch_end(self, batch, logs=None):
        record(batch)

    with env.lib('fit'):
      try:
        if o.get('loop'):
          for _ in range(o['epochs']):
            for i, (x, y) in enumerate(data):
              job.model.train_on_batch(x, y)
              record(i)
        else:
          job.model.fit(kit.Batches(data), epochs=o['epochs'], verbose=0,
                        shuffle=False, callbacks=[Rec()])
      except core.SimulatedInterrupt:
        env.fault('interrupt_mid_fit')
    for i, st in rec:
      t += 1
      bad = ref.step(*data[i])
      if bad:
        env.probe('ill_conditioned_step')
      ref.compare(env, st, 'step %d' % t, 'training-differs', bad)
      ref.adopt(st)
      env.probe('step')
      env.diverged(arrays(st))
    return t

  def infer(self, env, cfg, job, ref, o):
    x, y = kit.batches(cfg['arch']['in'], cfg['out'], 1, 4, o['dseed'])[0]
    with env.lib(o['op']):
      if o['op'] == 'eval':
        job.model.evaluate(x, y, verbose=0)
        got = None
      else:
        got = job.model.predict(x, verbose=0)
    self.undisturbed(env, job, ref, o['op'], 'inference-changed-state')
    if got is not None:
      ref.load()
      want = ref.twin(x, training=False).numpy()
      env.check(kit.close(got, want, 1e-3, 1e-4), 'served-function',
                lambda: 'outputs differ from the model with the projected '
                'weights by %s' % kit.maxdiff(got, want))

  def undisturbed(self, env, job, ref, where, kind):
    for n, d in job.state().items():
      for a, vs in d['tw'].items():
        for i, (v, r) in enumerate(zip(vs, ref.tv[n][a])):
          env.check(np.array_equal(v, r.numpy()), kind,
                    '%s changed training weight %d of %s/%s' % (where, i, n, a))
      for v, r in zip(d['rest'], ref.rest(n)):
        env.check(np.array_equal(v, r.numpy()), kind,
                  '%s changed %s' % (where, r.name))

  # ------------------------------------------------------------- crash/restart
  def save(self, env, cfg, job, ref, o, n, t, opt):
    p = env.path('ck%d' % n)
    with env.lib('save[%s]' % o['medium']):
      if o['medium'] == 'ckpt':
        p = tf.train.Checkpoint(model=job.model,
                                optimizer=job.model.optimizer).write(p)
      elif o['medium'] == 'tfw':
        job.model.save_weights(p, save_format='tf')
      else:
        p += '.h5'
        job.model.save_weights(p)
    self.undisturbed(env, job, ref, 'saving', 'saving-disturbed-job')
    return dict(medium=o['medium'], path=p, t=t, opt=opt, state=job.state(),
                ovals=job.optimizer_values(), frozen=set(ref.frozen),
                ropt=ref.opt)

  def restart(self, env, cfg, saved, lives):
    opt = saved['opt'] if saved else cfg['opt']
    job = self.start(env, cfg, cfg['wseed'] + (7919 * lives if saved else 0))
    if saved:
      for w in job.wrapped:
        if w.layer.name in saved['frozen'] and w.trainable:
          w.trainable = False
    job.compile(opt, cfg['eager'])
    if not saved:
      ref = Reference(cfg, self.check_initial(env, cfg, job))
      ref.compile(opt)
      return job, ref, 0, opt
    with env.lib('restore[%s]' % saved['medium']):
      if saved['medium'] == 'ckpt':
        tf.train.Checkpoint(model=job.model,
                            optimizer=job.model.optimizer).restore(
                                saved['path'])
      else:
        job.model.load_weights(saved['path'])
    st = job.state()
    a, b = arrays(st), arrays(saved['state'])
    env.check(len(a) == len(b) and all(np.array_equal(p, q)
                                       for p, q in zip(a, b)),
              'state-lost', lambda: 'restart from %s: %d of %d variables differ '
              'from what was saved' % (saved['medium'], sum(
                  not np.array_equal(p, q) for p, q in zip(a, b)), len(a)))
    if saved['medium'] == 'h5w':
      # a weights file holds no optimizer state: the optimizer starts afresh
      ref = Reference(cfg, st)
      ref.compile(opt)
    else:
      env.check(all(np.array_equal(p, q) for p, q in zip(
          job.optimizer_values(), saved['ovals'])), 'optimizer-state-lost', '')
      ref = Reference(cfg, st)
      ref.compile(opt)
      if opt['k'] != 'sgd':
        # the reference keeps its own slots only along one life
        self.copy_slots(job, ref)
    ref.frozen |= saved['frozen']
    return job, ref, saved['t'], opt

  def copy_slots(self, job, ref):
    """Gives a fresh reference optimizer the slots of the restored job."""
    mine, theirs = [], []
    by = {}
    for w in job.wrapped:
      tw = getattr(w, 'training_weights', {})
      n = w.layer.name
      own = [v for vs in tw.values() for v in vs]
      for a, vs in tw.items():
        for v, r in zip(vs, ref.tv[n][a]):
          by[id(v)] = r
      rest = [v for v in w.weights if not any(v is q for q in own)]
      for v, r in zip(rest, ref.rest(n)):
        by[id(v)] = r
    tv = job.model.trainable_variables
    ref.opt.build([by[id(v)] for v in tv])
    for a, b in zip(ref.opt.variables, job.model.optimizer.variables):
      a.assign(b)

  # ------------------------------------------------------------------- exports
  def ship(self, env, job):
    with env.lib('compress_model'):
      if hasattr(job.alg, 'compress_model'):
        return job.alg.compress_model(job.model)
      return keras.models.clone_model(
          job.model, clone_function=lambda l: (
              algorithm_api.create_layer_for_inference(l, job.alg)))

  def export(self, env, cfg, job, ref, o, n):
    if cfg['alg']['k'] not in EXPORTS:
      return
    exp = self.ship(env, job)
    self.undisturbed(env, job, ref, 'export', 'export-disturbed-job')
    ok = ref.load('export')
    self.check_export(env, cfg, exp, ref.twin, o, n, ok,
                      lambda: self.ship(env, self.fresh(env, cfg)))
    # the exported model is a copy
    for v in exp.weights:
      if v.dtype.is_floating:
        v.assign(tf.zeros_like(v))
    self.undisturbed(env, job, ref, 'export', 'export-disturbed-job')

  def fresh(self, env, cfg):
    return self.start(env, cfg, cfg['wseed'] + 31)

  def check_export(self, env, cfg, exp, twin, o, n, ok, again):
    x = kit.batches(cfg['arch']['in'], cfg['out'], 1, 4, o['dseed'])[0][0]
    want = twin(x, training=False).numpy()
    with env.lib('serve'):
      got = exp(x, training=False).numpy()
    if not ok:
      env.probe('ill_conditioned_export')
      return
    env.check(kit.close(got, want, 2e-3, 5e-4), 'export-changed-function',
              lambda: 'exported model differs by %s' % kit.maxdiff(got, want))
    fmt = o['fmt']
    if fmt == 'none':
      return
    env.fault('served_from_' + fmt)
    p = env.path('exp%d' % n)
    with env.lib('export[%s]' % fmt):
      if fmt == 'sm':
        exp.save(p)
        served = keras.models.load_model(p, compile=False)
      else:
        exp.save_weights(p, save_format='tf')
        served = again()
        served.load_weights(p)
      got = served(x, training=False).numpy()
    env.check(kit.close(got, want, 2e-3, 5e-4), 'export-changed-function',
              lambda: 'model served from %s differs by %s' % (
                  fmt, kit.maxdiff(got, want)))

  def post_training(self, plan, env):
    """Algorithms without training: only exports."""
    cfg = plan['cfg']
    with env.lib('compress_model'):
      job = Job(cfg, cfg['wseed'])
    twin = kit.build_model(cfg['arch'], name='twin')
    ok = True
    for a, b in zip(twin.layers, job.base.layers):
      a.set_weights(b.get_weights())
      if a.name[1:].isdigit() and cfg['arch']['layers'][int(a.name[1:])][
          't'] in COMPRESSIBLE:
        v, good = shipped(cfg['alg'], [a.kernel.numpy()])
        ok = ok and good
        a.kernel.assign(v)
    for n, o in enumerate(plan['ops']):
      env.op(o['op'])
      self.check_export(env, cfg, job.model, twin, dict(
          o, fmt=o.get('fmt', 'none')), n, ok,
                        lambda: Job(cfg, cfg['wseed'] + 31).model)
      env.log(o['op'])
      env.state(o['op'], 'diff', o.get('fmt'))
