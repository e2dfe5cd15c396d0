"""Simulated weight-clustering jobs against an executable reference model.

Reference: an ordinary keras twin.  At every simulated training step each
clustered tensor of the twin is replaced by `centroids[nearest(weight)]`, one
ordinary gradient is taken, the gradient of the tensor is applied to the
original weights (straight through) and, summed or averaged per cluster, to the
centroids.  Sparsity-preserving jobs keep the zero centroid and the zero
entries at exactly zero in every forward pass.
"""
import contextlib

import numpy as np
import tensorflow as tf

import tensorflow_model_optimization as tfmot
from tensorflow_model_optimization.python.core.clustering.keras import cluster_wrapper
from tensorflow_model_optimization.python.core.clustering.keras.experimental import cluster as experimental
from tensorflow_model_optimization.python.core.keras.compat import keras

from sim import core
from sim import kit
from sim.scen import resume

API = tfmot.clustering.keras

# number of tensors of a layer which clustering replaces
CLUSTERABLE = {
    'dense': ['kernel'], 'conv1d': ['kernel'], 'conv1dt': ['kernel'],
    'conv2d': ['kernel'], 'conv2dt': ['kernel'], 'conv3d': ['kernel'],
    'lc1d': ['kernel'], 'sep2d': ['pointwise_kernel'],
    'sep1d': ['pointwise_kernel'], 'dw2d': [], 'embed': ['embeddings'],
    'lstm': ['kernel', 'recurrent_kernel'],
    'gru': ['kernel', 'recurrent_kernel'],
    'rnn': ['kernel', 'recurrent_kernel'],
    'bidir': ['kernel', 'recurrent_kernel'] * 2,
    'stacked': ['kernel', 'recurrent_kernel'] * 2,
    'mha': ['kernel'] * 4,
}

# (a transposed convolution is a Conv2D in keras' class hierarchy)
CONV2D = ('conv2d', 'conv2dt')


def flat_layers(model):
  out = []
  for l in model.layers:
    if isinstance(l, keras.Model):
      out += flat_layers(l)
    else:
      out.append(l)
  return out


def unwrapped(l):
  return l.layer if isinstance(l, cluster_wrapper.ClusterWeights) else l


def layers_by_name(model):
  return {unwrapped(l).name: l for l in flat_layers(model)}


def full_weights(l):
  """Variables of a layer in their original order; [(var, weight name)]."""
  if not isinstance(l, cluster_wrapper.ClusterWeights):
    return [(v, None) for v in l.weights]
  orig = l.original_clusterable_weights
  ws = [(v, None) for v in l.layer.weights
        if not any(v is o for o in orig.values())]
  for pos in sorted(l.position_original_weights):
    n = l.position_original_weights[pos]
    ws.insert(pos, (orig[n], n))
  return ws


class Job:
  """What users can observe of a clustered model, by layer and position."""

  def __init__(self, model):
    self.model = model

  def state(self):
    out = {}
    for n, l in layers_by_name(self.model).items():
      d = dict(ws=[], cl={})
      for pos, (v, wn) in enumerate(full_weights(l)):
        d['ws'].append(v.numpy())
        if wn is not None:
          d['cl'][pos] = dict(cent=l.cluster_centroids[wn].numpy(),
                              idx=l.pulling_indices[wn].numpy())
      out[n] = d
    return out


def associate(w, cent, per_channel):
  """Squared freedom for ties: returns the distance of each entry to each c."""
  if per_channel:
    # channels last: one row of centroids per output channel
    return np.abs(w[..., None] - cent[None, None, None, :, :])
  return np.abs(w[..., None] - cent.reshape([1] * w.ndim + [-1]))


def gather(cent, idx, per_channel):
  if per_channel:
    out = np.empty(idx.shape, cent.dtype)
    for c in range(idx.shape[-1]):
      out[..., c] = cent[c][idx[..., c]]
    return out
  return cent[idx]


def scatter(g, idx, shape, per_channel, avg):
  out = np.zeros(shape, 'float64')
  cnt = np.zeros(shape, 'float64')
  if per_channel:
    for c in range(idx.shape[-1]):
      np.add.at(out[c], idx[..., c].ravel(), g[..., c].ravel())
      np.add.at(cnt[c], idx[..., c].ravel(), 1.0)
  else:
    np.add.at(out, idx.ravel(), g.ravel())
    np.add.at(cnt, idx.ravel(), 1.0)
  if avg:
    out = np.where(cnt > 0, out / np.maximum(cnt, 1), 0.0)
  return out.astype('float32')


class Tensor:
  """One clustered tensor in the reference."""

  def __init__(self, p, orig, cent, per_channel):
    self.p = p
    self.pc = per_channel
    self.orig = tf.Variable(orig)
    self.cent = tf.Variable(cent)
    self.mask = None
    if p.get('psp'):
      z = np.argmin(np.abs(cent), axis=-1)
      idx = associate(orig, cent, per_channel).argmin(-1)
      self.zero = z
      self.mask = (gather(cent, idx, per_channel) != 0).astype('float32')

  def force_zero(self):
    if self.mask is None:
      return
    c = self.cent.numpy()
    if self.pc:
      for i in range(c.shape[0]):
        c[i][c[i] == c[i][self.zero[i]]] = 0.0
    else:
      c[c == c[self.zero]] = 0.0
    self.cent.assign(c)

  def masked(self):
    o = self.orig.numpy()
    return o if self.mask is None else o * self.mask


class Reference:

  def __init__(self, cfg, job_state, per_channel_of):
    self.cfg = cfg
    self.twin = kit.build_model(cfg['arch'], name='twin')
    self.by = {l.name: l for l in flat_layers(self.twin)}
    self.tensors = {}
    for n, d in job_state.items():
      for v, a in zip(self.by[n].weights, d['ws']):
        v.assign(a)
      for pos, c in d['cl'].items():
        self.tensors[(n, pos)] = Tensor(
            layer_param(cfg, n), d['ws'][pos], c['cent'], per_channel_of[n])
    self.frozen = set()

  def compile(self, opt):
    self.opt = kit.mk_opt(opt)
    self.vars = []          # (kind, key, variable)
    for n, l in self.by.items():
      l.trainable = n not in self.frozen
    for n, l in self.by.items():
      if n in self.frozen:
        continue
      tr = set(id(v) for v in l.trainable_weights)
      for pos, v in enumerate(l.weights):
        t = self.tensors.get((n, pos))
        if t is not None:
          self.vars.append(('orig', (n, pos), t.orig))
          self.vars.append(('cent', (n, pos), t.cent))
        elif id(v) in tr:
          self.vars.append(('own', (n, pos), v))
    self.opt.build([v for _, _, v in self.vars])

  def effective(self, env, st, where):
    """Checks the associations shown by the job; sets the served weights."""
    for (n, pos), t in self.tensors.items():
      t.force_zero()
      w, c = t.masked(), t.cent.numpy()
      idx = st[n]['cl'][pos]['idx']
      d = associate(w, c, t.pc)
      env.check(idx.shape == w.shape and idx.min() >= 0 and
                idx.max() < c.shape[-1], 'bad-association',
                '%s: indices of %s out of range' % (where, n))
      got = np.take_along_axis(d, idx[..., None], -1)[..., 0]
      best = d.min(-1)
      env.check(np.all(got <= best + 1e-6 + 1e-5 * np.abs(w)),
                'not-nearest-centroid',
                lambda: '%s: %s[%d] uses a centroid %.3g further than the '
                'nearest' % (where, n, pos, float((got - best).max())))
      eff = gather(c, idx, t.pc)
      if t.mask is not None:
        env.check(np.all(eff[t.mask == 0] == 0), 'sparsity-lost',
                  '%s: %s serves non-zero values at zero positions' % (where,
                                                                      n))
        env.probe('zero_kept')
      self.by[n].weights[pos].assign(eff)
      t.idx = idx

  def step(self, x, y):
    wl = []
    for kind, (n, pos), v in self.vars:
      wl.append(self.by[n].weights[pos])
    with tf.GradientTape() as tape:
      p = self.twin(x, training=True)
      loss = tf.reduce_mean(tf.reduce_mean(tf.square(p - y), axis=-1))
    g = tape.gradient(loss, wl)
    pairs = []
    for (kind, key, v), gg in zip(self.vars, g):
      if gg is None:
        continue
      gg = tf.convert_to_tensor(gg)
      t = self.tensors.get(key)
      if kind == 'orig' and t.mask is not None:
        gg = gg * t.mask
      elif kind == 'cent':
        gg = tf.constant(scatter(gg.numpy().astype('float64'), t.idx,
                                 v.shape, t.pc, t.p['agg'] == 'AVG'))
      pairs.append((gg, v))
    self.opt.apply_gradients(pairs)

  def compare(self, env, st, where, kind='training-step'):
    for n, d in st.items():
      for pos, a in enumerate(d['ws']):
        t = self.tensors.get((n, pos))
        b = t.orig.numpy() if t is not None else self.by[n].weights[pos].numpy()
        env.check(kit.close(a, b), kind,
                  lambda: '%s: weight %d of %s differs from the reference by '
                  '%s' % (where, pos, n, kit.maxdiff(a, b)))
        if t is not None:
          c = d['cl'][pos]['cent']
          env.check(kit.close(c, t.cent.numpy()), 'centroid-update',
                    lambda: '%s: centroids of %s[%d] differ from the reference'
                    ' by %s' % (where, n, pos,
                                kit.maxdiff(c, t.cent.numpy())))

  def adopt(self, st):
    """Follow the implementation's rounding, not our own."""
    for n, d in st.items():
      for pos, a in enumerate(d['ws']):
        t = self.tensors.get((n, pos))
        if t is not None:
          t.orig.assign(a)
          t.cent.assign(d['cl'][pos]['cent'])
        else:
          self.by[n].weights[pos].assign(a)


# -------------------------------------------------------------------- set-up
def gen_cluster_cfg(rng, families=None):
  cfg = {}
  psp = rng.random() < 0.35
  fams = families or ['mlp', 'mlp', 'branch', 'bn', 'cnn', 'cnn', 'cnn', 'cnn',
                      'cnn1d', 'rnn', 'stacked', 'bidir', 'embed', 'conv3d',
                      'mha']
  arch, out = kit.gen_arch(rng, fams, max_units=8,
                           kinds1d=('conv1d', 'sep1d', 'lc1d', 'conv1dt'))
  conv = any(l['t'] in CONV2D for l in arch['layers'])
  p = gen_param(rng, psp, conv)
  cfg.update(arch=arch, out=out, params=[p], how='model',
             wseed=rng.getrandbits(24), ties=rng.random() < 0.1)
  names = ['l%d' % i for i, l in enumerate(arch['layers'])]
  if arch['kind'] != 'nested' and rng.random() < 0.25:
    cfg['how'] = 'layers'
    cfg['params'].append(gen_param(rng, rng.random() < 0.3, conv))
    cfg['assign'] = {n: rng.choice([0, 1, None]) for n in names}
    cand = [n for n, l in zip(names, arch['layers'])
            if CLUSTERABLE.get(l['t'])]
    cfg['assign'][rng.choice(cand)] = 0
  clamp(cfg)
  return cfg


def gen_param(rng, psp, conv=False):
  return dict(k=rng.randint(3 if psp else 2, 6), psp=psp,
              init=rng.choice(['LINEAR', 'RANDOM', 'DENSITY_BASED',
                               'KMEANS_PLUS_PLUS']),
              agg=rng.choice(['SUM', 'AVG']),
              pc=rng.random() < (0.6 if conv else 0.2))


def layer_param(cfg, name):
  if cfg['how'] == 'model':
    return cfg['params'][0]
  i = cfg['assign'].get(name)
  return None if i is None else cfg['params'][i]


def spec_of(cfg, n):
  return cfg['arch']['layers'][int(n[1:])]


def clusterable_sizes(cfg, base):
  """{layer: [sizes of its clusterable tensors]} of an unwrapped model."""
  out = {}
  for l in flat_layers(base):
    if l.name.startswith('l') and l.name[1:].isdigit():
      t = spec_of(cfg, l.name)['t']
      names = set(CLUSTERABLE.get(t, []))
      out[l.name] = [v for v in l.weights
                     if v.name.split('/')[-1].split(':')[0] in names]
  return out


def clamp(cfg):
  """The number of clusters never exceeds the smallest tensor it is used on."""
  # (sizes are computed from the architecture at build time; the plan keeps
  # the drawn number and `effective_k` applies the clamp.)


def effective_k(cfg, i, sizes):
  p = cfg['params'][i]
  lo = 3 if p['psp'] else 2
  k = p['k']
  for n, vs in sizes.items():
    if layer_param(cfg, n) is not p:
      continue
    for v in vs:
      size = int(np.prod(v.shape))
      if spec_of(cfg, n)['t'] in CONV2D:
        continue            # too small convolutions stay unclustered
      k = min(k, max(lo, size - (1 if p['psp'] else 0)))
  return max(lo, k)


def cluster_params(p, k):
  d = dict(number_of_clusters=k,
           cluster_centroids_init=API.CentroidInitialization[p['init']],
           cluster_per_channel=bool(p['pc']),
           cluster_gradient_aggregation=(
               cluster_wrapper.GradientAggregation[p['agg']]))
  return d


def sparsify(cfg, base, seed):
  """Gives sparsity-preserving jobs a genuinely sparse pre-trained model."""
  r = np.random.RandomState((seed + 17) % 2**32)
  sizes = clusterable_sizes(cfg, base)
  for n, vs in sizes.items():
    p = layer_param(cfg, n)
    if p is None or not p['psp']:
      continue
    for v in vs:
      a = v.numpy()
      need = p['k'] + 1
      if p['pc'] and a.ndim == 4:
        cols = [a[..., c].ravel() for c in range(a.shape[-1])]
      else:
        cols = [a.ravel()]
      for i, f in enumerate(cols):
        f, m = f.copy(), f.size
        kill = r.permutation(m)[:max(0, min(m // 2, m - need))]
        f[kill] = 0
        # (rounded start values hold zeros of their own: fewer non-zero points
        # than centroids is the documented, loudly reported limit of kmeans++)
        zeros = np.flatnonzero(f == 0)
        short = min(need, m) - (m - len(zeros))
        for j, z in enumerate(zeros[:max(0, short)]):
          f[z] = (-1.0) ** j * (j + 1) / 3.0
        cols[i] = f
      a = (np.stack(cols, -1) if len(cols) > 1 or
           (p['pc'] and a.ndim == 4) else cols[0]).reshape(a.shape)
      v.assign(a)


def build_clustered(cfg, seed):
  base = kit.build_model(cfg['arch'])
  kit.init_weights(base, seed, cfg.get('ties', False))
  sparsify(cfg, base, seed)
  sizes = clusterable_sizes(cfg, base)
  ks = [effective_k(cfg, i, sizes) for i in range(len(cfg['params']))]
  values = {n: [v.numpy() for v in vs] for n, vs in sizes.items()}

  def api(obj, i):
    p = cfg['params'][i]
    d = cluster_params(p, ks[i])
    if p['psp']:
      return experimental.cluster_weights(obj, preserve_sparsity=True, **d)
    return API.cluster_weights(obj, **d)

  if cfg['how'] == 'model':
    model = api(base, 0)
  else:
    def fn(layer):
      i = cfg['assign'].get(layer.name)
      return layer if i is None else api(layer, i)
    model = keras.models.clone_model(base, clone_function=fn)
  return model, values, ks


def expected_clusters(cfg, n, arrays, ks):
  """Per tensor: number of clusters expected, or None (not clustered)."""
  p = layer_param(cfg, n)
  if p is None:
    return [None] * len(arrays)
  k = ks[[q is p for q in cfg['params']].index(True)]
  if spec_of(cfg, n)['t'] in CONV2D:
    a = arrays[0]
    size = a.size // (a.shape[-1] if p['pc'] else 1)
    if size <= k:
      return [None]
  return [k] * len(arrays)


class ClusterHistory(core.Scenario):
  """One clustering job, arbitrary history, checked step by step."""
  NAME = 'cluster_history'

  def gen(self, rng, tier):
    cfg = gen_cluster_cfg(rng)
    cfg['opt'] = kit.gen_opt(rng, noclip=True)
    cfg['eager'] = rng.random() < 0.8
    cfg['bs'] = rng.randint(1, 5)
    ops = []
    faulty = rng.random() < 0.7
    for _ in range(rng.randint(2, 6 if tier == 'quick' else 12)):
      r = rng.random()
      if r < 0.5 or not ops:
        o = dict(op='fit', batches=rng.randint(1, 3), epochs=rng.randint(1, 2),
                 dseed=rng.getrandbits(24))
        if faulty and rng.random() < 0.35:
          o['interrupt'] = rng.randint(1, o['batches'] * o['epochs'])
        if faulty and rng.random() < 0.2:
          o['ragged'] = 1
        ops.append(o)
      elif r < 0.65:
        ops.append(dict(op='predict', dseed=rng.getrandbits(24)))
      elif r < 0.72:
        ops.append(dict(op='eval', dseed=rng.getrandbits(24)))
      elif r < 0.80:
        ops.append(dict(op='recompile', opt=kit.gen_opt(rng, noclip=True)))
      elif r < 0.88:
        ops.append(dict(op='freeze', layer=rng.randint(0, 7),
                        on=rng.random() < 0.7, opt=kit.gen_opt(rng, noclip=True)))
      else:
        ops.append(dict(op='strip', dseed=rng.getrandbits(24)))
    ops.append(dict(op='predict', dseed=rng.getrandbits(24)))
    return dict(cfg=cfg, ops=ops)

  def simplify(self, plan):
    c = plan['cfg']
    if not c['eager']:
      p = core.clone(plan)
      p['cfg']['eager'] = True
      yield p
    if c['opt']['k'] != 'sgd':
      p = core.clone(plan)
      p['cfg']['opt'] = dict(c['opt'], k='sgd')
      yield p
    for i, o in enumerate(plan['ops']):
      for key in ('batches', 'epochs'):
        if o.get(key, 1) > 1:
          p = core.clone(plan)
          p['ops'][i][key] = o[key] - 1
          yield p
      for key in ('interrupt', 'ragged'):
        if o.get(key) is not None:
          p = core.clone(plan)
          del p['ops'][i][key]
          yield p
    for i, q in enumerate(c['params']):
      for key, v in (('pc', False), ('psp', False), ('agg', 'SUM'),
                     ('init', 'LINEAR')):
        if q[key] != v:
          p = core.clone(plan)
          p['cfg']['params'][i][key] = v
          yield p

  def check_initial(self, env, cfg, st, values, ks):
    for n, arrs in values.items():
      want = expected_clusters(cfg, n, arrs, ks)
      got = sum(1 for w in want if w is not None)
      env.check(len(st[n]['cl']) == got, 'wrong-tensors-clustered',
                '%s: %d clustered tensors, expected %d' % (
                    n, len(st[n]['cl']), got))
      if not got:
        continue
      p = layer_param(cfg, n)
      for pos, c in st[n]['cl'].items():
        w = st[n]['ws'][pos]
        env.check(any(np.array_equal(w, a) for a in arrs),
                  'pretrained-weights-lost', n)
        pc = p['pc'] and spec_of(cfg, n)['t'] in CONV2D
        shape = (w.shape[-1], want[0]) if pc else (want[0],)
        env.check(c['cent'].shape == shape, 'number-of-clusters',
                  '%s has centroids %s, expected %s' % (n, c['cent'].shape,
                                                       shape))
        rows = c['cent'] if pc else c['cent'][None]
        for i, row in enumerate(rows):
          ws = w[..., i] if pc else w
          if p['psp']:
            env.check(np.any(row == 0), 'no-zero-centroid', n)
            ws = np.append(ws.ravel(), 0.0)
          env.check(row.min() >= ws.min() - 0.021 and
                    row.max() <= ws.max() + 0.021, 'centroid-out-of-range',
                    '%s: centroids %s outside [%g, %g]' % (n, row, ws.min(),
                                                           ws.max()))

  def execute(self, plan, env):
    cfg = plan['cfg']
    model, values, ks = build_clustered(cfg, cfg['wseed'])
    kit.compile_model(model, cfg['opt'], cfg['eager'])
    job = Job(model)
    st = job.state()
    self.check_initial(env, cfg, st, values, ks)
    pc = {}
    for n in st:
      p = layer_param(cfg, n) if n in values else None
      pc[n] = bool(p and p['pc'] and spec_of(cfg, n)['t'] in CONV2D)
    ref = Reference(cfg, st, pc)
    ref.compile(cfg['opt'])
    t = 0
    for o in plan['ops']:
      k = o['op']
      env.op(k, o.get('batches', 1) * o.get('epochs', 1))
      if k == 'fit':
        t = self.fit(env, cfg, model, job, ref, o, t)
      elif k in ('predict', 'eval', 'strip'):
        self.infer(env, cfg, model, job, ref, o, ks)
      elif k in ('recompile', 'freeze'):
        if k == 'freeze':
          names = sorted(values)
          n = names[o['layer'] % len(names)]
          if spec_of(cfg, n)['t'] == 'bidir':
            continue
          (ref.frozen.add if o['on'] else ref.frozen.discard)(n)
          layers_by_name(model)[n].trainable = not o['on']
          if len(ref.frozen) == len([x for x in ref.by.values() if x.weights]):
            ref.frozen.discard(n)
            layers_by_name(model)[n].trainable = True
          env.probe('frozen_layer', len(ref.frozen))
        with env.lib('compile'):
          kit.compile_model(model, o['opt'], cfg['eager'])
        ref.compile(o['opt'])
      env.state(k, min(t, 12), len(ref.frozen), cfg['params'][0]['psp'],
                cfg['params'][0]['agg'], cfg['params'][0]['init'])
      env.log(k, t)
      env.log_arrays('s', [a for d in job.state().values() for a in d['ws']])

  def fit(self, env, cfg, model, job, ref, o, t):
    data = kit.batches(cfg['arch']['in'], cfg['out'], o['batches'], cfg['bs'],
                       o['dseed'], ragged_last=o.get('ragged'))
    rec = []

    class Rec(keras.callbacks.Callback):

      def on_train_batch_end(self, batch, logs=None):
        rec.append((batch, job.state()))
        if len(rec) == o.get('interrupt'):
          raise core.SimulatedInterrupt()

    try:
      model.fit(kit.Batches(data), epochs=o['epochs'], verbose=0,
                shuffle=False, callbacks=[Rec()])
    except core.SimulatedInterrupt:
      env.fault('interrupt_mid_fit')
    if o.get('ragged'):
      env.fault('short_batch')
    for i, st in rec:
      t += 1
      x, y = data[i]
      ref.effective(env, st, 'step %d' % t)
      ref.step(x, y)
      ref.compare(env, st, 'step %d' % t)
      ref.adopt(st)
      env.probe('step')
      env.diverged([a for d in st.values() for a in d['ws']])
    return t

  def infer(self, env, cfg, model, job, ref, o, ks):
    k = o['op']
    data = kit.batches(cfg['arch']['in'], cfg['out'], 1, 4, o['dseed'])
    x, y = data[0]
    got = None
    if k == 'eval':
      model.evaluate(x, y, verbose=0)
    elif k == 'predict':
      got = model.predict(x, verbose=0)
    else:
      # (a stripped model is a copy: it must not disturb the job)
      exp = API.strip_clustering(model)
      got = exp(x, training=False).numpy()
    st = job.state()
    ref.effective(env, st, k)
    ref.compare(env, st, k, 'inference-changed-state')
    if got is not None:
      want = ref.twin(x, training=False).numpy()
      env.check(kit.close(got, want, 1e-3, 1e-4), 'served-function',
                lambda: '%s differs from the model with clustered weights by '
                '%s' % (k, kit.maxdiff(got, want)))
    ref.adopt(st)


# ================================================================ C02
class ClusterResume(resume.ResumeScenario):
  """Crash and restart of a clustering job."""
  NAME = 'cluster_resume'

  def gen_job(self, rng, tier):
    return gen_cluster_cfg(rng)

  def gen(self, rng, tier):
    plan = super().gen(rng, tier)
    o = plan['cfg']['opt']
    o['noclip'] = True
    o['lr'] = round(o['lr'] / 5, 4)
    return plan

  def types(self, cfg):
    return {l['t'] for l in cfg['arch']['layers']}

  def allowed_media(self, cfg):
    t = self.types(cfg)
    if t & {'mha'}:
      return ['ckpt', 'tfw']
    if t & {'bidir', 'stacked', 'lstm', 'gru', 'rnn'}:
      # tf_keras cannot trace (SavedModel) or rebuild (.keras) wrapped
      # recurrent layers; both fail loudly
      return ['ckpt', 'tfw', 'h5w', 'h5']
    if t & {'conv1dt', 'conv2dt', 'conv3dt', 'sep1d', 'sep2d'}:
      # tf_keras cannot trace these layers for a SavedModel while their kernel
      # is computed from the centroids; it fails loudly
      return [m for m in resume.MEDIA if m != 'sm']
    return list(resume.MEDIA)

  def build(self, cfg, seed):
    tf.random.set_seed(seed % 2**31)      # random centroid initialisation
    return build_clustered(cfg, seed)[0]

  @contextlib.contextmanager
  def scope(self, cfg):
    with API.cluster_scope():
      yield

  def observe(self, cfg, model):
    out = []
    if any(p['psp'] for p in cfg['params']):
      # the zero centroid drifts in a step and is forced back to zero by the
      # next forward pass, which may or may not have happened yet
      x = kit.batches(cfg['arch']['in'], cfg['out'], 1, 1, 5)[0][0]
      model(x, training=False)
    for n, d in sorted(Job(model).state().items()):
      for i, a in enumerate(d['ws']):
        out.append(('%s/%d' % (n, i), a))
      for i, c in sorted(d['cl'].items()):
        out.append(('%s/cent%d' % (n, i), c['cent']))
    return out

  def invariant(self, env, cfg, model, where):
    pass


# ================================================================ C03
class ClusterStrip(ClusterResume):
  """Exports of a clustered model at arbitrary moments of a faulty job."""
  NAME = 'cluster_strip'

  def gen(self, rng, tier):
    plan = ClusterResume.gen(self, rng, tier)
    ops = [o for o in plan['ops'] if o['op'] != 'crash']
    exp = lambda: dict(op='export', dseed=rng.getrandbits(24),
                       fmt=rng.choice(['none', 'h5', 'h5w', 'tfw', 'keras']))
    out = []
    for o in ops:
      if rng.random() < 0.3:
        out.append(exp())
      out.append(o)
      if o['op'] == 'seg' and rng.random() < 0.3:
        out.append(dict(op='interrupted', n=rng.randint(1, 3)))
        out.append(exp())
      if o['op'] == 'save' and rng.random() < 0.5:
        out.append(dict(op='crash', how='fresh'))
        out.append(exp())
    out.append(exp())
    plan['ops'] = out
    return plan

  def execute(self, plan, env):
    cfg = plan['cfg']
    model = self.compiled(env, cfg, cfg['wseed'])
    _, values, ks = build_clustered(cfg, cfg['wseed'])
    durable = []
    at = lives = n = 0
    for o in plan['ops']:
      k = o['op']
      env.op(k)
      if k == 'seg':
        self.run_seg(env, cfg, model, at)
        at += 1
        env.diverged([a for _, a in self.observe(cfg, model)])
      elif k == 'interrupted':
        self.run_seg(env, cfg, model, at, crash_after=o['n'])
        env.fault('interrupt_mid_fit')
        env.diverged([a for _, a in self.observe(cfg, model)])
      elif k == 'save':
        n += 1
        if not o.get('torn'):
          p = self.save(env, cfg, model, o['medium'],
                        env.path('s%d_%s' % (n, o['medium'])))
          durable.append((o['medium'], p, at))
      elif k == 'crash':
        lives += 1
        env.fault('crash_restart')
        model, at = self.restart(env, cfg, durable, 'fresh', lives, model)
      elif k == 'export':
        n += 1
        self.export(env, cfg, model, o, n, values, ks)
        env.state('export', o['fmt'], at, lives)
      env.log(k, at, lives)

  def export(self, env, cfg, model, o, n, values, ks):
    x = kit.batches(cfg['arch']['in'], cfg['out'], 1, 4, o['dseed'])[0][0]
    want = model(x, training=False).numpy()
    before = self.observe(cfg, model)
    exp = API.strip_clustering(model)
    env.check(not any(isinstance(l, cluster_wrapper.ClusterWeights)
                      for l in flat_layers(exp)), 'wrapper-left', '')
    plain = kit.build_model(cfg['arch'], name='plain')
    shapes = lambda m: [tuple(w.shape) for w in m.weights]
    env.check(shapes(exp) == shapes(plain), 'extra-weights',
              lambda: 'stripped model holds %s, the original architecture %s'
              % (shapes(exp), shapes(plain)))
    got = exp(x, training=False).numpy()
    env.check(kit.close(want, got, 1e-4, 1e-5), 'strip-changed-function',
              lambda: 'outputs differ by %s' % kit.maxdiff(want, got))
    self.check_clusters(env, cfg, exp, values, ks)
    for (m, a), (_, b) in zip(before, self.observe(cfg, model)):
      env.check(np.array_equal(a, b), 'strip-disturbed-job', m)
    again = model(x, training=False).numpy()
    env.check(np.array_equal(want, again), 'strip-disturbed-job', 'outputs')
    if o['fmt'] != 'none':
      env.fault('served_from_' + o['fmt'])
      p = env.path('exp%d' % n)
      with env.lib('export[%s]' % o['fmt']):
        if o['fmt'] in ('h5', 'keras'):
          exp.save(p + '.' + o['fmt'])
          served = keras.models.load_model(p + '.' + o['fmt'], compile=False)
        else:
          served = plain
          kit.init_weights(served, 12345)
          q = p + ('.h5' if o['fmt'] == 'h5w' else '')
          exp.save_weights(q)
          served.load_weights(q)
        got = served(x, training=False).numpy()
      env.check(kit.close(want, got, 1e-4, 1e-5), 'export-changed-function',
                lambda: 'served outputs differ by %s' % kit.maxdiff(want, got))
    env.log_arrays('exp', [got])

  def check_clusters(self, env, cfg, exp, values, ks):
    zeros = getattr(self, 'zeros', None)
    for l in flat_layers(exp):
      if l.name not in values:
        continue
      want = expected_clusters(cfg, l.name, values[l.name], ks)
      names = CLUSTERABLE.get(spec_of(cfg, l.name)['t'], [])
      ws = [v for v in l.weights
            if v.name.split('/')[-1].split(':')[0] in set(names)]
      p = layer_param(cfg, l.name)
      for v, k in zip(ws, want):
        if k is None:
          continue
        a = v.numpy()
        if p['pc'] and spec_of(cfg, l.name)['t'] in CONV2D:
          u = max(len(np.unique(a[..., c])) for c in range(a.shape[-1]))
        else:
          u = len(np.unique(a))
        env.check(u <= k, 'too-many-values',
                  '%s holds %d distinct values, %d clusters' % (v.name, u, k))
        if p['psp']:
          # zero positions of the pre-trained tensor stay zero
          ok = [b for b in values[l.name] if b.shape == a.shape and
                np.all(a[b == 0] == 0)]
          env.check(ok, 'sparsity-lost', '%s lost zeros of the pre-trained '
                    'model' % v.name)
          env.probe('zeros_checked')
