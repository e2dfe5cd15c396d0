"""Quantization-aware training that keeps the sparsity and the clusters of the
model it starts from (collaborative optimization: PQAT, CQAT, PCQAT).

The job starts from a model whose kernels are sparse and/or clustered.  The
reference knows the documented contract only: zero weights stay zero, a kernel
never serves more distinct values than it started with, centroids are trained
by the summed gradient of their members, memberships follow the (hidden)
original weights, and everything else is ordinary quantization-aware training.
"""
import numpy as np
import tensorflow as tf

from tensorflow_model_optimization.python.core.keras.compat import keras
from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve import cluster_utils

from sim import core
from sim import kit
from sim.scen import qat
from sim.scen import resume

CENT, IDX, ORI = ('cluster_centroids_tf', 'pulling_indices_tf',
                  'ori_weights_vars_tf')


def first_seen(a):
  """Distinct values in the order in which they first occur."""
  v, i = np.unique(a.ravel(), return_index=True)
  return v[np.argsort(i)]


def clusters_of(kern, conv):
  """Initial centroids; one row per output channel where channels agree."""
  if conv:
    rows = [first_seen(kern[..., c]) for c in range(kern.shape[-1])]
    n = [len(r) for r in rows]
    own = sum(np.count_nonzero(r) for r in rows)
    if max(n) - min(n) <= 1 and (
        np.count_nonzero(np.unique(kern)) >= 0.9 * own):
      # (padded with values no weight is ever close to)
      out = np.full((len(rows), max(n)), np.finfo('float32').max, 'float32')
      for o, r in zip(out, rows):
        o[:len(r)] = r
      return out
  return first_seen(kern)


class CollabRef(qat.Ref):

  def __init__(self, g, cfg):
    super().__init__(g, cfg)
    self.mask, self.cmask, self.base = {}, {}, {}

  def kept(self, o):
    """Does the scheme look after the kernel of this operation?"""
    return (o['op'] in ('dense', 'conv') and o.get('qw') and 'cc' not in o
            and 'vid' not in o)

  def weights_from(self, base):
    super().weights_from(base)
    how = self.cfg['collab']
    for o in self.ops:
      if not self.kept(o):
        continue
      i = o['id']
      kern = self.v[i + '/kernel'].numpy()
      self.base[i] = kern
      sparse = how == 'pqat' or (how == 'pcqat' and np.any(kern == 0))
      if sparse:
        self.mask[i] = (kern != 0).astype('float32')
      if how == 'pqat':
        continue
      c = clusters_of(kern, o['op'] == 'conv')
      if not 1 < c.shape[-1] <= 1024:
        continue
      self.v[i + '/' + CENT] = tf.Variable(c)
      self.v[i + '/' + ORI] = tf.Variable(kern)
      self.v[i + '/' + IDX] = tf.Variable(self.nearest(kern, c).astype('int32'),
                                          trainable=False)
      if sparse:
        z = np.abs(c).argmin(-1)
        self.cmask[i] = (np.arange(c.shape[-1]) != z[..., None]
                         if c.ndim == 2 else
                         np.arange(c.shape[-1]) != z).astype('float32')

  @staticmethod
  def nearest(w, c):
    if c.ndim == 2:
      return np.stack([np.abs(w[..., j, None] - c[j]).argmin(-1)
                       for j in range(w.shape[-1])], -1)
    return np.abs(w[..., None] - c).argmin(-1)

  def preserve(self, o, i, kern, training):
    if i not in self.base:
      return kern
    cent = self.v.get(i + '/' + CENT)
    if cent is None:
      if i in self.mask and (training or self.cfg['collab'] == 'pqat'):
        kern = kern * self.mask[i]
      return kern
    if not training:
      return kern
    ori, idx = self.v[i + '/' + ORI], self.v[i + '/' + IDX]
    if i in self.mask:
      ori.assign(ori.numpy() * self.mask[i])
      cent.assign(cent.numpy() * self.cmask[i])
    a = self.nearest(ori.numpy(), cent.numpy())
    idx.assign(a.astype('int32'))
    c = cent.value()
    if len(c.shape) == 2:
      w = tf.stack([tf.gather(c[j], a[..., j]) for j in range(a.shape[-1])],
                   -1)
    else:
      w = tf.gather(c, a)
    w = w + (ori.value() - tf.stop_gradient(ori.value()))
    self.v[i + '/kernel'].assign(tf.stop_gradient(w))
    return w


def shape_weights(cfg, base):
  """Makes the kernels of the pre-trained model sparse and/or clustered."""
  r = np.random.RandomState(cfg['cseed'])
  for l in base.layers:
    for v in l.weights:
      if 'kernel' not in v.name:
        continue
      a = v.numpy()
      style = cfg['style'].get(l.name, 'both')
      if style == 'plain':
        continue
      if style in ('clustered', 'both'):
        k = int(r.randint(2, 6))
        if a.ndim == 4 and r.rand() < 0.5:
          for c in range(a.shape[-1]):
            a[..., c] = snap(r, a[..., c], k - (r.rand() < 0.3))
        if r.rand() < 0.3:
          # (near the value a missing centroid was once padded with)
          a[a == a.max()] = 0.95
        else:
          a = snap(r, a, k)
      if style in ('sparse', 'both'):
        if a.size > 2:
          a[r.rand(*a.shape) < 0.4] = 0.0
      if style == 'zero':
        a[:] = 0.0
      v.assign(a)


def snap(r, a, k):
  c = r.choice(a.ravel(), min(k, a.size), replace=False)
  return c[np.abs(a[..., None] - c).argmin(-1)]


class CollabHistory(qat.QatHistory):
  """Any history of training, calibration and inference."""
  NAME = 'collab:history'
  REF = CollabRef

  def gen_cfg(self, rng, tier):
    while True:
      cfg = super().gen_cfg(rng, tier)
      g = cfg['graph']
      # (transposed convolutions and frozen layers are refused with an error)
      if not any(n['t'] == 'conv2dt' for n in g['nodes']):
        break
    for n in g['nodes']:
      n.pop('frozen', None)
    cfg.pop('fixed', None)
    cfg.pop('pt', None)
    cfg.update(scheme='8bit', bits=[8, 8], how='apply',
               collab=rng.choice(['pqat', 'cqat', 'cqat', 'pcqat', 'pcqat']),
               cseed=rng.getrandbits(24), style={})
    for n in g['nodes']:
      cfg['style'][n['n']] = rng.choice(
          ['both', 'both', 'both', 'sparse', 'clustered', 'plain'])
    cfg['opt']['lr'] = round(cfg['opt']['lr'] / 3, 4)
    return cfg

  def gen(self, rng, tier):
    plan = super().gen(rng, tier)
    if rng.random() < 0.35:
      plan['ops'].append(dict(op='strip', dseed=5,
                              medium=rng.choice(['h5', 'keras', 'sm', None])))
    for o in plan['ops']:
      if 'opt' in o:
        o['opt']['noclip'] = True
    plan['cfg']['opt']['noclip'] = True
    return plan

  def simplify(self, plan):
    yield from super().simplify(plan)
    c = plan['cfg']
    for n, s in c['style'].items():
      if s != 'plain':
        p = core.clone(plan)
        p['cfg']['style'][n] = 'plain'
        yield p

  def prepare(self, cfg, base):
    shape_weights(cfg, base)

  def run_op(self, env, cfg, ref, model, mv, o, oi):
    if o['op'] == 'strip':
      return self.strip(env, cfg, ref, model, mv, o)
    return super().run_op(env, cfg, ref, model, mv, o, oi)

  def after(self, env, ref, model, mv, where):
    for i, base in ref.base.items():
      k = mv[i + '/kernel'].numpy()
      if i in ref.mask:
        env.check(np.all(k[base == 0] == 0), 'sparsity-lost',
                  lambda: '%s: %d zero weights of %s are no longer zero' % (
                      where, np.count_nonzero(k[base == 0]), i))
        env.probe('sparse_kernels_checked')
      if i + '/' + CENT in ref.v:
        per = len(ref.v[i + '/' + CENT].shape) == 2
        for c in range(k.shape[-1] if per else 1):
          a, b = (k[..., c], base[..., c]) if per else (k, base)
          env.check(len(np.unique(a)) <= len(np.unique(b)), 'clusters-lost',
                    lambda: '%s: %s has %d distinct weights, started with %d' %
                    (where, i, len(np.unique(a)), len(np.unique(b))))
        env.probe('clustered_kernels_checked')

  def strip(self, env, cfg, ref, model, mv, o):
    (x, _), = self.data(cfg, 1, o['dseed'])
    before = qat.flat(model(x, training=False))
    kern = {i: mv[i + '/kernel'].numpy() for i in ref.base}
    with env.lib('strip_clustering_cqat'):
      out = cluster_utils.strip_clustering_cqat(model)
    names = [qat.short(v) for v in out.weights]
    env.check(not any(n in (CENT, ORI, IDX) for n in names),
              'clustering-variables-left', str(names))
    got = qat.flat(out(x, training=False))
    env.check(kit.close(before, got, 1e-5, 1e-6), 'strip-changes-output',
              lambda: 'stripping changes the output by %s' % kit.maxdiff(
                  before, got))
    lay = qat.map_layers(env, ref, out)
    for i, k in kern.items():
      l = lay[i]
      a = next(v for v in l.weights if qat.short(v) == 'kernel').numpy()
      env.check(np.array_equal(a, k), 'strip-changes-weights', i)
    m = o.get('medium')
    if m:
      path = env.path('stripped') + {'h5': '.h5', 'keras': '.keras',
                                     'sm': ''}[m]
      with env.lib('save stripped[%s]' % m):
        with qat.scope():
          out.save(path)
          again = keras.models.load_model(path)
      got = qat.flat(again(x, training=False))
      env.check(kit.close(before, got, 1e-5, 1e-6), 'stripped-reload',
                lambda: 'a saved and reloaded stripped model differs by %s' %
                kit.maxdiff(before, got))
    env.probe('stripped')


class CollabResume(qat.QatResume):
  """Crash and restart: rebuilt by code from the same pre-trained model, state
  restored from a checkpoint or weights file."""
  NAME = 'collab:resume'
  HISTORY = CollabHistory

  def gen(self, rng, tier):
    plan = super().gen(rng, tier)
    plan['cfg']['opt']['noclip'] = True
    return plan

  def allowed_media(self, cfg):
    return ['ckpt', 'tfw', 'h5w']

  def build(self, cfg, seed):
    # (masks and clusters come from the pre-trained model, which is durable)
    return super().build(cfg, cfg['wseed'])


class CollabReload(core.Scenario):
  """A whole saved model, loaded again and trained on, still keeps its zeros
  and its clusters (or refuses to load)."""
  NAME = 'collab:reload'
  WEIGHT = 0           # only the recorded findings are replayed

  def gen(self, rng, tier):
    cfg = CollabHistory().gen_cfg(rng, tier)
    for n in cfg['graph']['nodes']:
      cfg['style'][n['n']] = 'both'
    return dict(cfg=cfg, ops=[
        dict(op='fit', n=rng.randint(0, 2)),
        dict(op='reload', medium=rng.choice(['h5', 'keras', 'sm'])),
        dict(op='fit', n=rng.randint(1, 3))])

  def simplify(self, plan):
    for p in CollabHistory().simplify(dict(plan, ops=[])):
      yield dict(p, ops=core.clone(plan['ops']))

  def execute(self, plan, env):
    cfg, g = plan['cfg'], plan['cfg']['graph']
    base = qat.build_graph(g)
    kit.init_weights(base, cfg['wseed'], scale=cfg['scale'])
    shape_weights(cfg, base)
    ref = CollabRef(g, cfg)
    ref.weights_from(base)
    with env.lib('quantize'):
      model = qat.quantize_job(cfg, base)
    h = CollabHistory()
    h.mul, h.off = 1.0, 0.0
    mv = qat.map_vars(qat.NoEnv, ref, model)
    kit.compile_model(model, cfg['opt'], True)
    loaded = None
    for n, o in enumerate(plan['ops']):
      env.op(o['op'])
      if o['op'] == 'fit':
        for x, y in h.data(cfg, o['n'], 100 + n):
          model.train_on_batch(x, y)
      else:
        path = env.path('m') + {'h5': '.h5', 'keras': '.keras',
                                'sm': ''}[o['medium']]
        with env.lib('save'):
          with qat.scope():
            model.save(path)
        try:
          with qat.scope():
            model = keras.models.load_model(path)
        except Exception as e:  # pylint: disable=broad-except
          # refusing is allowed, forgetting is not
          env.probe('refused_to_load')
          env.log('refused', type(e).__name__)
          return
        kit.compile_model(model, cfg['opt'], True)
        env.fault('restart_from_whole_model')
        loaded = o['medium']
        lay = qat.map_layers(qat.NoEnv, ref, model)
        mv = {i + '/kernel': [v for v in lay[i].weights
                              if qat.short(v) == 'kernel'][0]
              for i in ref.base}
      env.log_arrays('k', [mv[i + '/kernel'].numpy() for i in ref.base])
      for i, base in ref.base.items():
        k = mv[i + '/kernel'].numpy()
        env.diverged([k], 1e4)
        if i in ref.mask:
          env.check(np.all(k[base == 0] == 0),
                    'reload-loses-sparsity' if loaded else 'sparsity-lost',
                    'zero weights of %s are trained (%s)' % (i, loaded))
        if i + '/' + CENT in ref.v:
          env.check(len(np.unique(k)) <= max(len(np.unique(base)), 1),
                    'reload-loses-clusters' if loaded else 'clusters-lost',
                    '%s has %d distinct weights, started with %d (%s)' % (
                        i, len(np.unique(k)), len(np.unique(base)), loaded))
