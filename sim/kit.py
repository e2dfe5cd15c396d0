"""Workload kit: small models, data, optimizers, snapshots."""
import numpy as np
import tensorflow as tf

from tensorflow_model_optimization.python.core.keras.compat import keras

L = keras.layers


# ---------------------------------------------------------------- data
def batches(cfg_in, cfg_out, n, bs, seed, ragged_last=None):
  """`n` batches of deterministic data; the last may be short."""
  r = np.random.RandomState(seed % (2**32))
  out = []
  for i in range(n):
    b = bs if (ragged_last is None or i < n - 1) else ragged_last
    if cfg_in.get('int'):
      x = r.randint(0, cfg_in['int'], size=[b] + cfg_in['shape'])
    else:
      x = r.standard_normal([b] + cfg_in['shape']).astype('float32')
    y = r.standard_normal([b] + cfg_out).astype('float32')
    out.append((x, y))
  return out


# ---------------------------------------------------------------- models
def mk_layer(s, name):
  t = s['t']
  k = dict(name=name)
  if s.get('frozen'):
    k['trainable'] = False
  if 'act' in s:
    k['activation'] = s['act']
  if 'bias' in s:
    k['use_bias'] = s['bias']
  if t == 'dense':
    return L.Dense(s['u'], **k)
  if t == 'conv2d':
    return L.Conv2D(s['f'], s['k'], padding=s.get('pad', 'same'),
                    strides=s.get('st', 1), **k)
  if t == 'conv1d':
    return L.Conv1D(s['f'], s['k'], padding='same', **k)
  if t == 'conv2dt':
    return L.Conv2DTranspose(s['f'], s['k'], padding='same', **k)
  if t == 'conv3d':
    return L.Conv3D(s['f'], s['k'], padding='same', **k)
  if t == 'sep2d':
    return L.SeparableConv2D(s['f'], s['k'], padding='same', **k)
  if t == 'sep1d':
    return L.SeparableConv1D(s['f'], s['k'], padding='same', **k)
  if t == 'dw2d':
    return L.DepthwiseConv2D(s['k'], padding='same', **k)
  if t == 'lc1d':
    return L.LocallyConnected1D(s['f'], s['k'], **k)
  if t == 'embed':
    return L.Embedding(s['n'], s['d'], name=name)
  if t == 'lstm':
    return L.LSTM(s['u'], return_sequences=s.get('seq', False), name=name)
  if t == 'gru':
    return L.GRU(s['u'], return_sequences=s.get('seq', False), name=name)
  if t == 'rnn':
    return L.SimpleRNN(s['u'], return_sequences=s.get('seq', False), name=name)
  if t == 'stacked':
    return L.RNN([L.LSTMCell(s['u'], name=name + '_a'),
                  L.GRUCell(s['u'], name=name + '_b')], name=name)
  if t == 'mha':
    return L.MultiHeadAttention(s['h'], s['d'], name=name)
  if t == 'bidir':
    return L.Bidirectional(
        {'lstm': L.LSTM, 'gru': L.GRU, 'rnn': L.SimpleRNN}[s['c']](s['u']),
        name=name)
  if t == 'conv1dt':
    return L.Conv1DTranspose(s['f'], s['k'], padding='same', **k)
  if t == 'drop':
    return L.Dropout(s['r'], name=name)
  if t == 'bn':
    return L.BatchNormalization(name=name)
  if t == 'ln':
    return L.LayerNormalization(name=name)
  if t == 'relu':
    return L.ReLU(name=name)
  if t == 'actv':
    return L.Activation(s['a'], name=name)
  if t == 'flatten':
    return L.Flatten(name=name)
  if t == 'gap':
    return L.GlobalAveragePooling2D(name=name)
  if t == 'maxpool':
    return L.MaxPooling2D(2, padding='same', name=name)
  if t == 'reshape':
    return L.Reshape(s['shape'], name=name)
  raise KeyError(t)


def build_model(arch, wrap=None, name='m'):
  """Builds a keras model from an architecture document.

  arch: {'kind': seq|func|branch|nested, 'in': {...}, 'layers': [...]}.
  """
  kind = arch['kind']
  specs = arch['layers']
  ins = arch['in']
  dt = 'int32' if ins.get('int') else 'float32'
  lay = [mk_layer(s, 'l%d' % i) for i, s in enumerate(specs)]
  if wrap is not None:
    lay = [wrap(i, l) for i, l in enumerate(lay)]
  if kind == 'seq':
    return keras.Sequential(
        [L.InputLayer(ins['shape'], dtype=dt, name='inp')] + lay, name=name)
  x = inp = L.Input(ins['shape'], dtype=dt, name='inp')
  if kind == 'func':
    for l in lay:
      x = l(x, x) if isinstance(l, L.MultiHeadAttention) else l(x)
    return keras.Model(inp, x, name=name)
  if kind == 'branch':
    # first layer -> two parallel branches -> merged -> rest
    h = lay[0](x)
    a = lay[1](h)
    b = lay[2](h)
    x = L.Add(name='merge')([a, b])
    for l in lay[3:]:
      x = l(x)
    return keras.Model(inp, x, name=name)
  if kind == 'shared':
    # the same layer object applied twice
    h = lay[0](x)
    h = lay[1](h)
    h = lay[1](h)
    x = h
    for l in lay[2:]:
      x = l(x)
    return keras.Model(inp, x, name=name)
  if kind == 'nested':
    k = max(1, len(lay) // 2)
    sub_in = L.Input(ins['shape'], dtype=dt, name='subinp')
    h = sub_in
    for l in lay[:k]:
      h = l(h)
    sub = keras.Model(sub_in, h, name='sub')
    x = sub(inp)
    for l in lay[k:]:
      x = l(x)
    return keras.Model(inp, x, name=name)
  raise KeyError(kind)


def gen_arch(rng, families, max_units=7, kinds1d=('conv1d', 'sep1d', 'lc1d')):
  """Draws an architecture; returns (arch, out_shape)."""
  fam = rng.choice(families)
  act = lambda: rng.choice(['relu', 'tanh', 'linear', 'sigmoid'])
  bias = lambda: rng.random() < 0.8
  kind = rng.choice(['seq', 'func', 'func'])
  u = lambda lo=2: rng.randint(lo, max_units)
  out = rng.randint(1, 3)
  if fam == 'mlp':
    n = rng.randint(1, 3)
    ls = [dict(t='dense', u=u(), act=act(), bias=bias()) for _ in range(n)]
    if n > 1 and rng.random() < 0.25:
      ls.insert(1, dict(t='bn'))
    if rng.random() < 0.2:
      ls.insert(1, dict(t='relu'))
    ls.append(dict(t='dense', u=out, act='linear', bias=bias()))
    return dict(kind=rng.choice([kind, kind, 'nested']),
                **{'in': dict(shape=[u()])}, layers=ls), [out]
  if fam == 'branch':
    w = u()
    ls = [dict(t='dense', u=u(), act=act()),
          dict(t='dense', u=w, act=act()),
          dict(t='dense', u=w, act=act(), bias=bias()),
          dict(t='relu'),
          dict(t='dense', u=out, act='linear')]
    return dict(kind='branch', **{'in': dict(shape=[u()])}, layers=ls), [out]
  if fam == 'shared':
    w = u()
    ls = [dict(t='dense', u=w, act=act()),
          dict(t='dense', u=w, act='tanh'),
          dict(t='dense', u=out, act='linear')]
    return dict(kind='shared', **{'in': dict(shape=[u()])}, layers=ls), [out]
  if fam == 'cnn':
    c = rng.randint(1, 4)
    h = rng.randint(3, 5)
    ls = [dict(t='conv2d', f=rng.randint(2, 5), k=rng.randint(1, 3),
               pad=rng.choice(['same', 'valid']), act=act(), bias=bias())]
    if rng.random() < 0.4:
      ls.append(dict(t='bn'))
    if rng.random() < 0.3:
      ls.append(dict(t='relu'))
    if rng.random() < 0.3:
      ls.append(dict(t=rng.choice(['dw2d', 'sep2d']), k=2, f=rng.randint(2, 4)))
    if rng.random() < 0.2:
      ls.append(dict(t='conv2dt', f=rng.randint(2, 3), k=2))
    ls.append(dict(t=rng.choice(['flatten', 'gap'])))
    ls.append(dict(t='dense', u=out, act='linear'))
    for l in ls:
      if l['t'] in ('dw2d',):
        l.pop('f', None)
    return dict(kind=kind, **{'in': dict(shape=[h, h, c])}, layers=ls), [out]
  if fam == 'cnn1d':
    ls = [dict(t=rng.choice(kinds1d), f=rng.randint(2, 5),
               k=2), dict(t='flatten'),
          dict(t='dense', u=out, act='linear')]
    return dict(kind=kind, **{'in': dict(shape=[4, rng.randint(1, 4)])},
                layers=ls), [out]
  if fam == 'rnn':
    ls = [dict(t=rng.choice(['lstm', 'gru', 'rnn']), u=rng.randint(2, 4)),
          dict(t='dense', u=out, act='linear')]
    return dict(kind=kind, **{'in': dict(shape=[3, rng.randint(1, 4)])},
                layers=ls), [out]
  if fam == 'bidir':
    ls = [dict(t='bidir', c=rng.choice(['lstm', 'gru', 'rnn']),
               u=rng.randint(2, 3)),
          dict(t='dense', u=out, act='linear')]
    return dict(kind=kind, **{'in': dict(shape=[3, rng.randint(2, 4)])},
                layers=ls), [out]
  if fam == 'mha':
    ls = [dict(t='mha', h=rng.randint(1, 2), d=rng.randint(2, 3)),
          dict(t='flatten'),
          dict(t='dense', u=out, act='linear')]
    return dict(kind='func', **{'in': dict(shape=[3, rng.randint(2, 4)])},
                layers=ls), [out]
  if fam == 'bn':
    n = rng.randint(1, 2)
    ls = []
    for _ in range(n):
      ls += [dict(t='dense', u=u(), act=act(), bias=bias()), dict(t='bn')]
    ls.append(dict(t='dense', u=out, act='linear'))
    return dict(kind=kind, **{'in': dict(shape=[u()])}, layers=ls), [out]
  if fam == 'stacked':
    ls = [dict(t='stacked', u=rng.randint(2, 3)),
          dict(t='dense', u=out, act='linear')]
    return dict(kind=kind, **{'in': dict(shape=[3, rng.randint(1, 3)])},
                layers=ls), [out]
  if fam == 'embed':
    ls = [dict(t='embed', n=rng.randint(4, 8), d=rng.randint(2, 4)),
          dict(t='flatten'),
          dict(t='dense', u=out, act='linear')]
    return dict(kind=kind, **{'in': dict(shape=[3], int=4)}, layers=ls), [out]
  if fam == 'conv3d':
    ls = [dict(t='conv3d', f=2, k=2), dict(t='flatten'),
          dict(t='dense', u=out, act='linear')]
    return dict(kind=kind, **{'in': dict(shape=[2, 2, 2, 2])}, layers=ls), [out]
  raise KeyError(fam)


def init_weights(model, seed, ties=False, scale=0.7):
  """Deterministic, non-degenerate values for every variable of `model`."""
  r = np.random.RandomState(seed % (2**32))
  for v in model.weights:
    a = r.standard_normal(v.shape) * scale
    if ties:
      a = np.round(a * 3) / 3.0
    base = v.name.split('/')[-1]
    if 'moving_variance' in base or 'gamma' in base:
      a = np.abs(a) + 0.5
    v.assign(a.astype(v.dtype.as_numpy_dtype))


def mk_opt(o):
  k = o['k']
  lr = o.get('lr', 0.05)
  clip = {} if o.get('noclip') else dict(clipvalue=1.0)
  if k == 'sgd':
    return keras.optimizers.SGD(lr, **clip)
  if k == 'momentum':
    return keras.optimizers.SGD(lr, momentum=0.9, **clip)
  if k == 'adam':
    # (the default epsilon turns rounding noise of vanishing gradients, such as
    # those of a bias in front of a batch normalization, into steps)
    return keras.optimizers.Adam(lr * 0.2, epsilon=1e-3, **clip)
  if k == 'rmsprop':
    return keras.optimizers.RMSprop(lr * 0.2, epsilon=1e-3, **clip)
  raise KeyError(k)


def gen_opt(rng, stateless=False, noclip=False):
  lr = rng.choice([0.01, 0.05, 0.1])
  d = {}
  if noclip:
    # (keras clips the members of a sparse gradient one by one)
    d['noclip'] = True
    lr /= 5
  if stateless:
    return dict(k='sgd', lr=lr, **d)
  return dict(k=rng.choice(['sgd', 'sgd', 'momentum', 'adam', 'rmsprop']),
              lr=lr, **d)


def compile_model(m, opt, eager):
  m.compile(optimizer=mk_opt(opt), loss='mse', run_eagerly=eager)


def values(vs):
  return [v.numpy() if hasattr(v, 'numpy') else np.asarray(v) for v in vs]


def dataset(bts):
  """A keras-compatible dataset yielding exactly these batches in order."""
  def g():
    for b in bts:
      yield b
  x0, y0 = bts[0]
  sig = (tf.TensorSpec([None] + list(x0.shape[1:]), x0.dtype),
         tf.TensorSpec([None] + list(y0.shape[1:]), y0.dtype))
  return tf.data.Dataset.from_generator(g, output_signature=sig)


class Batches(keras.utils.Sequence):
  """keras Sequence over given batches (no tf.data threads involved)."""

  def __init__(self, bts):
    self.b = bts

  def __len__(self):
    return len(self.b)

  def __getitem__(self, i):
    return self.b[i]


def close(a, b, rtol=2e-4, atol=2e-5):
  a = np.asarray(a)
  b = np.asarray(b)
  return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol,
                                            equal_nan=True)


def maxdiff(a, b):
  a = np.asarray(a, dtype='float64')
  b = np.asarray(b, dtype='float64')
  if a.shape != b.shape:
    return 'shape %s vs %s' % (a.shape, b.shape)
  if not a.size:
    return 0.0
  return float(np.nanmax(np.abs(a - b)))
