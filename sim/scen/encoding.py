"""Simulated federated aggregation and broadcast over lossy, faulty networks.

Server, aggregators and workers each build their own encoder objects and talk
only through serialised messages.  A discrete-event network drops, duplicates,
delays and reorders messages; any node crashes, the server with only its
committed state surviving.  Reference: a numpy model of the encoder tree that
says which value a contribution stands for, how far decoding may be from it,
and how adaptive state evolves.
"""
import io

import numpy as np
import tensorflow as tf

from tensorflow_model_optimization.python.core.internal.tensor_encoding.core import core_encoder
from tensorflow_model_optimization.python.core.internal.tensor_encoding.core import encoding_stage
from tensorflow_model_optimization.python.core.internal.tensor_encoding.encoders import common_encoders
from tensorflow_model_optimization.python.core.internal.tensor_encoding.stages import research
from tensorflow_model_optimization.python.core.internal.tensor_encoding.stages import stages_impl

from sim import core

MODE = encoding_stage.StateAggregationMode


# ------------------------------------------------------- user-written stages
@encoding_stage.tf_style_encoding_stage
class Affine(encoding_stage.EncodingStageInterface):
  """a * x + b; commutes with sum only knowing the number of summands."""
  KEY = 'affine-values'

  def __init__(self, a, b):
    self._a, self._b = a, b

  name = property(lambda self: 'affine')
  compressible_tensors_keys = property(lambda self: [self.KEY])
  commutes_with_sum = property(lambda self: True)
  decode_needs_input_shape = property(lambda self: False)

  def get_params(self):
    p = {'a': self._a, 'b': self._b}
    return p, p

  def encode(self, x, encode_params):
    return {self.KEY: x * tf.cast(encode_params['a'], x.dtype) +
                      tf.cast(encode_params['b'], x.dtype)}

  def decode(self, encoded_tensors, decode_params, num_summands=None,
             shape=None):
    v = encoded_tensors[self.KEY]
    n = tf.cast(1 if num_summands is None else num_summands, v.dtype)
    return ((v - n * tf.cast(decode_params['b'], v.dtype)) /
            tf.cast(decode_params['a'], v.dtype))


@encoding_stage.tf_style_encoding_stage
class SignMagnitude(encoding_stage.EncodingStageInterface):
  """Splits into several tensors, with keys that sort in unhelpful ways."""
  MAG, SIGN, SCALE = 'v', 'v-sign', 'v.scale'

  name = property(lambda self: 'sign_magnitude')
  compressible_tensors_keys = property(
      lambda self: [self.MAG, self.SIGN, self.SCALE])
  commutes_with_sum = property(lambda self: False)
  decode_needs_input_shape = property(lambda self: False)

  def get_params(self):
    return {}, {}

  def encode(self, x, encode_params):
    s = tf.reduce_max(tf.abs(x)) + 1
    return {self.MAG: tf.abs(x) / s, self.SIGN: tf.sign(x),
            self.SCALE: s * tf.ones_like(x)}

  def decode(self, encoded_tensors, decode_params, num_summands=None,
             shape=None):
    e = encoded_tensors
    # (not symmetric in its parts, so that swapped parts do not cancel out)
    return e[self.MAG] * e[self.SCALE] * tf.sign(e[self.SIGN])


@encoding_stage.tf_style_encoding_stage
class Halves(encoding_stage.EncodingStageInterface):
  """Splits into two summable parts of equal shape."""
  A, B = 'part', 'part-2'

  name = property(lambda self: 'halves')
  compressible_tensors_keys = property(lambda self: [self.A, self.B])
  commutes_with_sum = property(lambda self: True)
  decode_needs_input_shape = property(lambda self: False)

  def get_params(self):
    return {'w': 0.25}, {}

  def encode(self, x, encode_params):
    a = x * tf.cast(encode_params['w'], x.dtype)
    return {self.A: 2 * a, self.B: x - a}

  def decode(self, encoded_tensors, decode_params, num_summands=None,
             shape=None):
    return encoded_tensors[self.A] / 2 + encoded_tensors[self.B]


@encoding_stage.tf_style_adaptive_encoding_stage
class Census(encoding_stage.AdaptiveEncodingStageInterface):
  """Identity; gathers statistics under every aggregation mode."""
  KEY = 'census_values'

  name = property(lambda self: 'census')
  compressible_tensors_keys = property(lambda self: [self.KEY])
  commutes_with_sum = property(lambda self: True)
  decode_needs_input_shape = property(lambda self: False)
  state_update_aggregation_modes = property(
      lambda self: {'b_sum': MODE.SUM, 'd_min': MODE.MIN, 'a_max': MODE.MAX,
                    'c_stack': MODE.STACK})

  def initial_state(self):
    z = lambda: tf.constant(0.0)
    return {'total': z(), 'lo': z(), 'hi': z(), 'votes': z(), 'rounds': z()}

  def update_state(self, state, state_update_tensors):
    u = state_update_tensors
    return {'total': state['total'] + u['b_sum'],
            'lo': tf.minimum(state['lo'], u['d_min']),
            'hi': tf.maximum(state['hi'], u['a_max']),
            'votes': state['votes'] + tf.cast(tf.size(u['c_stack']),
                                              tf.float32),
            'rounds': state['rounds'] + 1.0}

  def get_params(self, state):
    return {}, {}

  def encode(self, x, encode_params):
    f = lambda v: tf.cast(v, tf.float32)
    return {self.KEY: tf.identity(x)}, {
        'b_sum': f(tf.reduce_sum(x)), 'd_min': f(tf.reduce_min(x)),
        'a_max': f(tf.reduce_max(x)), 'c_stack': f(tf.reduce_mean(x))}

  def decode(self, encoded_tensors, decode_params, num_summands=None,
             shape=None):
    return tf.identity(encoded_tensors[self.KEY])


@encoding_stage.tf_style_adaptive_encoding_stage
class AdaptiveScale(encoding_stage.AdaptiveEncodingStageInterface):
  """Divides by a running estimate of the largest magnitude."""
  KEY = 'scaled_values'

  name = property(lambda self: 'adaptive_scale')
  compressible_tensors_keys = property(lambda self: [self.KEY])
  commutes_with_sum = property(lambda self: True)
  decode_needs_input_shape = property(lambda self: False)
  state_update_aggregation_modes = property(lambda self: {'mag': MODE.MAX})

  def initial_state(self):
    return {'factor': tf.constant(1.0)}

  def update_state(self, state, state_update_tensors):
    return {'factor': 0.5 * state['factor'] +
                      0.5 * (state_update_tensors['mag'] + 0.1)}

  def get_params(self, state):
    p = {'factor': state['factor']}
    return p, p

  def encode(self, x, encode_params):
    return ({self.KEY: x / tf.cast(encode_params['factor'], x.dtype)},
            {'mag': tf.cast(tf.reduce_max(tf.abs(x)), tf.float32)})

  def decode(self, encoded_tensors, decode_params, num_summands=None,
             shape=None):
    v = encoded_tensors[self.KEY]
    return v * tf.cast(decode_params['factor'], v.dtype)


# -------------------------------------------------------------- encoder trees
SI, RS = stages_impl, research

KEYS = {
    'id': ['identity_values'], 'flat': ['flattened_values'],
    'had': ['hadamard_values'], 'kash': ['kashin_hadamard_values'],
    'clipv': ['clipped_values'], 'clipn': ['clipped_values'],
    'uq': ['quantized_values'], 'prng': ['quantized_values'],
    'pc': ['quantized_values'], 'pcprng': ['quantized_values'],
    'split': ['non_zero_floats', 'indices'],
    'diff': ['difference_between_integers'], 'pack': [],
    'affine': ['affine-values'], 'signmag': ['v', 'v-sign', 'v.scale'],
    'halves': ['part', 'part-2'], 'census': ['census_values'],
    'scale': ['scaled_values'],
}
COMMUTES = {'id', 'flat', 'had', 'kash', 'clipv', 'clipn', 'affine', 'halves',
            'census', 'scale'}


def mk_stage(t, tensors=False):
  s = t['s']
  c = (lambda v, d=None: tf.constant(v, d)) if tensors else (lambda v, d=None: v)
  if s == 'id':
    return SI.IdentityEncodingStage()
  if s == 'flat':
    return SI.FlattenEncodingStage()
  if s == 'had':
    return SI.HadamardEncodingStage()
  if s == 'kash':
    return RS.KashinHadamardEncodingStage(
        num_iters=t['it'], eta=c(t['eta']), delta=c(t['delta']),
        last_iter_clip=t['clip'], pad_extra_level_threshold=t['thr'])
  if s == 'clipv':
    return RS.ClipByValueEncodingStage(c(t['lo']), c(t['hi']))
  if s == 'clipn':
    return RS.ClipByNormEncodingStage(c(t['n']))
  if s == 'uq':
    mm = t.get('mm')
    return SI.UniformQuantizationEncodingStage(
        c(t['bits']), min_max=None if mm is None else (
            tf.constant(mm, tf.float32) if tensors else list(mm)),
        stochastic=t['st'])
  if s == 'prng':
    return RS.PRNGUniformQuantizationEncodingStage(c(t['bits']))
  if s == 'pc':
    return RS.PerChannelUniformQuantizationEncodingStage(
        c(t['bits']), stochastic=t['st'])
  if s == 'pcprng':
    return RS.PerChannelPRNGUniformQuantizationEncodingStage(c(t['bits']))
  if s == 'split':
    return RS.SplitBySmallValueEncodingStage(c(t['thr']))
  if s == 'diff':
    return RS.DifferenceBetweenIntegersEncodingStage()
  if s == 'pack':
    return SI.BitpackingEncodingStage(t['bits'])
  return {'affine': lambda: Affine(t['a'], t['b']), 'signmag': SignMagnitude,
          'halves': Halves, 'census': Census, 'scale': AdaptiveScale}[s]()


def mk_encoder(t):
  if t['s'] == 'preset':
    if t['k'] == 'identity':
      return common_encoders.identity()
    if t['k'] == 'uniform':
      return common_encoders.uniform_quantization(t['bits'])
    return common_encoders.hadamard_quantization(t['bits'])
  tensors = t.get('tensors', False)

  def down(comp, node):
    for key in sorted(node.get('kids', {})):
      kid = node['kids'][key]
      down(comp.add_child(mk_stage(kid, tensors), key), kid)

  if t.get('via_parent'):
    # build the chain bottom-up, as the presets do
    chain = [t]
    while chain[-1].get('kids'):
      chain.append(list(chain[-1]['kids'].values())[0])
    comp = core_encoder.EncoderComposer(mk_stage(chain[-1], tensors))
    for n in reversed(chain[:-1]):
      comp = comp.add_parent(mk_stage(n, tensors), list(n['kids'])[0])
    return comp.make()
  comp = core_encoder.EncoderComposer(mk_stage(t, tensors))
  down(comp, t)
  return comp.make()


def expand(t):
  if t['s'] != 'preset':
    return t
  if t['k'] == 'identity':
    return dict(s='id')
  q = dict(s='uq', bits=t['bits'], st=True,
           kids={'quantized_values': dict(s='pack', bits=t['bits'])})
  if t['k'] == 'hadamard':
    q = dict(s='had', kids={'hadamard_values': q})
  return dict(s='flat', kids={'flattened_values': q})


def is_chain(t):
  k = t.get('kids', {})
  return len(k) <= 1 and all(is_chain(v) for v in k.values())


def gen_tree(rng, rank, R, adaptive=None, depth=0, dyn=False, shape=()):
  """A tree of stages for float tensors of this rank, |x| <= R roughly."""
  if depth == 0 and adaptive is None and rng.random() < 0.2:
    return dict(s='preset', k=rng.choice(['identity', 'uniform', 'hadamard']),
                bits=rng.randint(1, 12))
  kid = lambda k, r, R2, d=dyn: {KEYS[k][0]: gen_tree(rng, r, R2, None,
                                                      depth + 1, d, shape)}
  if adaptive == 'scale' or (adaptive is None and rng.random() < 0.06):
    t = dict(s='scale')
    if rng.random() < 0.7:
      t['kids'] = kid('scale', rank, None)
    return t
  if adaptive == 'census' or (adaptive is None and rng.random() < 0.06):
    t = dict(s='census')
    if rng.random() < 0.7:
      t['kids'] = kid('census', rank, R)
    return t
  c = ['uq', 'uq', 'prng', 'id', 'affine', 'halves', 'signmag']
  if depth >= 3:
    c = ['uq', 'prng', 'id']
  else:
    c += ['clipv', 'clipn', 'flat', 'flat']
    if rank in (1, 2) and not dyn:
      c += ['had', 'had', 'kash', 'kash']
    if rank == 1 and not dyn:
      c += ['split']
  if rank >= 1:
    c += ['pc', 'pcprng']
  s = rng.choice(c)
  t = dict(s=s)
  go = rng.random() < 0.75 and depth < 3
  if s in ('uq', 'prng', 'pc', 'pcprng'):
    t['bits'] = rng.randint(1, 12)
    if s in ('uq', 'pc'):
      t['st'] = rng.random() < 0.6
    if s == 'uq' and R is not None and rng.random() < 0.45:
      t['mm'] = [round(-R * rng.choice([1.0, 1.0, 0.5]), 3),
                 round(R * rng.choice([1.0, 1.0, 0.6]), 3)]
    if s in ('uq', 'pc') and rng.random() < 0.6 and t.get('mm') is None:
      t['kids'] = {'quantized_values': dict(
          s='pack', bits=rng.randint(t['bits'], min(16, t['bits'] + 2)))}
    elif s == 'prng' and rng.random() < 0.6:
      t['kids'] = {'quantized_values': dict(s='pack', bits=t['bits'])}
    elif s in ('uq',) and t.get('mm') is not None and rng.random() < 0.4:
      t['kids'] = {'quantized_values': rng.choice([
          dict(s='id'), dict(s='pack', bits=t['bits']),
          dict(s='affine', a=2.0, b=1.0)])}
  elif s == 'id':
    if go:
      t['kids'] = kid(s, rank, R)
  elif s == 'affine':
    t['a'], t['b'] = rng.choice([0.5, 2.0, -1.5]), rng.choice([-1.0, 0.25, 2.0])
    if go:
      t['kids'] = kid(s, rank, None if R is None else 1.5 * R + 2)
  elif s == 'halves':
    ks = {}
    for k in KEYS[s]:
      if rng.random() < 0.5:
        ks[k] = gen_tree(rng, rank, None, None, depth + 2, dyn, shape)
    t['kids'] = ks
  elif s == 'signmag':
    ks = {}
    for k in KEYS[s]:
      if rng.random() < 0.6:
        ks[k] = dict(s='id')
        if k == 'v' and rng.random() < 0.5:
          ks[k] = dict(s='uq', bits=rng.randint(2, 10), st=False)
    t['kids'] = ks
  elif s == 'clipv':
    t['lo'], t['hi'] = -rng.choice([0.3, 1.0]), rng.choice([0.4, 1.2])
    if go:
      t['kids'] = kid(s, rank, 1.2)
  elif s == 'clipn':
    t['n'] = rng.choice([0.5, 2.0, 10.0])
    if go:
      t['kids'] = kid(s, rank, R)
  elif s == 'flat':
    if go:
      t['kids'] = kid(s, 1, R)
  elif s in ('had', 'kash'):
    if s == 'kash':
      t.update(it=rng.randint(1, 4), eta=rng.choice([0.5, 0.9]),
               delta=rng.choice([0.7, 1.0, 1.5]), clip=rng.random() < 0.25,
               thr=rng.choice([0.5, 0.85]))
    if go:
      # (a fixed range is only known for the untransformed values)
      t['kids'] = kid(s, 2, None, True)
  elif s == 'split':
    t['thr'] = rng.choice([1e-8, 0.1, 0.5])
    ks = {}
    if rng.random() < 0.6:
      ks['indices'] = dict(s='diff')
    if rng.random() < 0.6:
      ks['non_zero_floats'] = rng.choice([
          dict(s='id'), dict(s='uq', bits=rng.randint(2, 10), st=True)])
    t['kids'] = ks
  return t


def has(t, kinds):
  return t['s'] in kinds or any(has(k, kinds)
                                for k in t.get('kids', {}).values())


def commutes(t):
  ok = t['s'] in COMMUTES or (t['s'] == 'uq' and t.get('mm') is not None)
  return ok and all(commutes(k) for k in t.get('kids', {}).values())


# ------------------------------------------------------------ reference model
class Val:
  """A value in the reference: concrete, or known only by shape and norm."""

  def __init__(self, a=None, n=None, R=None):
    self.a = a
    self.n = a.size if a is not None else n   # number of entries
    self.R = R if R is not None else (
        float(np.abs(a).max()) if a is not None and a.size else 0.0)

  def span(self):
    if self.a is not None:
      return float(self.a.max() - self.a.min()) if self.a.size else 0.0
    return 2 * self.R


def ref_init(t):
  if t['s'] == 'census':
    st = dict(total=0.0, lo=0.0, hi=0.0, votes=0.0, rounds=0.0)
  elif t['s'] == 'scale':
    st = dict(factor=1.0)
  else:
    st = {}
  return dict(st=st, kids={k: ref_init(v) for k, v in t.get('kids',
                                                           {}).items()})


def ref_state_scalars(s):
  out = list(s['st'].values())
  for k in s['kids'].values():
    out += ref_state_scalars(k)
  return out


def ref_encode(t, x, s, eps):
  """-> (value decoding stands for or None, error bound, updates)."""
  kids = t.get('kids', {})
  k = t['s']
  u = dict(up={}, kids={})

  def down(v, key=None):
    key = key or KEYS[k][0]
    if key not in kids:
      return v, 0.0
    y, e, uu = ref_encode(kids[key], v, s['kids'][key], eps)
    u['kids'][key] = uu
    return y, e

  fl = eps * (abs(x.R) + 1.0)          # rounding of one elementwise stage
  if k in ('id', 'flat', 'pack', 'diff', 'census'):
    if k == 'census':
      u['up'] = x
    z = Val(x.a.ravel()) if k == 'flat' and x.a is not None else x
    y, e = down(z) if kids else (z, 0.0)
    if k == 'flat' and y is not None and y.a is not None:
      y = Val(y.a.reshape(x.a.shape))
    return y, e, u
  if k == 'affine':
    z = Val(None if x.a is None else x.a * t['a'] + t['b'], x.n,
            None if x.a is not None else abs(t['a']) * x.R + abs(t['b']))
    y, e = down(z)
    if y.a is not None:
      y = Val((y.a - t['b']) / t['a'])
    else:
      y = x
    return y, e / abs(t['a']) + 4 * eps * (x.R + 5), u
  if k == 'scale':
    f = s['st']['factor']
    u['up'] = x
    z = Val(None if x.a is None else x.a / f, x.n, x.R / f)
    y, e = down(z)
    return (Val(y.a * f) if y.a is not None else x), e * f + 4 * fl + 1e-5 * (
        x.R), u
  if k == 'halves':
    h = lambda w: Val(None if x.a is None else x.a * w, x.n, x.R * w)
    ya, ea = down(h(0.5), 'part')
    yb, eb = down(h(0.75), 'part-2')
    y = x if x.a is None else Val(ya.a / 2 + yb.a)
    return y, ea / 2 + eb + 4 * fl, u
  if k == 'signmag':
    m = x.R + 1
    if x.a is not None:
      ya, ea = down(Val(np.abs(x.a) / m), 'v')
    else:
      ya, ea = down(Val(None, x.n, 1.0), 'v')
      ea = max(ea, 0.0)
    # (a quantised magnitude of an exact zero stays unseen: sign 0)
    return x, ea * m + 4 * fl, u
  if k == 'clipv':
    if x.a is None:
      y, e = down(Val(None, x.n, 1.2))
      return None, 0.0, u
    y, e = down(Val(np.clip(x.a, t['lo'], t['hi'])))
    return y, e + fl, u
  if k == 'clipn':
    if x.a is None:
      down(x)
      return None, 0.0, u
    n = np.linalg.norm(x.a)
    z = x.a * min(1.0, t['n'] / n) if n > 0 else x.a
    y, e = down(Val(z))
    return y, e + 4 * fl, u
  if k in ('uq', 'prng', 'pc', 'pcprng'):
    for kk in kids:
      if kids[kk]['s'] == 'affine':
        eps = eps * 4
    lv = 2.0**t['bits'] - 1
    num = 6 * eps * (x.R + 1) * 2 + eps * 8 * x.span()
    if k == 'uq' and t.get('mm') is not None:
      lo, hi = t['mm']
      step = (hi - lo) / lv
      if x.a is None:
        return None, 0.0, u
      y = Val(np.clip(x.a, lo, hi))
      num = 12 * eps * (max(abs(lo), abs(hi)) + hi - lo + 1)
      return y, step * (1.0 if t['st'] else 0.5) * 1.001 + num, u
    # a constant tensor is encoded exactly, except that the PRNG schemes
    # spread it: the spread is multiplied by a zero range
    step = x.span() / lv
    if k in ('prng', 'pcprng'):
      f = 0.5
    else:
      f = 1.0 if t['st'] else 0.5
    # in float arithmetic the scaled values carry an error of ~lv * eps
    return x, step * (f * 1.001 + 8 * lv * eps) + num, u
  if k in ('had', 'kash'):
    if x.a is None:
      return None, 0.0, u
    rows = x.a.reshape(-1, x.a.shape[-1])
    norm = float(np.sqrt((rows**2).sum(-1)).max())
    pad = 2
    while pad < rows.shape[-1]:
      pad *= 2
    if k == 'kash':
      pad *= 2
    its = t.get('it', 1)
    z = Val(None, rows.shape[0] * pad, norm * (1 if t.get('clip') else its))
    y, e = down(z)
    if y is None:
      return None, 0.0, u
    err = e * np.sqrt(pad) + 40 * its * eps * (norm + 1)
    if t.get('clip'):
      err += 2 * norm
    return x, err, u
  if k == 'split':
    if x.a is None:
      return None, 0.0, u
    keep = np.abs(x.a) > t['thr']
    sub = x.a[keep]
    y, e = down(Val(sub.copy()), 'non_zero_floats')
    if 'indices' in kids:
      down(Val(np.zeros(1)), 'indices')
    a = np.zeros_like(x.a)
    a[keep] = y.a
    return Val(a), e, u
  raise KeyError(k)


def ref_updates(t, u):
  """Flattened (mode, value) of one contribution; None where unknown."""
  out = []
  if t['s'] == 'census':
    x = u['up']
    if x.a is None:
      return None
    out += [('SUM', x.a.sum()), ('MIN', x.a.min()), ('MAX', x.a.max()),
            ('STACK', x.a.mean())]
  if t['s'] == 'scale':
    if u['up'].a is None:
      return None
    out.append(('MAX', np.abs(u['up'].a).max()))
  for k, v in t.get('kids', {}).items():
    r = ref_updates(v, u['kids'][k]) if k in u['kids'] else (
        None if has(v, ('census', 'scale')) else [])
    if r is None:
      return None
    out += r
  return out


def ref_update_state(t, s, us):
  """New state of the tree after the contributions `us` of one round."""
  new = dict(st=dict(s['st']), kids={})
  if t['s'] == 'census':
    xs = [u['up'].a for u in us]
    new['st'] = dict(
        total=s['st']['total'] + sum(x.sum() for x in xs),
        lo=min([s['st']['lo']] + [x.min() for x in xs]),
        hi=max([s['st']['hi']] + [x.max() for x in xs]),
        votes=s['st']['votes'] + len(xs), rounds=s['st']['rounds'] + 1)
  if t['s'] == 'scale':
    m = max(np.abs(u['up'].a).max() for u in us)
    new['st'] = dict(factor=0.5 * s['st']['factor'] + 0.5 * (m + 0.1))
  for k, v in t.get('kids', {}).items():
    new['kids'][k] = (ref_update_state(v, s['kids'][k],
                                       [u['kids'][k] for u in us])
                      if all(k in u['kids'] for u in us) else s['kids'][k])
  return new


def adaptive_under_unknown(t, unknown=False):
  """Adaptive stages whose input the reference cannot know."""
  if unknown and t['s'] in ('census', 'scale', 'clipv', 'clipn'):
    return True
  if unknown and t['s'] == 'uq' and t.get('mm') is not None:
    return True
  u = unknown or t['s'] in ('had', 'kash')
  return any(adaptive_under_unknown(v, u) for v in t.get('kids', {}).values())


def gen_valid_tree(rng, rank, R, adaptive=None):
  while True:
    t = gen_tree(rng, rank, R, adaptive)
    if adaptive_under_unknown(t):
      continue
    if has(t, ('scale', 'census')) and has(t, ('signmag', 'halves', 'split')):
      continue
    return t


# --------------------------------------------------------------------- values
def draw(cfg, seed):
  r = np.random.RandomState(seed % 2**32)
  shape = cfg['shape']
  k = seed % 11
  dt = cfg['dtype']
  if k == 0:
    a = np.zeros(shape)
  elif k == 1:
    a = np.full(shape, r.uniform(-1, 1))
  elif k == 2:
    a = np.where(r.rand(*shape) < 0.6, 0.0, r.uniform(-1, 1, size=shape))
  else:
    a = r.uniform(-1, 1, size=shape) * r.choice([0.01, 0.3, 1.0])
  return np.asarray(a, dt)


def eps_of(cfg):
  # (stage parameters are float32 whatever the values are)
  return 2e-6 if cfg['dtype'] == 'float32' else 1e-7


# ----------------------------------------------------------------------- wire
def pack(arrays):
  """Serialises a dict/tuple of arrays: nothing but bytes crosses the wire."""
  if isinstance(arrays, dict):
    names = list(arrays)
    vals = [arrays[n] for n in names]
  else:
    names, vals = None, list(arrays)
  bio = io.BytesIO()
  np.savez(bio, *[np.asarray(v) for v in vals])
  return names, bio.getvalue()


def unpack(wire, order=None):
  names, blob = wire
  with np.load(io.BytesIO(blob)) as z:
    vals = [z['arr_%d' % i] for i in range(len(z.files))]
  if names is None:
    return tuple(tf.constant(v) for v in vals)
  idx = list(range(len(names)))
  if order is not None:
    order.shuffle(idx)           # the wire does not keep dictionary order
  return {names[i]: tf.constant(vals[i]) for i in idx}


def add_parts(a, b):
  if isinstance(a, dict):
    return {k: a[k] + b[k] for k in a}
  return a + b


def as_np(x):
  if isinstance(x, dict):
    return {k: np.asarray(v) for k, v in x.items()}
  if isinstance(x, (tuple, list)):
    return tuple(np.asarray(v) for v in x)
  return np.asarray(x)


class Codec:
  """One node's own encoder object, built in that node's style."""

  def __init__(self, cfg, style):
    self.style = style
    spec = tf.TensorSpec(cfg['shape'], tf.as_dtype(cfg['dtype']))
    if style['graph_ctor']:
      with tf.Graph().as_default():
        tf.random.set_seed(cfg.get('dseed', 7) % 1000003)
        self.g = common_encoders.as_gather_encoder(mk_encoder(cfg['tree']),
                                                   spec)
    else:
      self.g = common_encoders.as_gather_encoder(mk_encoder(cfg['tree']), spec)
    self.fn = tf.function if style['fn'] else (lambda f: f)
    self._enc = self.fn(lambda x, p: self.g.encode(x, p))
    self._dbs = self.fn(lambda e, p: self.g.decode_before_sum(e, p))
    self._das = self.fn(lambda e, p, n: self.g.decode_after_sum(e, p, n))
    self._upd = self.fn(lambda s, u: self.g.update_state(s, u))

  def initial_state(self):
    return as_np(self.g.initial_state())

  def params(self, state):
    return [as_np(p) for p in self.g.get_params(
        tuple(tf.constant(s) for s in state))]

  def encode(self, x, p):
    e, u = self._enc(tf.constant(x), p)
    return as_np(e), as_np(u)

  def before_sum(self, e, p):
    return as_np(self._dbs(e, p))

  def after_sum(self, part, p, n):
    c = {k: tf.constant(v) for k, v in part.items()} if isinstance(
        part, dict) else tf.constant(part)
    return as_np(self._das(c, p, n))

  def update(self, s, u):
    return as_np(self._upd(tuple(tf.constant(v) for v in s),
                           tuple(tf.constant(v) for v in u)))

  def modes(self):
    return [m.name for m in self.g.state_update_aggregation_modes]


def merge_updates(modes, acc, us):
  """Aggregates update tuples as the declared modes say (tree-mergeable)."""
  out = []
  for i, m in enumerate(modes):
    vals = [u[i] for u in us]
    if m == 'STACK':
      v = np.stack(vals)
      out.append(v if acc is None else np.concatenate([acc[i], v]))
    else:
      f = {'SUM': np.add, 'MIN': np.minimum, 'MAX': np.maximum}[m]
      v = vals[0]
      for w in vals[1:]:
        v = f(v, w)
      out.append(v if acc is None else f(acc[i], v))
  return out


def merge_acc(modes, a, b):
  out = []
  for i, m in enumerate(modes):
    if m == 'STACK':
      out.append(np.concatenate([a[i], b[i]]))
    else:
      out.append({'SUM': np.add, 'MIN': np.minimum,
                  'MAX': np.maximum}[m](a[i], b[i]))
  return out


# ================================================================ E01 / E04
class Federation(core.Scenario):
  """Rounds of encoded aggregation over a faulty network."""
  NAME = 'federation'
  adaptive = (None, None, None, 'census', 'scale')
  crashy = 0.25

  def gen(self, rng, tier):
    rank = rng.choice([0, 1, 1, 1, 2, 2, 3])
    shape = [rng.randint(1, 9) for _ in range(rank)]
    if rank == 1 and rng.random() < 0.3:
      shape = [rng.choice([1, 2, 8, 16, 33])]
    cfg = dict(shape=shape, dtype=rng.choice(['float32', 'float32', 'float32',
                                              'float64']))
    ad = rng.choice(self.adaptive)
    cfg['tree'] = gen_valid_tree(rng, rank, 1.0, ad)
    if is_chain(cfg['tree']) and cfg['tree']['s'] != 'preset' and (
        rng.random() < 0.4):
      cfg['tree']['via_parent'] = True
    dyn = has(cfg['tree'], ('split',))
    if rng.random() < 0.15 and not dyn and cfg['tree']['s'] != 'preset':
      cfg['tree']['tensors'] = True
    W = rng.randint(2, 6)
    A = rng.choice([0, 0, 1, 2])
    cfg.update(workers=W, aggs=A,
               parent=[rng.randint(0, A) if A else 0 for _ in range(W)],
               netseed=rng.getrandbits(30), dseed=rng.getrandbits(24))
    n = 1 + A + W
    cfg['styles'] = [dict(
        graph_ctor=dyn or (rng.random() < 0.2 and
                           not cfg['tree'].get('tensors')),
        fn=rng.random() < 0.12) for _ in range(n)]
    R = rng.randint(1, 3 if tier == 'quick' else 6)
    ops = [dict(op='round', dseed=rng.getrandbits(24)) for _ in range(R)]
    nodes = W + A
    if rng.random() < 0.85:
      for _ in range(rng.randint(1, 3 * R + 2)):
        k = rng.random()
        r = rng.randint(0, R - 1)
        src = rng.randint(1, nodes)
        if k < 0.3:
          ops.append(dict(op='drop', round=r, src=src, n=rng.randint(0, 2)))
        elif k < 0.5:
          ops.append(dict(op='dup', round=r, src=src, n=rng.randint(0, 1),
                          d=round(rng.uniform(0, 9), 2)))
        elif k < 0.75:
          ops.append(dict(op='delay', round=r, src=src, n=rng.randint(0, 1),
                          d=round(rng.uniform(1, 40), 2)))
        elif k < 0.85:
          ops.append(dict(op='partition', round=r, src=src,
                          t=round(rng.uniform(0, 8), 2),
                          d=round(rng.uniform(2, 40), 2)))
        else:
          ops.append(self.gen_crash(rng, r, nodes))
      while rng.random() < self.crashy:
        ops.append(self.gen_crash(rng, rng.randint(0, R - 1), nodes))
    return dict(cfg=cfg, ops=ops)

  def gen_crash(self, rng, r, nodes):
    x = rng.random()
    if x < 0.4:
      return dict(op='crash', round=r, node=0, t=round(rng.uniform(0, 16), 2))
    if x < 0.6:
      return dict(op='torn', round=r)
    return dict(op='crash', round=r, node=rng.randint(1, nodes),
                t=round(rng.uniform(0, 12), 2))

  def simplify(self, plan):
    c = plan['cfg']
    if any(s['fn'] or s['graph_ctor'] for s in c['styles']) and not has(
        c['tree'], ('split',)):
      p = core.clone(plan)
      for s in p['cfg']['styles']:
        s['fn'] = s['graph_ctor'] = False
      yield p
    if c['aggs']:
      p = core.clone(plan)
      p['cfg']['aggs'] = 0
      p['cfg']['parent'] = [0] * c['workers']
      p['ops'] = [o for o in p['ops'] if o['op'] in ('round', 'torn')]
      yield p
    if c['workers'] > 1:
      p = core.clone(plan)
      p['cfg']['workers'] -= 1
      p['cfg']['parent'] = c['parent'][:-1]
      yield p

    def cut(t):
      for k in list(t.get('kids', {})):
        q = core.clone(t)
        del q['kids'][k]
        yield q
        for sub in cut(t['kids'][k]):
          q = core.clone(t)
          q['kids'][k] = sub
          yield q
    for t in cut(c['tree']):
      p = core.clone(plan)
      t.pop('via_parent', None)
      p['cfg']['tree'] = t
      yield p

  # -- the simulated system ---------------------------------------------------
  def execute(self, plan, env):
    cfg = plan['cfg']
    self.cfg, self.env = cfg, env
    tree = expand(cfg['tree'])
    self.tree = tree
    A, W = cfg['aggs'], cfg['workers']
    self.codecs = {}
    rounds = [o for o in plan['ops'] if o['op'] == 'round']
    if not rounds:
      return
    server = self.codec(0)
    self.modes = server.modes()
    env.check(bool(server.g.fully_commutes_with_sum) == commutes(tree),
              'fully-commutes', 'fully_commutes_with_sum is %s for %s' % (
                  server.g.fully_commutes_with_sum, cfg['tree']))
    state = server.initial_state()
    ref = ref_init(tree)
    self.check_state(state, ref, 'initial state')
    disk = pack(state)
    for r, o in enumerate(rounds):
      env.op('round')
      faults = [f for f in plan['ops'] if f.get('round') == r]
      attempt = 0
      while True:
        done, disk, ref = self.run_round(r, attempt, o, faults, disk, ref)
        attempt += 1
        if done:
          break
        faults = [f for f in faults if not (f['op'] == 'crash' and
                                            f['node'] == 0)
                  and f['op'] != 'torn']

  def codec(self, node):
    if node not in self.codecs:
      with self.env.lib('GatherEncoder'):
        self.codecs[node] = Codec(self.cfg, self.cfg['styles'][node])
      self.env.probe('codec_built')
    return self.codecs[node]

  def run_round(self, r, attempt, op, faults, disk, ref):
    cfg, env, tree = self.cfg, self.env, self.tree
    A, W = cfg['aggs'], cfg['workers']
    rng = core.rng_for(cfg['netseed'], r, attempt)
    q = core.EventQueue()
    base = lambda: rng.uniform(0.2, 3.0)
    server = self.codec(0)
    state = tuple(v.numpy() for v in unpack(disk))
    with env.lib('get_params'):
      ep, bp, ap = server.params(state)
    wire_ep, wire_bp = pack(ep), pack(bp)
    sent = {}
    alive = {i: True for i in range(1 + A + W)}
    cutoff = {}
    for f in faults:
      if f['op'] == 'partition' and f['src'] <= A + W:
        cutoff.setdefault(f['src'], []).append((f['t'], f['t'] + f['d']))
    result = dict(included={}, part=None, n=0, upd=None, dead=False)
    truth = {}
    order = core.rng_for(cfg['netseed'], r, attempt, 'order')

    def send(src, dst, kind, payload, peer):
      """`peer` is the non-server end, which faults are attached to."""
      n = sent.get((peer, kind), 0)
      sent[(peer, kind)] = n + 1
      delays = [base()]
      for f in faults:
        if f.get('src') == peer and f.get('n') == n and kind != 'ack':
          if f['op'] == 'drop':
            delays = []
            env.fault('message_dropped')
          elif f['op'] == 'delay' and delays:
            delays[0] += f['d']
            env.fault('message_delayed')
          elif f['op'] == 'dup' and delays:
            delays.append(delays[0] + f['d'])
            env.fault('message_duplicated')
      for d in delays:
        q.after(d, deliver, src, dst, kind, payload, peer)

    def deliver(src, dst, kind, payload, peer):
      for a, b in cutoff.get(peer, []):
        if a <= q.now < b:
          env.fault('message_lost_in_partition')
          return
      if not alive.get(dst) or result.get('closed'):
        return
      handlers[kind](dst, src, payload)

    # workers -----------------------------------------------------------------
    store = {}

    def on_params(node, src, payload):
      if node in store:
        return
      w = node - 1 - A
      x = draw(cfg, op['dseed'] * 97 + w)
      with env.lib('encode'):
        e, u = self.codec(node).encode(x, unpack(payload))
      self.check_contribution(tree, x, u, ref, truth, w)
      store[node] = (w, pack(e), u)
      push(node, 0)

    def push(node, k):
      if node not in store:      # lost in a crash
        return
      w, e, u = store[node]
      if acked.get(node) or not alive[node] or k > 4:
        return
      if k:
        env.probe('retransmission')
      send(node, cfg['parent'][w], 'value', (w, e, u), node)
      q.after(6.0, push, node, k + 1)

    acked = {}

    def on_ack(node, src, payload):
      acked[node] = True

    # aggregators -----------------------------------------------------------
    part_of = {a: dict(seen=set(), part=None, upd=None) for a in range(0, A + 1)}

    def on_value(node, src, payload):
      w, e, u = payload
      p = part_of[node]
      if node and p.get('fwd'):
        return            # too late for this tier: never acknowledged
      send(node, src, 'ack', None, src)
      if w in p['seen']:
        env.probe('duplicate_ignored')
        return
      p['seen'].add(w)
      with env.lib('decode_before_sum'):
        part = self.codec(node).before_sum(unpack(e, order), unpack(wire_bp))
      self.check_part(tree, unpack(e), part)
      p['part'] = part if p['part'] is None else add_parts(part, p['part'])
      p['upd'] = (merge_updates(self.modes, p['upd'], [u]))
      if node == 0:
        maybe_close()

    def forward(node, k=0):
      p = part_of[node]
      if not alive[node] or not p['seen'] or acked.get(node) or k > 4:
        return
      p['fwd'] = True
      send(node, 0, 'partial', (node, p['part'], sorted(p['seen']), p['upd']),
           node)
      q.after(5.0, forward, node, k + 1)

    def on_partial(dst, src, payload):
      node, part, seen, upd = payload
      send(0, node, 'ack', None, node)
      p = part_of[0]
      if ('a', node) in p['seen']:
        env.probe('duplicate_ignored')
        return
      p['seen'].add(('a', node))
      p['part'] = part if p['part'] is None else add_parts(p['part'], part)
      p['upd'] = upd if p['upd'] is None else merge_acc(self.modes, p['upd'],
                                                        upd)
      p.setdefault('via', []).extend(seen)
      maybe_close()

    def members():
      p = part_of[0]
      return sorted([w for w in p['seen'] if not isinstance(w, tuple)] +
                    p.get('via', []))

    def maybe_close(force=False):
      if result.get('closed') or not alive[0]:
        return
      if len(members()) == W or force:
        result['closed'] = True
        result['t'] = q.now

    handlers = dict(params=on_params, value=on_value, ack=on_ack,
                    partial=on_partial)

    def crash(node):
      if not alive[node]:
        return
      alive[node] = False
      env.fault('crash_%s' % ('server' if node == 0 else 'aggregator'
                              if node <= A else 'worker'))
      self.codecs.pop(node, None)       # restarted nodes build a new encoder
      if node == 0:
        result['dead'] = True
      else:
        store.pop(node, None)
        if node <= A:
          part_of[node] = dict(seen=set(), part=None, upd=None)
        q.after(4.0, restart, node)

    def restart(node):
      alive[node] = True
      env.fault('restart_node')
      if node > A:
        send(0, node, 'params', wire_ep, node)   # asks again for the round

    for w in range(W):
      node = 1 + A + w
      send(0, node, 'params', wire_ep, node)
      # the server repeats its broadcast once: workers ignore copies
      q.after(8.0, lambda n=node: None if n in store or not alive[0] else
              send(0, n, 'params', wire_ep, n))
    for a in range(1, A + 1):
      q.at(rng.uniform(6, 14), forward, a)
    for f in faults:
      if f['op'] == 'crash' and f['node'] <= A + W:
        q.at(f['t'], crash, f['node'])
    q.at(30.0, maybe_close, True)
    while q.pending() and not result.get('closed') and not result['dead']:
      q.step()
    env.sim_time += q.now
    who = members()
    env.state(len(who), W, A, result['dead'], attempt, tree['s'])
    if result['dead']:
      env.log('round', r, attempt, 'server crashed')
      return False, disk, ref
    env.check(result.get('closed'), 'no-progress', 'round %d never closed' % r)
    env.log('round', r, attempt, who, round(q.now, 3))
    if not who:
      env.probe('empty_round')
      return True, disk, ref
    if len(who) == W:
      env.probe('full_round')
    else:
      env.probe('partial_round')
    p = part_of[0]
    with env.lib('decode_after_sum'):
      total = self.codec(0).after_sum(p['part'], unpack(pack(ap)), len(who))
    self.check_total(truth, who, total, r)
    with env.lib('update_state'):
      new = self.codec(0).update(state, p['upd'])
    before = ref
    if self.modes:
      ref = ref_update_state(tree, ref, [truth[w]['u'] for w in who])
    env.check(len(new) == len(state), 'state-structure', str(len(new)))
    self.check_state(new, ref, 'state after round %d' % r)
    env.log_arrays('total', [total] + list(new))
    if any(f['op'] == 'torn' for f in faults):
      # the commit of this round was lost: the server restarts from the old one
      env.fault('torn_commit')
      self.codecs.pop(0, None)
      return False, disk, before
    return True, pack(new), ref

  # -- oracles ------------------------------------------------------------------
  def check_contribution(self, tree, x, u, ref, truth, w):
    y, err, uu = ref_encode(tree, Val(x.astype('float64')), ref,
                            eps_of(self.cfg))
    truth[w] = dict(y=y, err=err, u=uu)
    want = ref_updates(tree, uu)
    if want is None:
      return
    got = sorted((m, float(v)) for m, v in zip(self.modes, u))
    want = sorted((m, float(v)) for m, v in want)
    self.env.check(
        [m for m, _ in got] == [m for m, _ in want] and np.allclose(
            [v for _, v in got], [v for _, v in want], rtol=1e-3, atol=1e-4),
        'state-update-tensors', 'worker %d sent %s, expected %s' % (w, got,
                                                                   want))

  def check_part(self, tree, e, part):
    if commutes(tree):
      # fully commuting: intermediaries may add what workers sent, as it is
      a = sorted(np.asarray(v).tobytes() for v in e.values())
      b = sorted(np.asarray(v).tobytes() for v in (
          part.values() if isinstance(part, dict) else [part]))
      self.env.check(a == b, 'fully-commutes',
                     'decode_before_sum is not the identity')

  def check_total(self, truth, who, total, r):
    env, cfg = self.env, self.cfg
    env.check(total.shape == tuple(cfg['shape']) and
              total.dtype == np.dtype(cfg['dtype']), 'wrong-shape',
              '%s %s' % (total.shape, total.dtype))
    env.check(np.all(np.isfinite(total)), 'not-finite', 'round %d' % r)
    ys = [truth[w] for w in who]
    if any(t['y'] is None or t['y'].a is None for t in ys):
      env.probe('unbounded_tree')
      return
    want = sum(t['y'].a for t in ys)
    tol = sum(t['err'] for t in ys) + 30 * eps_of(cfg) * (
        len(ys) + sum(np.abs(t['y'].a).max() for t in ys)) * len(ys)
    d = float(np.abs(total - want).max())
    env.check(d <= tol, 'wrong-sum',
              lambda: 'round %d: decoded sum of workers %s is off by %.4g, at '
              'most %.4g is allowed for %s' % (r, who, d, tol, cfg['tree']))
    env.probe('sum_checked')

  def check_state(self, state, ref, where):
    got = sorted(float(v) for v in state)
    want = sorted(float(v) for v in ref_state_scalars(ref))
    self.env.check(len(got) == len(want) and np.allclose(
        got, want, rtol=1e-3, atol=1e-4), 'wrong-state',
        '%s: %s, expected %s' % (where, got, want))
    if want:
      self.env.probe('state_checked')


class AdaptiveFederation(Federation):
  """Adaptive encoders whose server crashes and restarts."""
  NAME = 'adaptive_federation'
  adaptive = ('census', 'scale')
  crashy = 0.6


# ===================================================================== E03
class Broadcast(core.Scenario):
  """One sender, many receivers; messages are late, repeated, out of order."""
  NAME = 'broadcast'

  def gen(self, rng, tier):
    rank = rng.choice([0, 1, 1, 1, 2, 2, 3])
    shape = [rng.randint(1, 9) for _ in range(rank)]
    cfg = dict(shape=shape, dtype=rng.choice(['float32', 'float32',
                                              'float64']))
    cfg['tree'] = gen_valid_tree(rng, rank, 1.0, rng.choice(
        [None, None, 'census', 'scale']))
    cfg['receivers'] = rng.randint(1, 3)
    ops = []
    n = 0
    for _ in range(rng.randint(3, 9 if tier == 'quick' else 24)):
      k = rng.random()
      if k < 0.45 or not n:
        ops.append(dict(op='send', dseed=rng.getrandbits(24)))
        n += 1
      elif k < 0.85:
        # any earlier message, however old
        ops.append(dict(op='deliver', msg=rng.randint(0, n - 1),
                        to=rng.randint(0, cfg['receivers'] - 1)))
      elif k < 0.93:
        ops.append(dict(op='crash_sender', lose=rng.random() < 0.4))
      else:
        ops.append(dict(op='crash_receiver',
                        to=rng.randint(0, cfg['receivers'] - 1)))
    for i in range(n):
      ops.append(dict(op='deliver', msg=i,
                      to=rng.randint(0, cfg['receivers'] - 1)))
    return dict(cfg=cfg, ops=ops)

  simplify = lambda self, plan: iter(())

  def mk(self):
    with self.env.lib('SimpleEncoder'):
      return common_encoders.as_simple_encoder(
          mk_encoder(self.cfg['tree']),
          tf.TensorSpec(self.cfg['shape'], tf.as_dtype(self.cfg['dtype'])))

  def execute(self, plan, env):
    cfg = plan['cfg']
    self.cfg, self.env = cfg, env
    tree = expand(cfg['tree'])
    sender = self.mk()
    recv = {}
    state, ref = None, ref_init(tree)
    kept = None                     # (durable state, its reference)
    msgs = []
    last = -1
    for o in plan['ops']:
      env.op(o['op'])
      k = o['op']
      if k == 'send':
        x = draw(cfg, o['dseed'])
        with env.lib('encode'):
          e, new = sender.encode(tf.constant(x), *(
              [] if state is None else [tuple(tf.constant(s)
                                              for s in state)]))
        y, err, u = ref_encode(tree, Val(x.astype('float64')), ref,
                               eps_of(cfg))
        new = as_np(new)
        if state is not None:
          kept = (state, ref)
        # (a single encoding is its own aggregate)
        ref = ref_update_state(tree, ref, [u])
        Federation.check_state(self, new, ref, 'state after message %d' % len(
            msgs))
        state = new
        msgs.append(dict(w=pack(as_np(e)), y=y, err=err, got=None, n=len(msgs)))
      elif k == 'deliver':
        if o['msg'] >= len(msgs):
          continue
        m = msgs[o['msg']]
        if m['n'] < last:
          env.fault('message_out_of_order')
        last = m['n']
        if m['got'] is not None:
          env.fault('message_duplicated')
        i = o['to']
        if i not in recv:
          recv[i] = self.mk()
        with env.lib('decode'):
          d = as_np(recv[i].decode(unpack(m['w'], core.rng_for(
              plan['vseed'], o['msg'], o['to']))))
        env.check(d.shape == tuple(cfg['shape']) and
                  d.dtype == np.dtype(cfg['dtype']), 'wrong-shape',
                  '%s %s' % (d.shape, d.dtype))
        if m['got'] is not None:
          env.check(np.array_equal(m['got'], d), 'receivers-disagree',
                    'message %d decodes differently at receiver %d' % (
                        m['n'], i))
        m['got'] = d
        if m['y'] is not None and m['y'].a is not None:
          tol = m['err'] + 30 * eps_of(cfg) * (1 + np.abs(m['y'].a).max())
          dd = float(np.abs(d - m['y'].a).max())
          env.check(dd <= tol, 'wrong-value',
                    lambda: 'message %d decodes %.4g away, at most %.4g is '
                    'allowed for %s' % (m['n'], dd, tol, cfg['tree']))
          env.probe('value_checked')
        env.log_arrays('d%d' % i, [d])
        env.state('deliver', tree['s'], len(msgs) - m['n'], i)
      elif k == 'crash_sender':
        env.fault('crash_sender')
        sender = self.mk()
        if o['lose'] and kept is not None:
          env.fault('torn_commit')
          state, ref = kept
      elif k == 'crash_receiver':
        env.fault('crash_receiver')
        recv.pop(o['to'], None)


# ===================================================================== E02
UNBIASED = {'uq', 'prng', 'pc', 'pcprng'}


def gen_unbiased_tree(rng, rank):
  """Trees whose only loss is a randomised quantisation."""
  def leaf(r, fixed):
    c = ['uq', 'prng'] + (['pc', 'pcprng'] if r >= 1 else [])
    t = dict(s=rng.choice(c), bits=rng.randint(1, 5))
    if t['s'] in ('uq', 'pc'):
      t['st'] = True
    if t['s'] == 'uq' and fixed and rng.random() < 0.5:
      t['mm'] = [-rng.choice([1.0, 1.4]), rng.choice([1.0, 1.7])]
    if t.get('mm') is None and rng.random() < 0.4:
      t['kids'] = {'quantized_values': dict(s='pack', bits=t['bits'])}
    return t

  def node(r, fixed, depth, dyn=False):
    if depth >= 3 or rng.random() < 0.4:
      return leaf(r, fixed)
    c = ['flat', 'affine', 'halves', 'id']
    if r in (1, 2) and not dyn:
      c += ['had', 'had', 'kash', 'kash']
    s = rng.choice(c)
    t = dict(s=s)
    if s == 'affine':
      t.update(a=rng.choice([0.5, 2.0, -1.5]), b=rng.choice([-1.0, 0.25]))
      kid = node(r, False, depth + 1, dyn)
    elif s == 'flat':
      kid = node(1, fixed, depth + 1, dyn)
    elif s in ('had', 'kash'):
      if s == 'kash':
        t.update(it=rng.randint(1, 3), eta=0.9, delta=rng.choice([0.7, 1.0]),
                 clip=False, thr=rng.choice([0.5, 0.85]))
      kid = node(2, False, depth + 1, True)
    else:
      kid = node(r, fixed and s == 'id', depth + 1, dyn)
    t['kids'] = {KEYS[s][0]: kid}
    if s == 'halves' and rng.random() < 0.5:
      t['kids']['part-2'] = leaf(r, False)
    return t
  return node(rank, True, 0)


class Unbiased(core.Scenario):
  """A crowd of clients holding one value: the mean of what arrives is it."""
  NAME = 'unbiased'

  def gen(self, rng, tier):
    rank = rng.choice([0, 1, 1, 1, 2, 2])
    cfg = dict(shape=[rng.randint(1, 6) for _ in range(rank)], dtype='float32',
               tree=gen_unbiased_tree(rng, rank), vec=rng.getrandbits(24),
               fn=rng.random() < 0.8, dseed=rng.getrandbits(20))
    ops = []
    for _ in range(rng.randint(2, 4)):
      ops.append(dict(op='crowd', n=rng.choice([60, 100, 150]),
                      lost=rng.choice([0.0, 0.0, 0.1, 0.4]),
                      dup=rng.choice([0.0, 0.2]), seed=rng.getrandbits(24)))
      if rng.random() < 0.3:
        ops.append(dict(op='restart'))
    return dict(cfg=cfg, ops=ops)

  def execute(self, plan, env):
    cfg = plan['cfg']
    tree = cfg['tree']
    style = dict(graph_ctor=False, fn=cfg['fn'])
    with env.lib('GatherEncoder'):
      c = Codec(cfg, style)
    x = np.random.RandomState(cfg['vec']).uniform(
        -0.99, 0.99, size=cfg['shape']).astype('float32')
    y, err, _ = ref_encode(tree, Val(x.astype('float64')), ref_init(tree),
                           eps_of(cfg))
    tot = np.zeros(cfg['shape'])
    n = 0
    for o in plan['ops']:
      env.op(o['op'])
      if o['op'] == 'restart':
        env.fault('crash_all_nodes')
        with env.lib('GatherEncoder'):
          c = Codec(cfg, style)
        continue
      r = core.rng_for(cfg['dseed'], o['seed'])
      with env.lib('get_params'):
        ep, bp, ap = c.params([])
      part, m = None, 0
      for i in range(o['n']):
        with env.lib('encode'):
          e, _ = c.encode(x, ep)
        if r.random() < o['lost']:
          env.fault('message_dropped')
          continue
        with env.lib('decode_before_sum'):
          p = c.before_sum({k: tf.constant(v) for k, v in e.items()}, bp)
        if r.random() < o['dup']:
          env.fault('message_duplicated')     # recognised and discarded
        part = p if part is None else add_parts(part, p)
        m += 1
      if not m:
        continue
      with env.lib('decode_after_sum'):
        s = c.after_sum(part, ap, m)
      env.check(s.shape == x.shape, 'wrong-shape', str(s.shape))
      tot += s
      n += m
      env.log_arrays('crowd', [s])
      env.state(m, tree['s'])
      if y is None or y.a is None:
        continue
      # Hoeffding: a mean of n independent zero-mean errors within +-err
      lim = err * 7.0 / np.sqrt(n) + 1e-4 * (1 + np.abs(x).max()) + 30 * n * \
          eps_of(cfg) / n
      d = float(np.abs(tot / n - x).max())
      env.check(d <= lim, 'biased',
                lambda: 'the mean of %d encodings of one value is %.4g away, '
                'at most %.4g is allowed for %s' % (n, d, lim, tree))
      env.probe('mean_checked')
