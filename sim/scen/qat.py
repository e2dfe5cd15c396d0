"""Simulated quantization-aware training jobs against a reference interpreter.

A job is a small graph of layers.  The reference knows nothing about layer
wrappers, registries or graph transformations: it takes the documented 8-bit
placement rules (what is quantized, where, with how many bits, which range
rule), runs the graph with plain TensorFlow ops and fake-quantization kernels,
keeps its own ranges and takes its own optimizer steps.  The job under test
must show the same variables after every simulated step and the same outputs
in inference.
"""
import contextlib

import numpy as np
import tensorflow as tf

import tensorflow_model_optimization as tfmot
from tensorflow_model_optimization.python.core.keras.compat import keras
from tensorflow_model_optimization.python.core.quantization.keras import quantize
from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.cluster_preserve import default_8bit_cluster_preserve_quantize_scheme as cp
from tensorflow_model_optimization.python.core.quantization.keras.collab_opts.prune_preserve import default_8bit_prune_preserve_quantize_scheme as pp
from tensorflow_model_optimization.python.core.quantization.keras.default_8bit import default_8bit_quantize_scheme as s8
from tensorflow_model_optimization.python.core.quantization.keras.experimental.default_n_bit import default_n_bit_quantize_scheme as sn

from sim import core
from sim import kit
from sim.scen import resume

L = keras.layers
f32 = np.float32

CONV = ('conv', 'dw')


class UserConfig(tfmot.quantization.keras.QuantizeConfig):
  """A quantization config a user wrote for one layer."""

  def __init__(self, wb=8, sym=True, narrow=True, per=False, ab=8, act=True,
               out=False):
    self.k = dict(wb=wb, sym=sym, narrow=narrow, per=per, ab=ab, act=act,
                  out=out)
    qs = tfmot.quantization.keras.quantizers
    self.wq = qs.LastValueQuantizer(num_bits=wb, per_axis=per, symmetric=sym,
                                    narrow_range=narrow)
    self.aq = qs.MovingAverageQuantizer(num_bits=ab, per_axis=False,
                                        symmetric=False, narrow_range=False)

  def get_weights_and_quantizers(self, layer):
    return [(layer.kernel, self.wq)]

  def get_activations_and_quantizers(self, layer):
    return [(layer.activation, self.aq)] if self.k['act'] else []

  def set_quantize_weights(self, layer, quantize_weights):
    layer.kernel = quantize_weights[0]

  def set_quantize_activations(self, layer, quantize_activations):
    if self.k['act']:
      layer.activation = quantize_activations[0]

  def get_output_quantizers(self, layer):
    return [self.aq] if self.k['out'] else []

  def get_config(self):
    return dict(self.k)


def scope():
  return quantize.quantize_scope({'UserConfig': UserConfig})
KERNEL = ('conv', 'dw', 'conv2dt', 'dense')


# ------------------------------------------------------------------ graphs
def mk_node(n):
  """The keras layer of one node."""
  t, k = n['t'], dict(name=n['n'])
  if n.get('frozen'):
    k['trainable'] = False
  if 'act' in n:
    k['activation'] = n['act']
  if 'bias' in n:
    k['use_bias'] = n['bias']
  if t == 'dense':
    return L.Dense(n['f'], **k)
  if t in ('conv', 'dw', 'conv2dt', 'sep2d'):
    k.update(padding=n['pad'], strides=n.get('st', 1))
    if n.get('dil', 1) > 1:
      k['dilation_rate'] = n['dil']
    if t == 'conv':
      return L.Conv2D(n['f'], n['k'], **k)
    if t == 'dw':
      return L.DepthwiseConv2D(n['k'], depth_multiplier=n.get('dm', 1), **k)
    if t == 'conv2dt':
      return L.Conv2DTranspose(n['f'], n['k'], **k)
    return L.SeparableConv2D(n['f'], n['k'], depth_multiplier=n.get('dm', 1),
                             **k)
  if t == 'sep1d':
    return L.SeparableConv1D(n['f'], n['k'], padding=n['pad'],
                             strides=n.get('st', 1), **k)
  if t == 'bn':
    return L.BatchNormalization(momentum=n.get('mom', 0.99), **k)
  if t == 'relu':
    return L.ReLU(max_value=n.get('max'), **k)
  if t == 'leaky':
    return L.LeakyReLU(**k)
  if t == 'softmax':
    return L.Softmax(**k)
  if t == 'actv':
    return L.Activation(n['a'], **k)
  if t == 'add':
    return L.Add(**k)
  if t == 'concat':
    return L.Concatenate(**k)
  if t == 'maxpool':
    return L.MaxPooling2D(2, strides=n.get('st', 1), padding='same', **k)
  if t == 'avgpool':
    return L.AveragePooling2D(2, strides=n.get('st', 1), padding='same', **k)
  if t == 'gap':
    return L.GlobalAveragePooling2D(**k)
  if t == 'gap1':
    return L.GlobalAveragePooling1D(**k)
  if t == 'flatten':
    return L.Flatten(**k)
  if t == 'drop':
    return L.Dropout(n.get('r', 0.0), **k)
  if t == 'up':
    return L.UpSampling2D(2, **k)
  if t == 'pad':
    return L.ZeroPadding2D(1, **k)
  raise KeyError(t)


def build_graph(g, name='m'):
  """keras functional model (Sequential when the graph is a plain chain and
  the document says so)."""
  ins = [L.Input(s, name='in%d' % i) for i, s in enumerate(g['inputs'])]
  if g.get('seq') and len(ins) == 1:
    return keras.Sequential(
        [L.InputLayer(g['inputs'][0], name='in0')]
        + [mk_node(n) for n in g['nodes']], name=name)
  val = {'in%d' % i: x for i, x in enumerate(ins)}
  lay = {}
  for n in g['nodes']:
    xs = [val[i] for i in n['i']]
    lay[n['n']] = lay[n['same']] if 'same' in n else mk_node(n)
    val[n['n']] = lay[n['n']](xs if len(xs) > 1 else xs[0])
  out = val[g['nodes'][-1]['n']]
  if g.get('outs'):
    out = [val[n] for n in g['outs']] + [out]
  return keras.Model(ins if len(ins) > 1 else ins[0], out, name=name)


class G:
  """Draws a graph node by node, tracking shapes."""

  def __init__(self, rng):
    self.rng = rng
    self.nodes = []
    self.shape = {}

  def add(self, t, ins, shape, **k):
    n = dict(n='n%d' % len(self.nodes), t=t,
             i=list(ins) if isinstance(ins, (list, tuple)) else [ins], **k)
    self.nodes.append(n)
    self.shape[n['n']] = list(shape)
    return n['n']

  def act(self):
    return self.rng.choice(['linear', 'linear', 'relu', 'relu', 'tanh',
                            'sigmoid', 'softmax', 'swish', 'gelu'])

  def conv(self, x, t=None, act=None, keep=False, f=None):
    """A convolution; keep=True keeps the spatial size."""
    rng = self.rng
    h, w, c = self.shape[x]
    t = t or rng.choice(['conv', 'conv', 'conv', 'dw', 'sep2d', 'conv2dt'])
    k = rng.randint(1, min(3, h, w))
    pad = 'same' if keep else rng.choice(['same', 'valid'])
    st = 1 if keep else rng.choice([1, 1, 1, 2])
    f = f or rng.randint(1, 4)
    a = dict(k=k, pad=pad, st=st, act=act or self.act(),
             bias=rng.random() < 0.75)
    if t != 'conv2dt' and st == 1 and pad == 'same' and rng.random() < 0.2:
      a['dil'] = 2
    if t == 'dw':
      a['dm'] = rng.choice([1, 1, 2])
      f = c * a['dm']
    if t == 'sep2d':
      a['dm'] = rng.choice([1, 1, 2])
    if t == 'conv2dt':
      if pad == 'same':
        oh, ow = h * st, w * st
      else:
        oh, ow = h * st + max(k - st, 0), w * st + max(k - st, 0)
    elif pad == 'same':
      oh, ow = -(-h // st), -(-w // st)
    else:
      oh, ow = (h - k) // st + 1, (w - k) // st + 1
    if t != 'dw':
      a['f'] = f
    return self.add(t, x, [oh, ow, f], **a)

  def tail(self, x):
    """What follows a convolution or dense layer."""
    rng = self.rng
    n = next(m for m in self.nodes if m['n'] == x)
    t = n['t']
    s = self.shape[x]
    if t in ('conv', 'dw', 'sep2d', 'dense', 'conv2dt') and (
        rng.random() < 0.45):
      n['act'] = 'linear'
      x = self.add('bn', x, s, mom=rng.choice([0.99, 0.9, 0.5]))
    r = rng.random()
    if r < 0.3:
      x = self.add('relu', x, s, max=rng.choice([None, None, 6.0]))
    elif r < 0.5:
      x = self.add('actv', x, s, a=rng.choice(['relu', 'relu', 'tanh',
                                              'swish', 'sigmoid', 'linear',
                                              'softmax']))
    elif r < 0.57:
      x = self.add('leaky', x, s)
    return x

  def misc(self, x):
    rng = self.rng
    h, w, c = self.shape[x]
    t = rng.choice(['maxpool', 'avgpool', 'pad', 'up', 'drop', 'actv', 'relu',
                    'leaky', 'softmax'])
    if t in ('maxpool', 'avgpool'):
      st = rng.choice([1, 2])
      return self.add(t, x, [-(-h // st), -(-w // st), c], st=st)
    if t == 'pad':
      return self.add(t, x, [h + 2, w + 2, c]) if h < 8 else x
    if t == 'up':
      return self.add(t, x, [h * 2, w * 2, c]) if h < 5 else x
    if t == 'actv':
      return self.add(t, x, [h, w, c], a=rng.choice(['relu', 'tanh', 'swish']))
    return self.add(t, x, [h, w, c])

  def residual(self, x):
    h, w, c = self.shape[x]
    y = self.conv(x, t=self.rng.choice(['conv', 'conv', 'sep2d']), keep=True,
                  f=c)
    if self.rng.random() < 0.5:
      y = self.tail(y)
    z = self.add('add', [y, x], [h, w, c])
    if self.rng.random() < 0.5:
      z = self.add('relu', z, [h, w, c])
    return z

  def concat(self, x):
    rng = self.rng
    h, w, _ = self.shape[x]
    k = rng.choice([2, 2, 3])
    bs = []
    for i in range(k):
      t = rng.choice(['conv', 'conv', 'convt', 'pool', 'maxpool'])
      if t == 'pool':
        bs.append(self.add('avgpool', x, self.shape[x], st=1))
      elif t == 'maxpool':
        bs.append(self.add('maxpool', x, self.shape[x], st=1))
      else:
        # at most one separable convolution: its parts have no stable name
        c = self.conv(x, t=rng.choice(['conv', 'dw'] + ['sep2d'] * (i == 0)),
                      keep=True)
        bs.append(self.tail(c) if t == 'convt' else c)
    x = self.add('concat', bs, [h, w, sum(self.shape[b][2] for b in bs)])
    if rng.random() < 0.2:
      x = self.add('relu', x, self.shape[x])
    return x


def gen_graph(rng):
  g = G(rng)
  fam = rng.choice(['cnn', 'cnn', 'cnn', 'mlp', 'mlp', 'cnn1d'])
  out = rng.randint(1, 3)
  inputs = []
  if fam == 'mlp':
    n_in = 2 if rng.random() < 0.15 else 1
    w = rng.randint(2, 6)
    for i in range(n_in):
      inputs.append([w])
      g.shape['in%d' % i] = [w]
    x = 'in0'
    if n_in == 2:
      t = rng.choice(['add', 'concat'])
      x = g.add(t, ['in0', 'in1'], [w if t == 'add' else 2 * w])
    elif rng.random() < 0.25:
      # the input feeds two parallel branches
      u = rng.randint(2, 4)
      a = g.add('dense', 'in0', [u], f=u, act=g.act(), bias=True)
      b = g.add('dense', 'in0', [u], f=u, act=g.act(), bias=True)
      if rng.random() < 0.5:
        a = g.tail(a)
      t = rng.choice(['add', 'concat'])
      x = g.add(t, [a, b], [u if t == 'add' else 2 * u])
    for _ in range(rng.randint(1, 3)):
      u = rng.randint(2, 6)
      x = g.add('dense', x, [u], f=u, act=g.act(), bias=rng.random() < 0.8)
      x = g.tail(x)
  elif fam == 'cnn':
    h = rng.randint(4, 5)
    s = [h, h, rng.randint(1, 3)]
    n_in = 2 if rng.random() < 0.12 else 1
    for i in range(n_in):
      inputs.append(s)
      g.shape['in%d' % i] = s
    x = 'in0'
    if n_in == 2:
      t = rng.choice(['add', 'concat'])
      x = g.add(t, ['in0', 'in1'], s[:2] + [s[2] * (2 if t == 'concat'
                                                   else 1)])
    for _ in range(rng.randint(1, 3)):
      r = rng.random()
      h = g.shape[x][0]
      if r < 0.5:
        x = g.tail(g.conv(x))
      elif r < 0.67:
        x = g.misc(x)
      elif r < 0.83 and x != 'in0':
        x = g.residual(x)
      elif h <= 8:
        x = g.concat(x)
    h, w, c = g.shape[x]
    if rng.random() < 0.5:
      x = g.add('gap', x, [c])
    else:
      x = g.add('flatten', x, [h * w * c])
  else:
    s = [rng.randint(4, 6), rng.randint(1, 3)]
    inputs.append(s)
    g.shape['in0'] = s
    k = rng.randint(1, 3)
    pad = rng.choice(['same', 'valid'])
    st = rng.choice([1, 1, 2])
    f = rng.randint(1, 3)
    ln = -(-s[0] // st) if pad == 'same' else (s[0] - k) // st + 1
    x = g.add('sep1d', 'in0', [ln, f], f=f, k=k, pad=pad, st=st, act=g.act(),
              bias=rng.random() < 0.7)
    if rng.random() < 0.5:
      g.nodes[-1]['act'] = 'linear'
      x = g.add('bn', x, [ln, f], mom=0.9)
      if rng.random() < 0.5:
        x = g.add('relu', x, [ln, f])
    x = (g.add('gap1', x, [f]) if rng.random() < 0.5
         else g.add('flatten', x, [ln * f]))
  # (a layer that feeds a batch normalization must be free to be fused)
  folded = {n['i'][0] for n in g.nodes if n['t'] == 'bn'}
  if fam == 'mlp' and rng.random() < 0.15:
    # one layer applied twice
    d = [n for n in g.nodes if n['t'] == 'dense' and n['n'] not in folded and
         g.shape[n['i'][0]] == g.shape[n['n']] == g.shape[x]]
    if d:
      n = rng.choice(d)
      x = g.add('dense', x, g.shape[x], same=n['n'],
                **{k: n[k] for k in ('f', 'act', 'bias')})
      g.nodes[-1]['act'] = n['act']
  x = g.add('dense', x, [out], f=out, act=rng.choice(
      ['linear', 'linear', 'softmax', 'sigmoid']), bias=True)
  d = dict(inputs=inputs, nodes=g.nodes, out=[out])
  if rng.random() < 0.2:
    c = [n['n'] for n in g.nodes[:-1] if n['t'] not in ('sep1d', 'flatten')
         and n['n'] not in folded]
    if c:
      d['outs'] = sorted(rng.sample(c, min(len(c), rng.choice([1, 1, 2]))))
      d['oshapes'] = [g.shape[n] for n in d['outs']]
  chain = 'outs' not in d and all(
      n['i'] == [p] and 'same' not in n for n, p in zip(
          g.nodes, ['in0'] + [m['n'] for m in g.nodes]))
  if chain and rng.random() < 0.4:
    d['seq'] = True
  return d


# -------------------------------------------------------------- the rules
def plan_quant(g, cfg):
  """Where the scheme quantizes: the documented rules, stated independently.

  Returns the list of primitive operations of the quantized graph, in
  topological order; each op carries its quantizers:
    qw   kernel quantizer    ('w': one range, 'wc': one per last-axis channel)
    pre / post               activation quantizers around op['act']
    qo   output quantizer
  """
  nodes = {n['n']: n for n in g['nodes']}
  cons = {}
  for n in g['nodes']:
    for i in n['i']:
      cons.setdefault(i, []).append(n['n'])
  for n in g.get('outs', []):
    cons.setdefault(n, []).append('out')
  shared = set()
  for n in g['nodes']:
    if 'same' in n:
      shared |= {n['n'], n['same']}
  ann = {n['n']: n.get('q', True) for n in g['nodes']}

  def is_relu(n):
    return n['t'] == 'relu' or (n['t'] == 'actv' and n['a'] == 'relu')

  def only(x):
    c = cons.get(x, [])
    if len(c) != 1 or c[0] == 'out' or shared & {x, c[0]}:
      return None
    return nodes[c[0]]

  last = g['nodes'][-1]['n']
  ann['out'] = False
  fused, bn_out, bn_none = set(), set(), set()
  noop = set()
  for n in g['nodes']:
    nm = n['n']
    nx = only(nm)
    if not ann[nm] or nx is None or not ann[nx['n']] or nm == last:
      continue
    if 'cc' in n:
      continue
    if n['t'] in ('conv', 'dw', 'dense', 'sep2d', 'sep1d', 'conv2dt') and (
        nx['t'] == 'bn' and n['act'] == 'linear'):
      fused.add(nm)
      r = only(nx['n'])
      if r is not None and ann[r['n']] and is_relu(r):
        bn_none.add(nx['n'])
      else:
        bn_out.add(nx['n'])
    elif n['t'] in ('conv', 'dw', 'dense', 'add', 'sep2d', 'conv2dt') and (
        is_relu(nx)):
      noop.add(nm)

  ACT_OUT = ('relu', 'swish', 'gelu') if cfg['scheme'] != 'nbit' else (
      'relu', 'swish')
  outq = set()
  for n in g['nodes']:
    t, nm = n['t'], n['n']
    if not ann[nm]:
      continue
    if t in ('relu', 'leaky', 'add', 'concat', 'avgpool', 'gap', 'gap1', 'up'):
      outq.add(nm)
    elif t == 'actv' and n['a'] in ACT_OUT:
      outq.add(nm)
    elif t == 'bn' and nm in bn_out:
      outq.add(nm)
    elif n.get('cc') and n['cc']['out']:
      outq.add(nm)

  # inputs
  qin = {'in%d' % i: any(ann[c] for c in cons.get('in%d' % i, []))
         for i in range(len(g['inputs']))}
  qin_on = dict(qin)

  # concatenation quantizes once, after joining
  for n in g['nodes']:
    if n['t'] != 'concat' or not ann[n['n']] or len(n['i']) > 6:
      continue
    feeds = n['i']
    if any(len(cons[f]) != 1 or f in shared for f in feeds):
      continue
    if any(not (qin[f] if f in qin else ann[f]) for f in feeds):
      continue
    def known(f):
      if f in qin:
        return cfg['scheme'] != 'nbit'
      if nodes[f]['t'] == 'bn':
        return f in bn_out | bn_none
      return nodes[f]['t'] != 'sep1d'
    if not all(known(f) for f in feeds):
      continue
    for f in feeds:
      if f in qin:
        qin_on[f] = False
      outq.discard(f)
  noop_out = noop

  # the layer in front of a quantized layer still quantizes its output
  only_out = set()
  for n in g['nodes']:
    if ann[n['n']] and len(n['i']) == 1 and n['i'][0] in nodes:
      p = n['i'][0]
      if not ann[p] and nodes[p]['t'] not in ('bn', 'sep2d', 'sep1d'):
        only_out.add(p)

  ops = []
  wc = 'w' if cfg['scheme'] == '8bit_pt' or cfg.get('pt') else 'wc'

  def actq(o, act):
    o['act'] = act
    if act in ('softmax', 'sigmoid', 'tanh', 'gelu'):
      o['pre'] = True
    if act in ('linear', 'relu', 'swish', 'gelu'):
      o['post'] = True

  where = {}
  for i in range(len(g['inputs'])):
    x = 'in%d' % i
    where[x] = x
    if qin[x]:
      ops.append(dict(op='quant', id='q_' + x, i=[x], on=qin_on[x]))
      where[x] = 'q_' + x
  for n in g['nodes']:
    t, nm = n['t'], n['n']
    o = dict(op=t, id=nm, i=[where[i] for i in n['i']], node=nm,
             wrapped=ann[nm])
    where[nm] = nm
    if 'same' in n:
      o['vid'] = n['same']
    if t in ('sep2d', 'sep1d') and not ann[nm]:
      o['act'] = n['act']
      ops.append(o)
      continue
    if t in ('sep2d', 'sep1d'):
      src = o['i']
      if t == 'sep1d':
        ops.append(dict(op='expand', id=nm + '_e', i=src, node=nm))
        src = [nm + '_e']
      d = dict(op='dw', id=nm + '_d', i=src, node=nm, part='d', qw=wc,
               wrapped=True)
      actq(d, 'linear')
      ops.append(d)
      p = dict(op='conv', id=nm + '_p', i=[nm + '_d'], node=nm, part='p',
               wrapped=True)
      ops.append(p)
      where[nm] = nm + '_p'
      if nm in noop:
        p['act'] = n['act']
      else:
        p['qw'] = wc
        if nm in fused:
          p['act'] = 'linear'
        else:
          actq(p, n['act'])
      if t == 'sep1d':
        ops.append(dict(op='squeeze', id=nm + '_s', i=[nm + '_p'], node=nm))
        where[nm] = nm + '_s'
      continue
    if t in KERNEL:
      o['act'] = n['act']
      if nm in only_out:
        o['wrapped'] = True
        actq(o, n['act'])
      elif ann[nm] and 'cc' in n:
        c = o['cc'] = n['cc']
        o['qw'] = 'wc' if c['per'] else 'w'
        if c['act']:
          actq(o, n['act'])
        else:
          o['act'] = n['act']
        if nm in outq:
          o['qo'] = True
      elif ann[nm] and nm not in noop_out:
        o['qw'] = wc if t in CONV else 'w'
        if nm not in fused:
          actq(o, n['act'])
    elif nm in only_out and t in ('relu', 'leaky', 'add', 'concat', 'avgpool',
                                  'gap', 'gap1', 'up'):
      o['wrapped'] = o['qo'] = True
    elif nm in only_out and t == 'actv':
      o['wrapped'] = True
      o['qo'] = n['a'] in ACT_OUT
    elif nm in only_out:
      o['wrapped'] = True
    elif nm in outq and nm not in noop:
      o['qo'] = True
    ops.append(o)
  return ops


# -------------------------------------------------------------- reference
def _fq(x, lo, hi, bits, narrow):
  if len(lo.shape):
    return tf.quantization.fake_quant_with_min_max_vars_per_channel(
        x, lo, hi, num_bits=bits, narrow_range=narrow)
  return tf.quantization.fake_quant_with_min_max_vars(
      x, lo, hi, num_bits=bits, narrow_range=narrow)


ACT = {
    'linear': lambda x: x, 'relu': tf.nn.relu, 'tanh': tf.math.tanh,
    'sigmoid': tf.math.sigmoid, 'softmax': tf.nn.softmax,
    'swish': tf.nn.silu, 'gelu': lambda x: tf.nn.gelu(x, False),
}


def mse(out, y):
  if isinstance(y, list):
    return tf.add_n([mse(a, b) for a, b in zip(out, y)])
  return tf.reduce_mean(tf.reduce_mean(tf.square(out - y), -1))


class Ref:
  """Executable specification of one quantization-aware training job."""

  def __init__(self, g, cfg):
    self.g, self.cfg = g, cfg
    self.nodes = {n['n']: n for n in g['nodes']}
    self.ops = plan_quant(g, cfg)
    self.bw, self.ba = cfg['bits']
    self.frozen = set(n['n'] for n in g['nodes'] if n.get('frozen'))
    self.v = {}              # 'op/name' -> tf.Variable
    self.fixed = {}          # op id -> (lo, hi, bits, narrow)
    for o in self.ops:
      if o['op'] == 'quant' and o['on']:
        self._rng(o['id'] + '/in', 0.0, 0.0)
      for q in ('pre', 'post', 'qo'):
        if o.get(q) and 'vid' not in o:
          self._rng(o['id'] + '/' + q, -6.0, 6.0)
    self.opt = None
    self.margin = None

  def _rng(self, key, lo, hi, shape=()):
    self.v[key + '_min'] = tf.Variable(tf.fill(shape, f32(lo)),
                                       trainable=False)
    self.v[key + '_max'] = tf.Variable(tf.fill(shape, f32(hi)),
                                       trainable=False)

  def weights_from(self, base):
    """Takes the pre-trained weights of the user's own model."""
    for o in self.ops:
      if 'node' not in o or o['op'] in ('expand', 'squeeze') or 'vid' in o:
        continue
      n = self.nodes[o['node']]
      if n['t'] not in KERNEL + ('bn', 'sep2d', 'sep1d'):
        continue
      ws = {w.name.split('/')[-1].split(':')[0]: w.numpy()
            for w in base.get_layer(o['node']).weights}
      if n['t'] in ('sep2d', 'sep1d'):
        dk, pk = ws['depthwise_kernel'], ws['pointwise_kernel']
        if n['t'] == 'sep1d':
          dk, pk = dk[None], pk[None]
        part = o.get('part')
        if part == 'd':
          ws = {'depthwise_kernel': dk}
        elif part == 'p':
          ws = dict(kernel=pk, **({'bias': ws['bias']} if n['bias'] else {}))
      order = {'gamma': 0, 'beta': 1, 'depthwise_kernel': 0, 'kernel': 0,
               'pointwise_kernel': 1, 'bias': 2}
      for k in sorted(ws, key=lambda k: order.get(k, 9)):
        self.v[o['id'] + '/' + k] = tf.Variable(
            ws[k], trainable=not k.startswith('moving'))
      if o.get('qw'):
        kern = ws.get('depthwise_kernel', ws.get('kernel'))
        self._rng(o['id'] + '/w', -6.0, 6.0,
                  (kern.shape[-1],) if o['qw'] == 'wc' else ())

  def trainable(self):
    out = []
    for o in self.ops:
      if o.get('node') in self.frozen:
        continue
      out += [v for k, v in self.v.items()
              if k.rsplit('/', 1)[0] == o['id'] and v.trainable]
    return out

  # -- quantizers
  def _note(self, y, lo, hi, bits, narrow):
    """How close any value comes to a rounding boundary (in quanta)."""
    if self.margin is None:
      return
    lo, hi = float(lo), float(hi)
    if hi <= lo:
      return
    qmin, qmax = (1 if narrow else 0), 2**bits - 1
    scale = (hi - lo) / (qmax - qmin)
    zp = round(min(max(qmin - lo / scale, qmin), qmax))
    a = np.asarray(y, dtype='float64') / scale + zp
    d = np.abs(np.abs(a - np.floor(a)) - 0.5)
    edge = np.minimum(np.abs(a - qmin), np.abs(a - qmax))
    d = np.where((a < qmin - 1) | (a > qmax + 1), 1.0, d)
    if d.size:
      self.margin = min(self.margin, float(d.min()), float(edge.min()))

  def _ema(self, key, x, training, bits):
    lo, hi = self.v[key + '_min'], self.v[key + '_max']
    if training:
      bl = tf.minimum(tf.reduce_min(x), 0.0)
      bh = tf.maximum(tf.reduce_max(x), 0.0)
      k = tf.constant(1.0 - 0.999, tf.float32)
      lo.assign_sub((lo - bl) * k)
      hi.assign_sub((hi - bh) * k)
    self._note(x, lo, hi, bits, False)
    return _fq(x, lo.value(), hi.value(), bits, False)

  def _all(self, key, x, training):
    lo, hi = self.v[key + '_min'], self.v[key + '_max']
    if training:
      lo.assign(tf.minimum(tf.minimum(lo, tf.reduce_min(x)), 0.0))
      hi.assign(tf.maximum(tf.maximum(hi, tf.reduce_max(x)), 0.0))
    return _fq(x, lo.value(), hi.value(), self.ba, False)

  def _last(self, key, w, how, training, cc=None):
    lo, hi = self.v[key + '_min'], self.v[key + '_max']
    cc = cc or dict(wb=self.bw, sym=True, narrow=True)
    if training:
      ax = list(range(len(w.shape) - 1)) if how == 'wc' else None
      bl, bh = tf.reduce_min(w, axis=ax), tf.reduce_max(w, axis=ax)
      if cc['sym']:
        # the negative side has one value more unless the range is narrow
        q = 1.0 if cc['narrow'] else (2**cc['wb'] - 2) / 2**cc['wb']
        nl, nh = tf.minimum(bl, -bh / q), tf.maximum(bh, -bl * q)
      else:
        nl, nh = tf.minimum(bl, 0.0), tf.maximum(bh, 0.0)
      lo.assign(nl)
      hi.assign(nh)
    return _fq(w, lo.value(), hi.value(), cc['wb'], cc['narrow'])

  def _act_q(self, o, which, x, training):
    if not o.get(which):
      return x
    fx = self.fixed.get(o['id'])
    if fx:
      lo, hi, bits, narrow = fx
      self._note(x, lo, hi, bits, narrow)
      return tf.quantization.fake_quant_with_min_max_args(
          x, lo, hi, bits, narrow)
    return self._ema(o.get('vid', o['id']) + '/' + which, x, training,
                     o['cc']['ab'] if 'cc' in o else self.ba)

  # -- graph
  def forward(self, xs, training):
    val = {'in%d' % i: tf.convert_to_tensor(x) for i, x in enumerate(xs)}
    for o in self.ops:
      x = val[o['i'][0]]
      t = o['op']
      n = self.nodes.get(o.get('node'), {})
      if t == 'quant':
        fx = self.fixed.get(o['id'])
        if fx:
          lo, hi, bits, narrow = fx
          y = tf.quantization.fake_quant_with_min_max_args(
              x, lo, hi, bits, narrow)
        elif o['on']:
          y = self._all(o['id'] + '/in', x, training)
        else:
          y = x
      elif t in KERNEL + ('sep2d', 'sep1d'):
        y = self._kernel_op(o, n, x, training)
      elif t == 'expand':
        y = tf.expand_dims(x, 1)
      elif t == 'squeeze':
        y = tf.squeeze(x, [1])
      elif t == 'bn':
        y = self._bn(o, n, x, training and o['node'] not in self.frozen)
      elif t == 'relu':
        y = tf.nn.relu(x)
        if n.get('max') is not None:
          y = tf.nn.relu6(x)
      elif t == 'leaky':
        y = tf.nn.leaky_relu(x, 0.3)
      elif t == 'softmax':
        y = tf.nn.softmax(x)
      elif t == 'actv':
        y = ACT[n['a']](x)
      elif t == 'add':
        y = x
        for i in o['i'][1:]:
          y = y + val[i]
      elif t == 'concat':
        y = tf.concat([val[i] for i in o['i']], -1)
      elif t == 'maxpool':
        y = tf.nn.max_pool2d(x, 2, n.get('st', 1), 'SAME')
      elif t == 'avgpool':
        y = tf.nn.avg_pool2d(x, 2, n.get('st', 1), 'SAME')
      elif t == 'gap':
        y = tf.reduce_mean(x, [1, 2])
      elif t == 'gap1':
        y = tf.reduce_mean(x, [1])
      elif t == 'flatten':
        y = tf.reshape(x, [x.shape[0], -1])
      elif t == 'drop':
        y = x
      elif t == 'up':
        y = tf.repeat(tf.repeat(x, 2, 1), 2, 2)
      elif t == 'pad':
        y = tf.pad(x, [[0, 0], [1, 1], [1, 1], [0, 0]])
      else:
        raise KeyError(t)
      if o.get('qo'):
        y = self._act_q(o, 'qo', y, training)
      val[o['id']] = y
    out = val[self.ops[-1]['id']]
    if self.g.get('outs'):
      return [val[self.served(n)] for n in self.g['outs']] + [out]
    return out

  def served(self, n):
    """The operation whose value a node of the user's model stands for."""
    return [o['id'] for o in self.ops if o.get('node') == n][-1]

  def _kernel_op(self, o, n, x, training):
    t, i = o['op'], o.get('vid', o['id'])
    v = lambda k: self.v.get(i + '/' + k)
    kern = v('depthwise_kernel') if t == 'dw' else v('kernel')
    if kern is not None:
      kern = kern.value()
      if o.get('qw'):
        kern = self.preserve(o, i, kern, training)
        kern = self._last(i + '/w', kern, o['qw'], training, o.get('cc'))
    pad = n.get('pad', 'same').upper()
    st = n.get('st', 1)
    dil = n.get('dil', 1)
    if t == 'dense':
      y = tf.matmul(x, kern)
    elif t == 'conv':
      if o.get('part') == 'p':
        y = tf.nn.conv2d(x, kern, 1, 'VALID')
      else:
        y = tf.nn.convolution(x, kern, st, pad, dilations=dil)
    elif t == 'dw':
      d2 = [1, dil] if n['t'] == 'sep1d' else [dil, dil]
      y = tf.nn.depthwise_conv2d(x, kern, [1, st, st, 1], pad, dilations=d2)
    elif t == 'conv2dt':
      b, h, w, _ = x.shape
      k = n['k']
      f = (lambda a: a * st) if pad == 'SAME' else (
          lambda a: a * st + max(k - st, 0))
      y = tf.nn.conv2d_transpose(x, kern, [b, f(h), f(w), n['f']], st, pad)
    elif t == 'sep2d':
      y = tf.nn.separable_conv2d(x, v('depthwise_kernel').value(),
                                 v('pointwise_kernel').value(),
                                 [1, st, st, 1], pad, dilations=[dil, dil])
    elif t == 'sep1d':
      y = tf.squeeze(tf.nn.separable_conv2d(
          tf.expand_dims(x, 1), v('depthwise_kernel').value()[None],
          v('pointwise_kernel').value()[None], [1, st, st, 1], pad), [1])
    if v('bias') is not None:
      y = tf.nn.bias_add(y, v('bias').value())
    act = o.get('act', 'linear')
    y = self._act_q(o, 'pre', y, training)
    y = ACT[act](y)
    return self._act_q(o, 'post', y, training)

  def preserve(self, o, i, kern, training):
    """What happens to a kernel before it is quantized."""
    return kern

  def _bn(self, o, n, x, training):
    v = lambda k: self.v[o['id'] + '/' + k]
    mom, eps = n.get('mom', 0.99), 1e-3
    if len(x.shape) == 4:
      if training:
        y, m, va = tf.compat.v1.nn.fused_batch_norm(
            x, v('gamma').value(), v('beta').value(), epsilon=eps,
            is_training=True)
      else:
        y, m, va = tf.compat.v1.nn.fused_batch_norm(
            x, v('gamma').value(), v('beta').value(),
            mean=v('moving_mean').value(), variance=v('moving_variance').value(),
            epsilon=eps, is_training=False)
    else:
      if training:
        m, va = tf.nn.moments(x, list(range(len(x.shape) - 1)))
      else:
        m, va = v('moving_mean').value(), v('moving_variance').value()
      y = tf.nn.batch_normalization(x, m, va, v('beta').value(),
                                    v('gamma').value(), eps)
    if training:
      k = tf.constant(1.0 - mom, tf.float32)
      for name, new in (('moving_mean', m), ('moving_variance', va)):
        w = v(name)
        w.assign_sub((w - new) * k)
    return y

  # -- training
  def compile(self, opt):
    self.opt = kit.mk_opt(opt)
    tv = self.trainable()
    if tv:
      self.opt.build(tv)

  def step(self, xs, y):
    tv = self.trainable()
    with tf.GradientTape() as tape:
      loss = mse(self.forward(xs, True), y)
    gr = tape.gradient(loss, tv)
    self.opt.apply_gradients([(a, b) for a, b in zip(gr, tv)])
    return float(loss)


# ------------------------------------------------------- the job under test
def scheme_of(cfg):
  k = cfg['scheme']
  if cfg.get('collab') == 'pqat':
    return pp.Default8BitPrunePreserveQuantizeScheme()
  if cfg.get('collab'):
    return cp.Default8BitClusterPreserveQuantizeScheme(
        preserve_sparsity=cfg['collab'] == 'pcqat')
  if k == '8bit':
    return s8.Default8BitQuantizeScheme()
  if k == '8bit_pt':
    return s8.Default8BitQuantizeScheme(disable_per_axis=True)
  return sn.DefaultNBitQuantizeScheme(
      disable_per_axis=bool(cfg.get('pt')), num_bits_weight=cfg['bits'][0],
      num_bits_activation=cfg['bits'][1])


def annotate(g, base):
  cc = {n['n']: n['cc'] for n in g['nodes'] if 'cc' in n}
  if all(n.get('q', True) for n in g['nodes']) and not cc:
    return quantize.quantize_annotate_model(base)
  q = {n['n'] for n in g['nodes'] if n.get('q', True)}

  def fn(layer):
    if layer.name in cc:
      return quantize.quantize_annotate_layer(layer,
                                              UserConfig(**cc[layer.name]))
    if layer.name in q:
      return quantize.quantize_annotate_layer(layer)
    return layer
  m = keras.models.clone_model(base, clone_function=fn)
  return m


def quantize_job(cfg, base):
  g = cfg['graph']
  if cfg['how'] == 'model':
    m = quantize.quantize_model(base)
  else:
    with scope():
      m = quantize.quantize_apply(annotate(g, base), scheme_of(cfg))
  if cfg.get('fixed'):
    fx = cfg['fixed']
    vals = None
    with scope():
      m = quantize.fix_input_output_range(
          m, num_bits=fx['bits'], input_min=fx['in'][0],
          input_max=fx['in'][1], output_min=fx['out'][0],
          output_max=fx['out'][1], narrow_range=fx['narrow'])
  return m


def kl_name(l):
  return l.__class__.__name__


CLS = {'dense': 'Dense', 'conv': 'Conv2D', 'dw': 'DepthwiseConv2D',
       'conv2dt': 'Conv2DTranspose'}


def map_layers(env, ref, model):
  """op id -> layer of the job, following the graph."""
  in_net = getattr(model, '_network_nodes', None)

  def inbound(l):
    # a layer object may also sit in the user's own graph: follow this one
    out = []
    for i, node in enumerate(l._inbound_nodes):
      if in_net is None or '%s_ib-%d' % (l.name, i) in in_net:
        out.append([(a, j) for a, j, _, _ in node.iterate_inbound()]
                   if in_net is not None else
                   [(a, 0) for a in tf.nest.flatten(node.inbound_layers)])
    return [(l, i, b) for i, b in zip(nodes_of(l), out)]

  def nodes_of(l):
    return [i for i, _ in enumerate(l._inbound_nodes)
            if in_net is None or '%s_ib-%d' % (l.name, i) in in_net]
  layers = [l for l in model.layers if kl_name(l) != 'InputLayer']
  ins = {}
  for l in model.layers:
    if kl_name(l) == 'InputLayer':
      ins[l.name] = l
  if isinstance(model, keras.Sequential):
    ins = {'in0': inbound(model.layers[0])[0][2][0][0]}
  got = {k: (l, nodes_of(l)[0] if in_net is not None else 0)
         for k, l in ins.items()}
  used = set()
  own = [o for o in ref.ops if 'vid' not in o]
  env.check(len(layers) == len(own), 'structure',
            lambda: '%d layers, the scheme has %d: %s vs %s' % (
                len(layers), len(own), [l.name for l in layers],
                [o['id'] for o in ref.ops]))
  for o in ref.ops:
    want = [got[i] for i in o['i']]
    hit = []
    for l, i, b in [c for l in layers for c in inbound(l)]:
      if (id(l), i) in used:
        continue
      if len(b) != len(want) or any(p is not q or j != k for (p, j), (q, k)
                                    in zip(b, want)):
        continue
      if in_net is None:
        i = 0
      inner = l.layer if hasattr(l, 'layer') else l
      if o['op'] == 'quant':
        ok = kl_name(l) == 'QuantizeLayer'
      elif o.get('part'):
        ok = kl_name(inner) == CLS[o['op']] and inner.name not in ref.nodes
      elif o['op'] in ('expand', 'squeeze'):
        ok = not inner.weights and inner.name not in ref.nodes
      else:
        ok = inner.name == o.get('vid', o['node'])
      if ok:
        hit.append((l, i))
    env.check(len(hit) == 1, 'structure',
              lambda: 'no layer of the job corresponds to %s (%s); layers %s' %
              (o['id'], o['op'], [l.name for l in layers]))
    got[o['id']] = hit[0]
    used.add((id(hit[0][0]), hit[0][1]))
    isw = hasattr(hit[0][0], 'quantize_config')
    env.check(o['op'] in ('quant', 'expand', 'squeeze')
              or isw == bool(o.get('wrapped')), 'structure',
              lambda: '%s wrapped=%s, expected %s' % (o['id'], isw,
                                                      o.get('wrapped')))
  return {k: l for k, (l, _) in got.items()}


def short(v):
  return v.name.split('/')[-1].split(':')[0]


def map_vars(env, ref, model):
  """reference variable key -> variable of the job."""
  lay = map_layers(env, ref, model)
  out = {}
  for o in ref.ops:
    if 'vid' in o:
      continue
    l = lay[o['id']]
    pool = {}
    for v in l.weights:
      pool.setdefault(short(v), v)
    mine = [k for k in ref.v if k.rsplit('/', 1)[0] == o['id']]
    exp = {}
    for k in mine:
      s = k.rsplit('/', 1)[1]
      for side in ('_min', '_max'):
        if s == 'in' + side:
          s2 = l.name + side
        elif s == 'w' + side:
          s2 = ('depthwise_kernel' if o['op'] == 'dw' else 'kernel') + side
        elif s == 'pre' + side:
          s2 = 'pre_activation' + side
        elif s == 'post' + side:
          s2 = 'post_activation' + side
        elif s == 'qo' + side:
          s2 = 'output' + side
        else:
          continue
        break
      else:
        s2 = s
      exp[k] = s2
    have = set(pool) - {'optimizer_step'}
    env.check(have == set(exp.values()), 'structure',
              lambda: '%s owns variables %s, the scheme gives it %s' % (
                  o['id'], sorted(have), sorted(exp.values())))
    for k, s2 in exp.items():
      out[k] = pool[s2]
  return out


class Watch(keras.callbacks.Callback):

  def __init__(self, fn, interrupt_at=None):
    super().__init__()
    self.fn, self.n, self.stop = fn, 0, interrupt_at

  def on_train_batch_end(self, batch, logs=None):
    self.fn(self.n, (logs or {}).get('loss'))
    self.n += 1
    if self.stop is not None and self.n >= self.stop:
      raise core.SimulatedInterrupt()


def shared(g, n):
  return 'same' in n or any(m.get('same') == n['n'] for m in g['nodes'])


def flat(out):
  """All outputs of a model, side by side."""
  return np.concatenate([np.asarray(o).ravel() for o in
                         (out if isinstance(out, list) else [out])])


def targets(r, g, b):
  ys = [r.standard_normal([b] + s).astype('float32')
        for s in g.get('oshapes', []) + [g['out']]]
  return ys if len(ys) > 1 else ys[0]


def copy_slots(src, dst, pairs):
  """Copies the optimizer's memory of every variable pair."""
  si, di = getattr(src, '_index_dict', {}), getattr(dst, '_index_dict', {})
  dst.iterations.assign(src.iterations)
  for name, a in vars(src).items():
    b = getattr(dst, name, None)
    if not (isinstance(a, list) and isinstance(b, list) and a and b
            and all(isinstance(v, tf.Variable) for v in a)) or (
                name in ('_variables', '_trainable_variables')):
      continue
    for v, w in pairs:
      i, j = si.get(src._var_key(v)), di.get(dst._var_key(w))
      if i is not None and j is not None and i < len(a) and j < len(b):
        b[j].assign(a[i])


class QatHistory(core.Scenario):
  """Any history of training and inference of a quantization-aware job."""
  NAME = 'qat:history'
  REF = Ref

  def prepare(self, cfg, base):
    """Gives the pre-trained model its weights' structure."""

  def after(self, env, ref, model, mv, where):
    """Invariants that hold between any two operations."""

  def gen_cfg(self, rng, tier):
    g = gen_graph(rng)
    cfg = dict(graph=g, wseed=rng.getrandbits(24), scale=rng.choice(
        [0.3, 0.7, 0.7, 2.0]))
    r = rng.random()
    cfg['scheme'], cfg['bits'], cfg['how'] = '8bit', [8, 8], 'model'
    if r < 0.25:
      cfg['scheme'] = 'nbit'
      cfg['bits'] = [rng.choice([3, 4, 8]), rng.choice([4, 5, 8])]
      cfg['pt'] = rng.random() < 0.3
      cfg['how'] = 'apply'
    elif r < 0.4:
      cfg['scheme'] = '8bit_pt'
      cfg['how'] = 'apply'
    elif r < 0.5:
      cfg['how'] = 'apply'
    if cfg['how'] == 'apply' and rng.random() < 0.5:
      nodes = {n['n']: n for n in g['nodes']}
      for n in g['nodes']:
        if rng.random() < 0.35 and not shared(g, n):
          n['q'] = False
      for n in g['nodes']:
        if n['t'] == 'bn':
          p = nodes[n['i'][0]]
          n['q'] = p.get('q', True)
      if not any(n.get('q', True) for n in g['nodes']):
        for n in g['nodes']:
          n.pop('q', None)
    if cfg['how'] == 'apply' and rng.random() < 0.5:
      before_bn = {n['i'][0] for n in g['nodes'] if n['t'] == 'bn'}
      for n in g['nodes']:
        if (n['t'] in ('dense', 'conv') and n.get('q', True)
            and n['n'] not in before_bn and rng.random() < 0.4
            and not shared(g, n)):
          n['cc'] = dict(wb=rng.choice([3, 4, 6, 8]), sym=rng.random() < 0.6,
                         narrow=rng.random() < 0.5, per=rng.random() < 0.3,
                         ab=rng.choice([4, 6, 8]), act=rng.random() < 0.7,
                         out=rng.random() < 0.3)
    if rng.random() < 0.15:
      for n in g['nodes']:
        if (n['t'] in KERNEL + ('bn', 'sep2d') and rng.random() < 0.4
            and not shared(g, n)):
          n['frozen'] = True
    if rng.random() < 0.12 and not g.get('outs') and all(
        n.get('q', True) and 'cc' not in n for n in g['nodes']) \
        and g['nodes'][-1].get('act') is not None:
      cfg['fixed'] = dict(bits=rng.choice([4, 8, 8]),
                          narrow=rng.random() < 0.3)
      cfg['fixed']['in'] = rng.choice([[0.0, 1.0], [-3.0, 3.0], [-1.5, 4.0]])
      cfg['fixed']['out'] = rng.choice([[-1.0, 1.0], [0.0, 1.0], [-4.0, 2.0]])
    cfg['eager'] = rng.random() < 0.85
    cfg['opt'] = kit.gen_opt(rng)
    cfg['bs'] = rng.randint(2, 4)
    return cfg

  def gen(self, rng, tier):
    cfg = self.gen_cfg(rng, tier)
    ops = []
    for _ in range(rng.randint(3, 6 if tier == 'quick' else 10)):
      k = core.weighted(rng, [('fit', 4), ('tob', 2), ('loop', 1.5),
                              ('calib', 1), ('eval', 1.5), ('predict', 1.5),
                              ('call', 1), ('recompile', 0.7), ('freeze', 0.7),
                              ('shift', 0.7), ('reset', 0.3)])
      o = dict(op=k, dseed=rng.getrandbits(20))
      if k == 'fit':
        o['n'] = rng.randint(1, 4)
        o['e'] = rng.choice([1, 1, 2])
        if rng.random() < 0.2:
          o['stop'] = rng.randint(1, o['n'] * o['e'])
        if rng.random() < 0.3:
          o['val'] = True
        if rng.random() < 0.3:
          o['ragged'] = 1
      if k == 'freeze':
        c = [n['n'] for n in cfg['graph']['nodes']
             if n['t'] in KERNEL + ('bn',) and not shared(cfg['graph'], n)]
        o['node'] = rng.choice(c)
        o['to'] = rng.random() < 0.4      # trainable?
      if k == 'recompile':
        o['opt'] = kit.gen_opt(rng)
      if k == 'shift':
        o['mul'] = rng.choice([0.01, 0.2, 3.0, 20.0])
        o['add'] = rng.choice([0.0, 5.0, -5.0])
      ops.append(o)
    ops.append(dict(op='predict', dseed=1))
    return dict(cfg=cfg, ops=ops)

  def simplify(self, plan):
    c = plan['cfg']
    if not c['eager']:
      p = core.clone(plan)
      p['cfg']['eager'] = True
      yield p
    if c['opt']['k'] != 'sgd':
      p = core.clone(plan)
      p['cfg']['opt'] = dict(k='sgd', lr=0.05)
      yield p
    if c.get('fixed'):
      p = core.clone(plan)
      del p['cfg']['fixed']
      yield p
    for i, o in enumerate(plan['ops']):
      if o.get('n', 1) > 1:
        p = core.clone(plan)
        p['ops'][i]['n'] = 1
        yield p
      for k in ('val', 'stop', 'ragged'):
        if k in o:
          p = core.clone(plan)
          del p['ops'][i][k]
          yield p
    g = c['graph']
    if g.get('outs'):
      p = core.clone(plan)
      del p['cfg']['graph']['outs'], p['cfg']['graph']['oshapes']
      yield p
    for i, n in enumerate(g['nodes'][:-1]):
      # drop a node whose output can be replaced by its input
      if n['n'] not in g.get('outs', []) and n['t'] in ('relu', 'leaky', 'actv', 'softmax', 'drop', 'bn'):
        p = core.clone(plan)
        nodes = p['cfg']['graph']['nodes']
        del nodes[i]
        for m in nodes:
          m['i'] = [n['i'][0] if x == n['n'] else x for x in m['i']]
        p['ops'] = [o for o in p['ops'] if o.get('node') != n['n']]
        yield p
      for k in ('frozen', 'dil', 'cc'):
        if k in n:
          p = core.clone(plan)
          del p['cfg']['graph']['nodes'][i][k]
          yield p

  def data(self, cfg, n, seed, ragged=None):
    r = np.random.RandomState(seed)
    out = []
    for i in range(n):
      b = ragged if (ragged and i == n - 1) else cfg['bs']
      xs = [(r.standard_normal([b] + s) * self.mul + self.off).astype('float32')
            for s in cfg['graph']['inputs']]
      y = targets(r, cfg['graph'], b)
      out.append((xs if len(xs) > 1 else xs[0], y))
    return out

  @staticmethod
  def xs(x):
    return x if isinstance(x, list) else [x]

  def execute(self, plan, env):
    cfg = plan['cfg']
    g = cfg['graph']
    self.mul, self.off = 1.0, 0.0
    with env.lib('build'):
      base = build_graph(g)
      kit.init_weights(base, cfg['wseed'], scale=cfg['scale'])
      self.prepare(cfg, base)
    ref = self.REF(g, cfg)
    ref.weights_from(base)
    before = [(w.name, w.numpy()) for w in base.weights]
    with env.lib('quantize'):
      model = quantize_job(cfg, base)
    for (n, a), w in zip(before, base.weights):
      env.check(np.array_equal(a, w.numpy()), 'original-modified', n)
    if cfg.get('fixed'):
      fx = cfg['fixed']
      self.apply_fixed(ref, fx)
    mv = map_vars(env, ref, model)
    if cfg.get('fixed'):
      # this API builds a new, untrained model: give it the weights
      for k, v in mv.items():
        v.assign(ref.v[k])
    self.same_vars(env, ref, mv, 'conversion', exact=True)
    with env.lib('compile'):
      kit.compile_model(model, cfg['opt'], cfg['eager'])
    ref.compile(cfg['opt'])
    self.strict = cfg['eager']
    for oi, o in enumerate(plan['ops']):
      env.op(o['op'])
      self.run_op(env, cfg, ref, model, mv, o, oi)
      self.after(env, ref, model, mv, 'operation %d (%s)' % (oi, o['op']))
      env.diverged([v.numpy() for v in ref.v.values()], 1e4)
      env.log(o['op'], oi)
      env.log_arrays('vars', [v.numpy() for v in mv.values()])
      env.state(o['op'], cfg['scheme'], bool(ref.frozen),
                tuple(sorted(set(n['t'] for n in g['nodes']))))

  @staticmethod
  def apply_fixed(ref, fx):
    for o in ref.ops:
      if o['op'] == 'quant':
        ref.fixed[o['id']] = (fx['in'][0], fx['in'][1], fx['bits'],
                              fx['narrow'])
        for s in ('_min', '_max'):
          ref.v.pop(o['id'] + '/in' + s, None)
    o = ref.ops[-1]
    ref.fixed[o['id']] = (fx['out'][0], fx['out'][1], fx['bits'],
                          fx['narrow'])
    for q in ('pre', 'post', 'qo'):
      for s in ('_min', '_max'):
        ref.v.pop(o['id'] + '/' + q + s, None)

  # -- comparisons
  def same_vars(self, env, ref, mv, where, exact=False, loose=False):
    for k, v in mv.items():
      a, b = v.numpy(), ref.v[k].numpy()
      if exact:
        ok = np.array_equal(a, b)
      else:
        ok = kit.close(a, b, 1e-3, 1e-4)
      if not ok and loose:
        return False
      env.check(ok, 'variable-diverged', lambda: (
          '%s: %s of the job differs from the reference by %s' % (
              where, k, kit.maxdiff(a, b))))
    return True

  def resync(self, ref, mv, model):
    for k, v in mv.items():
      ref.v[k].assign(v)
    copy_slots(model.optimizer, ref.opt,
               [(v, ref.v[k]) for k, v in mv.items()])

  def checked_step(self, env, ref, mv, model, x, y, where, loss=None):
    """One reference step; the job has just made its own."""
    ref.margin = 1.0
    want = ref.step(self.xs(x), y)
    tie = ref.margin
    ref.margin = None
    env.diverged([v.numpy() for v in ref.v.values()], 1e4)
    limit = 2e-6 if self.strict else 2e-4
    loose = tie < limit
    ok = self.same_vars(env, ref, mv, where, loose=loose)
    if ok and loss is not None and np.isfinite(loss):
      ok = kit.close(loss, want, 1e-3, 1e-5)
      env.check(ok or loose, 'loss-diverged',
                lambda: '%s: loss %s, reference %s' % (where, loss, want))
    if not ok:
      env.probe('rounding_tie_skipped')
    else:
      env.probe('steps_compared')
    self.resync(ref, mv, model)

  def infer(self, env, ref, mv, x, got, where):
    ref.margin = 1.0
    want = flat(ref.forward(self.xs(x), False))
    got = flat(got)
    tie, ref.margin = ref.margin, None
    ok = kit.close(got, want, 1e-3, 1e-4)
    if not ok and tie < (2e-6 if self.strict else 2e-4):
      env.probe('rounding_tie_skipped')
      return
    env.check(ok, 'output-diverged',
              lambda: '%s: output differs from the reference by %s' % (
                  where, kit.maxdiff(got, want)))
    env.probe('inferences_compared')

  def unchanged(self, env, mv, before, where):
    for (k, v), a in zip(mv.items(), before):
      env.check(np.array_equal(v.numpy(), a), 'inference-changes-state',
                lambda: '%s changed %s' % (where, k))

  def run_op(self, env, cfg, ref, model, mv, o, oi):
    k = o['op']
    where = '%s (operation %d)' % (k, oi)
    if k in ('fit', 'tob', 'loop') and not ref.trainable():
      return
    if k == 'fit':
      bts = self.data(cfg, o['n'], o['dseed'], o.get('ragged'))
      state = dict(t=0.0, n=0)

      def on(n, loss):
        x, y = bts[n % o['n']]
        if n % o['n'] == 0:
          state['t'] = 0.0
        self.checked_step(env, ref, mv, model, x, y,
                          '%s, batch %d' % (where, n))
        if o.get('val') and n % o['n'] == o['n'] - 1:
          pass
      kw = {}
      if o.get('val'):
        kw['validation_data'] = kit.Batches(self.data(cfg, 1, o['dseed'] + 5))
        env.fault('validation_between_epochs')
      with env.lib('fit'):
        try:
          model.fit(kit.Batches(bts), epochs=o['e'], verbose=0, shuffle=False,
                    callbacks=[Watch(on, o.get('stop'))], **kw)
        except core.SimulatedInterrupt:
          env.fault('interrupt')
      self.same_vars(env, ref, mv, where)
    elif k == 'tob':
      (x, y), = self.data(cfg, 1, o['dseed'])
      with env.lib('train_on_batch'):
        loss = model.train_on_batch(x, y)
      loss = loss[0] if isinstance(loss, list) else loss
      self.checked_step(env, ref, mv, model, x, y, where, float(loss))
    elif k == 'loop':
      (x, y), = self.data(cfg, 1, o['dseed'])
      with env.lib('custom loop'):
        tv = model.trainable_variables
        with tf.GradientTape() as tape:
          out = model(x, training=True)
          loss = mse(out, y)
        gr = tape.gradient(loss, tv)
        model.optimizer.apply_gradients(list(zip(gr, tv)))
      self.checked_step(env, ref, mv, model, x, y, where, float(loss))
    elif k == 'calib':
      (x, _), = self.data(cfg, 1, o['dseed'])
      with env.lib('forward pass'):
        out = flat(model(x, training=True))
      ref.margin = 1.0
      want = flat(ref.forward(self.xs(x), True))
      loose, ref.margin = ref.margin < 2e-6, None
      self.same_vars(env, ref, mv, where, loose=loose)
      env.check(loose or kit.close(out, want, 1e-3, 1e-4), 'output-diverged',
                lambda: '%s: training-mode output differs by %s' % (
                    where, kit.maxdiff(out, want)))
      self.resync(ref, mv, model)
    elif k in ('eval', 'predict', 'call'):
      bts = self.data(cfg, 2 if k != 'call' else 1, o['dseed'])
      before = [v.numpy() for v in mv.values()]
      with env.lib(k):
        if k == 'eval':
          model.evaluate(kit.Batches(bts), verbose=0)
        elif k == 'predict':
          for x, _ in bts:
            got = model.predict_on_batch(x)
            self.infer(env, ref, mv, x, got, where)
        else:
          got = model(bts[0][0], training=False)
          self.infer(env, ref, mv, bts[0][0], got, where)
      self.unchanged(env, mv, before, where)
    elif k == 'recompile':
      with env.lib('compile'):
        kit.compile_model(model, o['opt'], cfg['eager'])
      ref.compile(o['opt'])
      env.fault('recompile')
    elif k == 'freeze':
      n = o['node']
      if n not in ref.nodes:
        return
      lay = map_layers(env, ref, model)
      with env.lib('freeze'):
        lay[n].trainable = o['to']
        kit.compile_model(model, cfg['opt'], cfg['eager'])
      ref.frozen.discard(n)
      if not o['to']:
        ref.frozen.add(n)
      ref.compile(cfg['opt'])
      env.fault('freeze_or_thaw')
    elif k == 'shift':
      self.mul, self.off = o['mul'], o['add']
      env.fault('input_distribution_shift')
    elif k == 'reset':
      with env.lib('set_weights'):
        model.set_weights([w + 0 for w in model.get_weights()])
      self.same_vars(env, ref, mv, where)


# ================================================================ Q02
class QatResume(resume.ResumeScenario):
  """Crash and restart of a quantization-aware training job."""
  NAME = 'qat:resume'
  key = None
  HISTORY = QatHistory

  def gen_job(self, rng, tier):
    cfg = self.HISTORY().gen_cfg(rng, tier)
    cfg['wseed'] = rng.getrandbits(24)
    return cfg

  def gen(self, rng, tier):
    plan = super().gen(rng, tier)
    plan['cfg']['opt']['lr'] = round(plan['cfg']['opt']['lr'] / 3, 4)
    return plan

  def simplify(self, plan):
    yield from super().simplify(plan)
    for p in self.HISTORY().simplify(dict(plan, ops=[])):
      yield dict(p, ops=core.clone(plan['ops']))

  def allowed_media(self, cfg):
    med = list(resume.MEDIA)
    if any(n['t'] == 'conv2dt' for n in cfg['graph']['nodes']):
      # tf_keras cannot trace a transposed convolution whose kernel is a
      # tensor; saving fails loudly
      med.remove('sm')
    return med

  def data(self, cfg, i):
    s = cfg['segs'][i % len(cfg['segs'])]
    r = np.random.RandomState((cfg['dseed'] * 131 + i) % 2**32)
    out = []
    for _ in range(s['b']):
      xs = [r.standard_normal([cfg['bs']] + q).astype('float32')
            for q in cfg['graph']['inputs']]
      y = targets(r, cfg['graph'], cfg['bs'])
      out.append((xs if len(xs) > 1 else xs[0], y))
    return out, s['e']

  def build(self, cfg, seed):
    base = build_graph(cfg['graph'])
    kit.init_weights(base, seed, scale=cfg['scale'])
    self.HISTORY().prepare(cfg, base)
    model = quantize_job(cfg, base)
    if cfg.get('fixed'):
      # this API hands back an untrained model
      ref = self.HISTORY.REF(cfg['graph'], cfg)
      ref.weights_from(base)
      self.HISTORY.apply_fixed(ref, cfg['fixed'])
      for k, v in map_vars(NoEnv, ref, model).items():
        v.assign(ref.v[k])
    return model

  @contextlib.contextmanager
  def scope(self, cfg):
    with scope():
      yield

  def observe(self, cfg, model):
    key = repr(cfg['graph']) + repr(cfg.get('fixed'))
    if self.key != key:
      ref = self.HISTORY.REF(cfg['graph'], cfg)
      base = build_graph(cfg['graph'])
      kit.init_weights(base, cfg['wseed'], scale=cfg['scale'])
      self.HISTORY().prepare(cfg, base)
      ref.weights_from(base)
      if cfg.get('fixed'):
        self.HISTORY.apply_fixed(ref, cfg['fixed'])
      self.key, self.ref, self.maps = key, ref, []
    hit = [mv for m, mv in self.maps if m is model]
    if not hit:
      hit = [map_vars(NoEnv, self.ref, model)]
      self.maps = self.maps[-3:] + [(model, hit[0])]
    mv = hit[0]
    out = [(k, mv[k].numpy()) for k in sorted(mv)]
    tw = {id(w) for w in model.trainable_weights}
    out.append(('which variables are trained',
                np.array([float(id(mv[k]) in tw) for k in sorted(mv)])))
    (x, _), = QatResume.data(self, dict(cfg, segs=[dict(b=1, e=1)]), 77)[0]
    out.append(('served output', flat(model(x, training=False))))
    return out


class NoEnv:
  """Stands in for the run environment where a mismatch is a lost variable."""

  @staticmethod
  def check(ok, kind, msg):
    if not ok:
      raise core.Violation(kind, msg() if callable(msg) else msg)
