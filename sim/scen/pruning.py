"""Simulated pruning jobs against an executable reference model.

The reference is an ordinary (unpruned) keras twin of the same architecture.
At every simulated training step the reference applies the documented rules --
count the step, refresh masks when the schedule says so, zero the masked
weights, then take one ordinary optimizer step -- and the job under test must
show the same masks, step counters and weights.
"""
import contextlib

import numpy as np
import tensorflow as tf

import tensorflow_model_optimization as tfmot
from tensorflow_model_optimization.python.core.keras.compat import keras
from tensorflow_model_optimization.python.core.sparsity.keras import prune
from tensorflow_model_optimization.python.core.sparsity.keras import pruning_callbacks
from tensorflow_model_optimization.python.core.sparsity.keras import pruning_schedule
from tensorflow_model_optimization.python.core.sparsity.keras import pruning_wrapper

from sim import core
from sim import kit

Scenario, Violation = core.Scenario, core.Violation

# which variables of a built-in layer carry weights that pruning sparsifies
PRUNABLE = {
    'dense': ['kernel'], 'conv1d': ['kernel'], 'conv2d': ['kernel'],
    'conv2dt': ['kernel'], 'conv3d': ['kernel'], 'lc1d': ['kernel'],
    'sep2d': ['pointwise_kernel'], 'sep1d': ['pointwise_kernel'],
    'dw2d': [], 'embed': ['embeddings'],
    'lstm': ['kernel', 'recurrent_kernel'],
    'gru': ['kernel', 'recurrent_kernel'],
    'rnn': ['kernel', 'recurrent_kernel'],
    'stacked': ['kernel', 'recurrent_kernel', 'kernel', 'recurrent_kernel'],
}


class TableSchedule(pruning_schedule.PruningSchedule):
  """A user-written schedule: prune at the listed steps, at listed levels."""

  def __init__(self, steps, levels):
    self.steps = list(steps)
    self.levels = list(levels)

  def __call__(self, step):
    st = tf.constant(self.steps, tf.int64)
    hit = tf.equal(tf.cast(step, tf.int64), st)
    lv = tf.constant(self.levels, tf.float32)
    return tf.reduce_any(hit), tf.reduce_sum(tf.where(hit, lv, 0.0 * lv))

  def get_config(self):
    return {'class_name': self.__class__.__name__,
            'config': {'steps': self.steps, 'levels': self.levels}}


def mk_schedule(s):
  if s['k'] == 'const':
    return pruning_schedule.ConstantSparsity(
        s['target'], s['begin'], end_step=s['end'], frequency=s['freq'])
  if s['k'] == 'poly':
    return pruning_schedule.PolynomialDecay(
        s['init'], s['final'], s['begin'], s['end'], power=s['power'],
        frequency=s['freq'])
  return TableSchedule(s['steps'], s['levels'])


def ref_schedule(s, step):
  """(prune now?, sparsity) from the documented schedule semantics."""
  if s['k'] == 'table':
    if step in s['steps']:
      return True, s['levels'][s['steps'].index(step)]
    return False, None
  inside = step >= s['begin'] and (s['end'] < 0 or step <= s['end'])
  turn = (step - s['begin']) % s['freq'] == 0
  if s['k'] == 'const':
    return inside and turn, s['target']
  if not (inside and turn):
    return False, None
  p = 1.0
  if step < s['end']:
    p = (step - s['begin']) / (s['end'] - s['begin'])
  return True, s['final'] + (s['init'] - s['final']) * (1 - p)**s['power']


def gen_schedule(rng, horizon):
  k = rng.choice(['const', 'const', 'poly', 'poly', 'table'])
  freq = rng.choice([1, 1, 2, 3, 4])
  begin = rng.randint(0, max(1, horizon // 2))
  if k == 'const':
    end = rng.choice([-1, begin, begin + rng.randint(1, horizon)])
    return dict(k=k, target=round(rng.uniform(0.0, 0.97), 3), begin=begin,
                end=end, freq=freq)
  if k == 'poly':
    a, b = round(rng.uniform(0, 0.6), 3), round(rng.uniform(0.2, 0.95), 3)
    return dict(k=k, init=a, final=b, begin=begin,
                end=begin + rng.randint(0, horizon), power=rng.choice([1, 2, 3]),
                freq=freq)
  n = rng.randint(1, 4)
  steps = sorted(rng.sample(range(1, horizon + 2), n))
  return dict(k=k, steps=steps,
              levels=[round(rng.uniform(0.05, 0.9), 2) for _ in steps])


# ------------------------------------------------------------- mask oracle
def _dominates(absw, mask, tol=0.0):
  kept, cut = absw[mask > 0.5], absw[mask <= 0.5]
  if not kept.size or not cut.size:
    return True
  return kept.min() >= cut.max() * (1 - tol) - 1e-12


def check_mask(absw, mask, sparsity, tol=0.0):
  """None if `mask` prunes exactly the `sparsity` smallest magnitudes."""
  n = absw.size
  x = float(np.float32(n) * (np.float32(1) - np.float32(sparsity)))
  lo = hi = int(max(1, np.rint(x)))
  if abs((x % 1.0) - 0.5) < 2e-3 * max(1, n / 64):
    lo, hi = int(max(1, np.floor(x))), int(max(1, np.ceil(x)))
  kept = int((mask > 0.5).sum())
  if not np.all((mask == 0) | (mask == 1)):
    return 'mask is not binary'
  if not _dominates(absw, mask, tol):
    return 'a pruned weight is larger than a kept one'
  if kept < lo:
    return 'kept %d of %d, scheduled %s (sparsity %.4f)' % (kept, n, hi,
                                                           sparsity)
  if kept > hi:
    # only weights tied with the threshold may be kept in excess
    thr = np.sort(absw.ravel())[::-1][hi - 1]
    ties = int((np.abs(absw - thr) <= tol * abs(thr) + 1e-12).sum())
    if kept > hi + ties - 1:
      return 'kept %d of %d, scheduled %s (sparsity %.4f)' % (kept, n, hi,
                                                             sparsity)
  return None


def check_block_mask(w, mask, sparsity, block, pool):
  bh, bw = block
  w = np.abs(w)
  h, wd = w.shape
  ph, pw = -(-h // bh), -(-wd // bw)
  pooled = np.zeros([ph, pw])
  bm = np.zeros([ph, pw])
  for i in range(ph):
    for j in range(pw):
      # SAME padding of the pooling windows: windows start at multiples of the
      # block, the surplus is split before/after like tf.nn.pool does.
      blk = mask[i * bh:(i + 1) * bh, j * bw:(j + 1) * bw]
      if blk.min() != blk.max():
        return 'mask is not constant inside block (%d,%d)' % (i, j)
      bm[i, j] = blk.max()
  def windows(n, b):
    m = -(-n // b)
    pad = m * b - n
    before = pad // 2
    return [(max(0, q * b - before), min(n, (q + 1) * b - before))
            for q in range(m)]
  for i, (a, b) in enumerate(windows(h, bh)):
    for j, (c, d) in enumerate(windows(wd, bw)):
      if pool == 'MAX':
        pooled[i, j] = w[a:b, c:d].max()
      else:
        pooled[i, j] = w[a:b, c:d].mean(axis=0).mean()
  return check_mask(pooled, bm, sparsity, tol=1e-5)


def check_m_by_n(w, mask, m, n):
  """Every n consecutive input channels hold >= m zeros, smallest first."""
  if w.ndim == 2:
    a, k = w.T, mask.T
  else:
    a = np.transpose(w, [3, 0, 1, 2]).reshape(-1, w.shape[2])
    k = np.transpose(mask, [3, 0, 1, 2]).reshape(-1, w.shape[2])
  a = np.abs(a)
  if not np.all((k == 0) | (k == 1)):
    return 'mask is not binary'
  for row in range(a.shape[0]):
    for s in range(0, a.shape[1], n):
      ga, gk = a[row, s:s + n], k[row, s:s + n]
      full = ga.size == n
      kept = int(gk.sum())
      want = min(ga.size, n - m)
      if full and kept != n - m:
        return 'group has %d non-zeros, wants %d' % (kept, n - m)
      if not full and kept > want:
        return 'tail group has %d non-zeros, at most %d' % (kept, want)
      if not full and kept < want and np.count_nonzero(ga) >= want:
        return 'tail group has %d non-zeros, wants %d' % (kept, want)
      if not _dominates(ga, gk):
        return 'a pruned weight of a group is larger than a kept one'
  return None


# ------------------------------------------------------------- system kit
class PrunedJob:
  """A model under pruning plus name-based access to what users observe."""

  def __init__(self, cfg, model):
    self.cfg = cfg
    self.model = model
    self.layers = pruning_wrapper.collect_prunable_layers(model)

  def state(self):
    """{layer: dict(step, weights{name}, masks{name})} read from variables."""
    out = []
    for w in self.layers:
      inner = w.layer
      names = [v.name for v in inner.weights]
      ws = [v.numpy() for v in inner.weights]
      masks = []
      for wv, mv, _ in w.pruning_vars:
        idx = [i for i, v in enumerate(inner.weights) if v is wv]
        masks.append((idx[0] if idx else -1, mv.numpy()))
      out.append(dict(name=inner.name, step=int(w.pruning_step.numpy()),
                      names=names, ws=ws, masks=masks))
    return out


def prune_params(p):
  d = dict(pruning_schedule=mk_schedule(p['sched']))
  if p.get('block'):
    d['block_size'] = tuple(p['block'])
    d['block_pooling_type'] = p['pool']
  if p.get('mbyn'):
    d['sparsity_m_by_n'] = tuple(p['mbyn'])
  return d


def flat_layers(model):
  out = []
  for l in model.layers:
    if isinstance(l, keras.Model):
      out += flat_layers(l)
    else:
      out.append(l)
  return out


def inner_layers(model):
  """name -> unwrapped layer, nested models included."""
  d = {}
  for l in flat_layers(model):
    if isinstance(l, pruning_wrapper.PruneLowMagnitude):
      d[l.layer.name] = l.layer
    else:
      d[l.name] = l
  return d


def build_pruned(cfg, env=None):
  """Builds the base model, gives it its initial weights and prunes it."""
  base = kit.build_model(cfg['arch'])
  kit.init_weights(base, cfg['wseed'], cfg.get('ties', False))
  return base, wrap_pruned(cfg, base)


def wrap_pruned(cfg, base, prune_params=prune_params):
  ps = cfg['prune']           # list of parameter sets; [0] is the default
  how = cfg.get('how', 'model')
  if how == 'model':
    return prune.prune_low_magnitude(base, **prune_params(ps[0]))
  if how == 'layers':
    # per-layer parameter sets through clone_model, as the guide shows
    assign = cfg['assign']    # layer name -> index into ps, or None

    def fn(layer):
      i = assign.get(layer.name)
      if i is None:
        return layer
      return prune.prune_low_magnitude(layer, **prune_params(ps[i]))

    return keras.models.clone_model(base, clone_function=fn)
  raise KeyError(how)


def layer_param(cfg, name):
  if cfg.get('how', 'model') == 'model':
    return cfg['prune'][0]
  i = cfg['assign'].get(name)
  return None if i is None else cfg['prune'][i]


def spec_of(cfg, lname):
  return cfg['arch']['layers'][int(lname[1:])]


class Recorder(keras.callbacks.Callback):
  """Snapshots the job at every batch end / epoch end; injects interrupts."""

  def __init__(self, job, interrupt_at=None, stop_at=None):
    super().__init__()
    self.job = job
    self.rec = []
    self.n = 0
    self.interrupt_at = interrupt_at
    self.stop_at = stop_at

  def on_train_batch_end(self, batch, logs=None):
    self.rec.append(('batch', batch, self.job.state()))
    self.n += 1
    if self.interrupt_at is not None and self.n == self.interrupt_at:
      raise core.SimulatedInterrupt()
    if self.stop_at is not None and self.n == self.stop_at:
      self.model.stop_training = True

  def on_epoch_end(self, epoch, logs=None):
    self.rec.append(('epoch', epoch, self.job.state()))


class Reference:
  """The executable specification."""

  def __init__(self, cfg, init_values):
    self.cfg = cfg
    self.twin = kit.build_model(cfg['arch'], name='twin')
    self.by = inner_layers(self.twin)
    self.set(init_values)
    self.step = None
    self.masks = {}           # (layer, idx) -> mask

  def values(self):
    return {n: [v.numpy() for v in l.weights] for n, l in self.by.items()}

  def set(self, vals):
    for n, ws in vals.items():
      for v, a in zip(self.by[n].weights, ws):
        v.assign(a)

  def compile(self, opt, old=None):
    self.opt = kit.mk_opt(opt)
    self.tv = self.twin.trainable_variables
    self.opt.build(self.tv)

  def sgd_step(self, x, y):
    with tf.GradientTape() as t:
      p = self.twin(x, training=True)
      loss = tf.reduce_mean(tf.reduce_mean(tf.square(p - y), axis=-1))
    g = t.gradient(loss, self.tv)
    pairs = [(gg, v) for gg, v in zip(g, self.tv) if gg is not None]
    self.opt.apply_gradients(pairs)
    return float(loss)


def values_of_job(model):
  return {n: [v.numpy() for v in l.weights]
          for n, l in inner_layers(model).items()}


def gen_prune_cfg(rng, horizon, structured=None):
  if structured is None:
    structured = rng.random() < 0.35
  cfg = {}
  if structured:
    mode = rng.choice(['block', 'mbyn'])
    if mode == 'block':
      arch, out = kit.gen_arch(rng, ['mlp', 'branch'], max_units=9)
      b = [rng.randint(1, 4), rng.randint(1, 4)]
      if b == [1, 1]:
        b = [2, 1]
      p = dict(sched=gen_schedule(rng, horizon), block=b,
               pool=rng.choice(['AVG', 'MAX']))
    else:
      arch, out = kit.gen_arch(rng, ['mlp', 'cnn', 'branch'], max_units=9)
      arch['layers'] = [l for l in arch['layers']]
      n = rng.choice([2, 4, 4, 3])
      p = dict(sched=gen_schedule(rng, horizon),
               mbyn=[rng.randint(1, n - 1), n])
    ps = [p]
  else:
    arch, out = kit.gen_arch(rng, ['mlp', 'mlp', 'branch', 'cnn', 'cnn1d',
                                   'rnn', 'stacked', 'embed', 'conv3d'])
    ps = [dict(sched=gen_schedule(rng, horizon))]
  cfg.update(arch=arch, out=out, prune=ps, how='model')
  names = ['l%d' % i for i, l in enumerate(arch['layers'])]
  if arch['kind'] != 'nested' and rng.random() < 0.3 and not structured:
    ps.append(dict(sched=gen_schedule(rng, horizon)))
    cfg['how'] = 'layers'
    cfg['assign'] = {n: rng.choice([0, 1, None]) for n in names}
    pr = [n for n, l in zip(names, arch['layers']) if PRUNABLE.get(l['t'])]
    cfg['assign'][rng.choice(pr)] = 0
  cfg['ties'] = rng.random() < 0.15
  cfg['wseed'] = rng.getrandbits(24)
  return cfg


class PruneHistory(Scenario):
  """One training job, arbitrary history, checked step by step."""
  NAME = 'prune_history'
  structured = None

  def gen(self, rng, tier):
    horizon = rng.randint(3, 14 if tier == 'quick' else 30)
    cfg = gen_prune_cfg(rng, horizon, self.structured)
    cfg['opt'] = kit.gen_opt(rng)
    cfg['eager'] = rng.random() < (0.75 if tier == 'quick' else 0.6)
    cfg['bs'] = rng.randint(1, 5)
    ops = []
    left = horizon
    faulty = rng.random() < 0.7
    while left > 0:
      r = rng.random()
      if r < 0.55 or not ops:
        nb = rng.randint(1, min(4, left))
        ep = rng.randint(1, 3) if nb * 2 <= left else 1
        ep = min(ep, max(1, left // nb))
        op = dict(op='fit', batches=nb, epochs=ep, dseed=rng.getrandbits(24),
                  new_cb=rng.random() < 0.6)
        if faulty and rng.random() < 0.3:
          op['interrupt'] = rng.randint(1, nb * ep)
        elif faulty and rng.random() < 0.15:
          op['stop'] = rng.randint(1, nb * ep)
        if faulty and rng.random() < 0.25:
          op['ragged'] = 1
        ops.append(op)
        left -= nb * ep
      elif r < 0.65:
        ops.append(dict(op='loop', batches=rng.randint(1, 3),
                        dseed=rng.getrandbits(24)))
        left -= ops[-1]['batches']
      elif r < 0.75:
        ops.append(dict(op='eval', dseed=rng.getrandbits(24)))
      elif r < 0.82:
        ops.append(dict(op='predict', dseed=rng.getrandbits(24)))
      elif r < 0.88:
        ops.append(dict(op='set_weights', vseed=rng.getrandbits(24),
                        scale=rng.choice([0.1, 1.0, 3.0])))
      elif r < 0.93:
        ops.append(dict(op='recompile', opt=kit.gen_opt(rng)))
      else:
        ops.append(dict(op='epoch_end'))
    return dict(cfg=cfg, ops=ops)

  def simplify(self, plan):
    c = plan['cfg']
    if not c['eager']:
      p = core.clone(plan)
      p['cfg']['eager'] = True
      yield p
    if c['opt']['k'] != 'sgd':
      p = core.clone(plan)
      p['cfg']['opt'] = dict(k='sgd', lr=c['opt'].get('lr', 0.05))
      yield p
    for i, o in enumerate(plan['ops']):
      for key, small in (('batches', 1), ('epochs', 1)):
        if o.get(key, small) > small:
          p = core.clone(plan)
          p['ops'][i][key] = o[key] - 1
          yield p
      for key in ('interrupt', 'stop', 'ragged'):
        if o.get(key) is not None:
          p = core.clone(plan)
          del p['ops'][i][key]
          yield p

  # -------------------------------------------------------------------
  def execute(self, plan, env):
    cfg = plan['cfg']
    with env.lib('prune_low_magnitude'):
      base, model = build_pruned(cfg)
    self.cfg, self.env = cfg, env
    opt = cfg['opt']
    with env.lib('compile'):
      kit.compile_model(model, opt, cfg['eager'])
    job = PrunedJob(cfg, model)
    self.check_wrapping(env, cfg, job)
    ref = Reference(cfg, values_of_job(model))
    ref.compile(opt)
    self.started = False
    self.cb = None
    self.step = -1
    self.masks = {}
    for st in job.state():
      for idx, m in st['masks']:
        self.masks[(st['name'], idx)] = m
        env.check(np.all(m == 1), 'mask-before-training',
                  'mask of %s is not all ones before training' % st['name'])
    for o in plan['ops']:
      self.apply(o, env, cfg, model, job, ref)

  def check_wrapping(self, env, cfg, job):
    have = {st['name']: st for st in job.state()}
    for n, l in inner_layers(job.model).items():
      if n in ('inp', 'subinp', 'merge'):
        continue
      p = layer_param(cfg, n)
      spec = spec_of(cfg, n)
      want = PRUNABLE.get(spec['t'], []) if p is not None else []
      if p is None:
        env.check(n not in have, 'unselected-layer-pruned', n)
        continue
      env.check(n in have, 'selected-layer-not-pruned', n)
      got = sorted(have[n]['names'][i].split('/')[-1].split(':')[0]
                   for i, _ in have[n]['masks'])
      env.check(got == sorted(want), 'wrong-weights-pruned',
                '%s: %s, expected %s' % (n, got, want))
      for i, m in have[n]['masks']:
        env.check(i >= 0 and m.shape == have[n]['ws'][i].shape,
                  'mask-shape', n)

  # one simulated batch, seen through the reference -------------------------
  def ref_batch(self, env, cfg, ref, x, y, st, where):
    self.step += 1
    t = self.step
    vals = ref.values()
    changed = False
    for s in st:
      n = s['name']
      p = layer_param(cfg, n)
      env.check(s['step'] == t, 'step-counter',
                '%s: %s counter of %s is %d, expected %d' % (
                    where, 'pruning step', n, s['step'], t))
      due, sp = ref_schedule(p['sched'], t)
      if p.get('mbyn'):
        due = t == 1
      for idx, m in s['masks']:
        w = vals[n][idx]
        old = self.masks[(n, idx)]
        if not due:
          env.check(np.array_equal(m, old), 'mask-changed-off-schedule',
                    '%s: step %d is not a pruning step of %s (%s) but its '
                    'mask changed' % (where, t, n, p['sched']))
        else:
          env.probe('mask_update')
          if p.get('mbyn'):
            err = check_m_by_n(w, m, *p['mbyn'])
          elif p.get('block'):
            err = check_block_mask(w, m, sp, p['block'], p['pool'])
          else:
            err = check_mask(np.abs(w), m, sp)
          env.check(err is None, 'wrong-mask',
                    lambda: '%s: step %d layer %s: %s' % (where, t, n, err))
          if not np.array_equal(m, old):
            changed = True
            env.probe('mask_changed')
          if np.any((old == 0) & (m == 1)):
            env.probe('weight_revived')
        self.masks[(n, idx)] = m
        w *= m
    env.state('step', min(t, 20), changed)
    ref.set(vals)
    ref.sgd_step(x, y)
    want = ref.values()
    for s in st:
      for i, a in enumerate(s['ws']):
        env.check(kit.close(a, want[s['name']][i]), 'training-step',
                  lambda: '%s: step %d: %s differs from the reference step by '
                  '%s' % (where, t, s['names'][i],
                          kit.maxdiff(a, want[s['name']][i])))
    # follow the implementation's rounding, not our own
    self.adopt(ref, st)
    env.log('step', t, where)
    env.log_arrays('w', [a for s in st for a in s['ws']])

  def adopt(self, ref, st):
    ref.set({s['name']: s['ws'] for s in st})

  def check_zeros(self, env, st, where):
    for s in st:
      for idx, m in s['masks']:
        env.check(np.array_equal(m, self.masks[(s['name'], idx)]),
                  'mask-changed-outside-training', '%s: %s' % (where,
                                                               s['name']))
        env.check(np.all(s['ws'][idx][m == 0] == 0), 'masked-weight-not-zero',
                  '%s: %s has non-zero masked weights' % (where, s['name']))

  def on_begin(self, env):
    if self.step == -1:
      self.step = 0
      self.started = True

  def apply(self, o, env, cfg, model, job, ref):
    k = o['op']
    ins, out = cfg['arch']['in'], cfg['out']
    env.op(k, o.get('batches', 1) * o.get('epochs', 1))
    if k == 'fit':
      data = kit.batches(ins, out, o['batches'], cfg['bs'], o['dseed'],
                         ragged_last=o.get('ragged'))
      if o.get('ragged'):
        env.fault('short_batch')
      if self.cb is None or o['new_cb']:
        self.cb = pruning_callbacks.UpdatePruningStep()
      rec = Recorder(job, o.get('interrupt'), o.get('stop'))
      env.log('fit', o['batches'], o['epochs'])
      with env.lib('fit'):
        try:
          model.fit(kit.Batches(data), epochs=o['epochs'], verbose=0,
                    shuffle=False, callbacks=[self.cb, rec])
        except core.SimulatedInterrupt:
          env.fault('interrupt_mid_fit')
      if o.get('stop'):
        env.fault('early_stop')
      self.on_begin(env)
      for kind, i, st in rec.rec:
        if kind == 'batch':
          self.ref_batch(env, cfg, ref, *data[i], st, 'fit')
        else:
          want = ref.values()
          for s in st:
            for idx, m in s['masks']:
              want[s['name']][idx] = want[s['name']][idx] * m
            for j, a in enumerate(s['ws']):
              env.check(kit.close(a, want[s['name']][j]), 'epoch-end-weights',
                        'end of epoch changed %s beyond masking' % s['names'][j])
          self.check_zeros(env, st, 'end of epoch')
          self.adopt(ref, st)
    elif k == 'loop':
      # the documented custom-training-loop protocol
      data = kit.batches(ins, out, o['batches'], cfg['bs'], o['dseed'])
      cb = pruning_callbacks.UpdatePruningStep()
      with env.lib('custom-loop'):
        cb.set_model(model)
        cb.on_train_begin()
      self.on_begin(env)
      for i, (x, y) in enumerate(data):
        with env.lib('custom-loop'):
          cb.on_train_batch_begin(batch=i)
          model.train_on_batch(x, y)
        self.ref_batch(env, cfg, ref, x, y, job.state(), 'loop')
      with env.lib('custom-loop'):
        cb.on_epoch_end(batch=0)
      self.check_zeros(env, job.state(), 'end of loop')
      self.adopt(ref, job.state())
    elif k == 'epoch_end':
      if self.cb is None or not self.started:
        return
      with env.lib('on_epoch_end'):
        self.cb.on_epoch_end(batch=0)
      st = job.state()
      if self.cb.prunable_layers:
        self.check_zeros(env, st, 'on_epoch_end')
      self.adopt(ref, st)
    elif k in ('eval', 'predict'):
      data = kit.batches(ins, out, 2, cfg['bs'], o['dseed'])
      before = job.state()
      with env.lib(k):
        if k == 'eval':
          model.evaluate(kit.Batches(data), verbose=0)
          got = None
        else:
          got = model.predict(data[0][0], verbose=0)
      after = job.state()
      masked = {}
      for b, a in zip(before, after):
        env.check(a['step'] == b['step'], 'inference-advanced-step', b['name'])
        want = [w.copy() for w in b['ws']]
        for (idx, m), (_, m2) in zip(b['masks'], a['masks']):
          env.check(np.array_equal(m, m2), 'inference-changed-mask', b['name'])
          want[idx] = want[idx] * m
        masked[b['name']] = want
        for i, w in enumerate(a['ws']):
          # weights may only be re-masked, never otherwise changed
          env.check(np.array_equal(w, b['ws'][i]) or
                    np.array_equal(w, want[i]), 'inference-changed-weights',
                    b['names'][i])
      ref.set(masked)
      if got is not None:
        exp = ref.twin(data[0][0], training=False).numpy()
        env.check(kit.close(got, exp, 1e-3, 1e-4), 'prediction',
                  lambda: 'prediction differs from the masked network by %s' %
                  kit.maxdiff(got, exp))
        env.log_arrays('pred', [got])
      self.adopt(ref, after)
    elif k == 'set_weights':
      r = np.random.RandomState(o['vseed'])
      with env.lib('set_weights'):
        for w in job.layers:
          cur = w.get_weights()
          new = [(r.standard_normal(c.shape) * o['scale']).astype(c.dtype)
                 if c.ndim > 1 else c for c in cur]
          w.set_weights(new)
      env.fault('weights_replaced_by_user')
      self.adopt(ref, job.state())
    elif k == 'recompile':
      with env.lib('compile'):
        kit.compile_model(model, o['opt'], cfg['eager'])
      ref.compile(o['opt'])


class PruneStructured(PruneHistory):
  """Same job, block and N:M structured patterns only."""
  NAME = 'prune_structured'
  structured = True


# ================================================================ P03
from sim.scen import resume  # pylint: disable=wrong-import-position


class PruneResume(resume.ResumeScenario):
  """Crash / restart of a pruning job over every storage medium."""
  NAME = 'prune_resume'

  def gen_job(self, rng, tier):
    horizon = rng.randint(3, 10)
    cfg = gen_prune_cfg(rng, horizon)
    return cfg

  def allowed_media(self, cfg):
    ts = [l['t'] for l in cfg['arch']['layers']]
    if any(t in ('lstm', 'gru', 'rnn', 'stacked') for t in ts):
      # Keras itself refuses these (duplicate dataset names / RNN wrappers in
      # the .keras format); the failure is loud, nothing is lost silently.
      return ['ckpt', 'tfw', 'sm']
    return list(resume.MEDIA)

  def build(self, cfg, seed):
    base = kit.build_model(cfg['arch'])
    kit.init_weights(base, seed, cfg.get('ties', False))
    return wrap_pruned(cfg, base)

  def callbacks(self, cfg, model):
    return [pruning_callbacks.UpdatePruningStep()]

  @contextlib.contextmanager
  def scope(self, cfg):
    with prune.prune_scope():
      with keras.utils.custom_object_scope({'TableSchedule': TableSchedule}):
        yield

  def observe(self, cfg, model):
    out = []
    job = PrunedJob(cfg, model)
    seen = {}
    for s in job.state():
      seen[s['name']] = s
    for n, l in sorted(inner_layers(model).items()):
      s = seen.get(n)
      for i, v in enumerate(l.weights):
        out.append(('%s/%d' % (n, i), v.numpy()))
      if s:
        for i, m in s['masks']:
          out.append(('%s/mask%d' % (n, i), m))
        out.append(('%s/step' % n, np.asarray(s['step'])))
    return out

  def rtol(self, cfg):
    return 1e-3, 1e-4


# ================================================================ P04
class PruneGuard(Scenario):
  """Unmanaged training attempts, inference and restarts in any order."""
  NAME = 'prune_guard'
  WEIGHT = 0.6

  def gen(self, rng, tier):
    cfg = gen_prune_cfg(rng, 6, structured=rng.random() < 0.15)
    cfg['eager'] = rng.random() < 0.7
    cfg['opt'] = kit.gen_opt(rng)
    cfg['bs'] = rng.randint(1, 4)
    ops = []
    for _ in range(rng.randint(3, 7 if tier == 'quick' else 12)):
      k = core.weighted(rng, [('unmanaged', 4), ('managed', 1.5), ('eval', 1),
                              ('predict', 1), ('restart', 1.2),
                              ('recompile', 0.7)])
      o = dict(op=k, dseed=rng.getrandbits(24))
      if k == 'unmanaged':
        o['via'] = rng.choice(['fit', 'train_on_batch'])
        o['n'] = rng.randint(1, 3)
      if k == 'managed':
        o['n'] = rng.randint(1, 3)
      ops.append(o)
    return dict(cfg=cfg, ops=ops)

  def simplify(self, plan):
    if not plan['cfg']['eager']:
      p = core.clone(plan)
      p['cfg']['eager'] = True
      yield p

  def execute(self, plan, env):
    cfg = plan['cfg']
    with env.lib('prune_low_magnitude'):
      _, model = build_pruned(cfg)
      kit.compile_model(model, cfg['opt'], cfg['eager'])
    job = PrunedJob(cfg, model)
    step = None            # None: no managed training has happened yet
    nck = 0
    for o in plan['ops']:
      k = o['op']
      env.op(k)
      data = kit.batches(cfg['arch']['in'], cfg['out'], o.get('n', 2),
                         cfg['bs'], o['dseed'])
      before = job.state()
      if k == 'unmanaged' and step is None:
        raised = False
        try:
          if o['via'] == 'fit':
            model.fit(kit.Batches(data), verbose=0, shuffle=False)
          else:
            for x, y in data:
              model.train_on_batch(x, y)
        except Exception as e:  # pylint: disable=broad-except
          raised = True
          env.check('UpdatePruningStep' in str(e), 'unclear-refusal',
                    'unmanaged training failed with: %s' % str(e)[:300])
        env.check(raised, 'unmanaged-training-accepted',
                  'a freshly pruned model trained without the callback')
        env.fault('callback_missing')
        env.probe('refused')
        after = job.state()
        for b, a in zip(before, after):
          env.check(a['step'] <= 0, 'refused-step-counted',
                    '%s counts step %d' % (a['name'], a['step']))
          for (_, m), (_, m2) in zip(b['masks'], a['masks']):
            env.check(np.array_equal(m, m2), 'refused-step-changed-mask',
                      b['name'])
          if cfg['eager']:
            for w, w2 in zip(b['ws'], a['ws']):
              env.check(np.array_equal(w, w2), 'refused-step-changed-weights',
                        b['name'])
      elif k == 'managed':
        rec = Recorder(job)
        with env.lib('fit'):
          model.fit(kit.Batches(data), verbose=0, shuffle=False,
                    callbacks=[pruning_callbacks.UpdatePruningStep(), rec])
        step = step or 0
        for kind, _, st in rec.rec:
          if kind != 'batch':
            continue
          step += 1
          for s in st:
            env.check(s['step'] == step, 'step-counter',
                      '%s at step %d, expected %d' % (s['name'], s['step'],
                                                      step))
      elif k in ('eval', 'predict'):
        with env.lib(k):
          if k == 'eval':
            model.evaluate(kit.Batches(data), verbose=0)
          else:
            model.predict(data[0][0], verbose=0)
        for b, a in zip(before, job.state()):
          env.check(b['step'] == a['step'], 'inference-advanced-step',
                    b['name'])
          for (_, m), (_, m2) in zip(b['masks'], a['masks']):
            env.check(np.array_equal(m, m2), 'inference-changed-mask',
                      b['name'])
      elif k == 'recompile':
        with env.lib('compile'):
          kit.compile_model(model, cfg['opt'], cfg['eager'])
      elif k == 'restart':
        p = env.path('g%d' % nck)
        nck += 1
        with env.lib('restart'):
          model.save_weights(p, save_format='tf')
          c2 = dict(cfg, wseed=cfg['wseed'] + nck)
          _, model = build_pruned(c2)
          kit.compile_model(model, cfg['opt'], cfg['eager'])
          model.load_weights(p)
        env.fault('crash_restart')
        job = PrunedJob(cfg, model)
        for b, a in zip(before, job.state()):
          env.check(b['step'] == a['step'], 'step-lost', b['name'])
      env.state(k, step is None, min(step or 0, 6))
      env.log(k, step, [s['step'] for s in job.state()])


class PruneAssembled(Scenario):
  """A managed job assembled from restored and freshly pruned parts."""
  NAME = 'prune_assembled'
  WEIGHT = 0.4

  def gen(self, rng, tier):
    n = rng.randint(2, 3)
    parts = []
    for _ in range(n):
      parts.append(dict(u=[rng.randint(3, 6) for _ in range(rng.randint(1, 2))],
                        sched=gen_schedule(rng, 8),
                        wseed=rng.getrandbits(24),
                        pre=rng.choice([0, 0, 1, 2, 4])))
    if all(p['pre'] for p in parts):
      rng.choice(parts)['pre'] = 0
    if not any(p['pre'] for p in parts):
      rng.choice(parts)['pre'] = rng.randint(1, 4)
    cfg = dict(parts=parts, width=rng.randint(3, 6), eager=rng.random() < 0.8,
               nested=rng.random() < 0.5, opt=dict(k='sgd', lr=0.05),
               bs=rng.randint(1, 3))
    ops = [dict(op='fit', n=rng.randint(1, 4), dseed=rng.getrandbits(24))
           for _ in range(rng.randint(1, 3))]
    return dict(cfg=cfg, ops=ops)

  def simplify(self, plan):
    for i, p in enumerate(plan['cfg']['parts']):
      if len(p['u']) > 1:
        q = core.clone(plan)
        q['cfg']['parts'][i]['u'] = p['u'][:1]
        yield q
    for i, o in enumerate(plan['ops']):
      if o['n'] > 1:
        q = core.clone(plan)
        q['ops'][i]['n'] -= 1
        yield q

  def part(self, cfg, i, seed):
    p = cfg['parts'][i]
    L = keras.layers
    lay = [L.InputLayer([cfg['width']], name='p%d_in' % i)]
    for j, u in enumerate(p['u']):
      lay.append(L.Dense(u, activation='tanh', name='p%d_d%d' % (i, j)))
    lay.append(L.Dense(cfg['width'], name='p%d_out' % i))
    base = keras.Sequential(lay, name='part%d' % i)
    kit.init_weights(base, seed)
    return prune.prune_low_magnitude(
        base, pruning_schedule=mk_schedule(p['sched']))

  def execute(self, plan, env):
    cfg = plan['cfg']
    w = cfg['width']
    files = {}
    for i, p in enumerate(cfg['parts']):
      if p['pre']:
        m = self.part(cfg, i, p['wseed'])
        kit.compile_model(m, cfg['opt'], cfg['eager'])
        data = kit.batches(dict(shape=[w]), [w], p['pre'], cfg['bs'],
                           p['wseed'])
        with env.lib('fit'):
          m.fit(kit.Batches(data), verbose=0, shuffle=False,
                callbacks=[pruning_callbacks.UpdatePruningStep()])
          files[i] = env.path('part%d' % i)
          m.save_weights(files[i], save_format='tf')
    # a new process assembles the parts, restoring those that exist
    parts = []
    for i, p in enumerate(cfg['parts']):
      m = self.part(cfg, i, p['wseed'] + 1)
      if i in files:
        with env.lib('load_weights'):
          m.load_weights(files[i])
        env.fault('restart_with_restored_part')
      else:
        env.fault('restart_with_new_part')
      parts.append(m)
    x = inp = keras.layers.Input([w])
    for m in parts:
      if cfg['nested']:
        x = m(x)
      else:
        for l in m.layers:
          x = l(x)
    model = keras.Model(inp, x)
    kit.compile_model(model, cfg['opt'], cfg['eager'])
    job = PrunedJob(cfg, model)
    base = {}
    for i, p in enumerate(cfg['parts']):
      base[i] = p['pre']
    t = 0
    masks = {}
    for st in job.state():
      masks[st['name']] = [m for _, m in st['masks']]
    for o in plan['ops']:
      env.op('fit', o['n'])
      data = kit.batches(dict(shape=[w]), [w], o['n'], cfg['bs'], o['dseed'])
      rec = Recorder(job)
      with env.lib('managed-fit'):
        model.fit(kit.Batches(data), verbose=0, shuffle=False,
                  callbacks=[pruning_callbacks.UpdatePruningStep(), rec])
      for kind, _, st in rec.rec:
        if kind != 'batch':
          continue
        t += 1
        for s in st:
          i = int(s['name'][1:].split('_')[0])
          own = base[i] + t
          env.check(s['step'] == own, 'step-counter',
                    '%s is at pruning step %d, it has trained %d steps' % (
                        s['name'], s['step'], own))
          due, sp = ref_schedule(cfg['parts'][i]['sched'], own)
          for j, (_, m) in enumerate(s['masks']):
            if due:
              want = max(1, round(m.size * (1 - sp)))
              # (exact zeros tie with the threshold and may be kept in excess)
              top = want + 1 + int((masks[s['name']][j] == 0).sum())
              env.check(want - 1.01 <= float(m.sum()) <= top, 'wrong-mask',
                        '%s keeps %d of %d, scheduled %d' % (
                            s['name'], m.sum(), m.size, want))
              env.probe('mask_update')
            else:
              env.check(np.array_equal(m, masks[s['name']][j]),
                        'mask-changed-off-schedule', s['name'])
            masks[s['name']][j] = m
      env.log('fit', t, [s['step'] for s in job.state()])
      env.state(t, tuple(sorted(base.values())))


# ================================================================ P05
class PruneStrip(PruneResume):
  """Exports (strip + save + serve elsewhere) at arbitrary moments."""
  NAME = 'prune_strip'

  def gen(self, rng, tier):
    plan = PruneResume.gen(self, rng, tier)
    cfg = plan['cfg']
    ops = [o for o in plan['ops'] if not (o['op'] == 'crash')]
    exp = lambda: dict(op='export', dseed=rng.getrandbits(24),
                       fmt=rng.choice(['none', 'h5', 'h5w', 'tfw', 'keras']),
                       settle=rng.choice(['predict', 'epoch_end']))
    out = []
    for o in ops:
      if rng.random() < 0.3:
        out.append(exp())
      out.append(o)
      if o['op'] == 'seg' and rng.random() < 0.3:
        out.append(dict(op='interrupted', n=rng.randint(1, 3),
                        dseed=rng.getrandbits(24)))
        out.append(exp())
      if o['op'] == 'save' and rng.random() < 0.5:
        out.append(dict(op='crash', how='fresh'))
        out.append(exp())
    out.append(exp())
    plan['ops'] = out
    return plan

  def execute(self, plan, env):
    cfg = plan['cfg']
    model = self.compiled(env, cfg, cfg['wseed'])
    durable = []
    at = lives = n = 0
    for o in plan['ops']:
      k = o['op']
      env.op(k)
      if k == 'seg':
        self.run_seg(env, cfg, model, at)
        at += 1
      elif k == 'interrupted':
        self.run_seg(env, cfg, model, at, crash_after=o['n'])
        env.fault('interrupt_mid_fit')
      elif k == 'save':
        n += 1
        if not o.get('torn'):
          p = self.save(env, cfg, model, o['medium'],
                        env.path('s%d_%s' % (n, o['medium'])))
          durable.append((o['medium'], p, at))
      elif k == 'crash':
        lives += 1
        env.fault('crash_restart')
        model, at = self.restart(env, cfg, durable, 'fresh', lives, model)
      elif k == 'export':
        n += 1
        self.export(env, cfg, model, o, n)
        env.state('export', o['fmt'], o['settle'], at, lives)
      env.log(k, at, lives)

  def export(self, env, cfg, model, o, n):
    x = kit.batches(cfg['arch']['in'], cfg['out'], 1, 4, o['dseed'])[0][0]
    if o['settle'] == 'epoch_end':
      cb = pruning_callbacks.UpdatePruningStep()
      with env.lib('on_epoch_end'):
        cb.set_model(model)
        cb.on_train_begin()
        cb.on_epoch_end(batch=0)
    job = PrunedJob(cfg, model)
    with env.lib('predict'):
      want = model.predict(x, verbose=0)
    st = job.state()
    for s in st:
      for i, m in s['masks']:
        env.check(np.all(s['ws'][i][m == 0] == 0), 'masked-weight-not-zero',
                  '%s serves non-zero masked weights' % s['name'])
    with env.lib('strip_pruning'):
      exp = prune.strip_pruning(model)
    left = [l.name for l in flat_layers(exp)
            if isinstance(l, pruning_wrapper.PruneLowMagnitude)]
    env.check(not left, 'wrapper-left', str(left))
    plain = kit.build_model(cfg['arch'], name='plain')
    shapes = lambda m: [tuple(w.shape) for w in m.weights]
    env.check(shapes(exp) == shapes(plain), 'extra-weights',
              lambda: 'stripped model holds %s, the original architecture %s'
              % (shapes(exp), shapes(plain)))
    with env.lib('stripped.predict'):
      got = exp(x, training=False).numpy()
    env.check(kit.close(want, got, 1e-4, 1e-5), 'strip-changed-function',
              lambda: 'outputs differ by %s' % kit.maxdiff(want, got))
    zeros = {s['name']: s for s in st}
    for l in flat_layers(exp):
      s = zeros.get(l.name)
      if s is None:
        continue
      for i, m in s['masks']:
        w = l.weights[i].numpy()
        env.check(np.all(w[m == 0] == 0), 'sparsity-lost',
                  '%s: stripped weights are not zero where masked' % l.name)
    if o['fmt'] != 'none':
      env.fault('served_from_' + o['fmt'])
      p = env.path('exp%d' % n)
      # the receiver knows nothing about the optimization toolkit
      with env.lib('export[%s]' % o['fmt']):
        if o['fmt'] in ('h5', 'keras'):
          exp.save(p + '.' + o['fmt'])
          served = keras.models.load_model(p + '.' + o['fmt'], compile=False)
        else:
          served = plain
          kit.init_weights(served, 12345)
          q = p + ('.h5' if o['fmt'] == 'h5w' else '')
          exp.save_weights(q)
          served.load_weights(q)
        got = served(x, training=False).numpy()
      env.check(kit.close(want, got, 1e-4, 1e-5), 'export-changed-function',
                lambda: 'served outputs differ by %s' % kit.maxdiff(want, got))
    env.log_arrays('exp', [got])
