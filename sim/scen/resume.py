"""A simulated trainer process that crashes and restarts from durable storage.

The trainer runs numbered training segments and commits checkpoints.  A crash
throws the process away: model object, optimizer, callbacks, Python state.  A
restart rebuilds the job from code -- with other random initial values -- and
restores the newest committed checkpoint.  The oracle is the same job run once
without any fault ("golden"): at every segment boundary reached by the crashed
and restarted job, everything observable must equal the golden job's.
"""
import contextlib
import os
import shutil

import numpy as np
import tensorflow as tf

from tensorflow_model_optimization.python.core.keras.compat import keras

from sim import core
from sim import kit

# medium -> (keeps optimizer state, rebuilds model from its config)
MEDIA = {
    'ckpt': (True, False),     # tf.train.Checkpoint(model, optimizer)
    'tfw': (True, False),      # model.save_weights, TensorFlow format
    'h5w': (False, False),     # model.save_weights, HDF5
    'h5': (True, True),        # whole model, HDF5
    'keras': (True, True),     # whole model, .keras
    'sm': (False, True),       # whole model, SavedModel
}


class Crasher(keras.callbacks.Callback):
  """Kills the simulated process after `at` batches."""

  def __init__(self, at):
    super().__init__()
    self.left = at

  def on_train_batch_end(self, batch, logs=None):
    self.left -= 1
    if self.left <= 0:
      raise core.SimulatedCrash()


class ResumeScenario(core.Scenario):
  """Base class; subclasses describe one kind of job."""
  NAME = 'resume'
  media = list(MEDIA)
  weights = {'ckpt': 3, 'tfw': 3, 'h5w': 2, 'h5': 2, 'keras': 2, 'sm': 0.35}

  # ---- to be provided -----------------------------------------------------
  def gen_job(self, rng, tier):
    raise NotImplementedError

  def build(self, cfg, seed):
    """Returns an uncompiled job model with values drawn from `seed`."""
    raise NotImplementedError

  def callbacks(self, cfg, model):
    return []

  def scope(self, cfg):
    return contextlib.nullcontext()

  def observe(self, cfg, model):
    """list of (name, array) that must match the golden job."""
    return [(v.name, v.numpy()) for v in model.weights]

  def allowed_media(self, cfg):
    return self.media

  def invariant(self, env, cfg, model, where):
    pass

  def rtol(self, cfg):
    return 1e-3, 1e-4

  def fit_kwargs(self, cfg):
    return {}

  # ---- generic ----------------------------------------------------------------
  def gen(self, rng, tier):
    cfg = self.gen_job(rng, tier)
    cfg['eager'] = rng.random() < 0.85
    cfg['bs'] = rng.randint(2, 4)
    cfg['dseed'] = rng.getrandbits(24)
    med = self.allowed_media(cfg)
    mine = [core.weighted(rng, [(m, self.weights[m]) for m in med])
            for _ in range(2)]
    if 'keras' in mine and ('h5' in mine or 'h5w' in mine):
      # tf_keras drops name scopes when loading .keras and then cannot write
      # HDF5 (duplicate names); plain models have the same limit.
      mine = ['keras', 'keras']
    lossless = all(MEDIA[m][0] for m in mine)
    cfg['opt'] = kit.gen_opt(rng, stateless=not lossless)
    cfg['segs'] = [dict(b=rng.randint(1, 3), e=rng.randint(1, 2))
                   for _ in range(4)]
    ops = []
    nseg = rng.randint(2, 4 if tier == 'quick' else 7)
    for _ in range(nseg):
      ops.append(dict(op='seg'))
      r = rng.random()
      if r < 0.75:
        o = dict(op='save', medium=rng.choice(mine))
        if rng.random() < 0.15:
          o['torn'] = True
        ops.append(o)
      if rng.random() < 0.2:
        ops.append(dict(op='eval'))
      if rng.random() < 0.55:
        ops.append(self.gen_crash(rng))
        if rng.random() < 0.2:
          ops.append(self.gen_crash(rng))
    if rng.random() < 0.3:
      ops.insert(0, dict(op='save', medium=rng.choice(mine)))
      ops.insert(1, self.gen_crash(rng))
    if not any(o['op'] == 'crash' for o in ops):
      ops.append(self.gen_crash(rng))
    ops.append(dict(op='seg'))
    return dict(cfg=cfg, ops=ops)

  def gen_crash(self, rng):
    o = dict(op='crash', how=rng.choice(['fresh', 'fresh', 'inplace']))
    if rng.random() < 0.45:
      o['partial'] = rng.randint(1, 3)
    return o

  def simplify(self, plan):
    if not plan['cfg']['eager']:
      p = core.clone(plan)
      p['cfg']['eager'] = True
      yield p
    for i, o in enumerate(plan['ops']):
      for k in ('partial', 'torn'):
        if k in o:
          p = core.clone(plan)
          del p['ops'][i][k]
          yield p
    if any(s != dict(b=1, e=1) for s in plan['cfg']['segs']):
      p = core.clone(plan)
      p['cfg']['segs'] = [dict(b=1, e=1) for _ in plan['cfg']['segs']]
      yield p

  def data(self, cfg, i):
    s = cfg['segs'][i % len(cfg['segs'])]
    return kit.batches(cfg['arch']['in'], cfg['out'], s['b'], cfg['bs'],
                       cfg['dseed'] * 131 + i), s['e']

  def compiled(self, env, cfg, seed):
    with env.lib('build'):
      m = self.build(cfg, seed)
    with env.lib('compile'):
      kit.compile_model(m, cfg['opt'], cfg['eager'])
      # optimizer slots exist from the start, so every checkpoint holds them
      m.optimizer.build(m.trainable_variables)
    return m

  def run_seg(self, env, cfg, model, i, crash_after=None):
    bts, ep = self.data(cfg, i)
    with env.lib('callbacks'):
      cbs = self.callbacks(cfg, model)
    if crash_after is not None:
      cbs = cbs + [Crasher(crash_after)]
    with env.lib('fit'):
      try:
        model.fit(kit.Batches(bts), epochs=ep, verbose=0, shuffle=False,
                  callbacks=cbs, **self.fit_kwargs(cfg))
      except core.SimulatedCrash:
        return False
    return True

  def snapshot(self, env, cfg, model):
    with env.lib('observe'):
      o = list(self.observe(cfg, model))
    if cfg['opt']['k'] != 'sgd':
      model.optimizer.build(model.trainable_variables)
      o += [('opt%d' % i, v.numpy())
            for i, v in enumerate(model.optimizer.variables)]
    return o

  def execute(self, plan, env):
    cfg = plan['cfg']
    golden = {'model': self.compiled(env, cfg, cfg['wseed']), 'at': 0,
              'obs': {}}
    golden['obs'][0] = self.snapshot(env, cfg, golden['model'])

    def want(i):
      while golden['at'] < i:
        self.run_seg(env, cfg, golden['model'], golden['at'])
        golden['at'] += 1
        golden['obs'][golden['at']] = self.snapshot(env, cfg, golden['model'])
        env.diverged([a for _, a in golden['obs'][golden['at']]])
      return golden['obs'][i]

    model = self.compiled(env, cfg, cfg['wseed'])
    at = 0
    durable = []          # committed checkpoints: (medium, path, segment)
    lives = 0
    nsave = 0
    for o in plan['ops']:
      k = o['op']
      env.op(k)
      if k == 'seg':
        self.run_seg(env, cfg, model, at)
        at += 1
        self.compare(env, cfg, want(at), model, at, 'after segment %d, life %d'
                     % (at, lives))
        self.invariant(env, cfg, model, 'segment %d' % at)
        env.state('seg', at, lives)
      elif k == 'eval':
        before = self.snapshot(env, cfg, model)
        bts, _ = self.data(cfg, 1000 + at)
        with env.lib('evaluate'):
          model.evaluate(kit.Batches(bts), verbose=0)
        self.compare(env, cfg, before, model, at, 'evaluation')
      elif k == 'save':
        path = env.path('ck%d_%s' % (nsave, o['medium']))
        nsave += 1
        path = self.save(env, cfg, model, o['medium'], path)
        if o.get('torn'):
          self.tear(path)
          env.fault('crash_mid_save')
          # the commit record was never written: this life ends here
          model, at = self.restart(env, cfg, durable, 'fresh', lives, None)
          lives += 1
          self.compare(env, cfg, want(at), model, at,
                       'restart %d after torn save' % lives)
        else:
          durable.append((o['medium'], path, at))
          # saving must not disturb the running job
          self.compare(env, cfg, want(at), model, at, 'saving')
      elif k == 'crash':
        if o.get('partial'):
          self.run_seg(env, cfg, model, at, crash_after=o['partial'])
          env.fault('crash_mid_segment')
        else:
          env.fault('crash_between_segments')
        how = o['how']
        if how == 'inplace' and not (durable and not
                                     MEDIA[durable[-1][0]][1]):
          how = 'fresh'
        model, at = self.restart(env, cfg, durable, how, lives, model)
        lives += 1
        env.fault('restart_' + how)
        self.compare(env, cfg, want(at), model, at, 'restart %d' % lives)
        env.state('restart', how, durable[-1][0] if durable else None, at)
      env.log(k, at, lives)
      env.log_arrays('obs', [a for _, a in self.observe(cfg, model)])

  def compare(self, env, cfg, want, model, at, where):
    got = self.snapshot(env, cfg, model)
    env.check(len(got) == len(want), 'state-lost',
              lambda: '%s: %d state variables, expected %d (%s)' % (
                  where, len(got), len(want),
                  sorted(set(n for n, _ in want) ^ set(n for n, _ in got))))
    rt, at_ = self.rtol(cfg)
    for (n, a), (_, b) in zip(want, got):
      env.check(kit.close(a, b, rt, at_), 'state-diverged',
                lambda: '%s: %s differs from the uninterrupted job by %s' % (
                    where, n, kit.maxdiff(a, b)))

  # ---- durable storage ------------------------------------------------------
  def save(self, env, cfg, model, medium, path):
    with env.lib('save[%s]' % medium):
      if medium == 'ckpt':
        return tf.train.Checkpoint(
            model=model, optimizer=model.optimizer).write(path)
      if medium == 'tfw':
        model.save_weights(path, save_format='tf')
        return path
      if medium == 'h5w':
        model.save_weights(path + '.h5')
        return path + '.h5'
      ext = {'h5': '.h5', 'keras': '.keras', 'sm': ''}[medium]
      with self.scope(cfg):
        model.save(path + ext)
      return path + ext

  def tear(self, path):
    """What a crash in the middle of writing leaves behind."""
    if os.path.isdir(path):
      shutil.rmtree(path)
      return
    d, b = os.path.split(path)
    for f in sorted(os.listdir(d)):
      if f.startswith(b):
        p = os.path.join(d, f)
        with open(p, 'r+b') as fh:
          fh.truncate(os.path.getsize(p) // 2)

  def restart(self, env, cfg, durable, how, lives, live):
    if not durable:
      # nothing committed: a cold start, same initial values as the first time
      return self.compiled(env, cfg, cfg['wseed']), 0
    medium, path, at = durable[-1]
    if how == 'inplace':
      model = live
    elif not MEDIA[medium][1]:
      model = self.compiled(env, cfg, cfg['wseed'] + 7919 * (lives + 1))
    else:
      model = None
    with env.lib('restore[%s]' % medium):
      if medium == 'ckpt':
        tf.train.Checkpoint(model=model, optimizer=model.optimizer).restore(
            path)
      elif medium in ('tfw', 'h5w'):
        model.load_weights(path)
      else:
        with self.scope(cfg):
          model = keras.models.load_model(path)
        if medium == 'sm':
          kit.compile_model(model, cfg['opt'], cfg['eager'])
        model.run_eagerly = cfg['eager']
    return model, at
