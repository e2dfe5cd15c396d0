"""Simulator kernel: seeded plans, event log, fault accounting, violations.

A *plan* is a JSON document holding everything one simulated run depends on:
configuration, the sequence of operations, and every fault with the point at
which it strikes.  `Scenario.gen(rng)` draws a plan from the only PRNG there is;
`Scenario.execute(plan, env)` is a pure function of (plan, code under test).
"""
import collections
import hashlib
import heapq
import json
import os
import random
import shutil
import tempfile
import traceback

import numpy as np


FLT_MAX = np.finfo('float32').max


class Violation(Exception):
  """The property under test does not hold on this run."""

  def __init__(self, kind, msg=''):
    super().__init__('%s: %s' % (kind, msg))
    self.kind = kind
    self.msg = msg


class EndRun(BaseException):
  """The run cannot say anything more (e.g. training itself diverged)."""


class SimulatedInterrupt(BaseException):
  """Raised by the simulator inside the run to model Ctrl-C / preemption."""


class SimulatedCrash(BaseException):
  """Raised by the simulator to model the process dying at this instant."""


def rng_for(seed, *path):
  h = hashlib.sha256(repr((seed,) + path).encode()).digest()
  return random.Random(int.from_bytes(h[:8], 'big'))


class EventQueue:
  """Discrete-event queue ordered by (time, seq): a total order."""

  def __init__(self):
    self.now = 0.0
    self._seq = 0
    self._q = []

  def at(self, t, fn, *args):
    self._seq += 1
    heapq.heappush(self._q, (max(t, self.now), self._seq, fn, args))

  def after(self, d, fn, *args):
    self.at(self.now + d, fn, *args)

  def pending(self):
    return len(self._q)

  def step(self):
    t, _, fn, args = heapq.heappop(self._q)
    self.now = t
    fn(*args)

  def run(self, max_events=100000):
    n = 0
    while self._q:
      self.step()
      n += 1
      if n > max_events:
        raise Violation('no-progress', 'event budget exceeded')
    return n


class _Lib:
  """Context: exceptions raised by the code under test become violations."""

  def __init__(self, what, allow=()):
    self.what = what
    self.allow = allow

  def __enter__(self):
    return self

  def __exit__(self, et, ev, tb):
    if et is None or issubclass(et, (Violation, EndRun, SimulatedInterrupt,
                                     SimulatedCrash, KeyboardInterrupt,
                                     MemoryError, SystemExit)):
      return False
    if self.allow and issubclass(et, self.allow):
      return False
    last = traceback.format_exception(et, ev, tb)
    raise Violation('api-error[%s]' % self.what,
                    '%s raised %s: %s\n%s' % (
                        self.what, et.__name__, str(ev)[:400],
                        ''.join(last[-6:])[-1500:])) from ev


class Env:
  """Per-run environment: log, counters, scratch disk, simulated time."""

  def __init__(self, verbose=False):
    self._h = hashlib.sha256()
    self.faults = collections.Counter()
    self.probes = collections.Counter()
    self.ops = collections.Counter()
    self.sim_time = 0.0
    self.nlog = 0
    self.verbose = verbose
    self.lines = []
    self.states = set()
    self._tmp = None

  # -- recorded history ---------------------------------------------------
  def log(self, *parts):
    s = ' '.join(str(p) for p in parts)
    self._h.update(s.encode())
    self._h.update(b'\n')
    self.nlog += 1
    if self.verbose:
      self.lines.append(s)

  def log_arrays(self, tag, arrays):
    hh = hashlib.sha256()
    for a in arrays:
      hh.update(str(a.dtype).encode() + str(a.shape).encode())
      hh.update(a.tobytes())
    self.log(tag, hh.hexdigest()[:16])

  def state(self, *key):
    """Registers an abstract state / situation reached (for coverage)."""
    self.states.add(json.dumps(key, default=str))

  def op(self, kind, dt=1.0):
    self.ops[kind] += 1
    self.sim_time += dt

  def fault(self, kind, n=1):
    self.faults[kind] += n

  def probe(self, kind, n=1):
    self.probes[kind] += n

  def digest(self):
    return self._h.hexdigest()

  # -- helpers --------------------------------------------------------------
  def lib(self, what, allow=()):
    return _Lib(what, allow)

  def diverged(self, arrays, limit=1e3):
    """Ends the run when the training it simulates has blown up."""
    for a in arrays:
      if a.dtype.kind != 'f':
        continue
      a = np.abs(a)
      if a.dtype == np.float32:
        a = a[a != FLT_MAX]        # (marks places that are not in use)
      if a.size and not a.max() < limit:
        self.probe('training_diverged')
        raise EndRun()

  def check(self, cond, kind, msg=''):
    if not cond:
      raise Violation(kind, msg() if callable(msg) else msg)

  @property
  def tmp(self):
    if self._tmp is None:
      self._tmp = tempfile.mkdtemp(prefix='tfmot_sim_')
    return self._tmp

  def path(self, *p):
    return os.path.join(self.tmp, *p)

  def close(self):
    if self._tmp is not None:
      shutil.rmtree(self._tmp, ignore_errors=True)
      self._tmp = None


class Scenario:
  """One simulated system + workload + oracle."""
  NAME = ''
  # relative weight inside a property's mix
  WEIGHT = 1.0

  def gen(self, rng, tier):
    raise NotImplementedError

  def execute(self, plan, env):
    raise NotImplementedError

  def simplify(self, plan):
    """Yields plans simpler than `plan` in their configuration."""
    return iter(())

  def interleaving(self, plan):
    """Key naming the schedule + fault placement of a plan, values dropped."""
    def shape(o):
      if isinstance(o, dict):
        return {k: shape(v) for k, v in o.items()
                if k not in ('seed', 'dseed', 'vseed')}
      if isinstance(o, list):
        return [shape(v) for v in o]
      return o
    return json.dumps([self.NAME, shape(plan.get('ops'))], sort_keys=True)

  def nontrivial(self, plan, env):
    return bool(env.ops)


def weighted(rng, pairs):
  tot = sum(w for _, w in pairs)
  x = rng.random() * tot
  for v, w in pairs:
    x -= w
    if x <= 0:
      return v
  return pairs[-1][0]


def clone(plan):
  return json.loads(json.dumps(plan))


def minimise(plan, fails, budget_runs=80, deadline=None, clock=None,
             simplify=None):
  """Greedy delta debugging over plan['ops'] then over the configuration.

  `fails(plan) -> bool` re-executes the plan and tells whether the same class
  of violation persists.
  """
  runs = [0]

  def ok(p):
    if runs[0] >= budget_runs:
      return False
    if deadline is not None and clock() > deadline:
      return False
    runs[0] += 1
    return fails(p)

  best = clone(plan)
  changed = True
  while changed:
    changed = False
    ops = best.get('ops', [])
    n = max(1, len(ops) // 2)
    while n >= 1 and len(best.get('ops', [])) > 0:
      i = 0
      while i < len(best['ops']):
        cand = clone(best)
        del cand['ops'][i:i + n]
        if len(cand['ops']) < len(best['ops']) and ok(cand):
          best = cand
          changed = True
        else:
          i += n
      if n == 1:
        break
      n = max(1, n // 2)
    if simplify is not None:
      again = True
      while again:
        again = False
        for cand in simplify(best):
          if ok(cand):
            best = clone(cand)
            again = True
            changed = True
            break
    if runs[0] >= budget_runs or (deadline is not None and clock() > deadline):
      break
  return best, runs[0]
