"""Command line of the simulator.

  driver.py check ID          explore; exit 0 / 1 (+ VIOLATION line)
  driver.py replay FILE       re-execute one replay file in a fresh process
  driver.py selftest          check that the simulator loads
  driver.py determinism ID N  run N plans in several process layouts and diff
"""
import collections
import hashlib
import json
import os
import queue
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = os.environ.get('TFMOT_SIM_PYTHON', '/opt/venv/bin/python')

sys.path.insert(0, VERIF)
from sim import registry  # pylint: disable=wrong-import-position

RUN_TIMEOUT = 240.0


def child_env(hashseed='0'):
  e = dict(os.environ)
  e.update({
      'TF_USE_LEGACY_KERAS': '1', 'TF_CPP_MIN_LOG_LEVEL': '3',
      'CUDA_VISIBLE_DEVICES': '-1', 'OMP_NUM_THREADS': '1',
      'TF_NUM_INTRAOP_THREADS': '1', 'TF_NUM_INTEROP_THREADS': '1',
      'TF_DETERMINISTIC_OPS': '1', 'TF_ENABLE_ONEDNN_OPTS': '0',
      'PYTHONHASHSEED': hashseed, 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
      'PYTHONPATH': VERIF, 'PYTHONDONTWRITEBYTECODE': '1',
      registry.HOOK_GUARD: '1',
  })
  return e


class Child:
  """One worker process and a reader thread."""

  def __init__(self, req, outq, tag, hashseed='0', errdir=None):
    self.tag = tag
    self.req = req
    self.err = tempfile.NamedTemporaryFile(
        'w+', prefix='err_', dir=errdir, delete=False)
    self.p = subprocess.Popen(
        [PY, '-m', 'sim.worker', json.dumps(req)], cwd=VERIF,
        env=child_env(hashseed), stdin=subprocess.PIPE,
        stdout=subprocess.PIPE, stderr=self.err, text=True)
    self.cur = None
    self.cur_t = time.time()
    self.given = 0
    self.minimising = False
    self.t = threading.Thread(target=self._read, args=(outq,), daemon=True)
    self.t.start()

  def _read(self, outq):
    for line in self.p.stdout:
      line = line.strip()
      if line.startswith('{'):
        outq.put((self, json.loads(line)))
    self.p.wait()
    outq.put((self, {'t': 'exit', 'rc': self.p.returncode}))

  def give(self, idx):
    """Hands the worker its next run; None lets it go home."""
    self.given += 1
    self.cur = idx
    try:
      self.p.stdin.write('%s\n' % ('' if idx is None else idx))
      self.p.stdin.flush()
    except OSError:
      pass

  def tail(self):
    try:
      with open(self.err.name) as f:
        return f.read()[-1500:]
    except OSError:
      return ''

  def kill(self):
    if self.p.poll() is None:
      self.p.kill()


def plan_id(plan):
  return hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:12]


def known_findings(pid):
  path = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return [k for k in json.load(f)['findings']
            if k['property'] == pid and k.get('status') == 'open']


def replay_once(path, errdir, timeout=600, hashseed='0'):
  with open(path) as f:
    pid = json.load(f)['property']
  q = queue.Queue()
  c = Child({'pid': pid, 'replay': os.path.abspath(path)}, q, 'replay',
            errdir=errdir, hashseed=hashseed)
  end = time.time() + timeout
  res = None
  while True:
    try:
      _, m = q.get(timeout=max(0.1, end - time.time()))
    except queue.Empty:
      c.kill()
      return {'outcome': 'timeout'}
    if m['t'] == 'replayed':
      res = m
    if m['t'] == 'exit':
      if res is None:
        return {'outcome': 'harness', 'payload': {'msg': c.tail()}}
      return res


def explore(pid, tier, seed, idxs, jobs, cap_s, errdir, minimise=True,
            hashseed='0', chunk=40, stop_on_violation=True, on_run=None):
  q = queue.Queue()
  spec = registry.PROPS[pid]
  chunk = spec.get('chunk', chunk)
  pending = collections.deque(idxs)
  children, again = set(), set()
  runs, problems, minimised = [], [], []
  t0 = time.time()

  def spawn():
    children.add(Child({'pid': pid, 'tier': tier, 'seed': seed,
                        'minimise': minimise}, q, 'w', hashseed, errdir))

  for _ in range(min(jobs, len(pending))):
    spawn()
  stopping = False
  violated = None
  while children:
    try:
      c, m = q.get(timeout=1.0)
    except queue.Empty:
      c, m = None, None
    now = time.time()
    if m is not None:
      c.cur_t = now
      if m['t'] == 'ready':
        c.give(pending.popleft() if pending and not stopping else None)
      elif m['t'] == 'run':
        c.cur = None
        runs.append(m)
        if on_run:
          on_run(m)
        if m['outcome'] == 'violation':
          c.minimising = True
          if violated is None:
            violated = now
            if stop_on_violation:
              stopping = True
        elif m['outcome'] == 'harness':
          problems.append(m)
        if m['outcome'] != 'violation' or not minimise:
          # (a worker is replaced after `chunk` runs: memory stays bounded)
          go = pending and not stopping and c.given < chunk
          c.give(pending.popleft() if go else None)
      elif m['t'] == 'minimised':
        minimised.append(m)
        if stop_on_violation:
          for o in list(children):
            o.kill()
      elif m['t'] == 'flaky':
        problems.append({'payload': {
            'kind': 'nondeterministic', 'msg': 'run %d failed once (%s) and '
            'passed when re-executed' % (m['idx'], m['payload'])},
                         'plan': m['plan'], 'idx': m['idx']})
        c.give(None)
      elif m['t'] == 'exit':
        children.discard(c)
        if m['rc'] == -9 and not stopping and c.cur not in again:
          # ended from outside, say for memory: once more, in a new process
          if c.cur is not None:
            again.add(c.cur)
            pending.appendleft(c.cur)
        elif m['rc'] not in (0, -9) or (m['rc'] == -9 and not stopping):
          problems.append({'payload': {
              'kind': 'worker-died', 'msg': 'rc=%s idx=%s %s' % (
                  m['rc'], c.cur, c.tail())}, 'idx': c.cur})
          stopping = True
        if pending and not stopping:
          spawn()
    if stopping and violated and now - violated > 150:
      for o in list(children):
        o.kill()
    if not stopping and now - t0 > cap_s:
      stopping = True
      pending.clear()
    if stopping and not violated and now - t0 > cap_s + 30:
      # out of budget: what has not finished is simply not counted
      for o in list(children):
        o.kill()
    for o in list(children):
      if o.cur is not None and now - o.cur_t > RUN_TIMEOUT and not o.minimising:
        problems.append({'payload': {'kind': 'hang',
                                     'msg': 'run %s exceeded %ss' % (
                                         o.cur, RUN_TIMEOUT)}, 'idx': o.cur})
        stopping = True
        o.kill()
  return runs, problems, minimised, time.time() - t0


def write_evidence(pid, tier, seed, runs, wall, extra):
  spec = registry.PROPS[pid]
  faults, ops, probes = (collections.Counter() for _ in range(3))
  states, inter, digests = set(), set(), set()
  scen = collections.Counter()
  nontriv = set()
  sim_time = 0.0
  samples = []
  for r in runs:
    faults.update(r['faults'])
    ops.update(r['ops'])
    probes.update(r['probes'])
    states.update(r['states'])
    inter.add(r['interleaving'])
    digests.add(r['digest'])
    scen[r['scenario']] += 1
    sim_time += r['sim_time']
    if r['nontrivial']:
      nontriv.add(r['digest'])
    if r.get('plan') and len(samples) < 2:
      samples.append(r['plan'])
  if not samples:
    samples.append({'note': 'no run finished'})
  ev = {
      'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
      'coverage': {
          'evaluations': len(runs),
          'distinct_nontrivial': len(nontriv),
          'rule': spec['rule'],
          'samples': samples,
          'simulated_runs': len(runs),
          'runs_per_hour': round(len(runs) / max(wall, 1e-9) * 3600),
          'seeds_per_hour': round(len(runs) / max(wall, 1e-9) * 3600),
          'simulated_time_s': round(sim_time, 1),
          'runs_by_scenario': dict(scen),
          'operations': dict(ops),
          'faults_injected': dict(faults),
          'rare_condition_probes': dict(probes),
          'distinct_histories': len(digests),
          'distinct_interleavings': len(inter),
          'interleaving_measure': 'sequence of operations and faults with '
                                  'their positions, data seeds dropped',
          'distinct_states': len(states),
          'state_measure': spec['state_measure'],
          'components_real': spec['real'],
          'components_stubbed': spec['stub'],
      },
      'wall_s': round(wall, 2),
      'assumptions': registry.ASSUMPTIONS + spec.get('assumptions', []),
  }
  ev['coverage'].update(extra)
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, sort_keys=True)
    f.write('\n')


def cmd_check(pid):
  tier = os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1'))
  print('sim check property=%s tier=%s VERIF_SEED=%d' % (pid, tier, seed),
        flush=True)
  spec = registry.PROPS[pid]
  jobs = int(os.environ.get('TFMOT_SIM_JOBS', '8'))
  n = spec['runs'][tier]
  if os.environ.get('TFMOT_SIM_RUNS'):
    n = int(os.environ['TFMOT_SIM_RUNS'])
  cap = spec.get('cap', {}).get(tier, 420 if tier == 'quick' else 5400)
  t0 = time.time()
  with tempfile.TemporaryDirectory(prefix='tfmot_sim_drv_') as errdir:
    # 1. fixed replays of the listed known findings
    known = known_findings(pid)
    known_sigs = {}
    known_out = []
    for k in known:
      rp = os.path.join(VERIF, k['replay'])
      res = replay_once(rp, errdir)
      known_sigs[k['signature']] = k
      if res['outcome'] == 'violation' and (
          res['payload']['kind'] == k['signature']):
        line = 'KNOWN-FINDING: property=%s %s' % (pid, k['what'])
        print(line, flush=True)
        known_out.append(line)
      elif res['outcome'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (pid, rp), flush=True)
        print('  the replay of a known finding now fails differently: %s' %
              res['payload'])
        return 1
      else:
        print('note: known finding no longer reproduces: %s (%s)' % (
            k['what'], res['outcome']))
    # 2. the seeded search
    runs, problems, minimised, wall = explore(
        pid, tier, seed, list(range(n)), jobs, cap, errdir)
    viol = sorted((r for r in runs if r['outcome'] == 'violation'),
                  key=lambda r: r['idx'])
    unknown = [r for r in viol if r['payload']['kind'] not in known_sigs]
    write_evidence(pid, tier, seed, runs, time.time() - t0, {
        'violations': len(unknown),
        'known_findings_reproduced': known_out,
        'max_run_wall_s': max([r['wall'] for r in runs], default=0),
    })
    if unknown:
      pick = None
      for m in minimised:
        if m['outcome'] == 'violation' and (
            m['payload']['kind'] not in known_sigs):
          pick = m
          break
      if pick is None:
        pick = dict(unknown[0])
      rdir = os.path.join(VERIF, 'evidence', 'replays')
      os.makedirs(rdir, exist_ok=True)
      path = os.path.join(rdir, '%s-%d-%d-%s.json' % (
          pid, seed, pick['idx'], plan_id(pick['plan'])))
      doc = {'property': pid, 'seed': seed, 'index': pick['idx'],
             'tier': tier, 'plan': pick['plan'], 'violation': pick['payload'],
             'digest': pick['digest'], 'ops_before': pick.get('ops_before'),
             'ops_after': pick.get('ops_after'),
             'minimiser_runs': pick.get('runs'), 'trace': pick.get('lines')}
      with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
      res = replay_once(path, errdir)
      same = (res['outcome'] == 'violation' and
              res['payload']['kind'] == pick['payload']['kind'])
      if same:
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        print('  seed=%d run=%d kind=%s' % (seed, pick['idx'],
                                            pick['payload']['kind']))
        print('  %s' % pick['payload']['msg'][:1500])
        print('  minimised ops %s -> %s; fresh-process replay identical: %s' % (
            pick.get('ops_before'), pick.get('ops_after'),
            res['digest'] == pick['digest']))
        return 1
      # a minimised plan that only fails inside the worker: fall back to the
      # unminimised one before giving up.
      orig = unknown[0]
      doc.update(plan=orig['plan'], violation=orig['payload'],
                 digest=orig['digest'], trace=None)
      with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
      res = replay_once(path, errdir)
      if res['outcome'] == 'violation':
        print('VIOLATION property=%s replay=%s' % (pid, path), flush=True)
        print('  seed=%d run=%d kind=%s (not minimised)' % (
            seed, orig['idx'], res['payload']['kind']))
        print('  %s' % res['payload']['msg'][:1500])
        return 1
      print('ERROR: violation did not replay: %s' % pick['payload'])
      return 2
    if viol:
      print('%d runs hit listed known findings' % len(viol))
    if problems:
      for p in problems[:3]:
        print('ERROR (harness, not a verdict): idx=%s %s' % (
            p.get('idx'), json.dumps(p['payload'])[:3000]))
      if os.environ.get('TFMOT_SIM_DEBUG') and problems[0].get('plan'):
        print(json.dumps(problems[0]['plan']))
      return 2
    if len(runs) < min(n, spec.get('min_runs', 10)):
      print('ERROR: only %d of %d runs finished in time' % (len(runs), n))
      return 2
    print('ok property=%s runs=%d wall=%.1fs' % (pid, len(runs),
                                                  time.time() - t0))
    return 0


def cmd_replay(path):
  with tempfile.TemporaryDirectory(prefix='tfmot_sim_drv_') as errdir:
    with open(path) as f:
      doc = json.load(f)
    res = replay_once(path, errdir)
  for l in res.get('lines', []):
    print(l)
  print('outcome=%s' % res['outcome'])
  if res.get('payload'):
    print('%s: %s' % (res['payload'].get('kind'), res['payload'].get('msg')))
  if doc.get('digest'):
    print('history digest identical to the recorded one: %s' % (
        res.get('digest') == doc['digest']))
  if res['outcome'] == 'violation':
    print('VIOLATION property=%s replay=%s' % (doc['property'], path))
    return 1
  return 0 if res['outcome'] == 'ok' else 2


def cmd_determinism(pid, n):
  seed = int(os.environ.get('VERIF_SEED', '1'))
  layouts = [(8, '0', 40), (3, '0', 7), (5, '12345', 1000)]
  res = []
  with tempfile.TemporaryDirectory(prefix='tfmot_sim_drv_') as errdir:
    for jobs, hs, chunk in layouts:
      idxs = list(range(n))
      if chunk == 7:
        idxs = idxs[::-1]
      runs, problems, _, wall = explore(
          pid, 'quick', seed, idxs, jobs, 3600, errdir, minimise=False,
          hashseed=hs, chunk=chunk, stop_on_violation=False)
      print('layout jobs=%d PYTHONHASHSEED=%s chunk=%d: %d runs, %d problems, '
            '%.0fs' % (jobs, hs, chunk, len(runs), len(problems), wall),
            flush=True)
      res.append({r['idx']: (r['outcome'], r['digest'], r['nlog'])
                  for r in runs})
  bad = 0
  for i in range(n):
    vals = {r.get(i) for r in res}
    if len(vals) != 1:
      bad += 1
      print('DIVERGED run %d: %s' % (i, vals))
  print('determinism property=%s runs=%d layouts=%d diverged=%d' % (
      pid, n, len(layouts), bad))
  return 1 if bad else 0


def main(argv):
  if argv[0] == 'check':
    return cmd_check(argv[1])
  if argv[0] == 'replay':
    return cmd_replay(argv[1])
  if argv[0] == 'determinism':
    return cmd_determinism(argv[1], int(argv[2]))
  if argv[0] == 'selftest':
    # nothing to build: the library is loaded from /repo's sources every time
    return subprocess.call(
        [PY, '-c', 'from sim import boot; boot.boot(); import json; '
         'json.load(open("MANIFEST.json")); print("setup ok")'], cwd=VERIF,
        env=child_env())
  print(__doc__)
  return 2


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))
