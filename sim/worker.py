"""Runs simulated runs [lo, hi) step W of one property; JSON lines on stdout."""
import importlib
import json
import os
import resource
import sys
import time
import traceback

from sim import boot
from sim import core
from sim import registry

_OUT = None


def emit(obj):
  _OUT.write(json.dumps(obj) + '\n')
  _OUT.flush()


def load_scenarios(pid):
  spec = registry.PROPS[pid]
  boot.boot(spec.get('logical_cpus', 1))
  out = []
  for path in spec['scenarios']:
    mod, cls = path.split(':')
    out.append(getattr(importlib.import_module('sim.scen.' + mod), cls)())
  return out


def make_plan(pid, scens, seed, idx, tier):
  """The plan of run `idx` is a pure function of (property, seed, idx, tier)."""
  rng = core.rng_for(seed, pid, idx)
  sc = core.weighted(rng, [(s, s.WEIGHT) for s in scens])
  plan = sc.gen(rng, tier)
  plan['scenario'] = sc.NAME
  plan['property'] = pid
  plan.setdefault('vseed', rng.getrandbits(30))
  return json.loads(json.dumps(plan))


def run_plan(scens, plan, verbose=False):
  """-> (outcome, payload, env); outcome in ok|violation|harness."""
  sc = [s for s in scens if s.NAME == plan['scenario']][0]
  env = core.Env(verbose=verbose)
  try:
    boot.reset(plan.get('vseed', 0))
    sc.execute(plan, env)
    return 'ok', None, env, sc
  except core.EndRun:
    return 'ok', None, env, sc
  except core.Violation as v:
    return 'violation', {'kind': v.kind, 'msg': v.msg}, env, sc
  except (KeyboardInterrupt, SystemExit):
    raise
  except BaseException as e:  # pylint: disable=broad-except
    tb = e.__traceback__
    frames = []
    while tb is not None:
      frames.append(tb.tb_frame.f_code.co_filename)
      tb = tb.tb_next
    if any(f.startswith(boot.REPO + os.sep) for f in frames) and not isinstance(
        e, MemoryError):
      # the code under test itself failed on a legal call
      return 'violation', {'kind': 'api-error[%s]' % type(e).__name__,
                           'msg': ''.join(traceback.format_exception(
                               type(e), e, e.__traceback__))[-2000:]}, env, sc
    return 'harness', {'kind': 'harness-error',
                       'msg': ''.join(traceback.format_exception(
                           type(e), e, e.__traceback__))[-4000:]}, env, sc
  finally:
    env.close()


def main():
  global _OUT
  # keep the protocol stream clean from anything printed by libraries
  _OUT = os.fdopen(os.dup(1), 'w')
  os.dup2(2, 1)
  req = json.loads(sys.argv[1])
  pid = req['pid']
  scens = load_scenarios(pid)
  emit({'t': 'ready'})
  if 'replay' in req:
    with open(req['replay']) as f:
      plan = json.load(f)['plan']
    outcome, payload, env, _ = run_plan(scens, plan, verbose=True)
    emit({'t': 'replayed', 'outcome': outcome, 'payload': payload,
          'digest': env.digest(), 'lines': env.lines[-400:]})
    return
  for line in sys.stdin:
    if not line.strip():
      break
    idx = int(line)
    plan = make_plan(pid, scens, req['seed'], idx, req['tier'])
    t0 = time.time()
    outcome, payload, env, sc = run_plan(scens, plan)
    rec = {
        't': 'run', 'idx': idx, 'outcome': outcome, 'payload': payload,
        'digest': env.digest(), 'nlog': env.nlog, 'wall': time.time() - t0,
        'faults': dict(env.faults), 'probes': dict(env.probes),
        'ops': dict(env.ops), 'sim_time': env.sim_time,
        'states': sorted(env.states), 'scenario': sc.NAME,
        'interleaving': sc.interleaving(plan),
        'nontrivial': bool(sc.nontrivial(plan, env)),
    }
    if idx < 3 or outcome != 'ok':
      rec['plan'] = plan
    emit(rec)
    if outcome == 'violation' and req.get('minimise', True):
      kind = payload['kind']

      def fails(p, kind=kind):
        o, pl, _, _ = run_plan(scens, p)
        return o == 'violation' and pl['kind'] == kind

      # first of all: the very same plan must fail again, or the run depends on
      # something the simulator does not control.
      if not fails(plan):
        emit({'t': 'flaky', 'idx': idx, 'payload': payload, 'plan': plan})
        continue
      best, n = core.minimise(
          plan, fails, budget_runs=req.get('min_runs', 60),
          deadline=time.time() + req.get('min_secs', 60), clock=time.time,
          simplify=sc.simplify)
      o, pl, env2, _ = run_plan(scens, best, verbose=True)
      emit({'t': 'minimised', 'idx': idx, 'plan': best, 'runs': n,
            'outcome': o, 'payload': pl, 'digest': env2.digest(),
            'ops_before': len(plan.get('ops', [])),
            'ops_after': len(best.get('ops', [])),
            'lines': env2.lines[-200:]})
      if not req.get('keep_going'):
        return
  emit({'t': 'done',
        'maxrss': resource.getrusage(resource.RUSAGE_SELF).ru_maxrss})


if __name__ == '__main__':
  main()
