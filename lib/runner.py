"""Runs the cases of one property in worker processes; writes the evidence."""
import argparse
import concurrent.futures as cf
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(VERIF, 'replays')


class Case:

  def __init__(self, fn, **params):
    self.fn = fn
    self.params = params

  @property
  def name(self):
    return self.fn.__name__ + ('[%s]' % ','.join(
        '%s=%s' % (k, v) for k, v in self.params.items()) if self.params else '')


def _worker(mod_name, fn_name, params, timeout_s, known, seed, deadline, max_paths):
  os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
  try:
    import logging as pylog
    pylog.disable(pylog.CRITICAL)
    try:
      from absl import logging as absl_logging
      absl_logging.set_verbosity(absl_logging.FATAL)
    except Exception:
      pass
    mod = importlib.import_module(mod_name)
    from lib import engine
    return engine.run_case(getattr(mod, fn_name), params, timeout_s=timeout_s,
                           known=known, seed=seed, deadline=deadline, max_paths=max_paths)
  except BaseException:
    return dict(errors=['worker: ' + traceback.format_exc()[-3000:]], violations=[],
                known=[], obligations=0, queries=0, solver_s=0.0, paths=0, covers={},
                functions=[], prims=[], samples=[], trivial=0, sat=0, unsat=0, eqns=0,
                validated=0, wall_s=0.0, tol=False)


def load_known(pid):
  path = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return [k for k in json.load(f)['findings'] if k['property'] == pid]


def main(argv=None):
  ap = argparse.ArgumentParser()
  ap.add_argument('property')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--case', default=None)
  ap.add_argument('--replay', default=None)
  ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '7')))
  ap.add_argument('-v', action='store_true')
  args = ap.parse_args(argv)
  t0 = time.time()
  pid = args.property
  seed = int(os.environ.get('VERIF_SEED', '1'))
  tier = args.tier
  sys.path.insert(0, VERIF)
  mod_name = 'checks.%s' % pid.lower()
  try:
    mod = importlib.import_module(mod_name)
  except Exception:
    traceback.print_exc()
    print('ERROR property=%s: the check could not be loaded' % pid)
    return 2

  if args.replay:
    from lib import engine
    with open(args.replay) as f:
      r = json.load(f)
    fails, why = engine.run_replay(getattr(mod, r['harness']), r['params'], r['inputs'])
    print(json.dumps(dict(fails=fails, note=why), default=str, indent=1))
    return 1 if fails else 0

  cases = [c for c in mod.cases(tier)]
  if args.case:
    cases = [c for c in cases if args.case in c.name]
  known = load_known(pid)
  timeout_s = getattr(mod, 'TIMEOUT', {}).get(tier, 60 if tier == 'quick' else 600)
  budget = getattr(mod, 'BUDGET', {}).get(tier, 780 if tier == 'quick' else 4 * 3600)
  max_paths = getattr(mod, 'MAX_PATHS', {}).get(tier, 4000 if tier == 'quick' else 40000)
  deadline = t0 + budget
  results = []
  mp = multiprocessing.get_context('spawn')
  jobs = max(1, min(args.jobs, len(cases)))
  with cf.ProcessPoolExecutor(jobs, mp_context=mp) as ex:
    futs = []
    for c in cases:
      kn = [k['obligation'] for k in known if k.get('case', '') in c.name]
      futs.append((c, ex.submit(_worker, mod_name, c.fn.__name__, c.params, timeout_s,
                                kn, seed, deadline, max_paths)))
    for c, f in futs:
      try:
        r = f.result(timeout=max(1, deadline + 60 - time.time()))
      except BaseException as e:  # crashed or timed out worker
        r = dict(errors=['worker died: %r' % (e,)], violations=[], known=[],
                 obligations=0, queries=0, solver_s=0.0, paths=0, covers={},
                 functions=[], prims=[], samples=[], trivial=0, sat=0, unsat=0,
                 eqns=0, validated=0, wall_s=0.0, tol=False)
      results.append((c, r))
      if args.v:
        print('%-70s ob=%d paths=%d q=%d solver=%.1fs wall=%.1fs%s%s' % (
            c.name, r['obligations'], r['paths'], r['queries'], r['solver_s'],
            r['wall_s'], ' TOL' if r.get('tol') else '',
            ' !!' if r['violations'] or r['errors'] else ''), flush=True)
      if r['violations'] and not args.v:
        # One confirmed violation decides the verdict.
        for _, g in futs:
          g.cancel()
        if hasattr(ex, '_processes'):
          for p in list((ex._processes or {}).values()):
            p.terminate()
        break
  nviol = 0
  nerr = 0
  os.makedirs(REPLAYS, exist_ok=True)
  lines = []
  for c, r in results:
    for v in r['violations']:
      nviol += 1
      path = os.path.join(REPLAYS, '%s-%d.json' % (pid, nviol))
      with open(path, 'w') as f:
        json.dump(dict(property=pid, harness=c.fn.__name__, params=c.params,
                       obligation=v['obligation'], inputs=v['inputs'], fails=v['fails'],
                       how='bash /verif/run.sh %s --replay %s' % (pid, path)), f, indent=1)
      print('counterexample in %s: obligation %r, inputs %s, failed on the real code: %s' % (
          c.name, v['obligation'], json.dumps(v['inputs'])[:1200], v['fails'][:3]))
      lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    for e in r['errors']:
      nerr += 1
      print('ERROR in %s: %s' % (c.name, e if args.v else e[-600:]))
  khits = sorted(set((k['obligation'], k.get('what', '')) for k in known
                     for c, r in results
                     if k['obligation'] in r['known'] and k.get('case', '') in c.name))
  for o, what in khits:
    print('KNOWN-FINDING: property=%s %s' % (pid, what or o))
  write_evidence(mod, pid, tier, seed, results, nviol, time.time() - t0)
  for l in lines[:3]:
    print(l)
  sys.stdout.flush()
  tot = sum(r['obligations'] for _, r in results)
  print('%s: %d cases, %d obligations, %d paths, %d queries, %.1fs solver, %.1fs wall' % (
      pid, len(results), tot, sum(r['paths'] for _, r in results),
      sum(r['queries'] for _, r in results), sum(r['solver_s'] for _, r in results),
      time.time() - t0))
  if nviol:
    return 1
  return 2 if nerr else 0


def write_evidence(mod, pid, tier, seed, results, nviol, wall):
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  fns = sorted(set(f for _, r in results for f in r['functions']) | set(getattr(mod, 'FUNCTIONS', ())))
  discharged = sum(r['obligations'] for _, r in results if not r['errors']) - sum(
      len(r['violations']) for _, r in results)
  cov = dict(
      explanation=(
          'Bounded symbolic execution of the real code: every case below fixes the stated '
          'shapes/configuration, all values in it are solver variables; each obligation is an '
          'SMT query (negated property, unsat = holds for every value in the bound).'),
      evaluations=sum(r['paths'] for _, r in results),
      distinct_nontrivial=sum(r['paths'] for _, r in results
                              if r['obligations'] > r.get('trivial', 0)),
      rule=('one evaluation = one symbolic path (one harness case, one branch history); '
            'non-trivial = at least one obligation of its case needed a solver verdict '
            'rather than constant folding'),
      functions_encoded=fns,
      bounds=getattr(mod, 'BOUNDS', {}).get(tier, getattr(mod, 'BOUNDS', {}).get('quick', '')),
      outside_bounds=getattr(mod, 'OUTSIDE', ''),
      cases=[dict(case=c.name, obligations=r['obligations'], trivially_true=r.get('trivial', 0),
                  polynomial_identities=r.get('identities', 0),
                  paths=r['paths'], queries=r['queries'], solver_s=round(r['solver_s'], 3),
                  wall_s=round(r['wall_s'], 2), numeric_margin_used=bool(r.get('tol')),
                  reachability_witnesses=r['covers'],
                  errors=[e[:300] for e in r['errors']]) for c, r in results],
      obligations=sum(r['obligations'] for _, r in results),
      discharged=max(0, discharged),
      queries=sum(r['queries'] for _, r in results),
      queries_unsat=sum(r['unsat'] for _, r in results),
      queries_sat=sum(r['sat'] for _, r in results),
      solver_s=round(sum(r['solver_s'] for _, r in results), 3),
      jaxpr_equations_interpreted=sum(r['eqns'] for _, r in results),
      jaxpr_primitives=sorted(set(p for _, r in results for p in r['prims'])),
      translator_validations=sum(r['validated'] for _, r in results),
      samples=[dict(case=c.name, inputs=r['samples'][0]) for c, r in results if r['samples']][:4],
      trusted_base=['z3 (python bindings, /opt/veriftools/pyvenv)', 'jax tracing (make_jaxpr)',
                    'lib/jx.py primitive rules (validated against execution each run)',
                    'lib/engine.py'],
  )
  ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed,
            level=getattr(mod, 'LEVEL', 'other'), coverage=cov,
            assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2),
            violations=nviol)
  with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
    json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
  sys.exit(main())
