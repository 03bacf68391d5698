"""python -m mc.run <property> [--replay FILE] : run one check."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mc import core, engine  # noqa: E402

BUDGET = float(os.environ.get('VERIF_BUDGET', '700' if not core.THOROUGH else '7200'))
CASES = []


def _work(i):
    if os.environ.get("VERIF_DEBUG"):
        print("case", CASES[i].cid, file=sys.stderr, flush=True)
    if time.time() > _work.deadline:
        return i, None
    return i, core.run_case(CASES[i])


def known(prop):
    """Entries of known_findings.json that suppress a violation: {key: text}."""
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        d = json.load(f)
    return {e['key']: e['what'] for e in d['findings'] if e['property'] == prop}


def main():
    prop = sys.argv[1]
    only = None
    if '--replay' in sys.argv:
        with open(sys.argv[sys.argv.index('--replay') + 1]) as f:
            only = json.load(f)['case']
    t0 = time.time()
    core.setup_import()
    mod = importlib.import_module('mc.checks.' + prop.lower())
    with core.quiet():
        cases = list(mod.cases())
    assert len({c.cid for c in cases}) == len(cases), 'duplicate case ids'
    if os.environ.get('VERIF_ONLY'):
        import re
        cases = [c for c in cases if re.search(os.environ['VERIF_ONLY'], c.cid)]
    if only:
        cases = [c for c in cases if c.cid == only]
    cases.sort(key=lambda c: -c.cost)
    CASES.extend(cases)
    _work.deadline = t0 + BUDGET
    recs, skipped, crashed = [], [], []
    workers = min(int(os.environ.get('VERIF_WORKERS', '8')), os.cpu_count() or 1)
    if workers <= 1 or len(cases) == 1:
        for i in range(len(cases)):
            recs.append(_work(i)[1])
    else:
        try:
            with ProcessPoolExecutor(workers, mp_context=mp.get_context('fork')) as ex:
                futs = {ex.submit(_work, i): i for i in range(len(cases))}
                for f in as_completed(futs):
                    i, r = f.result()
                    recs.append(r) if r is not None else skipped.append(cases[i].cid)
        except BrokenProcessPool:
            print('worker process died', file=sys.stderr)
            sys.exit(3)
    recs = [r for r in recs if r is not None]
    recs.sort(key=lambda r: r.cid)
    errors = [r for r in recs if getattr(r, 'error', None)]
    stats = engine.Stats()
    for r in recs:
        stats.add(r.stats)
    kn = known(prop)
    viol, found = [], []
    for r in recs:
        for v in r.violations:
            v['case'] = r.cid
            (found if v['key'] in kn else viol).append(v)
    for v in found:
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[v['key']]))
    undecided = [(r.cid, u) for r in recs for u in r.undecided]
    cov = {
        'states': stats['states'],
        'transitions': stats['transitions'],
        'traces_validated_against_impl': sum(r.replayed for r in recs),
        'executions_of_implementation': stats['executions'],
        'merged_states': stats['merged'],
        'direct_evaluations': sum(r.evals for r in recs),
        'cases': len(recs),
        'cases_not_reached': len(skipped),
        'undecided': [list(u) for u in undecided[:20]],
        'undecided_count': len(undecided),
        'max_unexplored_mass': max([r.residual for r in recs], default=0.0),
        'residual_by_case': {r.cid: r.residual for r in sorted(recs, key=lambda r: -r.residual)[:10] if r.residual > 1e-9},
        'exhaustive': not skipped and not undecided and all(r.residual < 1e-6 for r in recs),
        'rule': getattr(mod, 'RULE', ''),
        'bounds': getattr(mod, 'BOUNDS', ''),
        'samples': [s for r in recs for s in r.samples][:6],
    }
    if getattr(mod, 'LEVEL', 'model_checking') == 'exploration':
        cov['evaluations'] = cov['direct_evaluations']
        cov['distinct_nontrivial'] = len(recs)
    ev = dict(property=prop, tier=core.TIER, seed=core.SEED,
              level=getattr(mod, 'LEVEL', 'model_checking'), coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    slow = sorted(recs, key=lambda r: -r.wall)[:3]
    print('%s: %d cases, %d states, %d transitions, %d executions, %d direct evaluations, %d undecided, '
          '%d skipped, %.1fs (slowest %s)' % (
              prop, len(recs), stats['states'], stats['transitions'], stats['executions'],
              cov['direct_evaluations'], len(undecided), len(skipped), time.time() - t0,
              ', '.join('%s %.1fs' % (r.cid, r.wall) for r in slow)))
    for c, u in undecided[:5]:
        print('  undecided %s: %s' % (c, u))
    if viol:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        for n, v in enumerate(viol[:10]):
            path = os.path.join(d, '%s_%d.json' % (prop, n))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, **v), f, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   [%s] %s' % (v['key'], v['msg']))
        sys.exit(1)
    if errors:
        for r in errors[:3]:
            print('ERROR in case %s\n%s' % (r.cid, r.error), file=sys.stderr)
        sys.exit(3)
    sys.exit(0)


if __name__ == '__main__':
    main()
