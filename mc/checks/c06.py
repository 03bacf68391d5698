"""C06: the law of the next sample does not depend on the history of the object."""
import copy

import numpy as np

from mc import engine, objs, zoo
from mc.core import Case, THOROUGH

RULE = ('explicit-state search over the reachable states of FiniteDPP objects (all operation sequences, states '
        'identified by their attributes); in every reachable state the exact law of every sampling operation is '
        'computed by enumerating its draws and compared with the law on a freshly built object')
BOUNDS = 'ground sets of size 3 (4 thorough), about 20 operations, BFS to the fixpoint or 150 states (1500 thorough)'
ASSUMPTIONS = ['RandomState draws have their documented laws', 'history operations are driven by two fixed seeds']


def outcome(op, r):
    if op.kind == 'mcmc':
        return zoo.canon_set(r)
    return zoo.canon_set(r)


def explore(rec, d, seed):
    ops = objs.operations(d, plots=True)
    targets = [t for t in ops if t.target]
    fresh = {}
    for t in targets:
        L = rec.law(lambda rng, t=t: outcome(t, t.f(d.build(), rng)))
        if L is None:
            return
        fresh[t.name] = L
        if all(o[:1] == ('EXC',) for o in L.p):
            fresh[t.name] = None
    laws = {}
    for t in targets:
        laws[t.name] = d.law_exact() if t.kind == 'exact' else d.law_k(t.k) if t.kind == 'k' else None
    checked = 0
    for o, hist in objs.reachable(d, ops, 1500 if THOROUGH else 150, seed):
        if rec.violations:
            break
        for t in targets:
            L = rec.law(lambda rng, t=t: outcome(t, t.f(copy.deepcopy(o), rng)))
            if L is None:
                return
            checked += 1
            f, th = fresh[t.name], laws[t.name]
            if f is None:
                # refused on a fresh object: may still be refused, must not draw from another law
                if all(x[:1] == ('EXC',) for x in L.p) or th is None:
                    continue
                rec.compare(L, th, 'after|%s' % t.name, tol=1e-7)
            else:
                want = th if th is not None else f.p
                ok = rec.compare(L, want, 'after|%s' % t.name, tol=1e-7)
                if not ok:
                    rec.violations[-1]['msg'] = 'after %s: %s' % (list(hist), rec.violations[-1]['msg'])
    else:
        n, tr, complete = objs.reachable.last
        rec.stats['states'] += n
        rec.stats['transitions'] += tr
        if not complete:
            rec.truncated = True
    rec.evals += checked


def cases():
    for d in objs.descriptions():
        for seed in (0,) if not THOROUGH else (0, 1):
            yield Case('%s/seed%d' % (d.name, seed), explore, d, seed, cost=d.n)
