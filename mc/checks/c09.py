"""C09: inputs supplied by the user are never modified."""
import numpy as np

from mc import engine, entries
from mc.core import Case, SEED, THOROUGH, attempt, limit, quiet
from mc.entries import content

RULE = ('every public entry point is called on caller-owned arguments (arrays in C and Fortran order, lists, graphs with '
        'attributes, polynomials, data sets) and the outcome tree of its draws is explored by decreasing probability on the '
        'real code; after every execution - successful or not - the arguments must be identical byte for byte, including '
        'shape, strides and type. FiniteDPP: every sequence of requests up to a depth on every parametrization')
BOUNDS = 'about 330 entry points, <= 400 (4000) executions each; 17 FiniteDPP forms x request sequences of length <= 2 (3)'
ASSUMPTIONS = ['small instances: ground sets <= 4, matrices <= 3']


def one(rec, e, cap):
    bad = []

    def prog(rng):
        a = e.make()
        before = {k: content(v) for k, v in a.items()}
        try:
            with quiet():
                e.call(a, rng)
            out = 'ok'
        except Exception as x:
            out = type(x).__name__
        ch = [k for k, v in a.items() if content(v) != before[k]]
        if ch and not bad:
            bad.append((ch, out))
        return (out,) + tuple(ch)
    try:
        L = engine.law_of(prog, policy=entries.GRID if e.nodes else entries.NODES, merge=False,
                          max_exec=cap if e.rnd else 1, min_mass=1e-9, max_nodes=10 ** 6)
        rec.stats.add(L.stats)
        rec.residual = max(rec.residual, L.residual)
        rec.sample({'case': rec.cid, 'outcomes': {str(k): v for k, v in L.p.items()}, 'unexplored mass': L.residual})
    except (engine.Unsupported, engine.Divergence) as x:
        rec.undecided.append(str(x))
    for s in range(SEED, SEED + 3):
        try:
            with limit(60):
                prog(np.random.RandomState(s))
        except engine.Hang:
            rec.undecided.append('hang')
        rec.evals += 1
    if bad:
        rec.bad('modified', '%s modified the argument(s) %s supplied by the caller (call outcome: %s)' % (e.name, bad[0][0], bad[0][1]))


def finite(rec, i, depth):
    C, forms, acts = entries.finite_forms()
    kt, pr, key, mk = forms[i]
    count = [0]

    def go(hist):
        if rec.violations:
            return
        if len(hist) == depth or (hist and hist[-1] == 0):
            return
        for j in range(len(acts)):
            if rec.violations:
                return
            p, s = mk(), [0, 2] if 'eye' not in str(mk) else [0, 1]
            if key in ('K', 'L') and len(p) == 2:
                s = [0, 1]
            before = content(p), content(s)

            def run():
                o = C(kt, projection=pr, **{key: p})
                for k in hist + (j,):
                    attempt(acts[k][1], o, np.random.RandomState(SEED), s)
            with quiet():
                r = attempt(run)
            count[0] += 1
            if (content(p), content(s)) != before:
                rec.bad('modified', 'FiniteDPP(%s, projection=%s, %s=...) then %s modified %s' % (
                    kt, pr, key, [acts[k][0] for k in hist + (j,)], key if content(p) != before[0] else 's_init'),
                    history=[acts[k][0] for k in hist + (j,)])
            if r[0] != 'ok':
                rec.undecided.append('%s' % (r,))
            go(hist + (j,))
    go(())
    rec.stats['states'] += count[0]
    rec.stats['transitions'] += count[0]
    rec.stats['executions'] += count[0]


def finite_draws(rec, i, cap):
    """Every draw of every sampling call on one parametrization."""
    C, forms, acts = entries.finite_forms()
    kt, pr, key, mk = forms[i]
    for j, (name, f, rnd) in enumerate(acts):
        if not rnd:
            continue

        def call(a, rng, f=f):
            o = C(kt, projection=pr, **{key: a[key]})
            return f(o, rng, a['s'])
        e = entries.Entry('%s/%s' % (key, name), lambda: {key: mk(), 's': [0, 1]}, call)
        one(rec, e, cap)


def cases():
    cap = 4000 if THOROUGH else 400
    seen = set()
    for e in entries.all_entries():
        cid = '%s/%s' % (e.group, e.name)
        assert cid not in seen, cid
        seen.add(cid)
        yield Case(cid, one, e, cap, cost=5 if e.rnd else 1)
    n = len(entries.finite_forms()[1])
    for i in range(n):
        yield Case('finite/%d' % i, finite, i, 3 if THOROUGH else 2, cost=1000)
        yield Case('finite-draws/%d' % i, finite_draws, i, cap, cost=500)
