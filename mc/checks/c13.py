"""C13: BLESS dictionaries are consistent and selected with the recorded probabilities."""
import itertools

import numpy as np

from mc import engine, zoo
from mc.checks.c11 import lin
from mc.core import Case, SEED, THOROUGH, attempt

RULE = ('every outcome of every Bernoulli draw of one reduction step is enumerated on the real code for every previous '
        'dictionary of a grid; the law of the returned dictionary is compared with independent inclusions at the capped '
        'oversampled leverage score estimates, and every field of every returned dictionary is checked; bless and bless_size '
        'are enumerated whole (every outcome of every step), and in seeded runs on larger data')
BOUNDS = 'ground sets of size <= 4 (5), previous dictionaries: all subsets with weights from a grid, <= 3 steps'
ASSUMPTIONS = ['RandomState draws have their documented laws', 'leverage scores of the model computed in double precision']


def rbf(X, Y=None):
    X = np.atleast_2d(X)
    Y = X if Y is None else np.atleast_2d(Y)
    return np.exp(-0.5 * ((X[:, None, :] - Y[None, :, :]) ** 2).sum(-1))


def data():
    out = {
        'one': (np.array([[1.1]]), lin),
        'two': (np.array([[1.0, 0.2], [0.3, 0.8]]), lin),
        'dup': (np.array([[1.0, 0.0], [1.0, 0.0], [0.0, 2.0]]), lin),
        'zero': (np.array([[0.0, 0.0], [1.0, 0.5], [0.2, 2.0]]), lin),
        'three': (np.array([[1.0, 0.1, 0.0], [0.2, 1.2, 0.3], [-0.1, 0.3, 0.9]]), lin),
        'rbf3': (np.array([[0.0], [0.7], [2.0]]), rbf),
        'four': (np.random.RandomState(SEED).randn(4, 2), rbf),
        'rank1': (np.array([[1.0], [2.0], [-0.5], [0.1]]), lin),
    }
    if THOROUGH:
        out['five'] = (np.random.RandomState(SEED + 1).randn(5, 3), lin)
        out['fiverbf'] = (np.random.RandomState(SEED + 2).randn(5, 2), rbf)
    return out


def estimate(K, D, w, lam):
    """Leverage scores at lam estimated from the dictionary D with inclusion probabilities w."""
    D = list(D)
    A = K[np.ix_(D, D)] + lam * np.diag(w)
    B = K[D]
    return (np.diag(K) - np.einsum('ij,ij->j', B, np.linalg.solve(A, B))) / lam


def step_law(K, est, lam, over):
    """Law of the selected set; '' for a refusal."""
    n = len(K)
    d = np.diag(K)
    ucb = np.minimum(over * d / (d + lam), 1.0)
    p = np.minimum(over * est, ucb)
    law = {}
    for U in zoo.subsets(n):
        pu = np.prod([ucb[i] if i in U else 1 - ucb[i] for i in range(n)])
        if pu <= 0:
            continue
        q = {i: min(p[i] / ucb[i], 1.0) for i in U}
        if not U or sum(q.values()) < 1.0:
            law[''] = law.get('', 0) + pu
            continue
        for r in range(len(U) + 1):
            for S in itertools.combinations(U, r):
                ps = pu * np.prod([q[i] if i in S else 1 - q[i] for i in U])
                if ps > 0:
                    law[S or ''] = law.get(S or '', 0) + ps
    return law, p, ucb


def consistent(D, X, lam=None, over=None):
    idx = np.asarray(D.idx)
    n = len(X)
    if idx.ndim != 1 or len(set(idx.tolist())) != len(idx) or len(idx) == 0:
        return 'indices %r are not distinct' % (idx,)
    if idx.min() < 0 or idx.max() >= n or idx.dtype.kind not in 'iu':
        return 'invalid indices %r' % (idx,)
    if np.shape(D.X) != (len(idx), X.shape[1]) or not np.array_equal(D.X, X[idx]):
        return 'rows do not match the indices %r' % (idx,)
    p = np.asarray(D.probs)
    if p.shape != idx.shape or not (np.all(p > 0) and np.all(p <= 1 + 1e-12)):
        return 'probabilities %r' % (p,)
    if lam is not None and abs(D.lam - lam) > 1e-9 * lam:
        return 'regularisation %r instead of %r' % (D.lam, lam)
    if over is not None and D.rls_oversample != over:
        return 'oversampling %r instead of %r' % (D.rls_oversample, over)
    return ''


REFUSED = ('No point selected during', 'Estimated deff is smaller')


def canon(f, X, lam, over, probs=None, seen=None):
    try:
        D = f()
    except ValueError as e:
        if any(str(e).startswith(m) for m in REFUSED):
            return ''
        raise
    msg = consistent(D, X, lam, over)
    if msg:
        return ('BAD', msg)
    if probs is not None and not np.allclose(D.probs, probs[D.idx], rtol=1e-7, atol=1e-10):
        return ('BAD', 'recorded probabilities %s of %s, selected with %s' % (D.probs, D.idx, probs[D.idx]))
    return tuple(sorted(int(i) for i in D.idx))


def reductions(rec, X, k, lam_old, lam, over, use_param):
    from dppy import bless as B
    K = k(X)
    n = len(X)
    skipped = 0
    for D in zoo.subsets(n):
        if not D:
            continue
        for w in (1.0, 0.5, 'mix'):
            probs = np.array([1.0, 0.3, 0.7, 0.9, 0.4])[:len(D)] if w == 'mix' else np.full(len(D), float(w))
            if w == 'mix' and len(D) == 1:
                continue
            dic = B.CentersDictionary(idx=np.array(D), X=X[list(D)], probs=probs.copy(), lam=lam_old,
                                      rls_oversample=99.0 if use_param else over)
            est = estimate(K, D, probs, lam)
            if len(D) == n and w == 1.0:
                exact = np.diag(K.dot(np.linalg.inv(K + lam * np.eye(n))))
                if not np.allclose(est, exact, atol=1e-9):
                    raise AssertionError('model')
            got = attempt(B.estimate_rls_bless, dic, X, k, lam)
            rec.evals += 1
            if got[0] != 'ok' or not np.allclose(got[1], est, rtol=1e-7, atol=1e-9):
                return rec.bad('estimate', 'dictionary %s %s: estimated leverage scores %s instead of %s'
                               % (D, probs, got[1:], est))
            if lam > lam_old:
                a = attempt(B.reduce_lambda, X, k, dic, lam, np.random.RandomState(0), over)
                if a[0] == 'ok':
                    return rec.bad('increase', 'regularisation increased from %g to %g' % (lam_old, lam))
                continue
            law, p, ucb = step_law(K, est, lam, over)
            capped = over * est > ucb * (1 + 1e-9)
            if any(abs(sum(p[i] / ucb[i] for i in U if ucb[i] > 0) - 1) < 1e-6 and not capped[list(U)].all()
                   for U in zoo.subsets(n) if U):
                skipped += 1        # refusal decided by rounding
                continue

            def prog(rng):
                return canon(lambda: B.reduce_lambda(X, k, dic, lam, rng, over if use_param else None), X, lam, over, p)
            if not rec.check_law(prog, law, 'step'):
                if rec.violations:
                    rec.violations[-1]['msg'] = 'previous dictionary %s %s: %s' % (D, probs, rec.violations[-1]['msg'])
                return


def whole(rec, X, k, lam, over, it):
    from dppy import bless as B

    def prog(rng):
        r = canon(lambda: B.bless(X, k, lam, over, random_state=rng, nb_iter_bless=it, verbose=False), X, lam, over)
        return r if r == '' or r[0] == 'BAD' else ('OK',)
    judge(rec, prog)


def judge(rec, prog):
    L = rec.law(prog, max_exec=60000, min_mass=1e-7)
    if L is None:
        return
    for o in L.p:
        if o not in ('', ('OK',)):
            rec.bad('dictionary', o, path=L.traces.get(o))


def whole_size(rec, X, k, size, over, it):
    from dppy import bless as B

    def prog(rng):
        def f():
            a, b, D = B.bless_size(X, k, size, over, random_state=rng, nb_iter_bless=it, verbose=False)
            if not (np.isfinite(a) and np.isfinite(b) and a >= b > 0):
                raise AssertionError('interval [%r, %r]' % (b, a))
            return D
        r = canon(f, X, None, over)
        return r if r == '' or r[0] in ('BAD', 'EXC') else ('OK',)
    judge(rec, prog)


def final_step(rec, X, k, lam):
    """With an oversampling so large that every dictionary is the whole data set the result is deterministic."""
    from dppy import bless as B
    K = k(X)
    n = len(X)
    keep = [i for i in range(n) if K[i, i] > 0]
    for f, kw in ((B.bless, dict(lam_final=lam)), (B.bless_size, dict(size_final=3))):
        a = attempt(f, X, k, rls_oversample_param=1e9, random_state=SEED, verbose=False, **kw)
        rec.evals += 1
        if a[0] != 'ok':
            rec.bad('full', '%s: %s' % (f.__name__, a[1:]))
            continue
        D = a[1] if f is B.bless else a[1][2]
        msg = consistent(D, X, lam if f is B.bless else None, 1e9)
        if msg or list(D.idx) != keep or not np.allclose(D.probs, 1.0):
            rec.bad('full', '%s: %s idx %s probs %s' % (f.__name__, msg, D.idx, D.probs))


def seeded(rec, n, k, scale):
    from dppy import bless as B
    X = scale * np.random.RandomState(n + SEED).randn(n, 3)
    for s in range(6):
        for over in (1.5, 4.0, 20.0):
            for lam in (0.3, 1.0, 4.0):
                a = attempt(B.bless, X, k, lam, over, random_state=s, verbose=False)
                rec.evals += 1
                if a[0] == 'ok':
                    msg = consistent(a[1], X, lam, over)
                    if msg:
                        return rec.bad('bless', 'n=%d seed %d: %s' % (n, s, msg))
                elif not (a[1] == 'ValueError' and any(a[2].startswith(m) for m in REFUSED)):
                    return rec.bad('bless', 'n=%d seed %d: %s' % (n, s, a))
            for size in (0.5, 1, 2, 5):
                a = attempt(B.bless_size, X, k, size, over, random_state=s, verbose=False)
                rec.evals += 1
                if a[0] == 'ok':
                    hi, lo, D = a[1]
                    msg = consistent(D, X, None, over) or ('' if hi >= lo > 0 else 'interval [%r, %r]' % (lo, hi))
                    if msg:
                        return rec.bad('bless_size', 'n=%d seed %d: %s' % (n, s, msg))
                elif not (a[1] == 'ValueError' and any(a[2].startswith(m) for m in REFUSED)):
                    return rec.bad('bless_size', 'n=%d seed %d size %g: %s' % (n, s, size, a))
    rec.stats['states'] += rec.evals
    rec.stats['transitions'] += rec.evals


def cases():
    for dn, (X, k) in data().items():
        n = len(X)
        for lam_old, lam in ((2.0, 1.0), (1.0, 1.0), (0.5, 0.5), (3.0, 0.4), (1.0, 1.5)):
            for over in (0.6, 1.0, 2.0, 20.0):
                if n >= 4 and not THOROUGH and (lam_old, lam) not in ((2.0, 1.0), (1.0, 1.5)):
                    continue
                for up in (False, True):
                    if up and over == 2.0:
                        continue
                    yield Case('step/%s/%g-%g/%g/%d' % (dn, lam_old, lam, over, up), reductions, X, k, lam_old, lam, over, up,
                               cost=4 ** n)
        for lam in (0.4, 1.0, 3.0):
            yield Case('full/%s/%g' % (dn, lam), final_step, X, k, lam)
            for over in (1.2, 3.0, 30.0):
                for it in (1, 2, 3, None):
                    if n >= 4 and (it == 3 or lam != 1.0) and not THOROUGH:
                        continue
                    yield Case('bless/%s/%g/%g/%s' % (dn, lam, over, it), whole, X, k, lam, over, it, cost=8 ** n)
        for size in (0.5, 1, 2, 3):
            for over in (1.2, 3.0, 30.0):
                for it in (1, 2, 3, None):
                    if n >= 4 and (it == 3 or size != 2) and not THOROUGH:
                        continue
                    yield Case('size/%s/%g/%g/%s' % (dn, size, over, it), whole_size, X, k, size, over, it, cost=8 ** n)
    for n in (1, 2, 3, 5, 10, 30, 100):
        for scale in (0.1, 1.0, 10.0):
            for kn, k in (('lin', lin), ('rbf', rbf)):
                yield Case('seeded/%d/%g/%s' % (n, scale, kn), seeded, n, k, scale, cost=10)
