"""C20: beta-ensemble matrix models have the joint eigenvalue law they announce."""
import itertools

import numpy as np

from mc import engine
from mc.checks.c19 import partitions
from mc.core import Case, THOROUGH

RULE = ('every draw of the real matrix models is enumerated on Gauss nodes, so that the expectation of every symmetric '
        'polynomial of the eigenvalues of bounded degree is exact; these expectations must satisfy every Schwinger-Dyson '
        '(loop) equation of |Vandermonde|^beta prod w, which determine all moments of that law; each outcome must have '
        'exactly N real points in the support. Full Jacobi models: N=1 exact moments, N=2 exact law over a grid')
BOUNDS = 'N <= 4 (5), beta in {0, .5, 1, 1.5, 2, 3, 4, 5}, several reference parameters, total degree <= 4-6; full models N <= 3'
ASSUMPTIONS = ['RandomState draws have their documented laws', 'eigenvalue solvers of scipy are correct']


# -- loop equations -----------------------------------------------------------------

def weight(kind, par):
    """p, q with (log w)' = q / p, as polynomials (increasing powers); v = x^m p vanishes at the boundary."""
    if kind == 'hermite':
        mu, s = par
        return [1.0], [mu / s ** 2, -1 / s ** 2]
    if kind == 'laguerre':
        k, th = par
        return [0.0, 1.0], [k - 1, -1 / th]
    a, b = par
    return [0.0, 1.0, -1.0], [a - 1, -(a + b - 2)]


def loop_residual(E, pr, kind, par, beta, D):
    """Largest violation of a loop equation over vector fields and test functions of total degree <= D.
    E: (outcomes, N) eigenvalues, pr: weights. Returns (residual, description)."""
    p, q = weight(kind, par)
    N = E.shape[1]
    worst = (0.0, '')
    tot = 0
    pw = np.array([E ** k for k in range(2 * D + 4)])           # pw[k] = x^k
    ps = pw.sum(2)                                             # power sums

    def poly(c, x_powers=pw):
        return sum((ck * x_powers[k] for k, ck in enumerate(c) if ck), np.zeros_like(E))
    for m in range(D + 1):
        v = [0.0] * m + list(p)
        vq = [0.0] * m + list(q)
        dv = [k * c for k, c in enumerate(v)][1:]
        if len(v) - 1 > D + 1 or len(vq) - 1 > D:
            continue
        base = poly(vq).sum(1)
        if dv:
            base = base + poly(dv).sum(1)
        # sum_{i<j} (x_i^k - x_j^k)/(x_i - x_j) = 1/2 (sum_{l<k} p_l p_{k-1-l} - k p_{k-1})
        for k, c in enumerate(v):
            if c and k:
                base = base + beta * c * 0.5 * (sum(ps[l] * ps[k - 1 - l] for l in range(k)) - k * ps[k - 1])
        used = max(len(vq) - 1, len(v) - 2)
        for lam in partitions(D - used):
            G = np.prod([ps[k] for k in lam], axis=0) if lam else np.ones(len(E))
            term = base * G
            for t, k in enumerate(lam):
                rest = np.prod([ps[l] for s, l in enumerate(lam) if s != t], axis=0) if len(lam) > 1 else 1.0
                term = term + sum(c * ps[k - 1 + e] for e, c in enumerate(v) if c) * k * rest
            r = abs(np.sum(pr * term))
            scale = np.sum(pr * np.abs(term)) + 1e-300
            tot += 1
            if r / max(scale, 1.0) > worst[0]:
                worst = (r / max(scale, 1.0), 'v=x^%d p, G=p_%s: %.6g' % (m, lam, np.sum(pr * term)))
    loop_residual.count = tot
    return worst


def support(kind, E):
    if kind == 'hermite':
        return True
    if kind == 'laguerre':
        return bool((E >= -1e-9).all())
    return bool((E >= -1e-9).all() and (E <= 1 + 1e-9).all())


def eigen_law(rec, what, call, N, pol, max_exec=400000):
    def prog(rng):
        s = call(rng)
        s = np.asarray(s)
        if s.shape != (N,):
            return ('SHAPE', s.shape)
        if not np.isrealobj(s):
            return ('DTYPE', str(s.dtype))
        return tuple(float(x) for x in np.sort(s))
    L = rec.law(prog, policy=pol, merge=False, max_exec=max_exec, max_nodes=10 ** 7, min_mass=0.0, prune=0.0)
    if L is None:
        return None, None
    for o in L.p:
        if o and isinstance(o[0], str):
            rec.bad('output', '%s: %s instead of %d real points' % (what, o, N), path=L.traces.get(o))
            return None, None
    if L.residual > 1e-6:
        rec.undecided.append('unexplored %g' % L.residual)
        return None, None
    return np.array(list(L.p.keys())), np.array(list(L.p.values()))


def check(rec, what, call, N, kind, par, beta, D, pol):
    E, pr = eigen_law(rec, what, call, N, pol)
    if E is None:
        return
    if not support(kind, E):
        rec.bad('support', '%s: points outside the support: %s' % (what, E[np.argmin(E.min(1))]))
        return
    r, desc = loop_residual(E, pr, kind, par, beta, D)
    rec.evals += loop_residual.count
    if r > 1e-7:
        rec.bad('law', '%s: moments violate a loop equation of |Vandermonde|^%g w (%s)' % (what, beta, desc))
    rec.sample({'case': rec.cid, 'outcomes': len(pr), 'loop equations': loop_residual.count, 'largest residual': r})


def policy(n, m=None):
    m = m or n
    return {'normal': engine.gauss_normal(n), 'gamma': engine.gauss_gamma(m), 'beta': engine.gauss_beta(m)}


def hermite_b(rec, beta, loc, scale, N, D):
    from dppy.beta_ensembles import HermiteEnsemble

    def call(rng):
        return HermiteEnsemble(beta).sample_banded_model(loc=loc, scale=scale, size_N=N, random_state=rng)
    check(rec, 'Hermite banded beta=%g N=%d loc=%g scale=%g' % (beta, N, loc, scale), call, N, 'hermite', (loc, scale),
          beta, D, policy(D // 2 + 1, D // 4 + 1 if beta else None))


def laguerre_b(rec, beta, shape, scale, N, D, M=None):
    from dppy.beta_ensembles import LaguerreEnsemble
    par = (shape, scale) if M is None else (0.5 * beta * (M - N + 1), 2.0)

    def call(rng):
        o = LaguerreEnsemble(beta)
        if M is None:
            return o.sample_banded_model(shape=shape, scale=scale, size_N=N, random_state=rng)
        return o.sample_banded_model(shape=shape, scale=scale, size_N=N, size_M=M, random_state=rng)
    check(rec, 'Laguerre banded beta=%g N=%d shape=%g scale=%g M=%s' % (beta, N, shape, scale, M), call, N, 'laguerre', par,
          beta, D, policy(D // 2 + 1))


def jacobi_b(rec, beta, a, b, N, D, M=None):
    from dppy.beta_ensembles import JacobiEnsemble
    par = (a, b) if M is None else (0.5 * beta * (M[0] - N + 1), 0.5 * beta * (M[1] - N + 1))

    def call(rng):
        o = JacobiEnsemble(beta)
        if M is None:
            return o.sample_banded_model(a=a, b=b, size_N=N, random_state=rng)
        return o.sample_banded_model(a=a, b=b, size_N=N, size_M1=M[0], size_M2=M[1], random_state=rng)
    check(rec, 'Jacobi banded beta=%g N=%d a=%g b=%g M=%s' % (beta, N, a, b, M), call, N, 'jacobi', par,
          beta, D, policy(D // 2 + 1))


def hermite_f(rec, beta, N, D):
    from dppy.beta_ensembles import HermiteEnsemble
    check(rec, 'Hermite full beta=%g N=%d' % (beta, N),
          lambda rng: HermiteEnsemble(beta).sample_full_model(size_N=N, random_state=rng), N, 'hermite',
          (0.0, np.sqrt(2.0)), beta, D, policy(D // 2 + 1))


def laguerre_f(rec, beta, N, M, D):
    from dppy.beta_ensembles import LaguerreEnsemble
    check(rec, 'Laguerre full beta=%g N=%d M=%d' % (beta, N, M),
          lambda rng: LaguerreEnsemble(beta).sample_full_model(size_N=N, size_M=M, random_state=rng), N, 'laguerre',
          (0.5 * beta * (M - N + 1), 2.0), beta, D, policy(D + 1))


def jacobi_f1(rec, beta, M1, M2, D):
    """N=1: x = |X|^2/(|X|^2+|Y|^2) depends on the direction only: E[x^k |Z|^2k] = E[x^k] E[|Z|^2k]."""
    from dppy.beta_ensembles import JacobiEnsemble
    n = D + 1
    node = engine.gauss_normal(n)()
    draws = []

    def normal():
        return node
    pol = {'normal': normal}

    class Spy:
        pass

    def prog(rng):
        del draws[:]
        orig = rng._cont

        def cont(name, size, params):
            v = orig(name, size, params)
            draws.extend(np.ravel(v))
            return v
        rng._cont = cont
        try:
            s = np.asarray(JacobiEnsemble(beta).sample_full_model(size_N=1, size_M1=M1, size_M2=M2, random_state=rng))
        finally:
            del rng._cont
        r2 = float(np.sum(np.square(draws)))
        if s.shape != (1,) or not np.isrealobj(s):
            return ('OUT', str(s)) if r2 > 1e-9 else ('NULL',)
        return (round(float(s[0]), 12), round(r2, 9))
    L = rec.law(prog, policy=pol, merge=False, max_exec=400000, max_nodes=10 ** 7, min_mass=0.0, prune=0.0)
    if L is None:
        return
    out = {o: p for o, p in L.p.items() if not (o[0] == 'NULL' or o[0] == 'EXC' or o[1] == 0)}
    nd = beta * (M1 + M2)
    from scipy.special import gammaln
    for o in out:
        if isinstance(o[0], str):
            rec.bad('output', 'Jacobi full beta=%g N=1: %s' % (beta, o))
            return
    x = np.array([o[0] for o in out])
    r2 = np.array([o[1] for o in out])
    pr = np.array(list(out.values()))
    for k in range(1, D + 1):
        got = np.sum(pr * x ** k * r2 ** k) / np.prod([nd + 2 * i for i in range(k)])
        a, b = beta * M1 / 2, beta * M2 / 2
        want = np.exp(gammaln(a + k) - gammaln(a) + gammaln(a + b) - gammaln(a + b + k))
        rec.evals += 1
        if not abs(got - want) < 1e-7:
            rec.bad('law', 'Jacobi full beta=%g N=1 M1=%d M2=%d: E[x^%d] = %.8g should be %.8g' % (beta, M1, M2, k, got, want))
            return


def jacobi_fN(rec, beta, N, M1, M2, vals):
    """Exact law over a grid of Gaussian entries, compared with generalized eigenvalues of independently built matrices."""
    from dppy.beta_ensembles import JacobiEnsemble
    import scipy.linalg as la
    v = np.array(vals)
    w = np.full(len(v), 1.0 / len(v))

    def prog(rng):
        s = np.asarray(JacobiEnsemble(beta).sample_full_model(size_N=N, size_M1=M1, size_M2=M2, random_state=rng))
        if s.shape != (N,) or not np.isrealobj(s):
            return ('SHAPE', s.shape)
        return tuple(float(x) for x in np.round(np.sort(s), 6) + 0.0)
    L = rec.law(prog, policy={'normal': lambda: (v, w)}, merge=False, max_exec=400000, max_nodes=10 ** 7,
                min_mass=0.0, prune=0.0)
    if L is None:
        return
    shp = [o for o in L.p if o[0] == 'SHAPE']
    if shp:
        rec.bad('output', 'Jacobi full beta=%g N=%d: %s' % (beta, N, shp[0]))
        return
    c = {1: 1, 2: 2}[beta]
    target = {}
    n1, n2 = N * M1, N * M2
    for z in itertools.product(vals, repeat=c * (n1 + n2)):
        z = np.array(z)
        X, Y = z[:n1].reshape(N, M1), z[n1:n1 + n2].reshape(N, M2)
        if c == 2:
            X = X + 1j * z[n1 + n2:2 * n1 + n2].reshape(N, M1)
            Y = Y + 1j * z[2 * n1 + n2:].reshape(N, M2)
        A, B = X.dot(X.conj().T), Y.dot(Y.conj().T)
        if np.linalg.cond(A + B) > 1e6:
            continue
        e = la.eigh(A, A + B, eigvals_only=True)
        k = tuple(float(x) for x in np.round(e, 6) + 0.0)
        target[k] = target.get(k, 0) + len(vals) ** -float(len(z))
    # outcomes may fall on the other side of a rounding boundary: compare within 3e-6
    O = np.array([o for o in L.p if not isinstance(o[0], str)])
    P = np.array([p for o, p in L.p.items() if not isinstance(o[0], str)])
    for k, t in target.items():
        got = P[np.abs(O - np.array(k)).max(1) < 1e-5].sum()
        near = sum(q for l, q in target.items() if np.abs(np.array(l) - np.array(k)).max() < 5e-6)
        rec.evals += 1
        if got < min(t, near) - 1e-9:
            rec.bad('law', 'Jacobi full beta=%g N=%d M1=%d M2=%d: eigenvalues %s have probability %.6g, should be %.6g'
                    % (beta, N, M1, M2, k, got, t))
            return


def cases():
    t = THOROUGH
    betas = (0, 0.5, 1, 1.5, 2, 3, 4, 5)
    for beta in betas:
        for loc, scale in ((0.0, np.sqrt(2.0)), (0.7, 0.5), (-1.0, 3.0)):
            for N, D in ((1, 6), (2, 6), (3, 5), (4, 4)) + (((5, 4),) if t else ()):
                yield Case('hermite/banded/%g/%g,%.3g/%d' % (beta, loc, scale, N), hermite_b, beta, loc, scale, N, D, cost=N ** 3)
        for shape, scale in ((1.0, 2.0), (2.5, 0.5), (0.4, 1.0)):
            for N, D in ((1, 6), (2, 6), (3, 4), (4, 3)) + (((5, 3),) if t else ()):
                yield Case('laguerre/banded/%g/%g,%g/%d' % (beta, shape, scale, N), laguerre_b, beta, shape, scale, N, D,
                           cost=2 * N ** 3)
        for a, b in ((1.0, 2.0), (0.5, 0.5), (2.5, 0.7), (3.0, 3.0)):
            for N, D in ((1, 6), (2, 6), (3, 4), (4, 3)) + (((5, 3),) if t else ()):
                yield Case('jacobi/banded/%g/%g,%g/%d' % (beta, a, b, N), jacobi_b, beta, a, b, N, D, cost=2 * N ** 3)
        if beta:
            for N, M in ((1, 1), (1, 3), (2, 2), (2, 4), (3, 3), (3, 5)):
                yield Case('laguerre/bandedM/%g/%d,%d' % (beta, N, M), laguerre_b, beta, 7.0, 5.0, N, 4, M, cost=2 * N ** 3)
            for N, M in ((1, (1, 1)), (1, (2, 3)), (2, (2, 3)), (2, (4, 2)), (3, (3, 5)), (3, (4, 3))):
                yield Case('jacobi/bandedM/%g/%d,%d,%d' % (beta, N, *M), jacobi_b, beta, 7.0, 5.0, N, 4, M, cost=2 * N ** 3)
    for beta, N, D in ((0, 1, 4), (0, 2, 4), (0, 4, 4), (1, 1, 6), (1, 2, 6), (1, 3, 4), (2, 1, 6), (2, 2, 4), (4, 1, 6), (4, 2, 3)):
        yield Case('hermite/full/%g/%d' % (beta, N), hermite_f, beta, N, D, cost=300)
    for beta, N, M, D in ((1, 1, 1, 4), (1, 1, 3, 4), (1, 2, 2, 4), (1, 2, 3, 3), (1, 2, 4, 2), (1, 3, 3, 2), (2, 1, 1, 4),
                          (2, 1, 2, 4), (2, 1, 3, 2), (2, 2, 2, 2), (4, 1, 1, 4), (4, 1, 2, 2), (4, 2, 2, 1)):
        yield Case('laguerre/full/%g/%d,%d' % (beta, N, M), laguerre_f, beta, N, M, D, cost=300)
    for beta, M1, M2, D in ((1, 1, 1, 4), (1, 1, 2, 4), (1, 2, 1, 4), (1, 3, 2, 3), (1, 4, 1, 3), (2, 1, 1, 4), (2, 1, 2, 3),
                            (2, 3, 1, 2), (4, 1, 1, 2)):
        yield Case('jacobi/full1/%g/%d,%d' % (beta, M1, M2), jacobi_f1, beta, M1, M2, D, cost=300)
    yield Case('jacobi/full2/1/2,2', jacobi_fN, 1, 2, 2, 2, (-1.1, 0.3, 0.9), cost=300)
    yield Case('jacobi/full2/1/2,3', jacobi_fN, 1, 2, 2, 3, (-1.1, 0.7), cost=300)
    yield Case('jacobi/full2/1/3,2', jacobi_fN, 1, 2, 3, 2, (-1.1, 0.7), cost=300)
    yield Case('jacobi/full2/2/2,2', jacobi_fN, 2, 2, 2, 2, (-1.1, 0.7), cost=900)
