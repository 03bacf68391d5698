"""C26: circular and Ginibre models return unit-circle / planar spectra of the right law."""
import itertools
from math import factorial

import numpy as np

from mc import engine
from mc.checks.c19 import partitions
from mc.core import Case, THOROUGH

RULE = ('every Gaussian draw of the real models is enumerated on Gauss-Hermite nodes. Quindiagonal models: outcomes weighted '
        'by the radial factors of the drawn vectors, so that moments of the eigenvalues are exact; they must satisfy every '
        'loop equation of the circular beta law up to a total degree. Full models: modulus one, number of points, exact '
        'N=1 moments and second order moments under a symmetric grid. Ginibre: holomorphic-antiholomorphic moments '
        'compared with the exact integral of |Vandermonde|^2 against the complex Gaussian weight')
BOUNDS = 'quindiagonal: beta <= 5, N <= 4, total degree <= 4; full models N <= 3; Ginibre N <= 2 (3), degree <= 4'
ASSUMPTIONS = ['RandomState draws have their documented laws', 'eigenvalue solvers of scipy are correct']


def signed(T):
    """Multisets of non-null integers with sum of absolute values <= T."""
    for n in range(T + 1):
        for lam in partitions_of(n):
            for s in set(itertools.product((1, -1), repeat=len(lam))):
                yield tuple(sorted(a * b for a, b in zip(lam, s)))


def partitions_of(n, m=None):
    m = m or n
    if n == 0:
        yield ()
        return
    for k in range(min(n, m), 0, -1):
        for p in partitions_of(n - k, k):
            yield (k,) + p


def loop_residual(Z, pr, beta, T):
    N = Z.shape[1]
    ps = {k: (Z ** k).sum(1) for k in range(-2 * T, 2 * T + 1)}
    worst, cnt = (0.0, ''), 0
    for m in range(T + 1):
        S = 0
        for l in range(m):
            S = S + 0.5 * (ps[l + 1] * ps[m - 1 - l] - ps[m] + ps[l] * ps[m - l] - ps[m])
        base = m * ps[m] + 0.5 * beta * S
        for G in set(signed(T - m)):
            if m == 0 and not G:
                continue
            g = np.prod([ps[k] for k in G], axis=0) if G else 1.0
            term = base * g
            for t, k in enumerate(G):
                rest = np.prod([ps[l] for s, l in enumerate(G) if s != t], axis=0) if len(G) > 1 else 1.0
                term = term + k * ps[m + k] * rest
            r = abs(np.sum(pr * term)) / max(1.0, np.sum(pr * np.abs(term)))
            cnt += 1
            if r > worst[0]:
                worst = (r, 'm=%d G=%s: %s' % (m, G, np.sum(pr * term)))
    loop_residual.count = cnt
    return worst


def spectrum(rec, what, call, N, pol, weighted, max_exec=500000, singular=False):
    """Eigenvalue tuples with weights; weighted(vectors) -> radial weight of the drawn vectors, or None."""
    vecs = []

    def prog(rng):
        del vecs[:]
        orig = rng._cont

        def cont(name, size, params):
            v = orig(name, size, params)
            if name == 'normal':
                vecs.append(np.array(v, dtype=float).ravel())
            return v
        rng._cont = cont
        try:
            s = np.asarray(call(rng))
        except (ValueError, np.linalg.LinAlgError) as e:
            if singular or any(np.all(v == 0) for v in vecs):   # grid points of probability zero
                return ('NULL',)
            return ('EXC', type(e).__name__, str(e)[:100])
        finally:
            del rng._cont
        w = weighted(vecs)
        if w == 0.0:
            return ('NULL',)
        if s.shape != (N,):
            return ('SHAPE', s.shape)
        if not (np.abs(np.abs(s) - 1) < 1e-7).all():
            return ('MODULUS', str(np.abs(s))[:80])
        return (round(w, 12),) + tuple((float(z.real), float(z.imag)) for z in s)
    L = rec.law(prog, policy=pol, merge=False, max_exec=max_exec, max_nodes=10 ** 7, min_mass=0.0, prune=0.0)
    if L is None:
        return None, None
    for o in L.p:
        if isinstance(o[0], str) and o[0] != 'NULL':
            rec.bad('output', '%s: %s' % (what, o), path=L.traces.get(o))
            return None, None
    if L.residual > 1e-6:
        rec.undecided.append('unexplored %g' % L.residual)
        return None, None
    items = [(o, p) for o, p in L.p.items() if o[0] != 'NULL']
    Z = np.array([[complex(*z) for z in o[1:]] for o, _ in items])
    pr = np.array([p * o[0] for o, p in items])
    if singular:
        if pr.sum() < 0.7:
            rec.bad('output', '%s: fails on %.2f of the grid' % (what, 1 - pr.sum()))
            return None, None
        pr = pr / pr.sum()
    return Z, pr


def radial(m):
    """prod over drawn vectors of |g|^2m / E|g|^2m."""
    def f(vecs):
        w = 1.0
        for v in vecs:
            if v.size < 2:
                raise engine.Unsupported('scalar Gaussian draw')
            w *= np.sum(v * v) ** m / np.prod([v.size + 2 * i for i in range(m)])
        return float(w)
    return f


def banded(rec, beta, N, T):
    from dppy.beta_ensembles import CircularEnsemble
    m = (T + 1) // 2
    pol = {'normal': engine.gauss_normal(m + 1), 'uniform': lambda: ((np.arange(8) + 0.5) / 8, np.full(8, 1 / 8))}
    Z, pr = spectrum(rec, 'circular banded beta=%d N=%d' % (beta, N),
                     lambda rng: CircularEnsemble(beta).sample_banded_model(size_N=N, random_state=rng), N, pol,
                     radial(m) if beta else (lambda v: 1.0))
    if Z is None:
        return
    check_loops(rec, 'circular banded beta=%d N=%d' % (beta, N), Z, pr, beta, T)


def check_loops(rec, what, Z, pr, beta, T, tol=1e-7):
    r, desc = loop_residual(Z, pr, beta, T)
    rec.evals += loop_residual.count
    if abs(pr.sum() - 1) > tol or r > tol:
        rec.bad('law', '%s: moments violate a loop equation of the circular law (mass %.8g, %s)' % (what, pr.sum(), desc))
    rec.sample({'case': rec.cid, 'outcomes': len(pr), 'loop equations': loop_residual.count, 'largest residual': r})


UNI = {'uniform': lambda: ((np.arange(3) + 0.3) / 3, np.full(3, 1 / 3))}


def full(rec, beta, N, mode, nodes):
    """Number of points and modulus on a whole grid of entries."""
    from dppy.beta_ensembles import CircularEnsemble
    v = np.array(nodes)
    pol = dict(UNI, normal=lambda: (v, np.full(len(v), 1.0 / len(v))))
    spectrum(rec, 'circular full beta=%d N=%d %s' % (beta, N, mode),
             lambda rng: CircularEnsemble(beta).sample_full_model(size_N=N, haar_mode=mode, random_state=rng), N, pol,
             lambda w: 1.0, singular=True)


def full_law(rec, beta, N, mode, nodes, tol):
    """Second order moments of the spectrum under a grid closed under signs, permutations and multiplication by i."""
    from dppy.beta_ensembles import CircularEnsemble
    v = np.array(nodes)
    pol = dict(UNI, normal=lambda: (v, np.full(len(v), 1.0 / len(v))))
    what = 'circular full beta=%d N=%d %s' % (beta, N, mode)
    Z, pr = spectrum(rec, what,
                     lambda rng: CircularEnsemble(beta).sample_full_model(size_N=N, haar_mode=mode, random_state=rng), N,
                     pol, lambda w: 1.0, singular=True)
    if Z is None:
        return
    p1, p2 = Z.sum(1), (Z ** 2).sum(1)
    tests = [('E[p1]', np.sum(pr * p1), 0), ('E[p2]', np.sum(pr * p2), 0), ('E[p1^2]', np.sum(pr * p1 ** 2), 0),
             ('E|p1|^2', np.sum(pr * np.abs(p1) ** 2), N / (1 + beta * (N - 1) / 2.0))]
    for n, g, t in tests:
        rec.evals += 1
        if abs(g - t) > tol:
            rec.bad('law', '%s: %s = %s should be %s' % (what, n, g, t))
            return


def ginibre_target(N, lam, mu):
    """E[p_lam(z) conj(p_mu(z))] under |Vandermonde|^2 exp(-|z|^2): polynomials expanded in orthogonal monomials."""
    def mul(P, Q):
        out = {}
        for a, c in P.items():
            for b, d in Q.items():
                k = tuple(x + y for x, y in zip(a, b))
                out[k] = out.get(k, 0) + c * d
        return out

    def unit(i, k=1):
        return tuple(k if j == i else 0 for j in range(N))
    V = {(0,) * N: 1}
    for i in range(N):
        for j in range(i):
            V = mul(V, {unit(i): 1, unit(j): -1})

    def with_p(parts):
        P = dict(V)
        for k in parts:
            P = mul(P, {unit(i, k): 1 for i in range(N)})
        return P

    def dot(P, Q):
        return sum(c * Q.get(a, 0) * np.prod([factorial(x) for x in a]) for a, c in P.items())
    return dot(with_p(lam), with_p(mu)) / dot(V, V)


def ginibre(rec, N, T):
    from dppy.beta_ensembles import GinibreEnsemble
    pol = {'normal': engine.gauss_normal(T // 2 + 1)}

    def prog(rng):
        s = np.asarray(GinibreEnsemble().sample_full_model(size_N=N, random_state=rng))
        if s.shape != (N,):
            return ('SHAPE', s.shape)
        return tuple((float(z.real), float(z.imag)) for z in s)
    L = rec.law(prog, policy=pol, merge=False, max_exec=500000, max_nodes=10 ** 7, min_mass=0.0, prune=0.0)
    if L is None:
        return
    for o in L.p:
        if isinstance(o[0], str):
            rec.bad('output', 'Ginibre N=%d: %s' % (N, o))
            return
    Z = np.array([[complex(*z) for z in o] for o in L.p])
    pr = np.array(list(L.p.values()))
    for a in range(T + 1):
        for lam in partitions_of(a):
            for b in range(T + 1 - a):
                for mu in partitions_of(b):
                    got = np.sum(pr * np.prod([(Z ** k).sum(1) for k in lam] + [np.ones(len(Z))], axis=0)
                                 * np.conj(np.prod([(Z ** k).sum(1) for k in mu] + [np.ones(len(Z))], axis=0)))
                    want = ginibre_target(N, lam, mu)
                    rec.evals += 1
                    if abs(got - want) > 1e-6 * max(1, abs(want)):
                        rec.bad('law', 'Ginibre N=%d: E[p_%s conj p_%s] = %s should be %s' % (N, lam, mu, got, want))
                        return


def cases():
    t = THOROUGH
    for beta in (0, 1, 2, 3, 4, 5):
        yield Case('banded/%d/1' % beta, banded, beta, 1, 4, cost=1)
    for N in (2, 3):
        yield Case('banded/0/%d' % N, banded, 0, N, 4, cost=1)
    for beta, N, T in ((1, 2, 4), (2, 2, 4), (3, 2, 4), (4, 2, 4), (1, 3, 4), (1, 4, 2), (2, 3, 2), (3, 3, 2), (5, 2, 2)) + \
            (((4, 3, 2), (2, 4, 2), (1, 2, 6), (2, 2, 6), (5, 2, 4)) if t else ()):
        yield Case('banded/%d/%d' % (beta, N) + ('/%d' % T if t and T > 4 or (beta, T) == (5, 4) else ''), banded, beta, N, T,
                   cost=3 ** (N * 2 + beta))
    for mode in ('Hermite', 'QR'):
        for N in (1, 2):
            yield Case('full/2/%s/%d' % (mode, N), full, 2, N, mode, (-1.1, 0.3, 0.9) if N == 1 else (-1.1, 0.7), cost=200)
            yield Case('full/1/%s/%d' % (mode, N), full, 1, N, mode, (-1.1, 0.3, 0.9), cost=200)
        yield Case('full/1/%s/3' % mode, full, 1, 3, mode, (-1.1, 0.7), cost=200)
        for N in (1, 2):
            yield Case('full law/2/%s/%d' % (mode, N), full_law, 2, N, mode, (-1.1, -0.3, 0.3, 1.1) if N == 1 or mode == 'QR' else (-1.1, 0.7),
                       1e-7 if N == 1 else 0.03, cost=2000)
    yield Case('full/4/Hermite/1', full, 4, 1, 'Hermite', (-1.1, 0.3, 0.9), cost=100)
    for beta, mode in ((1, 'QR'), (1, 'Hermite')):
        yield Case('full law/%d/%s/1' % (beta, mode), full_law, beta, 1, mode, (-1.1, -0.3, 0.3, 1.1), 1e-7)
    for N in (1, 2, 3):
        yield Case('full/0/%d' % N, iid, N)
    yield Case('ginibre/1', ginibre, 1, 6)
    yield Case('ginibre/2', ginibre, 2, 4, cost=1000)
    if t:
        yield Case('ginibre/3', ginibre, 3, 2, cost=50000)


def iid(rec, N):
    from dppy.beta_ensembles import CircularEnsemble
    n = 8
    pol = {'uniform': lambda: ((np.arange(n) + 0.5) / n, np.full(n, 1 / n))}
    Z, pr = spectrum(rec, 'circular full beta=0 N=%d' % N,
                     lambda rng: CircularEnsemble(0).sample_full_model(size_N=N, random_state=rng), N, pol, lambda v: 1.0)
    if Z is not None:
        check_loops(rec, 'circular full beta=0 N=%d' % N, Z, pr, 0, 4)
