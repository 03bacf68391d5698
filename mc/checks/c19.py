"""C19: Jacobi OPE sampling follows the joint density of the projection DPP."""
import itertools

import numpy as np
from scipy.special import beta as B

from mc import engine, jope
from mc.core import Case, THOROUGH

RULE = ('the proposals of the real sampler are enumerated on Gauss-Jacobi nodes (weighted so that the reference measure is '
        'integrated exactly) and all its uniforms symbolically: (a) law of sample_chain_rule_proposal = K(x,x) w(x)/N on the '
        'nodes; (b) law of the points of sample() given that proposal law = det[K(x_i,x_j)]/N! on node tuples; (c) the two '
        'levels together; (d) fast path in d=1: all moments of the enumerated eigenvalues up to a degree = moments of the '
        'determinantal joint law')
BOUNDS = ('(a) d <= 3, N <= 9, up to 6 nodes per axis; (b) N <= 3 points, up to 9 node tuples per point; (c) N = 2; '
          '(d) N <= 4, joint moments up to degree 5. Rejection rounds are followed until a cap on executions (unexplored mass reported)')
ASSUMPTIONS = ['Gauss quadrature is exact on polynomials', 'RandomState draws have their documented laws']


def nodes(a, b, m):
    """Rule for rng.beta(al, be): nodes u=(1-x)/2 whose weights times w/proposal integrate w exactly."""
    x, lam = jope.gauss(a, b, m)

    def rule(al, be):
        with np.errstate(all='ignore'):
            dens = (0.5 * (1 - x)) ** (al - 1) * (0.5 * (1 + x)) ** (be - 1) / B(al, be) / 2
            w = lam * dens / ((1 - x) ** a * (1 + x) ** b)
        return 0.5 * (1 - x), w / w.sum()
    return x, lam, rule


class Axes:
    """Rules of a vector draw: coordinate i of the point uses the nodes of axis i."""
    indexed = True

    def __init__(self, params, m):
        self.rules = [nodes(a, b, m) for a, b in params]
        self.same = len({tuple(p) for p in params}) == 1

    def __call__(self, al, be, i):
        if not self.same and (i is None or i[-1] >= len(self.rules)):
            raise engine.Unsupported('coordinate of a beta draw')
        return self.rules[0 if self.same else i[-1]][2](al, be)


def marginal(rec, params, N, m):
    from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
    j = MultivariateJacobiOPE(N, np.array(params, dtype=float))
    ax = Axes(params, m)
    X = np.array(list(itertools.product(*[r[0] for r in ax.rules])))
    W = np.array([np.prod(w) for w in itertools.product(*[r[1] for r in ax.rules])])
    order = jope.layers(N, len(params))
    F = jope.phi(params, order, X)
    p = (F * F).sum(1) * W / N
    target = {}
    for x, q in zip(X, p):
        k = key(x)
        target[k] = target.get(k, 0) + q

    def prog(rng):
        x = j.sample_chain_rule_proposal(random_state=rng)
        return key(x)
    L = rec.law(prog, policy={'beta': ax}, min_mass=1e-80, max_exec=60000 if THOROUGH else 5000)
    rec.compare(L, target, 'marginal', tol=1e-7)


def key(x):
    return tuple(float(round(v, 9)) + 0.0 for v in np.ravel(x))


def grid_law(params, N, m):
    ax = Axes(params, m)
    X = np.array(list(itertools.product(*[r[0] for r in ax.rules])))
    W = np.array([np.prod(w) for w in itertools.product(*[r[1] for r in ax.rules])])
    F = jope.phi(params, jope.layers(N, len(params)), X)
    return ax, X, W, F


def joint_target(X, W, F, N):
    from math import factorial
    K = F.dot(F.T)
    t = {}
    for S in itertools.product(range(len(X)), repeat=N):
        v = np.linalg.det(K[np.ix_(S, S)]) * np.prod(W[list(S)]) / factorial(N)
        if v > 1e-14:
            k = tuple(key(X[s]) for s in S)
            t[k] = t.get(k, 0) + v
    return t


def joint(rec, params, N, m, nested):
    """nested: the real marginal sampler; otherwise it is replaced by its (verified) law."""
    from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
    ax, X, W, F = grid_law(params, N, m)
    p = (F * F).sum(1) * W / N
    j = MultivariateJacobiOPE(N, np.array(params, dtype=float))
    if not nested:
        def proposal(nb_trials_max=None, random_state=None):
            return X[random_state.choice(len(X), p=p / p.sum())].copy()
        j.sample_chain_rule_proposal = proposal

    def prog(rng):
        s = j.sample(random_state=rng, tridiag_1D=False)
        if s.shape != (N, len(params)):
            return ('SHAPE', s.shape)
        return tuple(key(x) for x in s)
    L = rec.law(prog, policy={'beta': ax}, min_mass=1e-80, max_exec=60000 if THOROUGH else 5000)
    rec.compare(L, joint_target(X, W, F, N), 'joint', tol=1e-6)


def moments(rec, a, b, N, D):
    """d=1 fast path: expectation of every product of power sums of total degree <= D."""
    from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
    j = MultivariateJacobiOPE(N, np.array([[a, b]], dtype=float))
    n = D // 2 + 1
    pol = {'beta': engine.gauss_beta(n)}

    def prog(rng):
        s = j.sample(random_state=rng)
        if s.shape != (N, 1):
            return ('SHAPE', s.shape)
        if not ((np.abs(s) <= 1 + 1e-9).all() and np.isrealobj(s)):
            return ('RANGE', key(s))
        return tuple(float(v) for v in np.sort(s.ravel()))
    L = rec.law(prog, policy=pol, max_nodes=400000)
    if L is None:
        return
    bad = [o for o in L.p if isinstance(o[0], str)]
    if bad:
        rec.bad('output', 'a=%g b=%g N=%d: %s' % (a, b, N, bad[0]))
        return
    x, w = jope.gauss(a, b, N + D)
    V = list(itertools.product(range(len(x)), repeat=N)) if len(x) ** N <= 60000 else None
    pts = np.array(V)
    xs = x[pts]
    dens = np.prod(w[pts], axis=1)
    for i in range(N):
        for k in range(i):
            dens = dens * (xs[:, i] - xs[:, k]) ** 2
    dens /= dens.sum()
    E = np.array(list(L.p.keys()))
    pr = np.array(list(L.p.values()))
    for lam in partitions(D):
        got = float(np.sum(pr * np.prod([(E ** k).sum(1) for k in lam], axis=0))) if lam else pr.sum()
        want = float(np.sum(dens * np.prod([(xs ** k).sum(1) for k in lam], axis=0))) if lam else 1.0
        rec.evals += 1
        if not abs(got - want) < 1e-8 * max(1, abs(want)):
            rec.bad('moment', 'a=%g b=%g N=%d: E[prod p_k, k in %s] = %.10g should be %.10g' % (a, b, N, lam, got, want))
            return
    rec.sample({'case': rec.cid, 'outcomes': len(L.p)})


def partitions(D):
    def part(n, m):
        if n == 0:
            yield ()
        for k in range(min(n, m), 0, -1):
            for p in part(n - k, k):
                yield (k,) + p
    for n in range(D + 1):
        yield from part(n, n)


def outside(rec, a, b, N):
    """d=1 outside [-1/2,1/2]: the chain rule sampler still has the announced marginal (moments)."""
    from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
    j = MultivariateJacobiOPE(N, np.array([[a, b]], dtype=float))
    D = 4
    x, w = jope.gauss(a, b, N + D)
    F = jope.phi([(a, b)], jope.layers(N, 1), x[:, None])
    k = (F * F).sum(1) * w / N
    for what in ('proposal', 'sample'):
        def prog(rng):
            if what == 'proposal':
                return key(j.sample_chain_rule_proposal(random_state=rng))
            return key(j.sample(random_state=rng, tridiag_1D=False))
        L = rec.law(prog, policy={'beta': engine.gauss_beta(4)}, max_nodes=100000)
        if L is None:
            return
        for d in range(D + 1):
            got = sum(p * np.mean(np.array(o) ** d) for o, p in L.p.items())
            want = float((k * x ** d).sum())
            rec.evals += 1
            if not abs(got - want) < 1e-7:
                rec.bad('outside ' + what, 'a=%g b=%g N=%d: E[x^%d] = %.8g should be %.8g' % (a, b, N, d, got, want))
                return


def cases():
    t = THOROUGH
    P1 = [(-.5, -.5), (.5, .5), (-.5, .5), (.5, -.5), (0., 0.), (.3, -.25), (-.5, .2), (.25, .4)]
    for a, b in P1:
        for N, m in ((1, 4), (2, 4), (3, 5), (6, 8)):
            yield Case('marginal/1/%g,%g/%d' % (a, b, N), marginal, [(a, b)], N, m, cost=N * m)
        yield Case('joint/1/%g,%g/2' % (a, b), joint, [(a, b)], 2, 4, False, cost=20)
        yield Case('joint/1/%g,%g/3' % (a, b), joint, [(a, b)], 3, 4, False, cost=300)
    for a, b in P1[:6 if t else 4]:
        yield Case('nested/1/%g,%g/2' % (a, b), joint, [(a, b)], 2, 3, True, cost=500)
    for a, b in ((-.5, -.5), (.5, .5), (0., 0.), (-.25, .3), (-.5, .5)):
        p = [(a, b)] * 2
        for N, m in ((1, 3), (2, 3), (4, 4), (7, 4)):
            yield Case('marginal/2/%g,%g/%d' % (a, b, N), marginal, p, N, m, cost=N * m * m)
        for N in (1, 2, 3):
            yield Case('joint/2/%g,%g/%d' % (a, b, N), joint, p, N, 3 if N < 3 else 2, False, cost=100 * 9 ** (N - 2))
        if t:
            yield Case('marginal/3/%g,%g/9' % (a, b), marginal, [(a, b)] * 3, 9, 4, cost=2000)
    for p in ([(-.5, .5), (.3, -.25)], [(0., .5), (-.5, -.5)], [(.5, -.5), (-.1, .4)]):
        n = 'x'.join('%g,%g' % q for q in p)
        for N, m in ((2, 3), (4, 4), (6, 4)):
            yield Case('marginal/2/%s/%d' % (n, N), marginal, p, N, m, cost=N * m * m)
        for N in (2, 3):
            yield Case('joint/2/%s/%d' % (n, N), joint, p, N, 3 if N < 3 else 2, False, cost=100 * 9 ** (N - 2))
    for a, b in ((-.5, -.5), (.5, .5), (0., 0.), (.3, -.25), (-.5, .5), (2., -.8), (-.7, -.3), (1.5, 4.)):
        for N in (1, 2, 3, 4):
            yield Case('fast/%g,%g/%d' % (a, b, N), moments, a, b, N, {1: 8, 2: 6, 3: 5, 4: 3}[N], cost=20 * N ** 3)
    for a, b in ((2., -.8), (-.7, -.3), (1.5, 4.), (.2, .9)):
        for N in (1, 2):
            yield Case('outside/%g,%g/%d' % (a, b, N), outside, a, b, N, cost=30)
