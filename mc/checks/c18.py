"""C18: Jacobi OPE basis, ordering, norms, kernel and bounds are exact."""
import itertools

import numpy as np

from mc import jope
from mc.core import Case, THOROUGH

RULE = ('for every (N, d) and every admissible parameter vector of the bounded family the real object is built and: its '
        'ordering is compared with the layer-by-layer enumeration of multi-indices; the Gram matrix of its polynomials on '
        'a tensor Gauss-Jacobi grid (exact for the products) is compared with the identity; every evaluation form of K is '
        'compared with the reproducing kernel of an independent three-term recurrence; every rejection bound is compared '
        'with the maximum of the weighted square over all critical points and end points of the polynomial')
BOUNDS = ('d <= 4; N <= 130 (400 thorough) in d=1, every N up to 40-80 in d>=2, all layer boundaries; parameters on '
          'grids with all corner values -1/2, 1/2 and mixed pairs; ordering up to N = 1000 in d=1 (40000 thorough)')
ASSUMPTIONS = ['Gauss-Jacobi quadrature of scipy is exact on polynomials up to roundoff']

V = (-0.5, -0.25, 0.0, 0.3, 0.5)


def tick(rec, n=1):
    rec.evals += n
    rec.stats['states'] += n
    rec.stats['transitions'] += n


def ordering(rec, d, Ns):
    from dppy.multivariate_jacobi_ope import compute_ordering, compute_degrees_1D_polynomials
    full = jope.layers(max(Ns), d)
    for N in Ns:
        got = [tuple(int(v) for v in k) for k in compute_ordering(N, d)]
        tick(rec)
        if got != full[:N]:
            rec.bad('ordering', 'N=%d d=%d: ordering %s... should be %s...' % (N, d, got[:12], full[:min(N, 12)]))
            return
        if N <= 400:
            mx, deg = compute_degrees_1D_polynomials(np.max(got, axis=0))
            want = np.max(got, axis=0)
            if mx != max(want) or any(deg[k, i] != k for i in range(d) for k in range(want[i] + 1)):
                rec.bad('degrees', 'N=%d d=%d: degrees %s for maximal degrees %s' % (N, d, deg.tolist(), want))


def build(N, params):
    from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
    return MultivariateJacobiOPE(N, np.array(params, dtype=float))


def basis(rec, params, Ns):
    d = len(params)
    for N in Ns:
        j = build(N, params)
        order = jope.layers(N, d)
        deg = max(max(k) for k in order)
        if [tuple(int(v) for v in k) for k in j.ordering] != order:
            rec.bad('attr ordering', 'N=%d %s: %s' % (N, params, j.ordering))
            return
        rules = [jope.gauss(a, b, deg + 2) for a, b in params]
        if (deg + 2) ** d <= 20000:
            X = np.array(list(itertools.product(*[r[0] for r in rules])))
            W = np.array([np.prod(w) for w in itertools.product(*[r[1] for r in rules])])
        else:
            continue
        P = j.eval_multiD_polynomials(X)
        tick(rec, len(X))
        G = (P * W[:, None]).T.dot(P)
        if P.shape != (len(X), N) or not np.abs(G - np.eye(N)).max() < 1e-8:
            i, k = np.unravel_index(np.argmax(np.abs(G - np.eye(N))), G.shape) if P.shape == (len(X), N) else (0, 0)
            rec.bad('orthonormal', 'N=%d params=%s: <P_%s, P_%s> = %s' % (N, params, order[i], order[k], G[i, k]))
            return
        ref = jope.phi(params, order, X)
        if not np.allclose(P, ref, rtol=1e-7, atol=1e-7):
            rec.bad('sign/basis', 'N=%d params=%s: polynomials differ from the orthonormal basis' % (N, params))
            return
        if not np.isclose(j.mass_of_mu, np.prod([r[1].sum() for r in rules]), rtol=1e-10):
            rec.bad('mass', 'N=%d params=%s: mass %s' % (N, params, j.mass_of_mu))
        sq = np.array([np.prod([np.sum(w * (jac_std(a, b, ki, x)) ** 2) for (x, w), (a, b), ki in zip(rules, params, k)])
                       for k in order])
        if not np.allclose(j.square_norms_multiD_polynomials, sq, rtol=1e-8):
            rec.bad('norms', 'N=%d params=%s: square norms %s should be %s'
                    % (N, params, j.square_norms_multiD_polynomials, sq))
            return


def jac_std(a, b, n, x):
    """Jacobi polynomial normalised by P_n(1) = binom(n+a, n)."""
    from scipy.special import gammaln
    p = jope.jacobi_rec(a, b, n, np.append(x, 1.0))[n]
    return p[:-1] / p[-1] * np.exp(gammaln(n + a + 1) - gammaln(n + 1) - gammaln(a + 1))


def kernel(rec, params, N):
    d = len(params)
    j = build(N, params)
    order = jope.layers(N, d)
    rng = np.random.RandomState(0)
    X = rng.uniform(-1, 1, size=(6, d))
    X[0], X[1] = 0.0, 1.0
    Y = rng.uniform(-1, 1, size=(6, d))
    Y[0], Y[1] = X[2], -1.0
    FX, FY = jope.phi(params, order, X), jope.phi(params, order, Y)

    def eq(name, got, want):
        tick(rec)
        got = np.asarray(got)
        if got.shape != want.shape or not np.allclose(got, want, rtol=1e-8, atol=1e-8 * max(1, np.abs(want).max())):
            rec.bad('K ' + name, 'N=%d params=%s: K %s = %s should be %s' % (N, params, name, got, want))
    eq('X', j.K(X), FX.dot(FX.T))
    eq('X,None', j.K(X, None), FX.dot(FX.T))
    eq('X,X same object', j.K(X, X), FX.dot(FX.T))
    eq('X,X equal', j.K(X, X.copy()), FX.dot(FX.T))
    eq('X,Y', j.K(X, Y), FX.dot(FY.T))
    eq('Y,X', j.K(Y, X), FY.dot(FX.T))
    eq('X,Y[:2]', j.K(X, Y[:2]), FX.dot(FY[:2].T))
    eq('X[:1],Y', j.K(X[:1], Y), FX[:1].dot(FY.T))
    eq('X pointwise', j.K(X, eval_pointwise=True), (FX * FX).sum(1))
    eq('X,X pointwise', j.K(X, X, eval_pointwise=True), (FX * FX).sum(1))
    eq('X,X.copy pointwise', j.K(X, X.copy(), eval_pointwise=True), (FX * FX).sum(1))
    eq('X,Y pointwise', j.K(X, Y, eval_pointwise=True), (FX * FY).sum(1))
    for x, y, fx, fy in zip(X, Y, FX, FY):
        eq('x', np.ravel(j.K(x)), np.array([fx.dot(fx)]))
        eq('x,y', np.ravel(j.K(x, y)), np.array([fx.dot(fy)]))
        eq('x,y pointwise', np.ravel(j.K(x, y, eval_pointwise=True)), np.array([fx.dot(fy)]))
        eq('x,Y', np.ravel(j.K(x, Y)), FY.dot(fx))
    Z = X[2:]
    a, b = np.array(params).T
    eq('w', j.eval_w(Z), np.prod((1 - Z) ** a * (1 + Z) ** b, axis=1))
    eq('w(x)', np.ravel(j.eval_w(Z[0])), np.ravel(np.prod((1 - Z[0]) ** a * (1 + Z[0]) ** b)))


def bounds(rec, params, N):
    from dppy.multivariate_jacobi_ope import compute_rejection_bounds
    d = len(params)
    j = build(N, params)
    order = jope.layers(N, d)
    deg = max(max(k) for k in order)
    sup = np.zeros((deg + 1, d))
    for i, (a, b) in enumerate(params):
        for n in range(deg + 1):
            x = jope.critical(a, b, n)
            with np.errstate(all='ignore'):
                v = jope.jacobi_rec(a, b, n, x)[n] ** 2 * np.pi * (1 - x) ** (a + .5) * (1 + x) ** (b + .5)
            sup[n, i] = v[np.isfinite(v)].max() if min(a, b) >= -0.5 else np.inf
    forms = [('attribute', j.rejection_bounds)]
    if max(abs(v) for p in params for v in p) <= 0.5:
        forms += [('log', compute_rejection_bounds(j.jacobi_params, j.ordering, log_scale=True)),
                  ('direct', compute_rejection_bounds(j.jacobi_params, j.ordering, log_scale=False))]
        a, b = (np.asarray(f[1], float) for f in forms[1:])
        if a.shape != b.shape or not (np.abs(a - b) <= 1e-9 * np.abs(a)).all():
            rec.bad('bound forms', 'N=%d params=%s: log-scale and direct bounds differ: %s, %s' % (N, params, a, b))
            return
    for name, got in forms:
        got = np.asarray(got)
        for k, c in zip(order, got):
            tick(rec)
            s = np.prod([sup[ki, i] for i, ki in enumerate(k)])
            if not c >= s * (1 - 1e-9):
                rec.bad('bound', '%s: N=%d params=%s k=%s: bound %s below the supremum %s' % (name, N, params, k, c, s))
                return
        if len(got) != N:
            rec.bad('bound length', '%s: %d bounds for N=%d' % (name, len(got), N))


def cases():
    t = THOROUGH
    yield Case('ordering/1', ordering, 1, list(range(1, 400)) + [1000] + ([32768, 40000] if t else []), cost=30)
    for d, top in ((2, 260), (3, 700), (4, 700), (5, 300)):
        yield Case('ordering/%d' % d, ordering, d, range(1, top * (3 if t else 1)), cost=60)
    one = [(a, b) for a in V for b in V] + [(-0.9, 0.2), (-0.7, -0.3), (1.5, -0.8), (2.0, 3.5), (0.5, 0.7), (10., 4.)]
    for a, b in one:
        p = [[a, b]]
        yield Case('basis/1/%g,%g' % (a, b), basis, p, list(range(1, 40)) + [130] + ([400] if t else []), cost=4)
        yield Case('kernel/1/%g,%g' % (a, b), kernel, p, 7)
        yield Case('bounds/1/%g,%g' % (a, b), bounds, p, 41 if not t else 151, cost=3)
    pairs = [((-.5, -.5), (0., 0.)), ((-.5, .5), (.3, -.25)), ((.5, .5), (-.5, -.5)), ((0., 0.), (0., 0.)),
             ((.3, -.5), (-.5, .3)), ((.5, .25), (-.25, -.25)), ((-.5, -.5), (-.5, -.5)), ((.1, .2), (-.3, .4))]
    if t:
        W = [(-.5, -.5), (-.5, .5), (.5, -.5), (.5, .5), (0., 0.), (.3, -.25)]
        pairs = [(p, q) for p in W for q in W]
    for p in pairs:
        n = 'x'.join('%g,%g' % q for q in p)
        p = [list(q) for q in p]
        yield Case('basis/2/' + n, basis, p, range(1, 50), cost=4)
        yield Case('bounds/2/' + n, bounds, p, 50, cost=2)
        for N in (1, 2, 3, 4, 7, 10, 26):
            yield Case('kernel/2/%s/%d' % (n, N), kernel, p, N)
    for p in ([(-.5, -.5), (.5, -.5), (.1, .2)], [(0., 0.)] * 3, [(.5, .5), (-.5, .3), (-.5, -.5)]):
        n = 'x'.join('%g,%g' % q for q in p)
        p = [list(q) for q in p]
        yield Case('basis/3/' + n, basis, p, range(1, 66, 1 if t else 3), cost=8)
        yield Case('bounds/3/' + n, bounds, p, 64)
        for N in (1, 2, 5, 9, 28):
            yield Case('kernel/3/%s/%d' % (n, N), kernel, p, N)
    p = [[.2, -.1], [-.5, -.5], [-.5, .5], [0., .25]]
    yield Case('basis/4', basis, p, (1, 2, 9, 16, 17, 40), cost=8)
    yield Case('bounds/4', bounds, p, 81)
    yield Case('kernel/4', kernel, p, 17)
