"""C27: equilibrium measures and limiting laws are the right probability densities."""
import itertools

import numpy as np

from mc.core import Case, THOROUGH, attempt, quiet

RULE = ('every supported potential over a grid of coefficients: density evaluated on Gauss-Legendre nodes of a trigonometric '
        'change of variable (exact for semicircle-type edges): non-negative, null outside the announced support, mass one, every '
        'loop equation int V\' x^k dmu = sum m_j m_{k-1-j} up to k = 11, Euler-Lagrange equality on the support and inequality '
        'outside; limiting laws: mass and moments against the exact combinatorial values, for every ratio of a grid; '
        'distribution functions: monotone, from 0 to 1, increments equal to integrals of the density on every cell; limit shape: '
        'every value on a grid, any input type')
BOUNDS = '60 (300) coefficient combinations; moments <= 6; 12 loop equations'
ASSUMPTIONS = ['Gauss-Legendre quadrature with 400 nodes per interval is exact to 1e-8 for the functions involved']

GX, GW = np.polynomial.legendre.leggauss(400)


def nodes(lo, hi):
    """Quadrature on [lo, hi] after x = mid - half cos(t): square-root edges become smooth."""
    t = (GX + 1) * np.pi / 2
    w = GW * np.pi / 2
    mid, half = (lo + hi) / 2, (hi - lo) / 2
    return mid - half * np.cos(t), w * half * np.sin(t)


def gap(V):
    """Inner edge of the support of a symmetric two-cut quartic, 0 otherwise."""
    V = np.poly1d(V)
    if V.order == 4 and V[2] < 0 and not V[1] and not V[3]:
        g2, g4 = 2 * V[2], 4 * V[4]
        if g2 < -2 * np.sqrt(g4):
            return np.sqrt((-g2 - 2 * np.sqrt(g4)) / g4)
    return 0.0


def measure(V, dens, supp):
    lo, hi = map(float, supp)
    b = gap(V)
    parts = [(lo, -b), (b, hi)] if b else [(lo, hi)]
    X, W = map(np.concatenate, zip(*[nodes(*p) for p in parts]))
    d = np.asarray(dens(X.copy()), dtype=float)
    return X, W, d, parts


def equilibrium(rec, V, dens, supp, what):
    lo, hi = map(float, supp)
    if not lo < hi:
        rec.bad('support', '%s: support %s' % (what, supp))
        return
    X, W, d, parts = measure(V, dens, supp)
    V = np.poly1d(V)
    rec.evals += len(X)
    if np.shape(d) != X.shape or not np.isfinite(d).all() or (d < -1e-12).any():
        rec.bad('density', '%s: density not non-negative (%s)' % (what, d.min()))
        return
    if (d <= 0).mean() > 0.02:
        rec.bad('support', '%s: density vanishes inside the announced support' % what)
        return
    out = np.concatenate([lo - np.array([1e-6, .1, 1, 5.]), hi + np.array([1e-6, .1, 1, 5.])])
    if np.abs(dens(out.copy())).max() > 0:
        rec.bad('support', '%s: density does not vanish outside %s' % (what, supp))
        return
    mu = W * d
    if abs(mu.sum() - 1) > 1e-7:
        rec.bad('mass', '%s: mass %.9g' % (what, mu.sum()))
        return
    m = [np.sum(mu * X ** k) for k in range(14)]
    dV = V.deriv(1)
    for k in range(0, 12):
        lhs = np.sum(mu * dV(X) * X ** k)
        rhs = sum(m[j] * m[k - 1 - j] for j in range(k))
        rec.evals += 1
        if abs(lhs - rhs) > 1e-6 * max(1, abs(hi), abs(lo)) ** (k + V.order):
            rec.bad('loop', '%s: loop equation of order %d violated: %.9g instead of %.9g' % (what, k, lhs, rhs))
            return
    # Euler-Lagrange with the logarithmic potential (singularity removed by the change of variable)

    def eff(x):
        return V(x) - 2 * logpot(x, parts, dens)
    xs = np.concatenate([np.linspace(p, q, 9)[1:-1] for p, q in parts])
    inside = np.array([eff(x) for x in xs])
    rec.evals += len(xs)
    if np.ptp(inside) > 2e-5 * max(1.0, np.abs(inside).max()):
        rec.bad('variational', '%s: effective potential not constant on the support: %s' % (what, inside))
        return
    outs = [lo - 0.05, lo - 1.0, hi + 0.05, hi + 1.0] + ([0.0, parts[0][1] * 0.5] if len(parts) > 1 else [])
    o = np.array([eff(x) for x in outs])
    if (o < inside.mean() - 1e-5).any():
        rec.bad('variational', '%s: effective potential smaller outside the support: %s < %s' % (what, o, inside.mean()))


def logpot(x, parts, dens):
    tot = 0.0
    for lo, hi in parts:
        cuts = [lo, x, hi] if lo < x < hi else [lo, hi]
        for p, q in zip(cuts[:-1], cuts[1:]):
            # x = end + length * s^4 near singular ends: use the substitution on both halves
            mid = (p + q) / 2
            for e, f in ((p, mid), (q, mid)):
                s = (GX + 1) / 2
                y = e + (f - e) * s ** 4
                w = GW / 2 * 4 * s ** 3 * abs(f - e)
                tot += np.sum(w * dens(y.copy()) * np.log(np.maximum(np.abs(x - y), 1e-300)))
    return tot


def from_object(rec, V, known):
    from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as B
    for beta in (1.0, 2.0, 3.7):
        with quiet():
            a = attempt(lambda: B(beta, np.poly1d(V)))
        if a[0] != 'ok':
            rec.bad('refused', 'potential %s: %s' % (V, a))
            return
        o = a[1]
        if o.equilibrium_density is None:
            if known:
                rec.bad('missing', 'potential %s: no equilibrium density' % (V,))
            return
        equilibrium(rec, V, o.equilibrium_density, o.support, 'potential %s' % (V,))
        if rec.violations:
            return


def direct(rec, kind, args):
    from dppy import beta_ensemble_polynomial_potential_core as bc
    if kind == 'x2_x4':
        g2, g4 = args
        V, f, cf = [g4 / 4.0, 0, g2 / 2.0, 0, 0], lambda: bc.equilibrium_x2_x4(g2, g4), lambda: bc.cdf_equilibrium_x2_x4(g2, g4)
    else:
        m, g = args
        V, f, cf = [g / (2.0 * m)] + [0] * (2 * m), lambda: bc.equilibrium_x2m(m, g), lambda: bc.cdf_equilibrium_x2m(m, g)
    dens, supp = f()
    equilibrium(rec, V, dens, supp, '%s%s' % (kind, args))
    c = attempt(cf)
    if c[0] != 'ok':
        if c[1] != 'NotImplementedError':
            rec.bad('cdf', '%s%s: %s' % (kind, args, c))
        return
    cdf, s2 = c[1]
    cdf_matches(rec, '%s%s' % (kind, args), cdf, s2, dens, supp, gap(V))


def cdf_matches(rec, what, cdf, s2, dens, supp, b):
    if not np.allclose(s2, supp, atol=1e-10):
        rec.bad('cdf', '%s: support of the distribution function %s is not that of the density %s' % (what, s2, supp))
        return
    lo, hi = map(float, supp)
    xs = np.concatenate([[lo - 2.0, lo - 1e-9], np.linspace(lo, hi, 41), [hi + 1e-9, hi + 3.0]])
    if b:
        xs = np.sort(np.concatenate([xs, [-b, b]]))
    F = np.asarray(cdf(xs.copy()), dtype=float)
    rec.evals += len(xs)
    for x, v in zip(xs, F):
        g = attempt(lambda: float(np.asarray(cdf(np.array([x])))[0]))
        if g[0] != 'ok' or abs(g[1] - v) > 1e-12:
            rec.bad('cdf', '%s: distribution function at %s alone gives %s, in a vector %s' % (what, x, g[1:], v))
            return
    inc = []
    for p, q in zip(xs[:-1], xs[1:]):
        t = 0.0
        mid = (p + q) / 2
        for e, f in ((p, mid), (mid, q)):
            X, W = nodes(e, f)
            t += np.sum(W * dens(X.copy()))
        inc.append(t)
    want = np.concatenate([[0.0], np.cumsum(inc)])
    if np.abs(F - want).max() > 2e-6:
        i = int(np.argmax(np.abs(F - want)))
        rec.bad('cdf', '%s: distribution function at %.6g is %.9g, integral of the density %.9g' % (what, xs[i], F[i], want[i]))


def catalan(k):
    from math import comb
    return comb(2 * k, k) // (k + 1)


def narayana(k, c):
    from math import comb
    return sum(comb(k, j) * comb(k, j - 1) / k * c ** (j - 1) for j in range(1, k + 1))


def semicircle(rec, R):
    from dppy.random_matrices import semi_circle_law as f
    X, W = nodes(-R, R)
    d = f(X.copy(), R)
    check_moments(rec, 'semi_circle_law R=%g' % R, X, W, d, [catalan(k // 2) * (R / 2) ** k if k % 2 == 0 else 0.0 for k in range(9)])
    out = f(np.array([-R - 1e-9, R + 1e-9, 5 * R, -7 * R]), R)
    if np.abs(out).max() > 0:
        rec.bad('support', 'semi_circle_law R=%g does not vanish outside' % R)


def check_moments(rec, what, X, W, d, want):
    if not np.isfinite(d).all() or (d < 0).any():
        rec.bad('density', what + ': not a density')
        return
    for k, t in enumerate(want):
        got = np.sum(W * d * X ** k)
        rec.evals += 1
        if abs(got - t) > 1e-6 * max(1, abs(t)):
            rec.bad('moment', '%s: moment %d is %.9g instead of %.9g' % (what, k, got, t))
            return


def marcenko(rec, M, N, sigma):
    from dppy.random_matrices import marcenko_pastur_law as f
    c = N / M
    lo, hi = sigma ** 2 * (1 - np.sqrt(c)) ** 2, sigma ** 2 * (1 + np.sqrt(c)) ** 2
    X, W = nodes(lo, hi) if c < 1 else (lambda s: (hi * s ** 4, GW / 2 * 4 * s ** 3 * hi))((GX + 1) / 2)
    with np.errstate(all='ignore'):
        d = f(X.copy(), M, N, sigma)
    want = [1.0] + [sigma ** (2 * k) * narayana(k, c) for k in range(1, 7)]
    check_moments(rec, 'marcenko_pastur_law M=%d N=%d sigma=%g' % (M, N, sigma), X, W, d, want)
    with np.errstate(all='ignore'):
        out = f(np.array([lo - 1e-3, hi + 1e-3, 3 * hi, 50.0 * hi]), M, N, sigma)
    if np.abs(out).max() > 0:
        rec.bad('support', 'marcenko_pastur_law M=%d N=%d sigma=%g does not vanish outside [%g, %g]: %s' % (M, N, sigma, lo, hi, out))


def wachter(rec, M1, M2, N):
    """Moments from an independent description: loop equation of the Jacobi ensemble in the limit of large sizes."""
    from dppy.random_matrices import wachter_law as f
    a, b = M1 / N, M2 / N
    s, p = np.sqrt(a * (a + b - 1)), np.sqrt(b)
    lo, hi = ((s - p) / (a + b)) ** 2, ((s + p) / (a + b)) ** 2
    # weight x^{N(a-1)} (1-x)^{N(b-1)}: V'(x) = -(a-1)/x + (b-1)/(1-x); loop: sum_{k} after multiplication by x(1-x)x^k
    K = 7
    m = [1.0]
    # k = 0.. : int (x(1-x) x^k) V' dmu + [terms] = int int (phi(x)-phi(y))/(x-y), phi = x^{k+1} - x^{k+2}
    # lhs: -(a-1)(m_k - m_{k+1}) + (b-1) m_{k+1}
    # rhs: sum_{j=0}^{k} m_j m_{k-j} - sum_{j=0}^{k+1} m_j m_{k+1-j}
    for k in range(K):
        S = sum(m[j] * m[k - j] for j in range(k + 1))
        T = sum(m[j] * m[k + 1 - j] for j in range(1, k + 1))
        # -(a-1) m_k + (a+b-2) m_{k+1} = S - T - 2 m_{k+1}
        m.append(((a - 1) * m[k] + S - T) / (a + b))
    X, W = nodes(lo, hi) if min(a, b) > 1 else both_ends(lo, hi)
    with np.errstate(all='ignore'):
        d = f(X.copy(), M1, M2, N)
    check_moments(rec, 'wachter_law M1=%d M2=%d N=%d' % (M1, M2, N), X, W, d, m)
    eps = 1e-3
    pts = [x for x in (lo - eps, hi + eps, lo / 2, (1 + hi) / 2) if (0 < x < lo or hi < x < 1)]
    if pts and np.abs(f(np.array(pts), M1, M2, N)).max() > 0:
        rec.bad('support', 'wachter_law M1=%d M2=%d N=%d does not vanish outside [%g, %g]' % (M1, M2, N, lo, hi))


def both_ends(lo, hi):
    s = (GX + 1) / 2
    mid = (lo + hi) / 2
    X, W = [], []
    for e in (lo, hi):
        X.append(e + (mid - e) * s ** 4)
        W.append(GW / 2 * 4 * s ** 3 * abs(mid - e))
    X = np.concatenate(X)
    return np.clip(X, 1e-12, 1 - 1e-12), np.concatenate(W)


def shape(rec):
    from dppy.exotic_dpps_core import limit_shape as f
    xs = np.concatenate([np.linspace(-3, 3, 241), [2.0, -2.0, 0.0]])

    def want(x):
        return np.where(np.abs(x) >= 2, np.abs(x), 2 / np.pi * (x * np.arcsin(np.clip(x / 2, -1, 1)) + np.sqrt(np.maximum(4 - x ** 2, 0))))
    got = f(xs.copy())
    if not np.allclose(got, want(xs), atol=1e-12):
        rec.bad('shape', 'limit_shape differs from the Vershik-Kerov-Logan-Shepp curve at %s' % xs[np.argmax(np.abs(got - want(xs)))])
    ints = np.arange(-4, 5)
    got = attempt(f, ints)
    if got[0] != 'ok' or not np.allclose(got[1], want(ints.astype(float)), atol=1e-12):
        rec.bad('shape-int', 'limit_shape of integer points: %s' % (got[1:],))
    rec.evals += len(xs) + len(ints)


def rescale(rec, V):
    """Edge rescaling: N^(2/3) c_V (lambda - b) with c_V from the square-root coefficient of the density at the edge.

    A density ~ (C / pi) sqrt(b - x) at the edge has Tracy-Widom scaling c = C^(2/3).
    """
    from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as B
    with quiet():
        o = B(2.0, np.poly1d(V))
    b = float(o.support[1])
    e = 1e-7
    vals = [np.pi * o.equilibrium_density(np.array([b - t]))[0] / np.sqrt(t) for t in (e, 4 * e)]
    C = vals[0] - (vals[1] - vals[0]) / 3.0
    for N in (5, 40):
        o.N = N
        for lam in (b, b + 0.3, b - 1.0):
            got = o.rescale_largest_eig_val(lam)
            want = N ** (2 / 3.) * C ** (2 / 3.) * (lam - b)
            rec.evals += 1
            if abs(got - want) > 1e-4 * max(1, abs(want)):
                rec.bad('rescale', 'potential %s N=%d: rescaled %g is %.8g instead of %.8g' % (V, N, lam, got, want))
                return


def cases():
    t = THOROUGH
    g4s = (0.1, 1.0, 4.0) + ((0.02, 0.5, 9.0, 30.0) if t else ())
    for g4 in g4s:
        for r in (-6.0, -2.5, -2.01, -2.0, -1.99, -1.0, -0.2, 0.3, 1.0, 7.0) + ((-20., -1.5, 2.0, 30.0) if t else ()):
            yield Case('x2_x4/%g/%g' % (r, g4), direct, 'x2_x4', (r * np.sqrt(g4), g4), cost=3)
    for m in (1, 2, 3, 4, 5) if t else (1, 2, 3, 4):
        for g in (0.2, 1.0, 5.0) + ((0.01, 40.0) if t else ()):
            yield Case('x2m/%d/%g' % (m, g), direct, 'x2m', (m, g), cost=3)
    for V in ([0.5, 0, 0], [2.0, 0, 0], [0.05, 0, 0], [0.25, 0, 0, 0, 0], [3.0, 0, 0, 0, 0], [1 / 6., 0, 0, 0, 0, 0, 0], [0.02, 0, 0, 0, 0, 0, 0],
              [0.25, 0, 0.5, 0, 0], [1.0, 0, -0.5, 0, 0], [0.25, 0, -2.0, 0, 0], [0.5, 0, -1.0, 0, 0],
              [1 / 20, -4 / 15, 1 / 5, 8 / 5, 0]):
        yield Case('object/%s' % V, from_object, V, True, cost=9)
    for V in ([0.25, 0, 0.5, 0.3, 0], [1 / 6., 0, 0.3, 0, 0.2, 0, 0], [0.25, 0.1, 0, 0, 0], [0.5, 1.0, 0], [1 / 6., 0, 0.3, 0, 0, 0, 0],
              [1 / 6., 0, 0, 0, 0.3, 0, 0], [0.5, 0, 0, 0.2, 0]):
        yield Case('object-other/%s' % V, from_object, V, False, cost=3)
    for R in (0.5, 2.0, 3.3):
        yield Case('semicircle/%g' % R, semicircle, R)
    for M, N in ((4, 4), (5, 3), (10, 1), (7, 6), (100, 40)):
        for sg in (1.0, 0.7, 2.0):
            yield Case('marcenko/%d/%d/%g' % (M, N, sg), marcenko, M, N, sg)
    for M1, M2, N in ((3, 3, 2), (5, 4, 3), (4, 7, 2), (10, 3, 3), (3, 10, 3), (4, 4, 4), (9, 8, 1)):
        yield Case('wachter/%d/%d/%d' % (M1, M2, N), wachter, M1, M2, N)
    yield Case('limit-shape', shape)
    for V in ([0.5, 0, 0], [2.0, 0, 0], [0.25, 0, 0, 0, 0], [1 / 6., 0, 0, 0, 0, 0, 0], [0.25, 0, 0.5, 0, 0], [1.0, 0, -0.5, 0, 0],
              [0.02, 0, 0, 0, 0, 0, 0], [0.5, 0, 0.1, 0, 0]):
        yield Case('rescale/%s' % V, rescale, V)
