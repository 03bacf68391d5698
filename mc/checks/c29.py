"""C29: Tracy-Widom distribution function and edge rescaling."""
import itertools

import numpy as np
from scipy.special import airy

from mc.core import Case, THOROUGH, attempt

RULE = ('every argument of a fine grid x every quadrature order of a range x every form of the argument (scalar, list, arrays), on '
        'evaluators reached by every sequence of <= 2 (3) earlier calls with other orders and arguments: value against an '
        'independent Fredholm determinant (other truncation, other nodes, exact diagonal) and against a fresh evaluator, inside [0, 1], non-decreasing along '
        'the grid; Airy kernel pointwise on a grid against the exact limit on the diagonal; edge rescaling of every supported '
        'one-cut potential against the square-root behaviour of its density at the edge')
BOUNDS = 'arguments in [-12, 20] with step 0.05 (0.01), orders 18..70 (18..120), call sequences <= 2 (3)'
ASSUMPTIONS = ['tolerance 1e-5: the evaluated diagonal is a difference quotient of step 1e-5; below order 18 convergence is not claimed']
GRID = np.round(np.arange(-12, 20.0001, 0.01 if THOROUGH else 0.05), 2)
TOL = 1e-5
_ref = {}


def reference(s, m=64):
    s = float(s)
    if s not in _ref:
        x, w = np.polynomial.legendre.leggauss(m)
        hi = max(s + 4.0, 12.0)
        y, w = s + (hi - s) * (x + 1) / 2, w * (hi - s) / 2
        A, dA, _, _ = airy(y)
        D = y[:, None] - y
        np.fill_diagonal(D, 1.0)
        K = (np.outer(A, dA) - np.outer(dA, A)) / D
        np.fill_diagonal(K, dA ** 2 - y * A ** 2)
        r = np.sqrt(w)
        _ref[s] = float(np.linalg.det(np.eye(m) - r[:, None] * K * r))
    return _ref[s]


def order(rec, q, grid):
    from dppy.beta_ensemble_polynomial_potential_core import TracyWidom
    got = np.asarray(TracyWidom().cdf(grid.copy(), quad_order=q))
    want = np.array([reference(s) for s in grid])
    rec.evals += len(grid)
    if got.shape != grid.shape or not np.isfinite(got).all():
        return rec.bad('shape', 'cdf at order %d: shape %s for %s arguments, finite: %s' % (q, got.shape, grid.shape, np.isfinite(got).all()))
    i = int(np.abs(got - want).argmax())
    if abs(got[i] - want[i]) > TOL:
        rec.bad('value', 'cdf(%g, quad_order=%d) = %.8f instead of %.8f' % (grid[i], q, got[i], want[i]), x=float(grid[i]), order=q)
    if got.min() < -1e-9 or got.max() > 1 + 1e-9:
        rec.bad('range', 'cdf at order %d takes values in [%g, %g]' % (q, got.min(), got.max()))
    j = int(np.diff(got).argmin())
    if got[j + 1] - got[j] < -1e-6:
        rec.bad('monotone', 'cdf at order %d decreases from %.9f to %.9f between %g and %g' % (q, got[j], got[j + 1], grid[j], grid[j + 1]))
    for k in sorted({0, 1, len(grid) // 2, len(grid) - 1, i}):
        one = np.asarray(TracyWidom().cdf(float(grid[k]), quad_order=q)).ravel()
        rec.evals += 1
        if one.size != 1 or abs(one[0] - got[k]) > 1e-12:
            rec.bad('scalar', 'cdf(%g, quad_order=%d) = %s alone, %r inside an array' % (grid[k], q, one, got[k]))


ORDERS = (5, 18, 50, 64)      # 5 is only compared with a fresh evaluator
FORMS = {'float': lambda v: v[0], 'int': lambda v: int(round(v[0])), 'list': list, 'tuple': tuple, 'array': np.array,
         'array1': lambda v: np.array(v[:1]), 'ints': lambda v: np.array([int(round(x)) for x in v]), '0d': lambda v: np.array(v[0]),
         'default': np.array}


_fresh = {}


def fresh(q, form, x):
    from dppy.beta_ensemble_polynomial_potential_core import TracyWidom
    if (q, form) not in _fresh:
        _fresh[q, form] = np.ravel(TracyWidom().cdf(x) if form == 'default' else TracyWidom().cdf(x, q))
    return _fresh[q, form]


def history(rec, first, depth):
    from dppy.beta_ensemble_polynomial_potential_core import TracyWidom
    pts = [-3.25, -1.0, 0.5, -2.0]
    calls = list(itertools.product(ORDERS, sorted(FORMS)))
    for n in range(depth):
        for mid in itertools.product(calls, repeat=n):
            t = TracyWidom()
            for q, form in (first,) + mid:
                x = FORMS[form](pts)
                got = attempt(t.cdf, x) if form == 'default' else attempt(t.cdf, x, q)
                rec.stats['states'] += 1
                rec.stats['transitions'] += 1
                want = np.array([reference(v) for v in np.ravel(x)])
                if got[0] != 'ok' or np.shape(np.ravel(got[1])) != np.shape(want) or (q >= 18 and np.abs(np.ravel(got[1]) - want).max() > TOL):
                    return rec.bad('history', 'cdf of a %s with order %s after %s: %s instead of %s' % (form, q, ((first,) + mid), got[1:], want),
                                   history=[list(c) for c in (first,) + mid])
                alone = fresh(q, form, x)
                if np.abs(np.ravel(got[1]) - alone).max() > 1e-10:
                    return rec.bad('history', 'cdf of a %s with order %s after %s: %s, but %s on a fresh evaluator' % (form, q, ((first,) + mid), got[1], alone),
                                   history=[list(c) for c in (first,) + mid])
    rec.stats['executions'] += rec.stats['transitions']


def kernel(rec):
    from dppy.beta_ensemble_polynomial_potential_core import TracyWidom
    g = np.arange(-6, 6.01, 0.5)
    for x, y in itertools.product(g, repeat=2):
        Ax, dAx, _, _ = airy(x)
        Ay, dAy, _, _ = airy(y)
        want = dAx ** 2 - x * Ax ** 2 if x == y else (Ax * dAy - dAx * Ay) / (x - y)
        got = TracyWidom.airy_kernel(x, y)
        rec.evals += 1
        if not abs(got - want) < 1e-5:
            return rec.bad('kernel', 'Airy kernel at (%g, %g) is %.9g instead of %.9g' % (x, y, got, want))


def rescale(rec, coef):
    from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as B
    o = B(2, np.poly1d(coef))
    lo, hi = map(float, o.support)
    eps = 1e-5 * (hi - lo)
    slope = float(np.asarray(o.equilibrium_density(np.array([hi - eps])))[0]) * np.pi / np.sqrt(eps)      # ~ c^{3/2}
    c = np.cbrt(slope ** 2)
    for N in (1, 2, 8, 27, 1000):
        o.N = N
        for x in (lo, 0.0, hi, hi + 0.5, np.array([hi, hi + 1.0])):
            want = N ** (2 / 3.) * c * (np.asarray(x) - hi)
            got = o.rescale_largest_eig_val(x)
            rec.evals += 1
            if np.shape(got) != np.shape(want) or not np.allclose(got, want, rtol=1e-3, atol=1e-9):
                return rec.bad('rescale', 'V=%s N=%d: largest eigenvalue %s rescaled to %s instead of %s' % (list(coef), N, x, got, want))


def cases():
    for q in range(18, 121 if THOROUGH else 71):
        yield Case('order/%d' % q, order, q, GRID, cost=5)
    for f in itertools.product(ORDERS, sorted(FORMS)):
        yield Case('history/%d/%s' % f, history, f, 3 if THOROUGH else 2, cost=5)
    yield Case('kernel', kernel)
    for a in (0.1, 0.5, 1.0, 3.0):
        yield Case('rescale/2/%g' % a, rescale, (a, 0, 0))
        yield Case('rescale/4/%g' % a, rescale, (a, 0, 0, 0, 0))
        yield Case('rescale/6/%g' % a, rescale, (a, 0, 0, 0, 0, 0, 0))
        for b in (-0.2, 0.3, 2.0):
            yield Case('rescale/24/%g/%g' % (a, b), rescale, (a, 0, b, 0, 0))
