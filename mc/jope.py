"""Independent description of the multivariate Jacobi ensemble, and quadratures."""
import itertools

import numpy as np
from scipy.special import gammaln, roots_jacobi


def gauss(a, b, n):
    """Nodes and weights of int f(x) (1-x)^a (1+x)^b dx (Golub-Welsch with exact mass)."""
    x, w = roots_jacobi(n, a, b)
    mass = np.exp((a + b + 1) * np.log(2.0) + gammaln(a + 1) + gammaln(b + 1) - gammaln(a + b + 2))
    return x, w / w.sum() * mass


def jacobi_rec(a, b, deg, x):
    """P_0..P_deg orthonormal for (1-x)^a (1+x)^b by the three-term recurrence (coefficients from moments-free
    closed form of the monic recurrence)."""
    x = np.asarray(x, dtype=float)
    mass = np.exp((a + b + 1) * np.log(2.0) + gammaln(a + 1) + gammaln(b + 1) - gammaln(a + b + 2))
    out = [np.full_like(x, 1 / np.sqrt(mass))]
    prev = np.zeros_like(x)
    bprev = 0.0
    for n in range(deg):
        s = 2 * n + a + b
        al = (b - a) / (a + b + 2) if n == 0 else (b * b - a * a) / (s * (s + 2))
        m = n + 1
        t = 2 * m + a + b
        if m == 1:
            be = 4 * (a + 1) * (b + 1) / ((a + b + 2) ** 2 * (a + b + 3))
        else:
            be = 4 * m * (m + a) * (m + b) * (m + a + b) / (t * t * (t + 1) * (t - 1))
        nxt = ((x - al) * out[-1] - np.sqrt(bprev) * prev) / np.sqrt(be)
        prev, bprev = out[-1], be
        out.append(nxt)
    return np.array(out)


def phi(params, ordering, X):
    """Matrix of the orthonormal multivariate polynomials at the rows of X."""
    X = np.atleast_2d(X)
    deg = int(np.max(ordering))
    P = [jacobi_rec(a, b, deg, X[:, i]) for i, (a, b) in enumerate(params)]
    out = np.ones((len(X), len(ordering)))
    for j, k in enumerate(ordering):
        for i, ki in enumerate(k):
            out[:, j] *= P[i][ki]
    return out


def layers(N, d):
    """The first N multi-indices, layer by layer (max-degree), lexicographic inside a layer."""
    out = []
    m = 0
    while len(out) < N:
        out += [k for k in itertools.product(range(m + 1), repeat=d) if max(k) == m]
        m += 1
    return out[:N]


def eq_ratio(params, X):
    """w / w_eq at the rows of X."""
    X = np.atleast_2d(X)
    r = np.ones(len(X))
    for i, (a, b) in enumerate(params):
        r = r * np.pi * (1 - X[:, i]) ** (a + 0.5) * (1 + X[:, i]) ** (b + 0.5)
    return r


def critical(a, b, n):
    """All points of [-1,1] where P_n^2 (1-x)^(a+1/2) (1+x)^(b+1/2) can be extremal."""
    from numpy.polynomial import chebyshev as C
    xs = np.cos(np.pi * (np.arange(4 * n + 60) + 0.5) / (4 * n + 60))
    # 2 P' (1-x^2) + P ((b+1/2)(1-x) - (a+1/2)(1+x)) interpolated in the Chebyshev basis
    co = C.chebinterpolate(lambda x: jacobi_rec(a, b, n, x)[n], n) if n else np.array([jacobi_rec(a, b, 0, np.zeros(1))[0][0]])
    D = C.chebder(co) if n else np.zeros(1)
    one = C.poly2cheb([1.0, 0.0, -1.0])
    lin = C.poly2cheb([(b + 0.5) - (a + 0.5), -(b + 0.5) - (a + 0.5)])
    q = C.chebadd(2 * C.chebmul(D, one), C.chebmul(co, lin))
    r = C.chebroots(q) if len(C.chebtrim(q, 1e-12)) > 1 else np.zeros(0)
    r = r[np.abs(r.imag) < 1e-6].real if len(r) else np.zeros(0)
    r = r[(r > -1) & (r < 1)]
    return np.concatenate([[-1.0, 1.0], r.real, xs])
