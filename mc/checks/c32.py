"""C32: matrix predicates, determinants, spectral filters and example likelihood functions decide what they announce."""
import itertools
from fractions import Fraction as Q

import numpy as np

from mc.core import Case, THOROUGH, attempt

RULE = ('every small matrix over a finite set of rational entries is given to every predicate, minor and filter, every small set of '
        'grid points to every form of the example likelihood functions, and the outcome compared with the definition decided '
        'in exact arithmetic')
BOUNDS = ('symmetric 2x2 matrices on a grid of step 1/10 (1/20), all 3x3 symmetric matrices over 5 values, all 3x2 and 2x3 matrices '
          'over 4-5 values, all index lists of length <= 3, point sets of size <= 3')
ASSUMPTIONS = ['predicates are judged up to 20 rows (5 columns for orthonormality), the part they announce to inspect']


def tick(rec, n=1):
    rec.evals += n
    rec.stats['states'] += n
    rec.stats['transitions'] += n


def accepts(rec, f, M, want, what):
    """A predicate hands back its argument untouched, or raises ValueError."""
    tick(rec)
    before = M.copy()
    got = attempt(f, M)
    if got[0] == 'ok':
        ok = got[1] is M or (isinstance(got[1], np.ndarray) and np.array_equal(got[1], M))
        verdict = True
    else:
        ok, verdict = got[1] == 'ValueError', False
    if not ok:
        rec.bad(what, '%s(%s) gives %s' % (what, M.tolist(), got))
    elif verdict != want:
        rec.bad(what, '%s %s %s' % (what, 'accepts' if verdict else 'refuses', M.tolist()))
    elif not np.array_equal(before, M):
        rec.bad(what, '%s modifies its argument %s' % (what, before.tolist()))
    return not rec.violations


def mul(A, B):
    return [[sum(a * b for a, b in zip(r, c)) for c in zip(*B)] for r in A]


def real(A):
    return np.array([[float(v) for v in r] for r in A])


def rank(A):
    A, r = [list(x) for x in A], 0
    for c in range(len(A[0])):
        p = next((i for i in range(r, len(A)) if A[i][c]), None)
        if p is None:
            continue
        A[r], A[p] = A[p], A[r]
        for i in range(r + 1, len(A)):
            t = A[i][c] / A[r][c]
            A[i] = [x - t * y for x, y in zip(A[i], A[r])]
        r += 1
    return r


def det(A):
    if not A:
        return Q(1)
    return sum((-1) ** j * A[0][j] * det([r[:j] + r[j + 1:] for r in A[1:]]) for j in range(len(A)))


def symmetric_matrices(rec, step):
    from dppy import utils as u
    g = [Q(i, step) for i in range(-step, step + 1)]
    for a, b, c in itertools.product(g, repeat=3):
        M = [[a, b], [b, c]]
        if not accepts(rec, u.is_projection, real(M), mul(M, M) == M, 'is_projection'):
            return
    for a, b, c, d in itertools.product(g[::4], repeat=4):
        if not accepts(rec, u.is_symmetric, real([[a, b], [c, d]]), b == c, 'is_symmetric'):
            return


def symmetric3(rec):
    from dppy import utils as u
    for v in itertools.product([Q(-1, 3), Q(0), Q(1, 3), Q(2, 3), Q(1)], repeat=6):
        a, b, c, d, e, f = v
        M = [[a, b, c], [b, d, e], [c, e, f]]
        if not accepts(rec, u.is_projection, real(M), mul(M, M) == M, 'is_projection'):
            return


def larger(rec):
    """One entry off, anywhere, in matrices of every size up to 20; sub-blocks that are no projections."""
    from dppy import utils as u
    rng = np.random.RandomState(3)
    for n in range(1, 21):
        Z = np.linalg.qr(rng.randn(n, n))[0]
        for r in {0, 1, n // 2, n}:
            P = Z[:, :r].dot(Z[:, :r].T)
            P = (P + P.T) / 2
            if not accepts(rec, u.is_projection, P, True, 'is_projection') or not accepts(rec, u.is_symmetric, P, True, 'is_symmetric'):
                return
            for i in range(n):
                M = P.copy()
                M[i, i] += 0.3
                bad = not np.allclose(M.dot(M), M)
                if not accepts(rec, u.is_projection, M, not bad, 'is_projection'):
                    return
                j = (i + 1 + n // 3) % n
                if i != j:
                    M = P.copy()
                    M[i, j] += 0.3
                    if not accepts(rec, u.is_symmetric, M, False, 'is_symmetric'):
                        return
    for n in range(2, 7):      # M^2 and M share their diagonal, M is no projection
        M = np.full((n, n), 0.4)
        lam = 1.2, 0.4
        for p in range(n):
            for q in range(p + 1, n):
                M = np.zeros((n, n))
                M[p, p] = M[q, q] = sum(lam) / 2
                M[p, q] = M[q, p] = (lam[0] - lam[1]) / 2
                if not accepts(rec, u.is_projection, M, False, 'is_projection'):
                    return


def rectangles(rec):
    from dppy import utils as u
    g = [Q(-4, 5), Q(0), Q(3, 5), Q(4, 5), Q(1)]
    for v in itertools.product(g, repeat=6):
        M = [list(v[:2]), list(v[2:4]), list(v[4:])]
        T = [list(c) for c in zip(*M)]
        if not accepts(rec, u.is_orthonormal_columns, real(M), mul(T, M) == [[1, 0], [0, 1]], 'is_orthonormal_columns'):
            return
    for v in itertools.product([Q(-1), Q(0), Q(1), Q(2)], repeat=6):
        M = [list(v[:3]), list(v[3:])]
        if not accepts(rec, u.is_full_row_rank, real(M), rank(M) == 2, 'is_full_row_rank'):
            return
    for v in itertools.product([Q(-1), Q(0), Q(1), Q(2)], repeat=3):
        if not accepts(rec, u.is_full_row_rank, real([list(v)]), any(v), 'is_full_row_rank'):
            return
        if not accepts(rec, u.is_full_row_rank, real([[x] for x in v]), False, 'is_full_row_rank'):
            return
    for n in range(1, 6):
        for k in range(1, 6):
            M = np.arange(n * k, dtype=float).reshape(n, k)
            if not accepts(rec, u.is_square, M, n == k, 'is_square'):
                return
            Z = np.linalg.qr(np.random.RandomState(n).randn(6, 6))[0][:, :k]
            if not accepts(rec, u.is_orthonormal_columns, Z, True, 'is_orthonormal_columns'):
                return
            for j in range(k):
                W = Z.copy()
                W[:, j] = Z[:, (j + 1) % k] if k > 1 and n % 2 else 1.2 * Z[:, j]
                if not accepts(rec, u.is_orthonormal_columns, W, False, 'is_orthonormal_columns'):
                    return
    for M in (np.zeros(3), np.zeros((2, 2, 2))):
        accepts(rec, u.is_square, M, False, 'is_square')
    for f in (u.is_square, u.is_symmetric, u.is_projection, u.is_orthonormal_columns, u.is_equal_to_O_or_1, u.is_in_01, u.is_geq_0,
              u.is_full_row_rank):
        tick(rec)
        if attempt(f, None) != ('ok', None):
            rec.bad('none', '%s(None) gives %s' % (f.__name__, attempt(f, None)))


def ranges(rec):
    from dppy import utils as u
    tol = 1e-8
    g = [-2., -1., -1e-6, -1e-9, 0., 1e-9, 1e-6, 0.5, 1 - 1e-6, 1 - 1e-9, 1., 1 + 1e-9, 1 + 1e-6, 2., 1e6]
    for n in (1, 2, 3):
        for v in itertools.product(g, repeat=n):
            x = np.array(v)
            if not (accepts(rec, u.is_in_01, x, all(-tol <= t <= 1 + tol for t in v), 'is_in_01')
                    and accepts(rec, u.is_geq_0, x, all(t >= -tol for t in v), 'is_geq_0')
                    and accepts(rec, u.is_equal_to_O_or_1, x, all(min(abs(t), abs(1 - t)) <= tol for t in v), 'is_equal_to_O_or_1')):
                return


def minors(rec):
    from dppy import utils as u
    rng = np.random.RandomState(2)
    lists = [l for k in range(4) for l in itertools.permutations(range(4), k)]
    for _ in range(3):
        A = rng.randint(-3, 4, size=(4, 4))
        E = [[Q(int(v)) for v in r] for r in A]
        for S in lists:
            for T in [None] + [t for t in lists if len(t) == len(S)]:
                tick(rec)
                want = float(det([[E[i][j] for j in (S if T is None else T)] for i in S]))
                got = attempt(u.det_ST, A.astype(float), list(S), None if T is None else list(T))
                if got[0] != 'ok' or not abs(got[1] - want) <= 1e-9:
                    return rec.bad('det_ST', 'rows %s columns %s of %s: %s, expected %g' % (S, T, A.tolist(), got, want))


def products(rec):
    from dppy import utils as u
    rng = np.random.RandomState(4)
    for nd in (1, 2, 3):
        for shape in itertools.product((1, 2, 3), repeat=nd):
            A, B = rng.randint(-3, 4, size=shape), rng.randint(-3, 4, size=shape)
            for ax in range(nd):
                for b, kw in ((A, {}), (B, dict(arr2=B))):
                    tick(rec)
                    got = attempt(u.inner1d, A, axis=ax, **kw)
                    if got[0] != 'ok' or not np.array_equal(got[1], (A * b).sum(axis=ax)):
                        return rec.bad('inner1d', 'axis %d of %s: %s' % (ax, A.tolist(), got))


def filters(rec):
    from dppy import utils as u
    for n in (1, 2, 3, 4):
        Z = np.linalg.qr(np.random.RandomState(n).randn(n, n))[0]
        for w in itertools.product((0., 1e-20, 1e-2, 1., 30., 1e4) if n < 4 else (0., 1e-2, 30.), repeat=n):
            w = np.array(w)
            if not w.any() or w.max() < 1e-3:
                continue
            keep = w > 1e-9
            for U in (Z, np.eye(n)):
                tick(rec)
                a, b = attempt(u.stable_filter, U, w), attempt(u.stable_invert_root, U, w)
                if a[0] != 'ok' or b[0] != 'ok':
                    return rec.bad('filter', 'spectrum %s: %s %s' % (w, a, b))
                keep2 = keep | (w > 10 * n * np.finfo(float).eps * w.max())
                if sorted(np.asarray(a[1][1]).tolist()) not in (sorted(w[keep].tolist()), sorted(w[keep2].tolist())):
                    return rec.bad('filter', 'spectrum %s filtered to %s' % (w, a[1][1]))
                V = np.asarray(a[1][0])
                if not np.allclose((V * a[1][1]).dot(V.T), (U * w).dot(U.T), atol=1e-9 * w.max()):
                    return rec.bad('filter', 'spectrum %s: the filtered eigenvectors do not give the matrix back' % w)
                E = np.asarray(b[1][1]) * np.asarray(b[1][0]).T
                M = (U * w).dot(U.T)
                if not np.allclose(M.dot(E.T.dot(E)).dot(M), M, atol=1e-8 * w.max()):
                    return rec.bad('invert root', 'spectrum %s: not the root of a generalised inverse' % w)
        for i in range(n):
            w = np.ones(n)
            w[i] = -0.5
            for f in (u.stable_filter, u.stable_invert_root):
                tick(rec)
                got = attempt(f, Z, w)
                if got[0] == 'ok' or got[1] != 'ValueError':
                    return rec.bad('negative', '%s accepts the spectrum %s' % (f.__name__, w))
        for f in (u.stable_filter, u.stable_invert_root):
            for bad in ((Z, np.ones(n + 1)), (Z[:, :-1], np.ones(n)), (Z, np.ones((n, 1)))):
                tick(rec)
                got = attempt(f, *bad)
                if got[0] == 'ok' or got[1] != 'ValueError':
                    return rec.bad('shapes', '%s accepts mismatched shapes' % f.__name__)


def kernels(rec):
    from dppy import utils as u
    grid2 = [(0., 0.), (1., 0.), (-1., 2.), (.5, .5)]
    grid1 = [(0.,), (.25,), (.5,), (1.,)]
    forms = [('linear', u.example_eval_L_linear, lambda x, y: sum(a * b for a, b in zip(x, y)), grid2),
             ('min', u.example_eval_L_min_kern, lambda x, y: min(x[0], y[0]), grid1)]
    for p in (1, 2, 3):
        forms.append(('polynomial %d' % p, lambda X, Y=None, p=p: u.example_eval_L_polynomial(X, Y, p),
                      lambda x, y, p=p: sum(a * b for a, b in zip(x, y)) ** p, grid2))
    forms.append(('polynomial', u.example_eval_L_polynomial, lambda x, y: sum(a * b for a, b in zip(x, y)) ** 2, grid2))
    for name, k, ref, grid in forms:
        sets = [s for n in (1, 2, 3) for s in itertools.product(grid, repeat=n)]
        for S in sets:
            X = np.array(S)
            want = np.array([[ref(x, y) for y in S] for x in S])
            for got, w, what in ([(attempt(k, X), want, 'k(X)'), (attempt(u.evaluate_L_diagonal, k, X), np.diag(want), 'diagonal')]
                                 + [(attempt(k, X, np.array(T)), np.array([[ref(x, y) for y in T] for x in S]), 'k(X, Y)')
                                    for T in sets[::7] + [S]]
                                 + [(attempt(lambda: np.ravel(k(X[0]))), want[0, :1], 'k(x)'),
                                    (attempt(lambda: np.ravel(k(X[0], X))), want[0], 'k(x, Y)'),
                                    (attempt(lambda: np.ravel(k(X, X[0]))), want[:, 0], 'k(X, y)')]):
                tick(rec)
                if got[0] != 'ok' or np.shape(got[1]) != w.shape or not np.allclose(got[1], w, atol=1e-12):
                    return rec.bad('kernel', '%s: %s of %s is %s, expected %s' % (name, what, S, got, w.tolist()))
            if not np.array_equal(X, np.array(S)):
                return rec.bad('kernel', '%s modifies its argument' % name)
    for X in ([[-.1]], [[1.1]], [[.5], [2.]], [[.1, .2]]):
        for args in ((np.array(X),), (np.array([[.5]]), np.array(X))):
            tick(rec)
            if attempt(u.example_eval_L_min_kern, *args)[0] == 'ok':
                return rec.bad('kernel', 'min kernel accepts points %s outside [0, 1]' % (X,))

    class Diag:
        def __call__(self, X, Y=None):
            raise RuntimeError('diagonal available')

        def diag(self, X):
            return 2.0 + X[:, 0]
    X = np.arange(3.)[:, None]
    if not np.array_equal(np.ravel(attempt(u.evaluate_L_diagonal, Diag(), X)[1]), 2 + X[:, 0]):
        rec.bad('diagonal', 'the diag method of the likelihood function is not used')


def seeds(rec):
    from dppy import utils as u
    for s in list(range(5)) + [12345, 2 ** 32 - 1, np.int64(7), np.int32(3), np.uint8(200)]:
        tick(rec)
        a, b = u.check_random_state(s), u.check_random_state(s)
        if a is b or not np.array_equal(a.rand(5), np.random.RandomState(s).rand(5)) or not np.array_equal(
                b.randint(0, 1000, 5), np.random.RandomState(s).randint(0, 1000, 5)):
            return rec.bad('seed', 'seed %r does not give the stream of RandomState(%r)' % (s, s))
    r = np.random.RandomState(1)
    if u.check_random_state(r) is not r or u.check_random_state(None) is not np.random.mtrand._rand or \
            u.check_random_state(np.random) is not np.random.mtrand._rand:
        rec.bad('seed', 'generators are not handed through')
    for bad in ('abc', 1.5, [1], (1, 2), np.random.default_rng(1), object()):
        tick(rec)
        got = attempt(u.check_random_state, bad)
        if got[0] == 'ok' or got[1] != 'ValueError':
            rec.bad('seed', '%r accepted as a seed' % (bad,))


def cases():
    yield Case('symmetric', symmetric_matrices, 20 if THOROUGH else 10, cost=5)
    yield Case('symmetric3', symmetric3, cost=5)
    for f in (larger, rectangles, ranges, minors, products, filters, kernels, seeds):
        yield Case(f.__name__, f, cost=3)
