"""Stand-in for cvxopt (not installed here): dense matrices and an exact linear-program solver for tiny programs.

The solver enumerates every basic solution, so it returns a vertex, as glpk's simplex does. The right-hand side may be an affine
function of one lazy uniform: the optimal basis is then piecewise constant and the explorer branches on the breakpoints."""
import contextlib
import itertools
import sys
import types

import numpy as np

from mc.engine import LazyU, Unsupported

CALLS = []


class matrix:
    lazy_operand = True
    __array_ufunc__ = None      # numpy operands defer to the reflected operators below
    __array_priority__ = 2000

    def __init__(self, x=0.0, size=None, tc=None):
        if isinstance(x, matrix):
            a = x.a.copy()
        elif isinstance(x, (int, float, np.number, LazyU)):
            a = np.full(size or (1, 1), x)
        else:
            a = np.asarray(x) if not isinstance(x, range) else np.array(list(x))
            if a.dtype != object:
                a = a.astype(float) if a.dtype.kind == 'f' or tc == 'd' else a.copy()
            a = a.reshape(-1, 1) if a.ndim < 2 else a.T if isinstance(x, (list, tuple)) else a     # lists of lists are columns
            if size is not None:
                a = a.reshape(-1, order='F').reshape(size, order='F')
        self.a = a

    @property
    def size(self):
        return self.a.shape

    @property
    def T(self):
        return matrix(self.a.T.copy())

    def __array__(self, dtype=None):
        return self.a.copy() if dtype is None else self.a.astype(dtype)

    def __len__(self):
        return self.a.size

    def __iter__(self):
        return iter(self.a.reshape(-1, order='F'))

    def _flat(self, i):
        return np.unravel_index(np.arange(self.a.size)[i], self.a.shape, order='F')

    def __getitem__(self, i):
        v = self.a[i] if isinstance(i, tuple) else self.a[self._flat(i)]
        if not isinstance(v, np.ndarray):
            return v
        if isinstance(i, tuple):
            rows, cols = [k if not isinstance(k, (int, np.integer)) else slice(k, k + 1 or None) for k in i]
            v = self.a[rows, :][:, cols]
        return type(self)(v) if isinstance(self, matrix) and type(self) is matrix else matrix(v)

    def __setitem__(self, i, v):
        v = v.a if isinstance(v, matrix) else np.asarray(v) if not isinstance(v, LazyU) else v
        if isinstance(v, LazyU) or (isinstance(v, np.ndarray) and v.dtype == object):
            self.a = self.a.astype(object)
        elif self.a.dtype.kind == 'i' and np.asarray(v).dtype.kind == 'f':
            self.a = self.a.astype(float)
        if isinstance(i, tuple):
            if isinstance(v, np.ndarray) and v.ndim == 2:
                rows, cols = [k if not isinstance(k, (int, np.integer)) else slice(k, k + 1 or None) for k in i]
                self.a[rows, cols] = v
            else:
                self.a[i] = v if not isinstance(v, np.ndarray) or v.ndim else v.item()
        else:
            self.a[self._flat(i)] = np.ravel(v, order='F') if np.size(v) > 1 else np.ravel(v)[0] if isinstance(v, np.ndarray) else v

    @staticmethod
    def _v(o):
        return o.a if isinstance(o, matrix) else o

    def _ew(self, o, f):
        b = self._v(o)
        if isinstance(b, np.ndarray) and b.ndim == 1:
            b = b.reshape(-1, 1)
        shape = self.a.shape if self.a.size > 1 or not isinstance(b, np.ndarray) else b.shape
        out = np.empty(shape, dtype=object)
        aa = np.broadcast_to(self.a, shape)
        for i in np.ndindex(*shape):
            out[i] = f(aa[i], b if not isinstance(b, np.ndarray) else b[i] if b.size > 1 else b.ravel()[0])
        return _tidy(out)

    def __add__(self, o): return self._ew(o, lambda x, y: x + y)
    def __radd__(self, o): return self._ew(o, lambda x, y: x + y)
    def __sub__(self, o): return self._ew(o, lambda x, y: x - y)
    def __rsub__(self, o): return self._ew(o, lambda x, y: y - x)
    def __truediv__(self, o): return self._ew(o, lambda x, y: x / y)
    def __neg__(self): return self._ew(-1.0, lambda x, y: x * y)
    def __pos__(self): return matrix(self)

    def __mul__(self, o):
        if isinstance(o, (matrix, np.ndarray)) and np.size(self._v(o)) > 1 and self.a.size > 1:
            b = self._v(o)
            return _tidy(np.dot(self.a.astype(object), (b.reshape(-1, 1) if b.ndim == 1 else b).astype(object)))
        return self._ew(o, lambda x, y: x * y)

    def __rmul__(self, o):
        if isinstance(o, np.ndarray) and o.size > 1 and self.a.size > 1:
            return _tidy(np.dot(o.astype(object), self.a.astype(object)))
        return self._ew(o, lambda x, y: x * y)


def _tidy(out):
    if not any(isinstance(v, LazyU) for v in out.ravel()):
        out = out.astype(float)
    m = matrix(0.0)
    m.a = out
    return m


class spmatrix(matrix):
    def __init__(self, v, I, J, size=None, tc=None):
        I, J = list(I), list(J)
        a = np.zeros(size or (max(I) + 1, max(J) + 1))
        vals = list(v) if hasattr(v, '__iter__') else [v] * len(I)
        for x, i, j in zip(vals, I, J):
            a[i, j] += x
        self.a = a


def sparse(x, tc='d'):
    return matrix(x)


def affine(v):
    """(base, p, q) with v = p + q u."""
    if not isinstance(v, LazyU):
        return None, float(v), 0.0
    p, q = v.fwd(0.0), v.fwd(1.0) - v.fwd(0.0)
    if abs(v.fwd(0.37) - p - 0.37 * q) > 1e-9 * (1 + abs(p) + abs(q)):
        raise Unsupported('right-hand side not affine in the uniform')
    return v.base, p, q


_BASES = {}


def bases(A, lo, hi, free):
    """(basis, other indices, inverse, every choice of bounds for the others, its image), cached per constraint matrix."""
    key = (A.tobytes(), A.shape, lo.tobytes(), hi.tobytes())
    if key not in _BASES:
        if len(_BASES) > 200:
            _BASES.clear()
        n, out = A.shape[1], []
        for B in itertools.combinations(range(n), A.shape[0]):
            if not set(free) <= set(B) or abs(np.linalg.det(A[:, B])) < 1e-12:
                continue
            N = [j for j in range(n) if j not in B]
            E = np.array(list(itertools.product(*[[v for v in (lo[j], hi[j]) if np.isfinite(v)] for j in N])), dtype=float)
            E = E.reshape(len(E) if N else 1, len(N))
            out.append((B, N, np.linalg.inv(A[:, B]), E, E.dot(A[:, N].T)))
        _BASES[key] = out
    return _BASES[key]


def numeric(c, A, b, lo, hi, free):
    best = None
    for B, N, inv, E, AE in bases(A, lo, hi, free):
        Y = (b - AE).dot(inv.T)
        ok = ((Y >= lo[list(B)] - 1e-9) & (Y <= hi[list(B)] + 1e-9)).all(axis=1)
        cost = np.where(ok, Y.dot(c[list(B)]) + E.dot(c[N]), np.inf)
        if len(cost) and np.isfinite(cost.min()) and (best is None or cost.min() < best[0] - 1e-12):
            k = int(cost.argmin())
            y = np.zeros(A.shape[1])
            y[N], y[list(B)] = E[k], Y[k]
            best = float(cost.min()), y
    if best is None:
        return {'status': 'primal infeasible', 'x': None}
    return {'status': 'optimal', 'x': matrix(np.minimum(np.maximum(best[1], lo), hi))}


def lp(c, G, h, A=None, b=None, kktsolver=None, solver=None, primalstart=None, dualstart=None, options=None):
    CALLS.append(1)
    c = np.asarray(c, dtype=float).ravel()
    G, h = np.asarray(G, dtype=float), np.asarray(h, dtype=float).ravel()
    n = len(c)
    lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
    for row, t in zip(G, h):
        j = np.flatnonzero(row)
        if len(j) != 1:
            raise Unsupported('general inequality constraints')
        if row[j[0]] > 0:
            hi[j[0]] = min(hi[j[0]], t / row[j[0]])
        else:
            lo[j[0]] = max(lo[j[0]], t / row[j[0]])
    A = np.asarray(A, dtype=float)
    r = A.shape[0]
    base, P, Q = None, np.zeros(r), np.zeros(r)
    for i, v in enumerate(np.ravel(b.a if isinstance(b, matrix) else np.asarray(b, dtype=object))):
        bs, P[i], Q[i] = affine(v)
        if bs is not None:
            if base is not None and bs is not base:
                raise Unsupported('two random reals')
            base = bs
    u0, u1 = (base.lo, base.hi) if base is not None else (0.0, 0.0)
    free = [j for j in range(n) if np.isinf(lo[j]) and np.isinf(hi[j])]
    sols = []
    if base is None:
        return numeric(c, A, P, lo, hi, free)
    for B, N, inv, E, AE in bases(A, lo, hi, free):
        zB = inv.dot(Q)
        for ends, ae in zip(E, AE):
            y = np.zeros(n)
            y[N] = ends
            z = np.zeros(n)
            y[list(B)] = inv.dot(P - ae)
            z[list(B)] = zB
            a, e = u0, u1              # feasible values of u
            ok = True
            for j in B:
                for lim, sg in ((lo[j], 1.0), (hi[j], -1.0)):
                    if np.isinf(lim):
                        continue
                    s, t = sg * z[j], sg * (lim - y[j])         # s u >= t
                    if abs(s) < 1e-13:
                        ok &= t <= 1e-9
                    elif s > 0:
                        a = max(a, t / s)
                    else:
                        e = min(e, t / s)
            if ok and a <= e + 1e-12:
                sols.append((a, e, y, z))
    if not sols:
        return {'status': 'primal infeasible', 'x': None}
    cuts = sorted({u0, u1} | {min(max(v, u0), u1) for s in sols for v in s[:2]})
    pieces = []
    for a, e in zip(cuts, cuts[1:]):
        if e - a < 1e-12:
            continue
        m = (a + e) / 2
        best = min((float(c.dot(y + m * z)), k) for k, (s, t, y, z) in enumerate(sols) if s <= m <= t)[1]
        if pieces and pieces[-1][2] == best:
            pieces[-1][1] = e
        else:
            pieces.append([a, e, best])
    u = LazyU(base)
    for a, e, k in pieces:
        if (a, e, k) == tuple(pieces[-1]) or u < e:
            break
    y, z = sols[k][2:]
    out = np.empty((n, 1), dtype=object)
    for j in range(n):
        out[j, 0] = u * float(z[j]) + float(y[j]) if abs(z[j]) > 1e-13 else float(y[j])
    m = matrix(0.0)
    m.a = out
    return {'status': 'optimal', 'x': m}


@contextlib.contextmanager
def installed():
    mod, solv = types.ModuleType('cvxopt'), types.ModuleType('cvxopt.solvers')
    solv.options, solv.lp, solv.conelp = {}, lp, None
    mod.matrix, mod.spmatrix, mod.sparse, mod.solvers = matrix, spmatrix, sparse, solv
    old = {k: sys.modules.get(k) for k in ('cvxopt', 'cvxopt.solvers')}
    sys.modules['cvxopt'], sys.modules['cvxopt.solvers'] = mod, solv
    try:
        yield mod
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
