"""C21: conditional polynomials of the Gibbs sampler equal the trace of the potential."""
import inspect
import itertools

import numpy as np

from mc.core import Case, THOROUGH, attempt, quiet

RULE = ('conditional polynomials: for every size, position and monomial, compared with the trace of the power of the Jacobi matrix '
        'on every point of a lattice that is unisolvent for the (weighted) degree, hence everywhere; Gibbs sweeps: every sequence '
        'of values returned by the conditional samplers over an alphabet is explored on the real sampler and every polynomial, '
        'shape, starting point and number of steps handed to a conditional sampler, and every eigenvalue returned, is compared '
        'with an independent mirror of the chain')
BOUNDS = 'sizes <= 5 (6), degree <= 6, all positions; sweeps: N <= 4, <= 2 passes, alphabet of 2-3 values'
ASSUMPTIONS = ['conditional samplers are checked by C22']


def trace_pow(a, b, m):
    """Trace of the m-th power of the Jacobi matrix, off-diagonal entries (1, b): same characteristic polynomial."""
    J = np.diag(a) + np.diag(np.ones(len(b)), 1) + np.diag(b, -1)
    return np.trace(np.linalg.matrix_power(J, m))


def lattice(weights, deg):
    def go(k, left):
        if k == len(weights):
            yield ()
            return
        for v in range(left // weights[k] + 1):
            for r in go(k + 1, left - v * weights[k]):
                yield (v,) + r
    return go(0, deg)


def poly_identity(rec, kind, N, i, m):
    from dppy import beta_ensemble_polynomial_potential_core as bc
    f = bc.polynomial_in_negative_log_conditional_a_coef if kind == 'a' else bc.polynomial_in_negative_log_conditional_b_coef
    V = np.poly1d([1.0] + [0.0] * m)
    # values are shifted so that boundary zeros are not special lattice points
    na, nb = N, N - 1
    idx = [('a', k) for k in range(1, na + 1)] + [('b', k) for k in range(1, nb + 1)]
    free = [t for t in idx if t != (kind, i) and abs(t[1] - i) <= 3]
    w = [1 if t[0] == 'a' else 2 for t in free]
    deg = m - (1 if kind == 'a' else 2)
    xs = np.array([0.0, 1.0, -1.0, 2.0, -2.0, 3.0, -3.0]) if kind == 'a' else np.array([0.0, 1.0, 2.0, 3.0])
    n = 0
    for pt in lattice(w, max(deg, 0)):
        a, b = np.zeros((2, N + 3))
        for t, v in zip(free, pt):
            (a if t[0] == 'a' else b)[t[1]] = v if t[0] == 'b' else (v if v % 2 else -v)
        (a if kind == 'a' else b)[i] = 7.25     # the current value must not matter
        P = f(i, a, b, V)
        want = []
        for x in xs:
            (a if kind == 'a' else b)[i] = x
            want.append(trace_pow(a[1:N + 1], b[1:N], m))
        got = P(xs)
        n += 1
        d = (got - got[0]) - (np.array(want) - want[0])
        if np.abs(d).max() > 1e-6 * max(1, np.abs(want).max()):
            rec.bad('polynomial', 'N=%d %s_%d, V=x^%d, a=%s b=%s: polynomial\n%s differs from the trace at %s: %s instead of %s' % (
                N, kind, i, m, a[1:N + 1], b[1:N], P, xs, got - got[0], np.array(want) - want[0]))
            break
    rec.stats['states'] += n
    rec.stats['transitions'] += n
    rec.evals += n * len(xs)


def mixed(rec, N):
    """Linearity in the potential: a full potential of degree 6 at generic points, every position."""
    from dppy import beta_ensemble_polynomial_potential_core as bc
    for V in (np.poly1d([0.5, 1.25, -0.75, 2.0, 0.3, -1.1, 0.0]), np.poly1d([2.0, 0, -3.0, 0, 0]), np.poly1d([0.7, 0.2, 1.1, 0.0]),
              np.poly1d([1 / 3., 0, 0, 0, 1.0, 0.5, 0.25])):
        for seed in range(3):
            r = np.random.RandomState(seed)
            a, b = np.zeros((2, N + 3))
            a[1:N + 1] = r.randn(N)
            b[1:N] = r.rand(N - 1)
            for kind, last in (('a', N), ('b', N - 1)):
                f = getattr(bc, 'polynomial_in_negative_log_conditional_%s_coef' % kind)
                for i in range(1, last + 1):
                    P = f(i, a, b, V)
                    c = (a if kind == 'a' else b).copy()
                    d = []
                    for x in (0.0, 0.5, 1.0, 1.7):
                        c[i] = x
                        aa, bb = (c, b) if kind == 'a' else (a, c)
                        d.append(P(x) - sum(V[k] * trace_pow(aa[1:N + 1], bb[1:N], k) for k in range(1, V.order + 1)))
                    rec.evals += 1
                    if np.ptp(d) > 1e-8:
                        rec.bad('polynomial', 'N=%d %s_%d, V=%s: P - Tr V is not constant: %s' % (N, kind, i, V.coeffs, d))
                        return


class Mirror:
    """Independent Gibbs chain: checks every request for a conditional draw and answers with scripted values."""

    def __init__(self, V, beta, N, nb_steps, script, exact):
        self.V, self.beta, self.N, self.nb_steps, self.exact = V, beta, N, nb_steps, exact
        self.a, self.b = np.zeros(N), np.zeros(N - 1)
        self.order = [c for i in range(N) for c in ((('a', i), ('b', i)) if i < N - 1 else (('a', i),))]
        self.script, self.pos, self.err, self.chain = list(script), 0, '', []

    def expected(self, P, what):
        kind, i = self.order[self.pos % len(self.order)]
        scale = 0.5 * self.beta * self.N
        d = []
        for x in (0.0, 0.4, 1.0, 1.9, 2.6):
            a, b = self.a.copy(), self.b.copy()
            (a if kind == 'a' else b)[i] = x
            tr = sum(self.V[k] * trace_pow(a, b, k) for k in range(1, self.V.order + 1))
            d.append(P(x) - scale * tr)
        if np.ptp(d) > 1e-7 * max(1.0, scale):
            self.err = self.err or 'draw %d (%s_%d): potential of the conditional is not that of the trace: %s (%s)' % (
                self.pos, kind, i + 1, P.coeffs, what)
        return kind, i

    def answer(self, kind, i):
        v = self.script[self.pos]
        if kind == 'b':
            v = abs(v) + 0.3
        (self.a if kind == 'a' else self.b)[i] = v
        self.pos += 1
        if self.pos % len(self.order) == 0:
            J = np.diag(self.a) + np.diag(np.sqrt(self.b), 1) + np.diag(np.sqrt(self.b), -1)
            self.chain.append(np.linalg.eigvalsh(J))
        return v

    def exact_cond(self, P, shape=None, random_state=None):
        if self.pos >= len(self.script):
            self.err = self.err or 'more draws than coefficients'
            raise StopIteration
        kind, i = self.expected(P, 'exact sampler')
        if kind == 'a' and (shape is not None or not self.exact):
            self.err = self.err or 'draw %d: diagonal coefficient drawn with shape %s / exact=%s' % (self.pos, shape, self.exact)
        if kind == 'b' and (shape is None or abs(shape - 0.5 * self.beta * (self.N - 1 - i)) > 1e-12):
            self.err = self.err or 'draw %d: b_%d drawn with shape %s' % (self.pos, i + 1, shape)
        return self.answer(kind, i), 0

    def mala(self, x, V, sigma=0.01, nb_steps=20, random_state=None):
        if self.pos >= len(self.script):
            self.err = self.err or 'more draws than coefficients'
            raise StopIteration
        kind, i = self.expected(V, 'MALA')
        if kind != 'a' or self.exact:
            self.err = self.err or 'draw %d: MALA used for %s (exact=%s)' % (self.pos, kind, self.exact)
        elif abs(x - self.a[i]) > 1e-12:
            self.err = self.err or 'draw %d: MALA for a_%d starts at %s instead of the current value %s' % (self.pos, i + 1, x, self.a[i])
        if nb_steps != self.nb_steps:
            self.err = self.err or 'MALA runs %s steps instead of %s' % (nb_steps, self.nb_steps)
        return self.answer(kind, i)


def sweeps(rec, V, beta, N, passes, exact, alphabet, out):
    from dppy import beta_ensemble_polynomial_potential as bp
    names = ('sampler_exact_convex_quartic', 'sampler_mala')
    if not all(hasattr(bp, n) for n in names):
        rec.undecided.append('conditional samplers are not names of the sampler module any more')
        return
    saved = {n: getattr(bp, n) for n in names}
    n = 0
    try:
        for script in itertools.product(alphabet, repeat=passes * (2 * N - 1)):
            M = Mirror(np.poly1d(V), beta, N, 7, script, exact)

            def bound(f, orig):
                sig = inspect.signature(orig)

                def g(*a, **k):
                    return f(**sig.bind(*a, **k).arguments)
                return g
            for nm, f in zip(names, (M.exact_cond, M.mala)):
                setattr(bp, nm, bound(f, saved[nm]))
            kw = {} if out is None else {out: True}
            with quiet():
                r = attempt(lambda: bp.BetaEnsemblePolynomialPotential(beta, np.poly1d(V)).sample_mcmc(
                    N=N, nb_gibbs_passes=passes, sample_exact_cond=exact, nb_mala_steps=7, random_state=0, **kw))
            n += 1
            if M.pos == 0 and r[0] == 'ok':
                rec.undecided.append('conditional samplers not observed')
                return
            ch = np.array(M.chain)
            want = None if len(ch) < passes else ch[-1] if out is None else ch.T if 'eig' in out else ch.max(1)
            if M.err or r[0] != 'ok' or M.pos != len(script) or np.shape(r[1]) != np.shape(want) \
                    or not np.allclose(r[1], want, atol=1e-9):
                rec.bad('sweep', 'V=%s beta=%g N=%d %s, draws %s: %s' % (
                    V, beta, N, out, script, M.err or '%d draws, returned %s instead of %s' % (M.pos, r[1:], want)),
                    script=[float(x) for x in script])
                return
    finally:
        for nm, f in saved.items():
            setattr(bp, nm, f)
    rec.stats['states'] += n * passes * (2 * N - 1)
    rec.stats['transitions'] += n * passes * (2 * N - 1)
    rec.stats['executions'] += n
    rec.sample({'case': rec.cid, 'scripts': n})


def cases():
    t = THOROUGH
    for N in range(1, (7 if t else 6)):
        for m in range(1, 7):
            for i in range(1, N + 1):
                yield Case('a/%d/%d/x^%d' % (N, i, m), poly_identity, 'a', N, i, m, cost=2.0 ** (N + m))
            for i in range(1, N):
                if m > 1:
                    yield Case('b/%d/%d/x^%d' % (N, i, m), poly_identity, 'b', N, i, m, cost=2.0 ** (N + m))
        yield Case('mixed/%d' % N, mixed, N)
    Vs = {'quad': ([0.5, 0.3, 0.0], True), 'quartic': ([0.25, 0.0, 0.5, -0.4, 0.0], True), 'cubic': ([0.3, 0.2, 0.5, 0.1, 0.0], False),
          'sextic': ([0.1, 0.0, 0.2, 0.3, 0.4, 0.5, 0.0], False), 'x6': ([1 / 6., 0, 0, 0, 0, 0, 0], False)}
    for vn, (V, can) in Vs.items():
        for exact in ((True, False) if can else (False,)):
            for beta in (1.0, 2.0, 4.5):
                for N, passes, alpha in ((1, 2, (-0.7, 0.4, 1.1)), (2, 2, (-0.7, 0.4)), (3, 1, (-0.7, 0.4, 1.1) if t else (-0.7, 0.4)),
                                         (4, 1, (-0.7, 0.4))) + (((3, 2, (-0.7, 0.4)),) if t else ()):
                    for out in (None, 'return_chain_of_eig_vals', 'return_chain_of_lambda_max'):
                        if N == 4 and out:
                            continue
                        yield Case('sweep/%s/%s/%g/%d/%d/%s' % (vn, exact, beta, N, passes, out), sweeps, V, beta, N, passes, exact,
                                   alpha, out, cost=2.0 ** (2 * N * passes))
