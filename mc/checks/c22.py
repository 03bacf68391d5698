"""C22: conditional samplers of the polynomial-potential model target the right density."""
import itertools

import numpy as np
from scipy import integrate

from mc.core import Case, THOROUGH, attempt, quiet

RULE = ('one round of each rejection sampler is explored as a function of its scripted draws: roles of the draws (branch, value, '
        'acceptance) are identified from behaviour, every branch is located by bisection with its exact probability, the value '
        'draw runs over a grid inside each branch, acceptance thresholds are located by bisection; density of the accepted value '
        '(branch probability x acceptance / |dX/du|) over the target must be one constant on all branches, bounded acceptance, and '
        'the accepted mass must equal constant x integral of the target (coverage). Rejected rounds must start afresh. MALA: '
        'detailed balance from the acceptance thresholds at every pair of a grid, number of steps, composition of steps')
BOUNDS = 'about 40 (potential, shape) pairs over all shape regimes, 40 (200) values per branch; MALA: 5 potentials, 9x9 pairs, 3 sigmas'
ASSUMPTIONS = ['draws of RandomState have their documented laws']


class Out(Exception):
    """The sampler asked for one more draw than scripted: the round was rejected."""


class Script(np.random.RandomState):
    """Serves scripted draws; records which kind of draw was asked for."""

    def __init__(self, vals):
        super().__init__(0)
        self.vals, self.pos, self.kinds, self.params = list(vals), 0, [], []

    def one(self, kind, *params):
        if self.pos >= len(self.vals):
            raise Out()
        self.kinds.append(kind)
        self.params.append(params)
        self.pos += 1
        return self.vals[self.pos - 1]

    def fill(self, size, kind, *params):
        if size is None or size == ():
            return self.one(kind, *params)
        size = (size,) if np.ndim(size) == 0 else tuple(size)
        out = np.empty(size)
        for i in np.ndindex(*size):
            out[i] = self.one(kind, *params)
        return out

    def rand(self, *shape): return self.fill(shape, 'u')
    def random_sample(self, size=None): return self.fill(size, 'u')
    def random(self, size=None): return self.fill(size, 'u')
    def uniform(self, low=0.0, high=1.0, size=None): return low + (high - low) * self.fill(size, 'u')
    def randn(self, *shape): return self.fill(shape, 'n')
    def standard_normal(self, size=None): return self.fill(size, 'n')
    def normal(self, loc=0.0, scale=1.0, size=None): return loc + scale * self.fill(size, 'n')
    def gamma(self, shape, scale=1.0, size=None): return scale * self.fill(size, 'g', float(shape))
    def standard_gamma(self, shape, size=None): return self.fill(size, 'g', float(shape))
    def exponential(self, scale=1.0, size=None): return scale * self.fill(size, 'g', 1.0)


def scalar(x):
    x = np.asarray(x, dtype=float)
    if x.size != 1:
        raise ValueError('sampler returned %s' % (x,))
    return float(x.ravel()[0])


def draw(call, vals):
    """X when the round with these draws is accepted, None when rejected."""
    r = Script(vals)
    try:
        with quiet():
            out = scalar(call(r))
    except Out:
        return None, r
    if r.pos != len(vals):
        return 'short', r
    return out, r


SPREAD = np.concatenate([np.geomspace(1e-6, 1e-2, 12), np.linspace(0.013, 0.987, 23)])
GAUSS = {'u': lambda x, *p: ((x >= 0) & (x < 1)) * 1.0, 'n': lambda x, *p: np.exp(-x * x / 2) / np.sqrt(2 * np.pi)}


def gamma_pdf(x, k):
    from scipy.stats import gamma
    return gamma.pdf(x, k)


def round_of(call, kinds_hint=8):
    """Kinds of the draws of one round, found with draws that a rejection sampler refuses or accepts."""
    for u in (0.5, 1e-9, 1 - 1e-9):
        r = Script([u] * kinds_hint)
        try:
            with quiet():
                call(r)
            return list(r.kinds)
        except Out:
            continue
    return None


def bisect(f, lo, hi, it=60):
    """Largest x with f(x) true, f true at lo and false at hi (f monotone)."""
    for _ in range(it):
        mid = 0.5 * (lo + hi)
        if f(mid):
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


def check_round(rec, what, call, log_target, support, grid):
    """All outcomes of one round."""
    # number and kinds of draws per round: the smallest number of scripted draws with a result
    base = None
    for n in range(1, 7):
        for vals in itertools.product((0.3, 0.61, 1e-6), repeat=n):
            x, r = draw(call, vals)
            if x is not None and x != 'short':
                base = (n, vals, list(r.kinds), list(r.params))
                break
        if base:
            break
    if base is None:
        rec.undecided.append('no accepted round found')
        return
    n, vals, kinds, params = base
    rec.evals += 1
    # roles: acceptance (X does not depend on it), branch (locally constant), value
    vary = []
    for j in range(n):
        seen, rej = set(), 0
        for v in SPREAD:
            w = list(vals)
            w[j] = v
            x, _ = draw(call, w)
            if x is None:
                rej += 1
            else:
                seen.add(round(x, 9))
        vary.append((len(seen), rej))
    value = [j for j in range(n) if vary[j][0] > 10]
    if not value:       # values rejected often: retry with other values of the other draws
        for j in range(n):
            best = 0
            for o in itertools.product((0.05, 0.3, 0.61, 0.93, 1e-6, 1e-250), repeat=n - 1):
                seen = set()
                for v in SPREAD:
                    x, _ = draw(call, list(o[:j]) + [v] + list(o[j:]))
                    if x is not None:
                        seen.add(round(x, 9))
                best = max(best, len(seen))
            if best > 10:
                value.append(j)
    if len(value) != 1:
        rec.undecided.append('cannot identify the value draw (%s)' % (vary,))
        return
    value = value[0]
    others = [j for j in range(n) if j != value]
    tiny = 1e-250                    # an acceptance draw this small always accepts a possible value
    roles = None
    for acc in others:
        rest = [j for j in others if j != acc]
        ok = True
        for v in (0.21, 0.77):
            for q in itertools.product((0.11, 0.52, 0.93), repeat=len(rest)):
                w = dict(zip(rest, q))
                w[value] = v
                xs = set()
                for u in (tiny, 1e-6, 0.2, 0.5, 0.8, 0.95, 0.99, 1 - 1e-4, 1 - 1e-9):
                    w[acc] = u
                    x, _ = draw(call, [w[j] for j in range(n)])
                    if x is not None:
                        xs.add(round(x, 9))
                ok = ok and len(xs) <= 1
        if ok:
            for q in (tiny,):
                roles = (acc, rest)
            cand = draw(call, [vals[j] if j != acc else 1 - 1e-12 for j in range(n)])[0]
            if cand is None or not rest:
                break
    if not others:
        roles = (None, [])
    if roles is None or len(roles[1]) > 1 or any(kinds[j] != 'u' for j in others):
        rec.undecided.append('cannot identify roles %s %s' % (roles, kinds))
        return
    acc, rest = roles

    def X(v, b, u=tiny):
        w = [0.0] * n
        w[value] = v
        if rest:
            w[rest[0]] = b
        if acc is not None:
            w[acc] = u
        return draw(call, w)[0]
    kv, pv = kinds[value], params[value]
    pdf = GAUSS.get(kv) or gamma_pdf
    if kv == 'u':
        vs = (np.arange(grid) + 0.5) / grid
    elif kv == 'n':
        vs = (np.arange(4 * grid) + 0.5) * 12.0 / (4 * grid) - 6.0
    else:
        vs = np.exp(np.linspace(np.log(1e-9 if pv[0] < 1 else 1e-4), np.log(12.0), 3 * grid)) * max(pv[0], 0.2)
    # branches of the branch draw
    pieces = [(0.0, 1.0)]
    if rest:
        v0 = [0.37, 0.81]

        def sig(b):
            return tuple(None if x is None else round(x, 9) for x in (X(v, b) for v in v0))
        cuts, bs = [0.0], np.concatenate([[1e-12], (np.arange(200) + 0.5) / 200, [1 - 1e-12]])
        sigs = [sig(b) for b in bs]
        for i in range(len(bs) - 1):
            lo = bs[i]
            while sigs[i + 1] != sig(lo):
                s0 = sig(lo)
                c = bisect(lambda b: sig(b) == s0, lo, bs[i + 1], 50)
                cuts.append(c)
                lo = c + 1e-13
                if len(cuts) > 60:
                    rec.undecided.append('too many branches')
                    return
        cuts.append(1.0)
        pieces = list(zip(cuts[:-1], cuts[1:]))
    consts, mass, cells = [], 0.0, 0
    Z = integrate.quad(lambda x: np.exp(log_target(x)), *support, limit=500)[0]
    bestc = None
    for lo, hi in pieces:
        p, b = hi - lo, 0.5 * (lo + hi)
        if p <= 1e-10:
            continue
        accs = []
        for v in vs:
            x = X(v, b)
            cells += 1
            if x is None:
                accs.append(0.0)
                # impossible value: the target must vanish there; the value is unknown when it is never accepted
                continue
            if not support[0] <= x:
                rec.bad('law', '%s: accepted value %s outside the support (draw %s, branch [%g, %g])' % (what, x, v, lo, hi))
                return
            w = 1.0 if acc is None or X(v, b, 1 - 1e-15) is not None else bisect(lambda u: X(v, b, u) is not None, tiny, 1.0, 22)
            accs.append(w)
            h = 1e-5 if kv == 'u' else 1e-5 * max(abs(v), 1e-2)
            x1, x0 = X(v + h, b), X(v - h, b)
            if x1 is None or x0 is None:
                continue
            if rest and (x1 - x0 == 0):
                rec.undecided.append('flat value draw')
                return
            dens = p * float(pdf(v, *pv)) * w * 2 * h / abs(x1 - x0)
            t = np.exp(log_target(x)) / Z
            if w > 2e-3:
                consts.append((dens / t, x, (lo, hi), w))
        accs = np.array(accs)
        if kv == 'u':
            mass += p * accs.mean()
        else:
            mass += p * (np.trapz(accs * pdf(vs, *pv), vs) if kv == 'g' else (accs * pdf(vs)).mean() * 12.0)
    rec.stats['states'] += cells
    rec.stats['transitions'] += cells * 22
    rec.stats['executions'] += cells * 25
    if len(consts) < 5:
        rec.undecided.append('too few comparable values')
        return
    c = np.array([k[0] for k in consts])
    med = np.median(c)
    bad = np.argmax(np.abs(c - med))
    if abs(c[bad] - med) > 2e-3 * med:
        rec.bad('law', '%s: density of the accepted value over the target is %.6g at x=%.6g (branch %s, acceptance %.6g) but %.6g '
                'elsewhere' % (what, c[bad], consts[bad][1], consts[bad][2], consts[bad][3], med))
        return
    tol = {'u': 8.0 / grid ** 1.3, 'n': 0.02, 'g': 0.04}[kv]
    if abs(mass - med) > tol * max(med, 0.1):
        rec.bad('law', '%s: accepted mass %.6g but constant %.6g: the branches do not cover the support once' % (what, mass, med))
        return
    # a rejected round is followed by a fresh one
    rejected = None
    for b in np.linspace(0.05, 0.95, 19):
        for v in vs[::max(1, len(vs) // 12)]:
            if acc is not None and X(v, b, 1 - 1e-12) is None:
                rejected = [0.0] * n
                rejected[value], rejected[acc] = v, 1 - 1e-12
                if rest:
                    rejected[rest[0]] = b
                break
        if rejected:
            break
    if rejected:
        for reps in (1, 3, 60):
            for v in (vals[value], 0.5):
                good = [0.0] * n
                good[value] = v
                if acc is not None:
                    good[acc] = 1e-6
                if rest:
                    good[rest[0]] = 0.47
                x1, _ = draw(call, good)
                x2, _ = draw(call, rejected * reps + good)
                rec.evals += 1
                if x1 is not None and x1 != x2:
                    rec.bad('fresh', '%s: after %d rejected rounds the same draws give %s instead of %s' % (what, reps, x2, x1))
                    return
        r = Script(rejected * 20000)
        try:
            with quiet():
                x = scalar(call(r))
            give_up = (1 - med) ** (r.pos // n)
            if give_up > 1e-9:
                rec.bad('unaccepted', '%s: value %s returned after %d rejected rounds, which happens with probability %.3g' % (
                    what, x, r.pos // n, give_up))
        except Out:
            pass
    rec.sample({'case': what, 'branches': len(pieces), 'constant': float(med), 'mass': float(mass), 'cells': cells})


def quartic(rec, P, grid):
    from dppy import beta_ensemble_polynomial_potential_core as bc
    P = np.poly1d(P)
    xs = np.linspace(-60, 60, 240001)
    ok = P(xs) - P(xs).min() < 45
    s = xs[ok]
    m = P(xs).min()
    check_round(rec, 'quartic %s' % P.coeffs, lambda r: bc.sampler_exact_convex_quartic(np.poly1d(P), random_state=r)[0],
                lambda x: -(P(x) - m), (s[0] - 20, s[-1] + 20), grid)


def gamma_like(rec, P, shape, grid):
    from dppy import beta_ensemble_polynomial_potential_core as bc
    P = np.poly1d(P)
    xs = np.exp(np.linspace(-20, 6, 20001))
    lt = (shape - 1) * np.log(xs) - P(xs)
    m = lt.max() if shape >= 1 else 0.0
    top = xs[np.nonzero(lt > lt.max() - 60)[0][-1]] * 2
    check_round(rec, 'shape %g, potential %s' % (shape, P.coeffs),
                lambda r: bc.sampler_exact_convex_quartic(np.poly1d(P), shape=shape, random_state=r)[0],
                lambda x: (shape - 1) * np.log(x) - P(x) - m if x > 0 else -np.inf, (0.0, top), grid)


def cubic(rec, P, shape, grid):
    gamma_like(rec, P, shape, grid)


def mala(rec, V, sigma):
    from dppy import beta_ensemble_polynomial_potential_core as bc
    V = np.poly1d(V)

    def step(x, z, u, n=1, more=()):
        r = Script([z, u] + list(more))
        with quiet():
            y = scalar(bc.sampler_mala(x, np.poly1d(V), sigma=sigma, nb_steps=n, random_state=r))
        return y, r
    y, r = step(0.3, 0.2, 1e-9)
    if r.kinds != ['n', 'u'] and r.kinds != ['u', 'n']:
        rec.undecided.append('unknown draws %s' % r.kinds)
        return
    swap = r.kinds == ['u', 'n']

    def st(x, z, u):
        return step(x, u, z)[0] if swap else step(x, z, u)[0]
    xs = np.array([-1.3, -0.6, -0.1, 0.0, 0.25, 0.5, 0.9, 1.4, 2.0])
    law = {}
    for x in xs:            # proposal: affine in the normal draw
        p = [st(x, z, 0.0) for z in (-1.0, 0.0, 0.5, 2.0)]
        sl = p[3] - p[1]
        if abs(p[0] - (p[1] - sl / 2)) > 1e-9 or abs(p[2] - (p[1] + sl / 4)) > 1e-9 or sl == 0:
            rec.undecided.append('proposal is not Gaussian')
            return
        law[x] = (p[1], abs(sl / 2), np.sign(sl))

    def log_q(x, y):
        m, s, _ = law[x]
        return -((y - m) / s) ** 2 / 2 - np.log(s)

    def alpha(x, y):
        m, s, sg = law[x]
        z = sg * (y - m) / s

        def ok(lu):
            got = st(x, z, np.exp(lu))
            return abs(got - y) < 1e-7 * max(1, abs(y)) if x != y else True
        if ok(-1e-13):
            return 0.0
        if not ok(-690.0):
            return None
        return bisect(ok, -690.0, 0.0, 70)
    for x, y in itertools.combinations(xs, 2):
        a, b = alpha(x, y), alpha(y, x)
        rec.evals += 1
        if a is None or b is None:
            continue
        lhs, rhs = -V(x) + log_q(x, y) + a, -V(y) + log_q(y, x) + b
        if abs(lhs - rhs) > 1e-6 * max(1.0, abs(lhs)):
            rec.bad('balance', 'MALA V=%s sigma=%g: pi(x)q(x,y)a(x,y) / pi(y)q(y,x)a(y,x) = exp(%.6g) for x=%g, y=%g (log acceptances %g, %g)' % (
                V.coeffs, sigma, lhs - rhs, x, y, a, b))
            return
    # several steps are compositions of single steps, and their number is the announced one
    for n in (1, 2, 3):
        for zs in itertools.product((-1.2, 0.4), repeat=n):
            for us in itertools.product((1e-9, 1 - 1e-12), repeat=n):
                x = 0.4
                vals = []
                for z, u in zip(zs, us):
                    x = st(x, z, u)
                    vals += [u, z] if swap else [z, u]
                r = Script(vals + [0.1, 0.1])
                with quiet():
                    got = scalar(bc.sampler_mala(0.4, np.poly1d(V), sigma=sigma, nb_steps=n, random_state=r))
                rec.evals += 1
                if r.pos != 2 * n or got != x:
                    rec.bad('steps', 'MALA nb_steps=%d used %d draws and returned %s instead of %s' % (n, r.pos, got, x))
                    return
    rec.stats['states'] += len(xs) ** 2
    rec.stats['transitions'] += 140 * len(xs) ** 2
    rec.stats['executions'] += 140 * len(xs) ** 2


def pure_gamma(rec, P, shape):
    """Quadratic potentials: the law is a gamma law drawn in one go."""
    from dppy import beta_ensemble_polynomial_potential_core as bc
    for v in (0.2, 1.0, 3.7):
        r = Script([v])
        x = attempt(lambda: scalar(bc.sampler_exact_convex_quartic(np.poly1d(P), shape=shape, random_state=r)[0]))
        rec.evals += 1
        if x[0] != 'ok' or r.kinds != ['g']:
            rec.undecided.append('not a single gamma draw: %s %s' % (x, r.kinds))
            return
        if abs(x[1] - v / P[-2]) > 1e-12 or abs(r.params[0][0] - shape) > 1e-12:
            rec.bad('law', 'potential %s shape %g: gamma draw of shape %s scaled to %s' % (P, shape, r.params[0], x[1] / v))
            return


def cases():
    grid = 200 if THOROUGH else 40
    for P in ([1, 0, 0, 0, 0], [0.25, 0, 0.5, 0, 0], [1.0, 0, 3.0, -2.0, 0], [1.0, 0, 0.0, 5.0, 0], [10.0, 0, 0.1, 0.3, 0],
              [0.001, 0, 0.5, 0, 0], [0.5, 0, 0], [2.0, -3.0, 0.0], [0.01, 0.0, 0.02, 1.0, 0.0], [0.25, 0, 40.0, 7.0, 0],
              [100.0, 0, 200.0, -600.0, 0]):
        yield Case('quartic/%s' % P, quartic, P, grid, cost=10)
    for c2, c1 in ((0.5, 0.3), (1.0, 4.0), (3.0, 0.01), (0.05, 1.5), (20.0, 30.0), (0.5, 0.0), (1.0, -1.0)):
        for shape in (0.5, 0.9, 1.0, 1.0001, 1.5, 2.0, 3.5, 10.0, 60.0):
            yield Case('gamma/%g/%g/%g' % (c2, c1, shape), gamma_like, [c2, c1, 0.0], shape, grid, cost=10)
    for c3, c2, c1 in ((0.5, 0.4, 0.3), (2.0, 0.0, 0.05), (1.0, 0.2, -1.5), (0.1, 3.0, 4.0), (6.0, 0.7, 0.0)):
        for shape in (0.25, 0.5, 0.9, 1.0, 1.5, 4.0, 30.0):
            yield Case('cubic/%g/%g/%g/%g' % (c3, c2, c1, shape), cubic, [c3, c2, c1, 0.0], shape, grid, cost=10)
    for c1 in (0.4, 3.0):
        for shape in (0.5, 1.0, 4.0):
            yield Case('linear/%g/%g' % (c1, shape), pure_gamma, [c1, 0.0], shape)
    for V in ([0.25, 0, 0.5, 0.3, 0], [0.5, 0, 0], [1.0, 0.2, -0.4, 0.1, 0.3, 0.2, 0], [3.0, 1.0, 0], [0.1, 0.5, 0, 1.0, 0]):
        for sigma in (0.01, 0.5, 1.1):
            yield Case('mala/%s/%g' % (V, sigma), mala, V, sigma, cost=5)
