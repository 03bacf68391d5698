"""C16: uniform permutations and the Poissonized Plancherel process have exact laws."""
import itertools
from math import exp, factorial

import numpy as np

from mc.checks.c15 import hook
from mc.core import Case, SEED, THOROUGH

RULE = ('all random outcomes of the real permutation generator and of the real Plancherel sampler are enumerated; the '
        'exact law of the permutation, of the recorded diagram and of the recorded point configuration is compared with '
        '1/N! and with the Plancherel law (hook lengths); the same for a second sample on the same object')
BOUNDS = 'permutations of size <= 7 (8 thorough); Poisson draws <= 7 (8), the remaining Poisson mass is reported unexplored'
ASSUMPTIONS = ['RandomState draws have their documented laws']


def perm(rec, n):
    from dppy.exotic_dpps_core import uniform_permutation

    def prog(rng):
        s = uniform_permutation(n, random_state=rng)
        return tuple(int(x) for x in s)
    rec.check_law(prog, {p: 1.0 / factorial(n) for p in itertools.permutations(range(n))})


def partitions(n, m=None):
    if n == 0:
        yield ()
        return
    for k in range(min(n, m or n), 0, -1):
        for p in partitions(n - k, k):
            yield (k,) + p


def plancherel(theta, top):
    out = {}
    for n in range(top + 1):
        for lam in partitions(n):
            p = exp(-theta) * theta ** n * (hook(lam) / factorial(n)) ** 2
            out[(lam, tuple(l - i + 0.5 for i, l in enumerate(lam, start=1)))] = p
    return out


def planch(rec, theta, top, warm):
    from dppy.exotic_dpps import PoissonizedPlancherel
    target = plancherel(theta, top + 3)

    def prog(rng):
        pp = PoissonizedPlancherel(theta)
        for s in range(warm):
            pp.sample(random_state=np.random.RandomState(SEED + s))
        pp.sample(random_state=rng)
        if len(pp.list_of_samples) != warm + 1 or len(pp.list_of_young_diag) != warm + 1:
            return ('LEN', len(pp.list_of_samples), len(pp.list_of_young_diag))
        return (tuple(int(x) for x in pp.list_of_young_diag[-1]), tuple(float(x) for x in pp.list_of_samples[-1]))
    rec.check_law(prog, target, policy={'poisson_tail': 1e-12, 'poisson_max': top}, max_nodes=3000000)


def default(rec):
    """theta defaults to 10: the parameter given to the Poisson draw is the announced one."""
    from dppy.exotic_dpps import PoissonizedPlancherel
    got = []

    class Spy(np.random.RandomState):
        def poisson(self, lam=1.0, size=None):
            got.append((lam, size))
            return super().poisson(lam, size)
    for theta in (None, 0.25, 1, 4.0, 150):
        del got[:]
        pp = PoissonizedPlancherel() if theta is None else PoissonizedPlancherel(theta)
        pp.sample(random_state=Spy(SEED))
        rec.evals += 1
        rec.stats['states'] += 1
        rec.stats['transitions'] += 1
        lam, s = np.asarray(pp.list_of_young_diag[-1]), np.asarray(pp.list_of_samples[-1])
        want = lam - np.arange(1, len(lam) + 1) + 0.5
        if lam.shape != s.shape or not np.array_equal(want, s) or (np.diff(lam) > 0).any():
            rec.bad('config', 'theta=%s: diagram %s recorded with configuration %s' % (theta, lam, s))


class Extreme(np.random.RandomState):
    """Draws at one end of their range (the law of the draws is checked on the small sizes)."""

    def __init__(self, how):
        super().__init__(SEED)
        self.how, self.i = how, 0

    def randint(self, low, high=None, size=None, dtype=int):
        if self.how == 'seed':
            return super().randint(low, high, size, dtype)
        lo, hi = (0, low) if high is None else (low, high)
        lo, hi = np.broadcast_arrays(np.asarray(lo), np.asarray(hi))
        if size is not None:
            lo, hi = np.broadcast_to(lo, size), np.broadcast_to(hi, size)
        self.i += 1
        k = {'low': lo, 'high': hi - 1, 'mid': (lo + hi - 1) // 2, 'alt': lo if self.i % 2 else hi - 1}[self.how]
        return int(k) if k.ndim == 0 else np.array(k, dtype=dtype)

    def poisson(self, lam=1.0, size=None):
        return self.n if size is None else np.full(size, self.n)


def sizes(rec, lo, hi):
    """For every size the generator returns a permutation whatever the draws."""
    from dppy.exotic_dpps import PoissonizedPlancherel
    from dppy.exotic_dpps_core import uniform_permutation
    from mc.checks.c15 import reference
    for n in range(lo, hi):
        for how in ('low', 'high', 'mid', 'alt', 'seed'):
            s = np.asarray(uniform_permutation(n, random_state=Extreme(how)))
            rec.evals += 1
            rec.stats['states'] += 1
            rec.stats['transitions'] += n
            if s.shape != (n,) or not np.array_equal(np.sort(s), np.arange(n)):
                return rec.bad('permutation', 'size %d, draws %s: %s... is not a permutation' % (n, how, s[:20]))
            if n % 16 and n > 20:
                continue
            pp = PoissonizedPlancherel(5.0)
            r = Extreme(how)
            r.n = n
            pp.sample(random_state=r)
            lam = [int(x) for x in pp.list_of_young_diag[-1]]
            if sum(lam) != n or any(a < b for a, b in zip(lam, lam[1:])) or 0 in lam:
                return rec.bad('diagram', 'a permutation of size %d gives the diagram %s...' % (n, lam[:20]))
            shape = [len(x) for x in reference(s.tolist())[0]] if how != 'seed' else lam
            if lam != shape and lam != [sum(1 for x in shape if x > i) for i in range(shape[0] if shape else 0)]:
                return rec.bad('diagram', 'size %d, draws %s: the diagram is not the RSK shape' % (n, how))
            if [float(x) for x in pp.list_of_samples[-1]] != [l - i + 0.5 for i, l in enumerate(lam, 1)]:
                return rec.bad('config', 'size %d: configuration does not belong to the diagram' % n)


def cases():
    t = 1 if THOROUGH else 0
    for n in range(0, 8 + t):
        yield Case('perm/%d' % n, perm, n, cost=factorial(n))
    for theta in (0.05, 0.5, 1.0, 2.0, 3.5):
        for warm in (0, 1, 2):
            yield Case('plancherel/%g/%d' % (theta, warm), planch, theta, (7 if warm == 0 else 5) + t, warm, cost=800)
    yield Case('config', default)
    for lo in range(0, 320, 40):
        yield Case('sizes/%d' % lo, sizes, lo, lo + 40, cost=100)
    yield Case('sizes/1000', sizes, 1000, 1002)
    yield Case('sizes/70000', sizes, 70001, 70002)
