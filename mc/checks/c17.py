"""C17: carries, descent and virtual descent processes have their determinantal laws."""
import itertools
from fractions import Fraction as F
from math import factorial

import numpy as np

from mc.core import Case, SEED, THOROUGH

RULE = ('every random outcome of the real samplers is enumerated for every base / proportion / size in the bound, also as '
        'second and third sample of one object; the exact joint law of the points is compared with the law obtained by '
        'brute force over digit strings, permutations and partially fixed permutations; from the explored law '
        'stationarity, 1-dependence and the announced intensity are checked as well')
BOUNDS = 'carries: bases 2..5 (and 10), base^size <= 5000; descents: size <= 7 (8); virtual descents: size <= 5 (6); '\
         'digit strings of length <= 5 over {0, 1, b/2, b-1} and periodic ones of length 300, bases up to 10^12'
ASSUMPTIONS = ['RandomState draws have their documented laws']


def carries_law(b, n):
    out = {}
    for a in itertools.product(range(b), repeat=n):
        s, pts = 0, []
        for i, x in enumerate(a):
            if i and (s + x) // b != s // b:
                pts.append(i)
            s += x
        k = tuple(pts)
        out[k] = out.get(k, 0) + 1
    return {k: v / b ** n for k, v in out.items()}


def descent_law(n):
    out = {}
    for w in itertools.permutations(range(n)):
        k = tuple(i + 1 for i in range(n - 1) if w[i] > w[i + 1])
        out[k] = out.get(k, 0) + 1
    return {k: v / factorial(n) for k, v in out.items()}


def virtual_law(x0, n):
    """Descents of n i.i.d. values equal to the minimum with probability x0 and otherwise continuous."""
    out = {}
    for fix in itertools.product((0, 1), repeat=n):
        m = n - sum(fix)
        p = x0 ** (n - m) * (1 - x0) ** m
        if p == 0:
            continue
        for w in itertools.permutations(range(m)):
            it = iter(w)
            v = [-1 if f else next(it) for f in fix]
            k = tuple(i + 1 for i in range(n - 1) if v[i] > v[i + 1])
            out[k] = out.get(k, 0.0) + p / factorial(m)
    return out


def one(rec, make, size, target, warm, tag=''):
    def prog(rng):
        o = make()
        for j, s in enumerate(warm):
            o.sample(size=s, random_state=np.random.RandomState(SEED + j))
        o.sample(size=size, random_state=rng)
        if len(o.list_of_samples) != len(warm) + 1:
            return ('LEN', len(o.list_of_samples))
        s = o.list_of_samples[-1]
        if o.size != size:
            return ('SIZE', o.size)
        return tuple(int(x) if int(x) == x else ('NOT-INT', float(x)) for x in s)
    L = rec.law(prog, max_nodes=3000000)
    if not rec.compare(L, target) or L is None or size < 3 or L.residual > 1e-9:
        return
    # facts announced for the process, read off the explored law
    law = L.p

    def pr(*pos):
        return sum(p for s, p in law.items() if all(i in s for i in pos))
    lam = make()._bernoulli_param
    for i in range(1, size):
        if abs(pr(i) - lam) > 1e-8:
            return rec.bad('intensity', 'position %d has intensity %.8f, announced %.8f' % (i, pr(i), lam))
        for j in range(i + 2, size):
            if abs(pr(i, j) - pr(i) * pr(j)) > 1e-8:
                return rec.bad('1-dependent', 'positions %d and %d are correlated' % (i, j))


def big(rec, make, size):
    """Points stay in {1..size-1}, sorted and distinct, for larger sizes (seeded runs)."""
    for s in range(20):
        o = make()
        o.sample(size=size, random_state=s + SEED)
        p = o.list_of_samples[-1]
        rec.evals += 1
        rec.stats['states'] += 1
        rec.stats['transitions'] += 1
        if not isinstance(p, list) or any(b <= a for a, b in zip(p, p[1:])) or (p and (p[0] < 1 or p[-1] > size - 1)):
            return rec.bad('range', 'size %d: points %s' % (size, p[:20]))


class Digits(np.random.RandomState):
    """Deals a given word of digits, whichever integer draw is used; anything else is not understood."""

    def __init__(self, word, base):
        super().__init__(SEED)
        self.word, self.base, self.i, self.other = list(word), base, 0, False

    def _deal(self, size, dtype):
        m = 1 if size is None else int(np.prod(size))
        w = self.word[self.i:self.i + m]
        self.i += m
        if len(w) != m:
            self.other = True
            w = [0] * m
        return w[0] if size is None else np.array(w).reshape(size).astype(dtype)

    def randint(self, low, high=None, size=None, dtype=int):
        lo, hi = (0, low) if high is None else (low, high)
        if np.ndim(lo) or np.ndim(hi) or (lo, hi) != (0, self.base):
            self.other = True
        return self._deal(size, dtype)

    def choice(self, a, size=None, replace=True, p=None):
        if np.ndim(a) or a != self.base or p is not None or not replace:
            self.other = True
        return self._deal(size, int)

    def _random(self, *a, **k):
        self.other = True
        return super().random_sample(None)
    random_sample = rand = random = uniform = permutation = shuffle = normal = randn = _random


def digits(rec, base, words):
    """Carries of given digit strings, exact integer arithmetic."""
    from dppy.exotic_dpps import CarriesProcess
    for w in words:
        r = Digits(w, base)
        o = CarriesProcess(base)
        try:
            o.sample(size=len(w), random_state=r)
        except Exception as e:
            if r.other:
                rec.undecided.append('the digits are not drawn one by one')
                return
            return rec.bad('raise', 'base %d: %r' % (base, e))
        if r.other or r.i != len(w):
            rec.undecided.append('the digits are not drawn one by one')
            return
        s, want = 0, []
        for i, x in enumerate(w):
            if i and (s + x) // base != s // base:
                want.append(i)
            s += x
        rec.evals += 1
        rec.stats['states'] += len(w)
        rec.stats['transitions'] += len(w)
        if [int(x) for x in o.list_of_samples[-1]] != want:
            return rec.bad('carries', 'base %d, digits %s...: points %s..., carries are %s...' % (
                base, list(w)[:12], o.list_of_samples[-1][:12], want[:12]))


def words(base, long):
    al = sorted({0, 1, base // 2, base - 1})
    if not long:
        return [w for n in range(1, 6) for w in itertools.product(al, repeat=n)]
    return [(w * 400)[:long] for n in range(1, 4) for w in itertools.product(al, repeat=n)]


def cases():
    from dppy import exotic_dpps as ex
    t = 1 if THOROUGH else 0
    for b in (2, 3, 4, 5, 10):
        for n in range(1, 13):
            if b ** n > 5000 * (8 if THOROUGH else 1):
                break
            T = carries_law(b, n)
            yield Case('carries/%d/%d' % (b, n), one, lambda b=b: ex.CarriesProcess(b), n, T, (), cost=b ** n)
            if b ** n <= 300:
                for warm in ((2,), (4, 3), (5,)):
                    yield Case('carries/%d/%d/%s' % (b, n, warm), one, lambda b=b: ex.CarriesProcess(b), n, T, warm)
    yield Case('carries/default/3', one, lambda: ex.CarriesProcess(), 3, carries_law(10, 3), ())
    for n in range(1, 8 + t):
        T = descent_law(n)
        for warm in ((), (2,), (4, 3)):
            yield Case('descent/%d/%s' % (n, warm), one, ex.DescentProcess, n, T, warm, cost=factorial(n))
    for x0 in (0.0, 0.25, 0.5, 0.8, 1.0):
        for n in range(1, 6 + t):
            T = virtual_law(x0, n)
            for warm in ((), (2, 3)):
                if warm and n > 3:
                    continue
                yield Case('virtual/%g/%d/%s' % (x0, n, warm), one, lambda x=x0: ex.VirtualDescentProcess(x), n, T, warm,
                           cost=factorial(n) * 4 ** n)
    yield Case('virtual/default/3', one, lambda: ex.VirtualDescentProcess(), 3, virtual_law(0.5, 3), ())
    for b in (2, 3, 10, 128, 256, 1000, 32768, 65536, 10 ** 6, 2 ** 31, 2 ** 33, 10 ** 12):
        yield Case('digits/%d' % b, digits, b, words(b, 0))
        yield Case('digits/%d/long' % b, digits, b, words(b, 300))
    for n in (1, 2, 7, 50, 100, 333):
        yield Case('big/carries/%d' % n, big, lambda: ex.CarriesProcess(7), n)
        yield Case('big/descent/%d' % n, big, ex.DescentProcess, n)
        yield Case('big/virtual/%d' % n, big, lambda: ex.VirtualDescentProcess(0.4), n)
