"""C05: MCMC runs return well-formed chains from admissible initial states."""
import contextlib
import re
import time

import numpy as np

from mc import zoo
from mc.core import Case, THOROUGH

RULE = ('all outcomes of short MCMC runs (initial-state search included) are enumerated on the real code, with the '
        'process clock replaced by a scripted one; every chain reached is checked for length, validity, positive '
        'target probability, legal moves, untouched s_init, and agreement with the returned value')
BOUNDS = 'ground sets <= 4, 1..4 recorded states, time budgets none / never reached / exhausted at every iteration'
ASSUMPTIONS = ['RandomState draws have their documented laws', 'time is read through the time module']

NOW = [0.0]
CLOCKS = ('time', 'perf_counter', 'monotonic', 'process_time')


@contextlib.contextmanager
def fake_clock(dt):
    import dppy.mcmc_sampling as mm

    def tick():
        NOW[0] += dt
        return NOW[0]
    real = {getattr(time, n): n for n in CLOCKS}
    saved = [(time, n, getattr(time, n)) for n in CLOCKS]
    saved += [(mm, a, v) for a, v in vars(mm).items() if callable(v) and v in real]
    for o, n, _ in saved:
        setattr(o, n, tick)
    try:
        yield
    finally:
        for o, n, v in saved:
            setattr(o, n, v)


def legal(mode, a, b):
    add, rem = len(set(b) - set(a)), len(set(a) - set(b))
    if mode == 'AD':
        return add + rem <= 1
    if mode == 'E':
        return add == rem <= 1
    return add + rem <= 1 or add == rem == 1


def judge(rec, chain, ret, L, mode, k, n, s_init, after, short):
    """Name of the violated clause, or 'ok'."""
    if not isinstance(chain, list):
        return 'chain is not a list'
    if short and not 1 <= len(chain) <= n:
        return 'length %d not in 1..%d' % (len(chain), n)
    if not short and len(chain) != n:
        return 'length %d instead of %d' % (len(chain), n)
    N = len(L)
    for s in chain:
        c = zoo.canon_set(s)
        if c[:1] == ('NOT-INT',) or len(set(c)) != len(c) or any(not 0 <= i < N for i in c):
            return 'state %r is not a duplicate-free list of items' % (s,)
        if zoo.minor(L, c) <= 1e-12:
            return 'state %r has probability zero' % (c,)
        if k is not None and len(c) != k:
            return 'state %r has not size %d' % (c, k)
    for a, b in zip(chain, chain[1:]):
        if not legal(mode, a, b):
            return 'illegal move %r -> %r' % (a, b)
    if s_init is not None:
        if list(chain[0]) != list(s_init):
            return 'first state %r is not s_init %r' % (chain[0], s_init)
        if after != s_init:
            return 's_init modified into %r' % (after,)
    if zoo.canon_set(ret) != zoo.canon_set(chain[-1]):
        return 'returned %r, last state is %r' % (ret, chain[-1])
    return 'ok'


def run(rec, ktype, proj, params, L, mode, k, n, s_init, tmax, dt):
    from dppy.finite_dpps import FiniteDPP

    def prog(rng):
        NOW[0] = 1000.0
        if True:
            dpp = FiniteDPP(ktype, projection=proj, **params)
            kw = dict(nb_iter=n, random_state=rng)
            if tmax is not None:
                kw['T_max'] = tmax
            s = None
            if s_init is not None:
                s = kw['s_init'] = list(s_init)
            if k is not None and mode == 'E' and not proj:
                ret = dpp.sample_mcmc_k_dpp(size=k, **kw)
            else:
                if k is not None:
                    kw['size'] = k
                ret = dpp.sample_mcmc(mode, **kw)
            if len(dpp.list_of_samples) != 1:
                return 'history has %d entries' % len(dpp.list_of_samples)
            ch = dpp.list_of_samples[0]
            v = judge(rec, ch, ret, L, mode, k, n, None if s_init is None else list(s_init), s,
                      tmax is not None and tmax < 1e6)
            if v != 'ok':
                return v
            if tmax is not None and tmax < 1e-3 and n >= 4 and len(ch) == n:
                return 'time budget of %g s ignored' % tmax
            return 'ok'
    with fake_clock(dt):
        L_ = rec.law(prog, min_mass=1e-7 if len(L) < 4 else 1e-5)
    if L_ is None:
        return
    for o, p in L_.p.items():
        if o == 'ok' or p < 1e-9:
            continue
        if isinstance(o, tuple) and s_init is None and 'nitializ' in o[2]:
            continue            # unsuccessful search: judged by init cases
        rec.bad('chain', '%r with probability %.3g' % (o, p), path=L_.traces.get(o))


def init(rec, L, mode, k, q):
    """The search only fails when each of the announced number of trials failed."""
    from dppy import mcmc_sampling as mm

    def prog(rng):
        mm.dpp_sampler_mcmc(L, mode, nb_iter=1, size=k, random_state=rng)
        return 'ok'
    law = rec.law(prog, prune=0.0, min_mass=0.0)
    if law is None or law.residual > 1e-9:
        return
    fail = {o: p for o, p in law.p.items() if o != 'ok'}
    for o, p in fail.items():
        m = re.search(r'(\d+) random trials', o[2]) if isinstance(o, tuple) else None
        if not m:
            rec.bad('init', 'unexpected failure %r' % (o,))
            continue
        want = (1 - q) ** int(m.group(1))
        if abs(p - want) > 1e-6 * want + 1e-13:
            rec.bad('init', 'initial state search announces failure after %s unsuccessful trials with probability '
                    '%.8g, should be %.8g' % (m.group(1), p, want))


def cases():
    big, tiny = 1e9, 1e-6
    times = ((None, 1.0), (big, 1e-3), (tiny, 1.0))
    kernels = zoo.L_kernels()
    names = ['diag12', 'diag0123', 'ones3', 'rnd3', 'rank1of3', 'n1', 'block'] + \
        (['rnd4', 'rank2of4', 'rnd3s', 'neg3', 'spread3'] if THOROUGH else [])
    for kn in names:
        L = kernels[kn]
        N = len(L)
        r = int(np.linalg.matrix_rank(L, tol=1e-9))
        pos = [S for S in zoo.subsets(N) if zoo.minor(L, S) > 1e-9]
        for tm, dt in times:
            for n in ((1, 2, 3, 4) if N < 3 or THOROUGH else (1, 3, 4) if N == 3 else (1, 4)):
                for m in ('AED', 'AD'):
                    if n <= 3 and (N <= 3 or (n == 1 and tm is None and THOROUGH)):
                        yield Case('init/%s/%s/n%d/T%s' % (kn, m, n, tm), run, 'likelihood', False, dict(L=L), L, m,
                                   None, n, None, tm, dt, cost=N ** n)
                    for s in pos[::1 if N < 3 or THOROUGH else 2]:
                        yield Case('s%s/%s/%s/n%d/T%s' % (s, kn, m, n, tm), run, 'likelihood', False, dict(L=L), L,
                                   m, None, n, s, tm, dt, cost=N ** n)
                for k in range(1, r + 1):
                    yield Case('init/%s/E%d/n%d/T%s' % (kn, k, n, tm), run, 'likelihood', False, dict(L=L), L, 'E',
                               k, n, None, tm, dt, cost=N ** n)
                    s = [S for S in pos if len(S) == k][-1][::-1]
                    yield Case('s%s/%s/E%d/n%d/T%s' % (s, kn, k, n, tm), run, 'likelihood', False, dict(L=L), L, 'E',
                               k, n, s, tm, dt, cost=N ** n)
                if n <= 3:
                    yield Case('init/%s/E/n%d/T%s' % (kn, n, tm), run, 'likelihood', False, dict(L=L), L, 'E', None,
                               n, None, tm, dt)
    for kn, V in zoo.proj_bases().items():
        N, r = V.shape
        if N > 3 and not THOROUGH and kn != 'red4r2':
            continue
        K = V.dot(V.T)
        K = (K + K.T) / 2
        for tm, dt in times:
            for n in (1, 3, 4):
                yield Case('P/%s/n%d/T%s' % (kn, n, tm), run, 'correlation', True, dict(K=K), K, 'E', r, n, None,
                           tm, dt)
    # search for an initial state: rare admissible states
    for N in (20,):
        L = np.zeros((N, N))
        L[N // 2, N // 2] = 1.0
        yield Case('search/E1/%d' % N, init, L, 'E', 1, 1.0 / N)
    L = np.zeros((4, 4))
    L[1, 1], L[2, 2] = 1.0, 2.0
    yield Case('search/E2/4', init, L, 'E', 2, 1.0 / 6)
    L = np.zeros((3, 3))
    yield Case('search/AD/3', init, L, 'AD', None, 0.0)
    # AED: T subset of 2N picks N, S0 = T & [N]; only the empty set is admissible for L = 0
    yield Case('search/AED/2', init, np.zeros((2, 2)), 'AED', None, 1.0 / 6)
