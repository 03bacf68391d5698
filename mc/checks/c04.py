"""C04: MCMC kernels are stationary for the target and irreducible."""
import itertools

import numpy as np

from mc import zoo
from mc.checks.c01 import L_params
from mc.core import Case, THOROUGH

RULE = ('the one-step transition law of each chain is computed exactly from *every* positive-probability state '
        '(every draw of one step enumerated on the real code); pi P = pi, closure and strong connectivity are '
        'checked, and the joint law of 3-step runs is compared with the product of one-step laws')
BOUNDS = 'ground sets of size <= 4, every state and (up to size 3) every list order of it; runs of 2 to 4 states'
ASSUMPTIONS = ['RandomState draws have their documented laws']


def target(L, k=None):
    w = {S: zoo.minor(L, S) for S in zoo.subsets(len(L), k)}
    tot = sum(max(v, 0) for v in w.values()) or 1.0
    return {S: v / tot for S, v in w.items() if v / tot > 1e-12}


def chain_of(ch):
    return tuple(zoo.canon_set(s) for s in ch)


def step_law(rec, run, s, n, what):
    """Law of the canonical path of n states from list s."""
    L = rec.law(lambda rng: chain_of(run(list(s), n, rng)))
    if L is None:
        return None
    bad = [o for o in L.p if o[:1] == ('EXC',) or o[:1] == ('HANG',)]
    if bad:
        rec.bad('fail|%s' % what, 'a step from admissible state %r fails: %r' % (s, bad[0]),
                path=L.traces.get(bad[0]), state=repr(s))
        return None
    for o in L.p:
        if len(o) != n or o[0] != tuple(sorted(s)):
            rec.bad('shape|%s' % what, 'from %r: chain %r should have %d states starting there' % (s, o, n))
            return None
    return L


def moves(rec, run, pi, steps=3):
    states = list(pi)
    ix = {s: i for i, s in enumerate(states)}
    P = np.zeros((len(states),) * 2)
    for s in states:
        orders = list(itertools.permutations(s)) if len(s) <= 3 else [s, s[::-1]]
        first = None
        for o in orders:
            L = step_law(rec, run, o, 2, 'step')
            if L is None:
                return
            row = np.zeros(len(states))
            for path, p in L.p.items():
                if path[1] not in ix:
                    if p > 1e-9:
                        rec.bad('closure', 'from %r the chain reaches %r which has probability zero' % (o, path[1]),
                                path=L.traces.get(path))
                    continue
                row[ix[path[1]]] += p
            if first is None:
                first = row
            elif np.abs(row - first).max() > 1e-8:
                # law depends on the order in which the state is listed: judge it through stationarity of each
                rec.bad('order', 'transition law from %r depends on list order' % (s,))
            P[ix[s]] = row
    v = np.array([pi[s] for s in states])
    d = v.dot(P) - v
    if np.abs(d).max() > 1e-8:
        i = int(np.argmax(np.abs(d)))
        rec.bad('stationary', 'pi P != pi: state %r has mass %.8g after one step instead of %.8g'
                % (states[i], v.dot(P)[i], v[i]), P=P.tolist(), states=[list(s) for s in states])
    A = (P > 1e-14) | np.eye(len(states), dtype=bool)
    R = np.linalg.matrix_power(A.astype(float), len(states)) > 0
    if not R.all():
        i, j = np.argwhere(~R)[0]
        rec.bad('irreducible', 'no path from %r to %r' % (states[i], states[j]))
    # longer runs are the same Markov chain
    for s in states[:: max(1, len(states) // (len(states) if THOROUGH else 3))]:
        for n in range(3, steps + 1):
            L = step_law(rec, run, s, n, 'run%d' % n)
            if L is None:
                return
            want = {}
            for path in itertools.product(states, repeat=n - 1):
                p, a = 1.0, s
                for b in path:
                    p *= P[ix[a], ix[b]]
                    a = b
                if p > 1e-14:
                    want[(s,) + path] = p
            rec.compare(L, want, 'markov%d' % n)


def direct(rec, L, mode, k, steps):
    from dppy import mcmc_sampling as mm
    pi = target(L, k)

    def run(s, n, rng):
        return mm.dpp_sampler_mcmc(L, mode, s_init=s, nb_iter=n, size=k, random_state=rng)
    moves(rec, run, pi, steps)


def through(rec, ktype, proj, params, L, mode, k, meth):
    from dppy.finite_dpps import FiniteDPP
    pi = target(L, k)

    def run(s, n, rng):
        dpp = FiniteDPP(ktype, projection=proj, **params)
        if meth == 'k':
            dpp.sample_mcmc_k_dpp(size=k, s_init=s, nb_iter=n, random_state=rng)
        else:
            kw = {} if k is None else dict(size=k)
            dpp.sample_mcmc(mode, s_init=s, nb_iter=n, random_state=rng, **kw)
        return dpp.list_of_samples[-1]
    moves(rec, run, pi, 2)


def cases():
    for kn, L in zoo.L_kernels().items():
        n = len(L)
        if n > 4:
            continue
        deep = 4 if n <= 2 else 3
        for m in ('AED', 'AD'):
            yield Case('direct/%s/%s' % (kn, m), direct, L, m, None, deep, cost=4 ** n)
        for k in range(1, n + 1):
            if target(L, k) and np.linalg.matrix_rank(L, tol=1e-9) >= k:
                yield Case('direct/%s/E%d' % (kn, k), direct, L, 'E', k, deep + 1, cost=2 ** n)
    for kn in ('rnd3', 'rank1of3', 'block', 'diag12'):
        L = zoo.L_kernels()[kn]
        for pn, pr in L_params(L).items():
            for m in ('AED', 'AD'):
                yield Case('dpp/%s/%s/%s' % (kn, pn, m), through, 'likelihood', False, pr, L, m, None, 'm')
            for k in range(1, np.linalg.matrix_rank(L, tol=1e-9) + 1):
                yield Case('dpp/%s/%s/E%d' % (kn, pn, k), through, 'likelihood', False, pr, L, 'E', k, 'm')
                yield Case('kdpp/%s/%s/E%d' % (kn, pn, k), through, 'likelihood', False, pr, L, 'E', k, 'k')
    for kn, (w, U) in zoo.K_spectra().items():
        if w.max() > 0.9999 or len(w) > 3 or w.max() == 0:
            continue
        K = (U * w).dot(U.T)
        L = (U * (w / (1 - w))).dot(U.T)
        for pn, pr in (('K', dict(K=(K + K.T) / 2)), ('K_eig_dec', dict(K_eig_dec=(w, U)))):
            for m in ('AED', 'AD'):
                yield Case('K/%s/%s/%s' % (kn, pn, m), through, 'correlation', False, pr, L, m, None, 'm')
            yield Case('K/%s/%s/E' % (kn, pn), through, 'correlation', False, pr, L, 'E', 1, 'k')
    for kn, V in zoo.proj_bases().items():
        n, r = V.shape
        if n > 4:
            continue
        K = V.dot(V.T)
        K = (K + K.T) / 2
        A = np.random.RandomState(2).randn(r, r).dot(V.T) if r > 1 else 2.5 * V.T
        for pn, pr in (('K', dict(K=K)), ('A_zono', dict(A_zono=A))):
            yield Case('P/%s/%s/E' % (kn, pn), through, 'correlation', True, pr, K, 'E', r, 'm')
            yield Case('P/%s/%s/kE' % (kn, pn), through, 'correlation', True, pr, K, 'E', r, 'k')
