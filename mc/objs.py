"""FiniteDPP objects as explicit-state systems: descriptions, operations, reachable states."""
import copy
import hashlib

import numpy as np

from mc import zoo
from mc.checks.c01 import L_params, linear, psd_factor, rank_factor
from mc.core import THOROUGH, attempt


class Desc:
    """A finite DPP description with its theoretical kernels."""

    def __init__(self, name, ktype, proj, params, K, L, bases=None):
        self.name, self.ktype, self.proj, self.params = name, ktype, proj, params
        self.K, self.L = K, L
        self.n = len(K)
        self.rank = int(np.linalg.matrix_rank(K if L is None else L, tol=1e-9))

    def build(self):
        from dppy.finite_dpps import FiniteDPP
        return FiniteDPP(self.ktype, projection=self.proj, **copy.deepcopy(self.params))

    def law_exact(self):
        return zoo.law_L(self.L) if self.L is not None else zoo.law_K(self.K)

    def law_k(self, k):
        if self.L is None:
            return zoo.law_K(self.K) if k == self.rank else None
        return zoo.law_kdpp(self.L, k) if k <= self.rank else None


def descriptions():
    out = []
    ker = zoo.L_kernels()
    for kn in ('rnd3', 'rank1of3', 'block') + (('diag0123', 'rank2of4', 'spread3') if THOROUGH else ()):
        L = ker[kn]
        K = L.dot(np.linalg.inv(np.eye(len(L)) + L))
        for pn, pr in L_params(L).items():
            if kn == 'block' and not THOROUGH and pn not in ('L', 'eval_L'):
                continue
            out.append(Desc('L/%s/%s' % (kn, pn), 'likelihood', False, pr, K, L))
    for kn in ('mix3', 'zero3', 'one3') + (('rep4', 'diag3', 'small3') if THOROUGH else ()):
        w, U = zoo.K_spectra()[kn]
        K = (U * w).dot(U.T)
        K = (K + K.T) / 2
        L = None if w.max() > 0.9999 else (U * (w / (1 - w))).dot(U.T)
        for pn, pr in (('K', dict(K=K)), ('K_eig_dec', dict(K_eig_dec=(w, U)))):
            out.append(Desc('K/%s/%s' % (kn, pn), 'correlation', False, pr, K, L))
    for kn in ('n3r2', 'graphK3') + (('had4r2', 'zero4r2') if THOROUGH else ()):
        V = zoo.proj_bases()[kn]
        n, r = V.shape
        K = V.dot(V.T)
        K = (K + K.T) / 2
        full = np.linalg.qr(np.hstack([V, np.random.RandomState(0).randn(n, n)]))[0][:, :n]
        full[:, :r] = V
        ev = np.array([1.0] * r + [0.0] * (n - r))
        A = np.random.RandomState(2).randn(r, r).dot(V.T)
        for pn, pr in (('K', dict(K=K)), ('K_eig_dec', dict(K_eig_dec=(ev, full))), ('A_zono', dict(A_zono=A))):
            out.append(Desc('P/%s/%s' % (kn, pn), 'correlation', True, pr, K, None))
        KL = K.dot(np.linalg.inv(np.eye(n) + K))
        for pn, pr in (('L', dict(L=K)), ('L_eig_dec', dict(L_eig_dec=(ev, full))), ('gram', dict(L_gram_factor=V.T))):
            out.append(Desc('LP/%s/%s' % (kn, pn), 'likelihood', True, pr, KL, K))
    return out


class Op:
    """An operation applied to an object. kind: exact / k / mcmc / other."""

    def __init__(self, name, f, kind='other', k=None, target=False):
        self.name, self.f, self.kind, self.k, self.target = name, f, kind, k, target

    def __repr__(self):
        return self.name


def operations(d, plots=False):
    ops = []
    modes = ['GS', 'GS_bis', 'KuTa12', 'Chol'] + (['Schur'] if d.proj else [])
    for m in modes:
        ops.append(Op('exact:' + m, lambda o, r, m=m: o.sample_exact(mode=m, random_state=r), 'exact', target=True))
    kmodes = ['GS', 'KuTa12'] + (['Chol', 'Schur'] if d.proj else [])
    for k in range(1, min(d.rank, 3) + 1):
        for m in kmodes:
            ops.append(Op('k%d:%s' % (k, m),
                          lambda o, r, k=k, m=m: o.sample_exact_k_dpp(size=k, mode=m, random_state=r),
                          'k', k, target=True))
    M = d.L if d.L is not None else d.K
    full = max(zoo.subsets(d.n, min(d.rank, 2)), key=lambda S: zoo.minor(M, S))
    if d.L is not None:
        for m in ('AED', 'AD'):
            ops.append(Op('mcmc:' + m, lambda o, r, m=m: o.sample_mcmc(m, s_init=list(full), nb_iter=2, random_state=r),
                          'mcmc', target=True))
    kk = d.rank if d.L is None else len(full)
    sk = max(zoo.subsets(d.n, kk), key=lambda S: zoo.minor(M, S))
    ops.append(Op('mcmc:E', lambda o, r: o.sample_mcmc('E', size=kk, s_init=list(sk), nb_iter=2, random_state=r),
                  'mcmc', target=True))
    ops.append(Op('kmcmc', lambda o, r: o.sample_mcmc_k_dpp(size=kk, s_init=list(sk), nb_iter=2, random_state=r),
                  'mcmc', target=True))
    ops.append(Op('compute_K', lambda o, r: o.compute_K()))
    ops.append(Op('compute_L', lambda o, r: o.compute_L()))
    ops.append(Op('flush', lambda o, r: o.flush_samples()))
    ops.append(Op('info', lambda o, r: (o.info(), str(o))))
    ops.append(Op('bad mode', lambda o, r: o.sample_exact(mode='bogus', random_state=r)))
    ops.append(Op('bad k mode', lambda o, r: o.sample_exact_k_dpp(size=1, mode='bogus', random_state=r)))
    ops.append(Op('oversize', lambda o, r: o.sample_exact_k_dpp(size=d.rank + 1, random_state=r)))
    ops.append(Op('bad mcmc', lambda o, r: o.sample_mcmc('bogus', random_state=r)))
    if plots:
        def plot(o, r, t):
            import matplotlib.pyplot as plt
            try:
                o.plot_kernel(t)
            finally:
                plt.close('all')
        ops.append(Op('plot K', lambda o, r: plot(o, r, 'correlation')))
        ops.append(Op('plot L', lambda o, r: plot(o, r, 'likelihood')))
    return ops


def digest(x, nd=7):
    """Canonical form of a value up to rounding."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('O', tuple(digest(v) for v in x.ravel()))
        return (x.shape, x.dtype.kind, (np.round(x, nd) + 0.0).tobytes())
    if isinstance(x, (float, np.floating)):
        return round(float(x), nd) + 0.0
    if isinstance(x, dict):
        return tuple((k, digest(v)) for k, v in sorted(x.items(), key=lambda t: str(t[0])))
    if isinstance(x, (list, tuple)):
        return tuple(digest(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(map(str, x)))
    if isinstance(x, (int, str, bool, type(None), np.integer)):
        return x
    return type(x).__name__


def state_of(o, drop=('list_of_samples',)):
    v = {k: w for k, w in vars(o).items() if k not in drop}
    h = hashlib.blake2b(repr(digest(v)).encode(), digest_size=12).hexdigest()
    n = len(getattr(o, 'list_of_samples', ()))
    return h, min(n, 1)


def reachable(d, ops, max_states, seed=0, depth=99):
    """Breadth-first search over operation sequences; yields (state object, history)."""
    root = d.build()
    seen = {state_of(root)}
    layer = [(root, ())]
    yield root, ()
    count, trans, complete = 1, 0, True
    while layer and len(layer[0][1]) < depth:
        nxt = []
        for o, hist in layer:
            for op in ops:
                c = copy.deepcopy(o)
                rng = np.random.RandomState(seed)
                attempt(op.f, c, rng)
                trans += 1
                s = state_of(c)
                if s in seen:
                    continue
                seen.add(s)
                if count >= max_states:
                    complete = False
                    continue
                count += 1
                nxt.append((c, hist + (op.name,)))
                yield c, hist + (op.name,)
        layer = nxt
    reachable.last = (count, trans, complete)
