"""C03: the projection samplers draw the ordered chain-rule law."""
import itertools
import math

import numpy as np

from mc import zoo
from mc.core import Case, THOROUGH, attempt

RULE = ('every outcome of every projection sampler is enumerated; the law of the *ordered* sample is compared '
        'with det(K_seq) (r-k)!/r!, and the generic LU sampler with |det(K - I_{S^c})|')
BOUNDS = 'ground sets of size <= 4 (5 thorough), all ranks, all truncation sizes 1..rank'
ASSUMPTIONS = ['RandomState draws have their documented laws']


def ordered_law(K, r, k):
    n = len(K)
    out = {}
    c = math.factorial(r - k) / math.factorial(r)
    for s in itertools.permutations(range(n), k):
        p = np.linalg.det(K[np.ix_(s, s)]).real * c
        if p > 1e-13:
            out[s] = p
    return out


def ker(rec, K, mode, size, target):
    from dppy import exact_sampling as ex
    kw = {} if size is None else dict(size=size)
    rec.check_law(lambda rng: zoo.canon_seq(ex.proj_dpp_sampler_kernel(K, mode=mode, random_state=rng, **kw)),
                  target)
    if mode == 'Chol':
        # second output: the Cholesky factorisation of the principal submatrix of the sample
        def prog(rng):
            s, A = ex.proj_dpp_sampler_kernel_Chol(K, size, rng)
            T = np.tril(A)
            e = np.abs(T.dot(T.conj().T) - K[np.ix_(s, s)]).max()
            return 'ok' if e < 1e-6 else 'bad factor of %s' % (s,)
        rec.check_law(prog, {'ok': 1.0}, 'factor', tol=1e-6)


def eig(rec, V, mode, size, target):
    from dppy import exact_sampling as ex
    kw = {} if size is None else dict(size=size)
    rec.check_law(lambda rng: zoo.canon_seq(ex.proj_dpp_sampler_eig(V, mode=mode, random_state=rng, **kw)),
                  target)


def generic(rec, K, target):
    from dppy import exact_sampling as ex
    n = len(K)

    def prog(rng):
        s, A = ex.dpp_sampler_generic_kernel(K, random_state=rng)
        D = np.array([0.0 if i in s else 1.0 for i in range(n)])
        Lo = np.tril(A, -1) + np.eye(n)
        e = np.abs(Lo.dot(np.triu(A)) - (K - np.diag(D))).max()
        return zoo.canon_set(s) if e < 1e-6 else 'bad LU for %s' % (s,)
    rec.check_law(prog, target)


def generic_kernels():
    out = {}
    for kn, (w, U) in zoo.K_spectra().items():
        K = (U * w).dot(U.T)
        out['sym_' + kn] = (K + K.T) / 2
    # stationary one-dependent processes: carries in base b, descents (non symmetric kernels)
    for b in (2, 3, 10):
        K = np.zeros((4, 4))
        # kernel k(j-i): sum_n k(n) z^n = 1/(1-(1-z)^b), n >= -1
        # use probabilities of the process instead: built from its law in c17
    # non symmetric P0 kernels: K = I - (I + L)^{-1}, L with non-negative principal minors
    r = np.random.RandomState(3)
    for i in range(3 + 4 * THOROUGH):
        n = 3 + (i % 2)
        B = r.randn(n, n)
        L = B.dot(B.T) * 0.5 + (B - B.T)
        out['nonsym%d' % i] = np.eye(n) - np.linalg.inv(np.eye(n) + L)
    L = np.array([[1., 2., 0.], [-2., 1., 1.], [0., -1., 0.5]])
    out['skew3'] = np.eye(3) - np.linalg.inv(np.eye(3) + L)
    L = np.array([[0., 2., 0.], [-2., 0., 1.], [0., -1., 0.]])
    out['pureskew3'] = np.eye(3) - np.linalg.inv(np.eye(3) + L)
    # upper triangular (independent items with coupling in the kernel only)
    out['triu3'] = np.array([[0.3, 0.9, 0.1], [0., 0.5, 0.4], [0., 0., 0.8]])
    return out


def complex_bases():
    r = np.random.RandomState(11)
    out = {}
    for n, k in ((2, 1), (3, 1), (3, 2), (4, 2), (4, 3)) + (((5, 3), (5, 2)) if THOROUGH else ()):
        Z = r.randn(n, k) + 1j * r.randn(n, k)
        out['c%dr%d' % (n, k)] = np.linalg.qr(Z)[0]
    F = np.exp(-2j * np.pi * np.outer(range(4), range(4)) / 4) / 2
    out['dft4r2'] = F[:, [0, 1]]
    return out


def cases():
    for kn, V in zoo.proj_bases().items():
        n, r = V.shape
        K = V.dot(V.T)
        K = (K + K.T) / 2
        for size in [None] + list(range(1, r + 1)):
            t = ordered_law(K, r, r if size is None else size)
            for m in ('GS', 'Chol', 'Schur'):
                yield Case('ker/%s/%s/%s' % (kn, m, size), ker, K, m, size, t, cost=n ** 3)
                if zoo.is_int(K):
                    yield Case('kerint/%s/%s/%s' % (kn, m, size), ker, K.astype(int), m, size, t, cost=n ** 3)
            Q = np.linalg.qr(np.random.RandomState(5).randn(r, r))[0]
            for m in ('GS', 'GS_bis', 'KuTa12'):
                yield Case('eig/%s/%s/%s' % (kn, m, size), eig, V, m, size, t, cost=n ** 3)
                if zoo.is_int(V):
                    yield Case('eigint/%s/%s/%s' % (kn, m, size), eig, V.astype(int), m, size, t, cost=n ** 3)
                yield Case('eigrot/%s/%s/%s' % (kn, m, size), eig, V.dot(Q), m, size, t, cost=n ** 3)
    for kn, V in complex_bases().items():
        n, r = V.shape
        K = V.dot(V.conj().T)
        K = (K + K.conj().T) / 2
        for size in [None] + list(range(1, r + 1)):
            t = ordered_law(K, r, r if size is None else size)
            yield Case('herm/%s/Chol/%s' % (kn, size), ker, K, 'Chol', size, t, cost=n ** 3)
    for kn, K in generic_kernels().items():
        yield Case('generic/%s' % kn, generic, K, zoo.law_K(K), cost=2 ** len(K))
        if zoo.is_int(K):
            yield Case('genericint/%s' % kn, generic, K.astype(int), zoo.law_K(K))
