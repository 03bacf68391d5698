"""Bounded input alphabets: small kernels with every kind of degeneracy."""
import itertools

import numpy as np
import scipy.linalg as la

from mc import core


def subsets(n, k=None):
    ks = range(n + 1) if k is None else [k]
    return [S for j in ks for S in itertools.combinations(range(n), j)]


def minor(M, S, T=None):
    S = list(S)
    T = S if T is None else list(T)
    return float(np.linalg.det(M[np.ix_(S, T)])) if S else 1.0


def law_L(L):
    n = len(L)
    w = {S: max(minor(L, S), 0.0) for S in subsets(n)}
    Z = float(np.linalg.det(L + np.eye(n)))
    return {S: v / Z for S, v in w.items() if v / Z > 1e-15}


def law_K(K):
    n = len(K)
    out = {}
    for S in subsets(n):
        M = np.array(K, dtype=complex)
        for i in range(n):
            if i not in S:
                M[i, i] -= 1.0
        p = abs(np.linalg.det(M))
        if p > 1e-15:
            out[S] = float(p)
    return out


def law_kdpp(L, k):
    n = len(L)
    w = {S: max(minor(L, S), 0.0) for S in subsets(n, k)}
    Z = sum(w.values())
    return {S: v / Z for S, v in w.items() if v / Z > 1e-13}


def ortho(n, seed):
    q, r = np.linalg.qr(np.random.RandomState(seed).randn(n, n))
    return q * np.sign(np.diag(r))


def spd(n, seed, scale=1.0):
    X = np.random.RandomState(seed).randn(n, n)
    return scale * X.dot(X.T)


def hadamard4():
    return 0.5 * np.array([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1.]])


# --- likelihood kernels: name -> PSD matrix ------------------------------------

def L_kernels(nmax=4):
    S = core.SEED
    out = {}
    out['n1'] = np.array([[0.7]])
    out['diag12'] = np.diag([1.0, 2.0])
    out['diag0123'] = np.diag([0.0, 1.0, 2.0, 3.0])
    out['eye3'] = np.eye(3)
    out['ones2'] = np.ones((2, 2))
    out['ones3'] = 0.5 * np.ones((3, 3))
    out['block'] = la.block_diag([[2.0, 1.0], [1.0, 2.0]], [[0.5]])
    out['neg3'] = np.array([[2., -1., 0.], [-1., 2., -1.], [0., -1., 2.]])
    out['rnd3'] = spd(3, 1)
    out['rnd3s'] = spd(3, 1000 + S)
    out['rnd4'] = spd(4, 2)
    X = np.random.RandomState(3).randn(2, 4)
    out['rank2of4'] = X.T.dot(X)
    X = np.random.RandomState(4).randn(1, 3)
    out['rank1of3'] = X.T.dot(X)
    U = hadamard4()
    out['repeat4'] = (U * [2.0, 2.0, 0.5, 0.5]).dot(U.T)
    out['big3'] = spd(3, 5, 1e3)
    out['small3'] = spd(3, 6, 1e-3)
    U = ortho(3, 7)
    out['spread3'] = (U * [100.0, 1.0, 0.01]).dot(U.T)
    out['spread3r'] = (U * [0.01, 1.0, 100.0]).dot(U.T)
    out['wide3'] = (ortho(3, 71) * [1e-4, 1.0, 2.0]).dot(ortho(3, 71).T)
    out['wide4'] = (ortho(4, 72) * [1e-5, 0.1, 10.0, 1e3]).dot(ortho(4, 72).T)
    out['rnd5'] = spd(5, 8)
    X = np.random.RandomState(9).randn(3, 5)
    out['rank3of5'] = X.T.dot(X)
    out['rnd6'] = spd(6, 81, 0.5)
    if core.THOROUGH:
        out['rnd5s'] = spd(5, 2000 + S)
        X = np.random.RandomState(91).randn(2, 6)
        out['rank2of6'] = X.T.dot(X)
        out['rnd7'] = spd(7, 82, 0.5)
        for k in range(6):
            out['rnd4_%d' % k] = spd(4, 100 * S + k)
            out['rnd3_%d' % k] = spd(3, 100 * S + 50 + k)
    return {k: (v + v.T) / 2 for k, v in out.items()}


def int_grams(nmax=3):
    """All distinct Gram matrices of n vectors in {-1,0,1}^2, n <= nmax."""
    seen = set()
    out = {}
    vecs = list(itertools.product((-1, 0, 1), repeat=2))
    for n in range(1, nmax + 1):
        for V in itertools.product(vecs, repeat=n):
            Phi = np.array(V, dtype=float).T          # 2 x n
            G = Phi.T.dot(Phi)
            key = (n, G.tobytes())
            if key in seen:
                continue
            seen.add(key)
            out['g%d_%d' % (n, len(out))] = Phi
    return out


# --- correlation kernels: name -> (eigenvalues, eigenvectors) ---------------------

def K_spectra():
    S = core.SEED
    out = {}
    out['n1'] = (np.array([0.3]), np.eye(1))
    out['half2'] = (np.array([0.5, 0.5]), ortho(2, 1))
    out['diag3'] = (np.array([0.1, 0.5, 0.9]), np.eye(3))
    out['mix3'] = (np.array([0.2, 0.5, 0.8]), ortho(3, 2))
    out['zero3'] = (np.array([0.0, 0.4, 0.7]), ortho(3, 3))
    out['one3'] = (np.array([0.3, 0.6, 1.0]), ortho(3, 4))
    out['zeroone4'] = (np.array([0.0, 0.25, 0.75, 1.0]), ortho(4, 5))
    out['rep4'] = (np.array([0.5, 0.5, 0.25, 0.25]), hadamard4())
    out['small3'] = (np.array([1e-3, 2e-3, 5e-3]), ortho(3, 6))
    out['high3'] = (np.array([0.99, 0.995, 0.999]), ortho(3, 7))
    out['rnd4'] = (np.array([0.15, 0.35, 0.55, 0.9]), ortho(4, 1000 + S))
    out['allzero2'] = (np.array([0.0, 0.0]), ortho(2, 8))
    out['desc3'] = (np.array([0.9, 0.4, 0.1]), ortho(3, 9))
    out['wide3'] = (np.array([1e-5, 0.5, 0.75]), ortho(3, 91))
    out['wide4'] = (np.array([0.2, 1e-4, 0.9995, 0.6]), ortho(4, 92))
    out['int3'] = (np.array([1.0, 0.0, 1.0]), np.eye(3))
    out['rnd5'] = (np.array([0.1, 0.3, 0.5, 0.7, 0.9]), ortho(5, 10))
    out['rnd6'] = (np.array([0.05, 0.85, 0.3, 0.45, 0.7, 0.95]), ortho(6, 93))
    if core.THOROUGH:
        out['rnd7'] = (np.linspace(0.1, 0.9, 7), ortho(7, 94))
        for k in range(4):
            r = np.random.RandomState(100 * S + k)
            out['rnd4_%d' % k] = (np.sort(r.rand(4)), ortho(4, 300 * S + k))
    return out


def proj_bases():
    """Orthonormal bases (n x r) of row spaces defining projection kernels."""
    S = core.SEED
    out = {}
    out['n1r1'] = np.eye(1)
    out['n2r1'] = np.array([[0.6], [0.8]])
    out['n3r1'] = np.ones((3, 1)) / np.sqrt(3)
    out['n3r2'] = ortho(3, 1)[:, :2]
    out['n3r3'] = ortho(3, 2)
    out['n4r2'] = ortho(4, 3)[:, :2]
    out['n4r3'] = ortho(4, 4)[:, :3]
    out['n4r2s'] = ortho(4, 1000 + S)[:, :2]
    out['axis3r2'] = np.eye(3)[:, [0, 2]]                    # zero leverage item
    out['had4r2'] = hadamard4()[:, :2]
    out['red4r2'] = la.block_diag(np.ones((2, 1)) / np.sqrt(2), [[0.6], [0.8]])   # reducible
    out['one4r2'] = la.block_diag(np.eye(1), ortho(3, 5)[:, :1])                  # leverage one
    out['zero4r2'] = np.vstack([np.zeros((1, 2)), ortho(3, 6)[:, :2]])            # zero row first
    out['graphK3'] = np.linalg.qr(np.array([[1., -1, 0], [1, 0, -1], [0, 1, -1]])[:, :2])[0]
    out['n5r4'] = ortho(5, 9)[:, :4]
    out['axis4r3'] = np.eye(4)[:, [3, 0, 1]]
    out['near3r1'] = np.array([[1e-3], [0.6], [np.sqrt(1 - 0.36 - 1e-6)]])        # small leverage
    out['n5r2'] = ortho(5, 7)[:, :2]
    out['n5r3'] = ortho(5, 8)[:, :3]
    if core.THOROUGH:
        out['n6r5'] = ortho(6, 9)[:, :5]
        out['n6r3'] = ortho(6, 95)[:, :3]
        for k in range(4):
            out['n4r%d_%d' % (1 + k % 3, k)] = ortho(4, 400 * S + k)[:, :1 + k % 3]
    return out


def is_int(*Ms):
    return all(np.array_equal(M, np.round(M)) for M in Ms)


NOISE = 1e-12 * np.array([1., -1., 1., -1., 1., -1., 1., -1.])


def L_eig_forms(w, U):
    """Spectra with the roundoff of a numerical eigendecomposition, and integer dtypes."""
    out = {'L_eig_neg': dict(L_eig_dec=(np.where(w < 1e-9, -1e-12, w), U))}
    if is_int(w, U):
        out['L_eig_int'] = dict(L_eig_dec=(w.astype(int), U.astype(int)))
    return out


def K_forms(w, U):
    K = (U * w).dot(U.T)
    K = (K + K.T) / 2
    out = {'K': dict(K=K), 'K_eig_dec': dict(K_eig_dec=(w, U))}
    edge = (w < 1e-9) | (w > 1 - 1e-9)
    if edge.any():
        for s in (1, -1):
            out['K_eig_noise%+d' % s] = dict(K_eig_dec=(w + s * edge * NOISE[:len(w)], U))
    if is_int(K):
        out['K_int'] = dict(K=K.astype(int))
    if is_int(w, U):
        out['K_eig_int'] = dict(K_eig_dec=(w.astype(int), U.astype(int)))
    return out


def proj_forms(V):
    """name -> (params, eigen decomposition available, kernel available) of the projection on range(V)."""
    n, r = V.shape
    K = V.dot(V.T)
    K = (K + K.T) / 2
    full = np.linalg.qr(np.hstack([V, np.random.RandomState(0).randn(n, n)]))[0][:, :n]
    full[:, :r] = V
    ev = np.array([1.0] * r + [0.0] * (n - r))
    perm = np.random.RandomState(1).permutation(n)
    A = np.random.RandomState(2).randn(r, r).dot(V.T) if r > 1 else 2.5 * V.T
    out = {'K': dict(K=K), 'K_eig_dec': dict(K_eig_dec=(ev, full)),
           'K_eig_dec_perm': dict(K_eig_dec=(ev[perm], full[:, perm])),
           'K_eig_dec_thin': dict(K_eig_dec=(np.ones(r), V)),
           'K_eig_noise+1': dict(K_eig_dec=(ev + NOISE[:n], full)),
           'K_eig_noise-1': dict(K_eig_dec=(ev[perm] - NOISE[:n], full[:, perm])),
           'K_noise': dict(K=K + 1e-14 * np.random.RandomState(4).randn(n, n)),
           'A_zono': dict(A_zono=A)}
    if is_int(K):
        out['K_int'] = dict(K=K.astype(int))
    if is_int(V):
        out['K_eig_int'] = dict(K_eig_dec=(np.ones(r, dtype=int), V.astype(int)))
        out['A_int'] = dict(A_zono=np.ascontiguousarray(V.T.astype(int)))
    return out


def canon_set(s):
    """Outcome of a finite-DPP sampler: sorted tuple of ints, duplicates kept."""
    if s is None:
        return ('NONE',)
    out = []
    for x in s:
        if isinstance(x, (bool, np.bool_)) or int(x) != x:
            return ('NOT-INT', repr(s)[:80])
        out.append(int(x))
    return tuple(sorted(out))


def canon_seq(s):
    return ('NONE',) if s is None else tuple(int(x) for x in s)
