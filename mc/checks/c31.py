"""C31: a target expected size given to the intermediate samplers is met, with the leverage scores and constants of the dictionary."""
import itertools

import numpy as np

from mc.core import Case, THOROUGH
from mc.checks.c11 import kernels, lin

RULE = ('every outcome of the random preprocessing (BLESS dictionary and its reduction) is enumerated on the real code for '
        'every data set, target size and oversampling of a grid, and the rescaling, leverage scores, total mass and '
        'normalisation constants announced for each of them are compared with their definitions for the dictionary used')
BOUNDS = 'data sets of 1..4 points, 7 target sizes, 3 oversampling parameters'
ASSUMPTIONS = ['RandomState draws have their documented laws']
TOL = 1e-7
SIZES = (None, 0.05, 0.3, 0.6, 1.0, 1.5, 2.5)


def size_of(L):
    w = np.linalg.eigvalsh(L)
    return float((w / (1 + w)).sum())


def marginals(L):
    return np.diag(L.dot(np.linalg.inv(np.eye(len(L)) + L)))


def nystrom(L, D):
    D = list(D)
    return L[:, D].dot(np.linalg.pinv(L[np.ix_(D, D)], rcond=1e-10, hermitian=True)).dot(L[D, :])


def vfx_reference(L, D, alpha):
    H = nystrom(L, D)
    l = alpha * np.diag(L - H) + marginals(alpha * H)
    return l, np.linalg.slogdet(np.eye(len(L)) + alpha * H)[1], size_of(alpha * H)


def natural(L, D):
    return float(vfx_reference(L, D, 1.0)[0].sum())


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool((np.abs(a - b) <= TOL * (1 + np.abs(b))).all())


def explore(rec, f, X, size, kw):
    """Every outcome of the preprocessing: list of infos, list of refusals."""
    infos, refusals = [], []

    def prog(rng):
        try:
            info = f(X, lin, rng, desired_expected_size=size, verbose=False, **kw)
        except ValueError as e:
            refusals.append(str(e))
            return ('ref', str(e)[:40])
        infos.append(info)
        return ('ok',)
    rec.law(prog)
    rec.evals += len(infos) + len(refusals)
    return infos, refusals


TOO_BIG = ('smaller than the desired', 'larger than 1 (i.e.')
RETRY = ('No point selected', 'Estimated deff')


def vfx(rec, X, over, size):
    from dppy.intermediate_sampling import vfx_sampling_precompute_constants as f
    L = lin(X)
    n = len(L)
    K = marginals(L)
    infos, refusals = explore(rec, f, X, size, dict(rls_oversample_dppvfx=over, rls_oversample_bless=40.0))
    subsets = [D for r in range(1, n + 1) for D in itertools.combinations(range(n), r)]
    for msg in refusals:
        if any(m in msg for m in RETRY):
            continue
        if not any(m in msg for m in TOO_BIG):
            return rec.bad('raise', 'refused with %r' % msg)
        if size is None or size < size_of(L) - 1e-6:
            return rec.bad('refused', 'target size %s refused although the DPP has expected size %.6g' % (size, size_of(L)))
    for info in infos:
        a = float(info.alpha_star)
        l = np.asarray(info.rls_estimate, float)
        if size is None:
            if a != 1.0:
                return rec.bad('scale', 'no target size, rescaling %r' % a)
        else:
            if not 0 < a <= 1:
                return rec.bad('scale', 'rescaling %r for target size %g' % (a, size))
            if not abs(float(info.s) - size) <= 1e-6:
                return rec.bad('target', 'target size %g, announced %r' % (size, info.s))
            if size_of(a * L) > size + 1e-6:
                return rec.bad('target', 'target size %g, the rescaled DPP has expected size %g' % (size, size_of(a * L)))
        if l.shape != (n,) or not close(l.sum(), info.s):
            return rec.bad('mass', 'leverage scores %s, mass %r' % (l, info.s))
        if not (l >= 0).all() or float(info.s) < size_of(a * L) - 1e-7:
            return rec.bad('dominate', 'leverage scores %s sum below the true expected size %g (rescaling %g)' % (
                l, size_of(a * L), a))
        for D in subsets:
            if size is not None and natural(L, D) <= size:
                continue
            rl, ld, z = vfx_reference(L, D, a)
            if close(l, rl) and close(info.logdet_I_A, ld) and close(info.z, z):
                break
        else:
            return rec.bad('constants', 'no dictionary explains scores %s, logdet %r, z %r at rescaling %g' % (
                l, info.logdet_I_A, info.z, a))


def full_dictionary(rec, X, size):
    """With every point in the dictionary the target is met exactly, or refused exactly when it exceeds the natural size."""
    from dppy import intermediate_sampling as isa
    L = lin(X)
    for mode, f, kw in (('vfx', isa.vfx_sampling_precompute_constants, dict(rls_oversample_dppvfx=1e9, rls_oversample_bless=1e9)),
                        ('alpha', isa.alpha_dpp_sampling_precompute_constants,
                         dict(rls_oversample_alphadpp=1e9, rls_oversample_bless=1e9))):
        infos, refusals = explore(rec, f, X, size, kw)
        nat = size_of(L)
        for msg in refusals:
            if any(m in msg for m in RETRY):
                continue
            if not any(m in msg for m in TOO_BIG) or size is None or size < nat - 1e-6:
                return rec.bad('full/%s/refused' % mode, 'size %s of natural size %.6g: %r' % (size, nat, msg))
        for info in infos:
            a = float(info.alpha_star if mode == 'vfx' else info.alpha_hat)
            if size is None:
                want = nat
                if a != 1.0:
                    return rec.bad('full/%s/scale' % mode, 'rescaling %r without target' % a)
            else:
                want = size
                if size > nat + 1e-6:
                    return rec.bad('full/%s/accepted' % mode, 'size %g above natural size %.6g accepted with rescaling %g' % (
                        size, nat, a))
            if not abs(size_of(a * L) - want) <= 1e-6:
                return rec.bad('full/%s/target' % mode, 'target %g, expected size %g' % (want, size_of(a * L)))
            if mode == 'vfx':
                if not close(info.rls_estimate, marginals(a * L)):
                    return rec.bad('full/vfx/scores', '%s, expected %s' % (info.rls_estimate, marginals(a * L)))
            else:
                D = info.dict_alphadpp
                r = isa.estimate_rls_from_weighted_dict_eigendecomp(X, lin, D, info.eigvecs_L_hat, info.eigvals_L_hat, a)
                if not close(r, marginals(a * L)):
                    return rec.bad('full/alpha/scores', '%s, expected %s' % (r, marginals(a * L)))
                if not close(info.deff_alpha_L_hat, want):
                    return rec.bad('full/alpha/deff', '%r, expected %g' % (info.deff_alpha_L_hat, want))


def alpha(rec, X, over, size):
    from dppy import intermediate_sampling as isa
    L = lin(X)
    n = len(L)
    infos, refusals = explore(rec, isa.alpha_dpp_sampling_precompute_constants, X, size,
                              dict(rls_oversample_alphadpp=over, rls_oversample_bless=40.0))
    for msg in refusals:
        if any(m in msg for m in RETRY):
            continue
        if size is None or not any(m in msg for m in TOO_BIG):
            return rec.bad('raise', 'size %s refused with %r' % (size, msg))
    for info in infos:
        a, D = float(info.alpha_hat), info.dict_alphadpp
        idx, p = np.asarray(D.idx, int), np.asarray(D.probs, float)
        if not (np.array_equal(D.X, X[idx]) and (p > 0).all() and (p <= 1 + 1e-12).all()):
            return rec.bad('dictionary', 'items %s with probabilities %s' % (idx, p))
        H = L[np.ix_(idx, idx)] / np.sqrt(np.outer(p, p))
        w = np.sort(np.linalg.eigvalsh(H))
        got = np.sort(np.asarray(info.eigvals_L_hat, float))
        if len(got) > len(w) or not close(got, w[len(w) - len(got):]) or (w[:len(w) - len(got)] > 1e-6).any():
            return rec.bad('spectrum', 'spectrum %s, expected %s' % (got, w))
        V = np.asarray(info.eigvecs_L_hat, float)
        if not close((V * info.eigvals_L_hat).dot(V.T), H):
            return rec.bad('spectrum', 'eigendecomposition does not give back the reweighted kernel of %s' % idx)
        if not 0 < a <= 1 or (size is None and a != 1.0):
            return rec.bad('scale', 'rescaling %r for target size %s' % (a, size))
        deff = size_of(a * H)
        if size is not None and not abs(deff - size) <= 1e-6:
            return rec.bad('target', 'target size %g, estimated size %g at rescaling %g' % (size, deff, a))
        if not close(info.deff_alpha_L_hat, deff):
            return rec.bad('deff', 'announced %r, is %r' % (info.deff_alpha_L_hat, deff))
        if size is None and not (info.alpha_min == info.alpha_max == 1.0 and info.k == -1):
            return rec.bad('range', '%r %r %r' % (info.alpha_min, info.alpha_max, info.k))
        if size is not None and not (0 < info.alpha_min <= info.alpha_max <= 1 + 1e-12 and info.k == size):
            return rec.bad('range', '%r %r %r' % (info.alpha_min, info.alpha_max, info.k))
        if not (close(info.diag_L, np.diag(L)) and close(info.rls_upper_bound, a * np.diag(L))
                and not np.any(info.rls_upper_bound_valid)):
            return rec.bad('bound', 'upper bounds %s for diagonal %s' % (info.rls_upper_bound, np.diag(L)))
        C = L[np.ix_(range(n), idx)] / np.sqrt(p)
        want = a * (np.diag(L) - a * np.einsum('ij,jk,ik->i', C, np.linalg.inv(np.eye(len(idx)) + a * H), C))
        if (want < -1e-12).any():
            continue  # numerically negative: refused by the code, see the message
        r = isa.estimate_rls_from_weighted_dict_eigendecomp(X, lin, D, info.eigvecs_L_hat, info.eigvals_L_hat, a)
        if not close(r, want):
            return rec.bad('scores', 'leverage scores %s, definition %s' % (r, want))
        if (r > a * np.diag(L) * (1 + 1e-9)).any():
            return rec.bad('bound', 'scores %s above the bound %s' % (r, a * np.diag(L)))


def cases():
    ks = dict(kernels())
    ks['big'] = 5.0 * ks['three']
    ks['hundred'] = 100.0 * ks['three']
    ks['four'] = 0.5 * np.random.RandomState(3).randn(4, 3)
    ks['four2'] = np.vstack([ks['three'], ks['three'][1]])
    ks['rank1'] = np.array([[1.5], [0.5], [-1.0]])
    ks['bigone'] = np.array([[7.0]])
    for kn, X in ks.items():
        for size in SIZES:
            yield Case('full/%s/%s' % (kn, size), full_dictionary, X, size, cost=2)
            for over in (1.5, 3.0, 20.0):
                if len(X) > 3 and over < 20 and size not in (None, 0.3, 1.0) and not THOROUGH:
                    continue
                yield Case('vfx/%s/%g/%s' % (kn, over, size), vfx, X, over, size, cost=5 * len(X) ** 2)
                yield Case('alpha/%s/%g/%s' % (kn, over, size), alpha, X, over, size, cost=5 * len(X) ** 2)
