"""C01: exact finite-DPP sampling has exactly the DPP law."""
import numpy as np

from mc import zoo
from mc.core import Case, THOROUGH

RULE = ('every random outcome of FiniteDPP.sample_exact is enumerated on the real code for each '
        '(kernel, parametrization, mode); the exact outcome law is compared with det(L_S)/det(I+L), '
        'resp. |det(K - I_{S^c})|')
BOUNDS = 'ground sets of size <= 4 (5 in thorough); all Gram matrices of <=3 vectors of {-1,0,1}^2'
ASSUMPTIONS = ['RandomState draws have their documented laws', 'float tolerance 1e-8 on probabilities']

EIG_MODES = ('GS', 'GS_bis', 'KuTa12')
MODES = EIG_MODES + ('Chol',)


def linear(X, Y=None):
    return X.dot((X if Y is None else Y).T)


def psd_factor(L):
    w, U = np.linalg.eigh(L)
    return (U * np.sqrt(np.maximum(w, 0))).T       # Phi with L = Phi^T Phi, d = n


def rank_factor(L, tol=1e-9):
    w, U = np.linalg.eigh(L)
    keep = w > tol * max(1.0, w.max())
    return (U[:, keep] * np.sqrt(w[keep])).T


def L_params(L):
    w, U = np.linalg.eigh(L)
    w = np.maximum(w, 0.0)
    Phi = rank_factor(L)
    out = {'L': dict(L=L), 'L_eig_dec': dict(L_eig_dec=(w, U)),
           'gram_d=N': dict(L_gram_factor=psd_factor(L)),
           'eval_L': dict(L_eval_X_data=(linear, psd_factor(L).T))}
    if 0 < len(Phi) < len(L):
        out['gram_d<N'] = dict(L_gram_factor=Phi)
        # wide factor with redundant (linearly dependent) rows: rank-deficient dual kernel
        if len(Phi) + 1 < len(L):
            out['gram_d<N_dep'] = dict(L_gram_factor=np.vstack([Phi[0] * 0.6, Phi[0] * 0.8, Phi[1:]]))
    out.update(zoo.L_eig_forms(w, U))
    if zoo.is_int(L):
        out['L_int'] = dict(L=np.round(L).astype(int))
        if zoo.is_int(w, U):
            out['L_eig_int'] = dict(L_eig_dec=(w.astype(int), U.astype(int)))
    big = np.vstack([0.6 * psd_factor(L), 0.8 * psd_factor(L)])
    out['gram_d>N'] = dict(L_gram_factor=big)
    return out


def one(rec, ktype, proj, params, mode, target):
    from dppy.finite_dpps import FiniteDPP

    def prog(rng):
        dpp = FiniteDPP(ktype, projection=proj, **params)
        return zoo.canon_set(dpp.sample_exact(mode=mode, random_state=rng))
    rec.check_law(prog, target)


def cases():
    for kn, L in zoo.L_kernels().items():
        t = zoo.law_L(L)
        for pn, pr in L_params(L).items():
            for m in MODES:
                yield Case('L/%s/%s/%s' % (kn, pn, m), one, 'likelihood', False, pr, m, t, cost=len(L) ** 3)
    for kn, Phi in zoo.int_grams(3 if not THOROUGH else 3).items():
        L = Phi.T.dot(Phi)
        t = zoo.law_L(L)
        for pn, pr in (('gram', dict(L_gram_factor=Phi)), ('L', dict(L=L)),
                       ('eval_L', dict(L_eval_X_data=(linear, np.ascontiguousarray(Phi.T)))),
                       ('gram_int', dict(L_gram_factor=Phi.astype(int))), ('L_int', dict(L=L.astype(int))),
                       ('eval_L_int', dict(L_eval_X_data=(linear, np.ascontiguousarray(Phi.T.astype(int)))))):
            for m in (MODES if THOROUGH or pn == 'gram_int' else (('GS', 'Chol') if pn == 'gram' else ('GS',))):
                yield Case('int/%s/%s/%s' % (kn, pn, m), one, 'likelihood', False, pr, m, t)
    for kn, (w, U) in zoo.K_spectra().items():
        K = (U * w).dot(U.T)
        K = (K + K.T) / 2
        t = zoo.law_K(K)
        for pn, pr in zoo.K_forms(w, U).items():
            for m in MODES:
                yield Case('K/%s/%s/%s' % (kn, pn, m), one, 'correlation', False, pr, m, t, cost=len(K) ** 3)
    for kn, V in zoo.proj_bases().items():
        n, r = V.shape
        K = V.dot(V.T)
        K = (K + K.T) / 2
        t = zoo.law_K(K)
        for pn, pr in zoo.proj_forms(V).items():
            if 'K' in pr:
                modes = ('GS', 'Chol', 'Schur')
            else:
                modes = EIG_MODES + (('Chol', 'Schur') if pn in ('K_eig_dec', 'A_zono', 'A_int') else ())
            for m in modes:
                yield Case('P/%s/%s/%s' % (kn, pn, m), one, 'correlation', True, pr, m, t, cost=n ** 3)
        tl = zoo.law_L(K)
        forms = zoo.proj_forms(V)
        for pn, pr in [(f.replace('K', 'L'), {q.replace('K', 'L'): v for q, v in forms[f].items()})
                       for f in ('K', 'K_eig_dec', 'K_int', 'K_eig_int') if f in forms]:
            for m in MODES:
                yield Case('LP/%s/%s/%s' % (kn, pn, m), one, 'likelihood', True, pr, m, tl, cost=n ** 3)
