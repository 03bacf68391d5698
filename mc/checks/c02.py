"""C02: exact k-DPP sampling has exactly the fixed-size law."""
import numpy as np

from mc import zoo
from mc.checks.c01 import EIG_MODES, L_params, linear
from mc.core import Case, THOROUGH

RULE = ('every random outcome of FiniteDPP.sample_exact_k_dpp is enumerated on the real code for each '
        '(kernel, parametrization, mode, size); the exact law is compared with det(L_S)/sum_T det(L_T); '
        'sizes beyond the rank must be refused on every path')
BOUNDS = 'ground sets of size <= 4 (5 in thorough), all sizes 1..N+1; all Gram matrices of <=3 vectors of {-1,0,1}^2'
ASSUMPTIONS = ['RandomState draws have their documented laws', 'float tolerance 1e-8 on probabilities']


def build(ktype, proj, params):
    from dppy.finite_dpps import FiniteDPP
    return FiniteDPP(ktype, projection=proj, **params)


def one(rec, ktype, proj, params, mode, k, target):
    def prog(rng):
        s = build(ktype, proj, params).sample_exact_k_dpp(size=k, mode=mode, random_state=rng)
        return zoo.canon_set(s)
    L = rec.law(prog)
    if L is None:
        return
    if target:
        rec.compare(L, target, tol=1e-7)
    else:
        for o, p in L.p.items():
            if o[:1] != ('EXC',) and p > 1e-12:
                rec.bad('refused', 'size %d is inadmissible but %r was returned' % (k, o), path=L.traces.get(o))


def rank_of(L):
    return int(np.linalg.matrix_rank(L, tol=1e-9 * max(1.0, np.abs(L).max())))


def cases():
    for kn, L in zoo.L_kernels().items():
        r = rank_of(L)
        for pn, pr in L_params(L).items():
            for m in EIG_MODES:
                for k in range(1, len(L) + 2):
                    t = zoo.law_kdpp(L, k) if k <= r else None
                    if t is None and pn == 'L_eig_neg' or len(L) > 5 and k not in (2, 3, len(L)):
                        continue
                    yield Case('L/%s/%s/%s/k%d' % (kn, pn, m, k), one, 'likelihood', False, pr, m, k, t,
                               cost=len(L) ** 3)
    for kn, Phi in zoo.int_grams(3).items():
        L = Phi.T.dot(Phi)
        r = rank_of(L)
        for pn, pr in (('gram', dict(L_gram_factor=Phi)), ('L', dict(L=L)),
                       ('eval_L', dict(L_eval_X_data=(linear, np.ascontiguousarray(Phi.T)))),
                       ('gram_int', dict(L_gram_factor=Phi.astype(int))), ('L_int', dict(L=L.astype(int))),
                       ('eval_L_int', dict(L_eval_X_data=(linear, np.ascontiguousarray(Phi.T.astype(int)))))):
            for m in (EIG_MODES if THOROUGH else ('GS',)):
                for k in range(1, min(len(L), r + 1) + 1):
                    t = zoo.law_kdpp(L, k) if k <= r else None
                    yield Case('int/%s/%s/%s/k%d' % (kn, pn, m, k), one, 'likelihood', False, pr, m, k, t)
    for kn, (w, U) in zoo.K_spectra().items():
        if w.max() > 0.9999:
            continue
        K = (U * w).dot(U.T)
        K = (K + K.T) / 2
        Lm = (U * (w / (1 - w))).dot(U.T)
        r = int((w > 1e-9).sum())
        for pn, pr in zoo.K_forms(w, U).items():
            for m in EIG_MODES:
                for k in range(1, len(K) + 2):
                    t = zoo.law_kdpp(Lm, k) if k <= r else None
                    if t is None and 'noise' in pn:
                        continue        # the roundoff decides
                    if r == 0 and k > 0:
                        continue        # the empty-spectrum DPP has no k-DPP at all: refusal form unspecified
                    yield Case('K/%s/%s/%s/k%d' % (kn, pn, m, k), one, 'correlation', False, pr, m, k, t,
                               cost=len(K) ** 3)
    for kn, V in zoo.proj_bases().items():
        n, r = V.shape
        K = V.dot(V.T)
        K = (K + K.T) / 2
        full = np.linalg.qr(np.hstack([V, np.random.RandomState(0).randn(n, n)]))[0][:, :n]
        full[:, :r] = V
        ev = np.array([1.0] * r + [0.0] * (n - r))
        forms = zoo.proj_forms(V)
        for k in range(1, n + 2):
            t = zoo.law_K(K) if k == r else None
            for pn, pr in forms.items():
                for m in (('GS', 'Chol', 'Schur') if 'K' in pr else EIG_MODES):
                    yield Case('P/%s/%s/%s/k%d' % (kn, pn, m, k), one, 'correlation', True, pr, m, k, t)
            tl = zoo.law_kdpp(K, k) if k <= r else None
            both = [(f.replace('K', 'L'), {q.replace('K', 'L'): v for q, v in forms[f].items()},
                     ('GS', 'Chol', 'Schur') if f == 'K_int' else EIG_MODES)
                    for f in ('K_int', 'K_eig_int') if f in forms]
            for pn, pr, modes in both + [('L', dict(L=K), ('GS', 'Chol', 'Schur')),
                                  ('L_eig_dec', dict(L_eig_dec=(ev, full)), EIG_MODES),
                                  ('L_gram', dict(L_gram_factor=V.T), ('GS', 'Chol', 'Schur'))]:
                for m in modes:
                    yield Case('LP/%s/%s/%s/k%d' % (kn, pn, m, k), one, 'likelihood', True, pr, m, k, tl)
