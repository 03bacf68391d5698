"""C07: correlation and likelihood kernels computed on demand are consistent."""
import copy

import numpy as np

from mc import engine, objs, zoo
from mc.checks.c01 import L_params, linear
from mc.core import Case, SEED, THOROUGH, attempt
from mc.objs import Desc, Op

RULE = ('explicit-state search over all operation sequences (states = object attributes) of FiniteDPP objects for '
        'every description; in every reachable state the kernels present are compared with the described ones, '
        'both kernels are requested in both orders, and no operation may change a kernel already known')
BOUNDS = ('all zoo kernels of size <= 4 (5 thorough) and all Gram matrices of <= 3 integer vectors, 15 operations, '
          'BFS to the fixpoint (<= 400 states)')
ASSUMPTIONS = ['history operations are driven by a fixed seed', 'relative tolerance 1e-6 on kernels']


def descs():
    out = []
    for kn, L in zoo.L_kernels().items():
        K = L.dot(np.linalg.inv(np.eye(len(L)) + L))
        for pn, pr in L_params(L).items():
            out.append(Desc('L/%s/%s' % (kn, pn), 'likelihood', False, pr, K, L))
    for kn, Phi in zoo.int_grams(3).items():
        L = Phi.T.dot(Phi)
        K = L.dot(np.linalg.inv(np.eye(len(L)) + L))
        for pn, pr in (('gram', dict(L_gram_factor=Phi)), ('L', dict(L=L)),
                       ('eval', dict(L_eval_X_data=(linear, np.ascontiguousarray(Phi.T)))),
                       ('gram_int', dict(L_gram_factor=Phi.astype(int)))):
            if pn == 'gram' or THOROUGH:
                out.append(Desc('int/%s/%s' % (kn, pn), 'likelihood', False, pr, K, L))
    for kn, (w, U) in zoo.K_spectra().items():
        K = (U * w).dot(U.T)
        K = (K + K.T) / 2
        L = None if w.max() > 0.9999 else (U * (w / (1 - w))).dot(U.T)
        for pn, pr in zoo.K_forms(w, U).items():
            if 'noise' in pn and L is None:
                continue        # 1 - 1e-12 is either one up to roundoff or not: both answers are correct
            out.append(Desc('K/%s/%s' % (kn, pn), 'correlation', False, pr, K, L))
    # rank-one perturbations of the identity: several eigenvalues exactly one
    for n in (2, 3, 4):
        for s in range(3 if not THOROUGH else 8):
            U = zoo.ortho(n, 900 + s + 10 * SEED)
            w = np.ones(n)
            w[: n // 2] = 0.5
            K = (U * w).dot(U.T)
            out.append(Desc('K/ones%d_%d/K' % (n, s), 'correlation', False, dict(K=(K + K.T) / 2), K, None))
    for kn, V in zoo.proj_bases().items():
        n, r = V.shape
        K = V.dot(V.T)
        K = (K + K.T) / 2
        full = np.linalg.qr(np.hstack([V, np.random.RandomState(0).randn(n, n)]))[0][:, :n]
        full[:, :r] = V
        ev = np.array([1.0] * r + [0.0] * (n - r))
        forms = zoo.proj_forms(V)
        A = forms['A_zono']['A_zono']
        for pn, pr in forms.items():
            out.append(Desc('P/%s/%s' % (kn, pn), 'correlation', True, pr, K, None))
        out.append(Desc('P/%s/A_zono_np' % kn, 'correlation', False, dict(A_zono=A), K, None))
        KL = K.dot(np.linalg.inv(np.eye(n) + K))
        for pn, pr in (('L', dict(L=K)), ('L_eig_dec', dict(L_eig_dec=(ev, full))), ('gram', dict(L_gram_factor=V.T))):
            out.append(Desc('LP/%s/%s' % (kn, pn), 'likelihood', True, pr, KL, K))
    return out


def ops_for(d):
    M = d.L if d.L is not None else d.K
    kk = d.rank if d.L is None or d.rank < 2 else 2
    sk = max(zoo.subsets(d.n, kk), key=lambda S: zoo.minor(M, S))
    ops = [Op('exact:GS', lambda o, r: o.sample_exact(mode='GS', random_state=r)),
           Op('exact:Chol', lambda o, r: o.sample_exact(mode='Chol', random_state=r)),
           Op('k1', lambda o, r: o.sample_exact_k_dpp(size=1, random_state=r)),
           Op('kr', lambda o, r: o.sample_exact_k_dpp(size=d.rank, random_state=r)),
           Op('kr:Chol', lambda o, r: o.sample_exact_k_dpp(size=d.rank, mode='Chol', random_state=r)),
           Op('oversize', lambda o, r: o.sample_exact_k_dpp(size=d.rank + 1, random_state=r)),
           Op('AED', lambda o, r: o.sample_mcmc('AED', s_init=list(sk), nb_iter=2, random_state=r)),
           Op('E', lambda o, r: o.sample_mcmc_k_dpp(size=kk, s_init=list(sk), nb_iter=2, random_state=r)),
           Op('compute_K', lambda o, r: o.compute_K()),
           Op('compute_L', lambda o, r: o.compute_L()),
           Op('compute_Km', lambda o, r: o.compute_K(msg=True)),
           Op('flush', lambda o, r: o.flush_samples()),
           Op('info', lambda o, r: o.info())]
    return ops


def err(got, want):
    if not isinstance(got, np.ndarray) or got.shape != want.shape:
        return np.inf
    d = np.abs(got - want)
    return np.inf if np.isnan(d).any() else float(d.max() / max(1.0, np.abs(want).max()))


def explore(rec, d):
    ops = ops_for(d)

    def check(o, what):
        for nm, want in (('K', d.K), ('L', d.L)):
            got = getattr(o, nm)
            if got is None:
                continue
            if want is None:
                rec.bad('L-not-refused', '%s: an L kernel was announced although some eigenvalue of K is 1: %r'
                        % (what, np.round(got, 3).tolist()))
                return False
            e = err(got, want)
            if not e < 1e-6:
                rec.bad(nm, '%s: kernel %s is off by %g: %s' % (what, nm, e, np.round(got, 4).tolist()))
                return False
        return True

    for o, hist in objs.reachable(d, ops, 400):
        what = 'after %s' % (list(hist),)
        if not check(o, what):
            return
        for order in ('K', 'L', 'KL', 'LK', 'KLK'):
            c = copy.deepcopy(o)
            for w in order:
                known = {n: None if getattr(c, n) is None else getattr(c, n).copy() for n in 'KL'}
                a = attempt(getattr(c, 'compute_' + w))
                rec.evals += 1
                if w == 'L' and d.L is None:
                    if a[0] == 'ok':
                        rec.bad('L-not-refused', '%s: compute_L accepted although some eigenvalue of K is 1' % what)
                        return
                elif a[0] != 'ok':
                    rec.bad('failed', '%s, order %s: compute_%s raised %s' % (what, order, w, a[1:]))
                    return
                elif getattr(c, w) is None:
                    rec.bad('failed', '%s: compute_%s computed nothing' % (what, w))
                    return
                for n, v in known.items():
                    if v is not None and not np.array_equal(v, getattr(c, n)):
                        rec.bad('changed', '%s: compute_%s changed the known kernel %s' % (what, w, n))
                        return
                if not check(c, what + ', then ' + order):
                    return
        # every operation keeps the kernels already known
        if o.K is not None or o.L is not None:
            for op in ops:
                c = copy.deepcopy(o)
                attempt(op.f, c, np.random.RandomState(0))
                rec.evals += 1
                for n in 'KL':
                    v = getattr(o, n)
                    if v is not None and not np.array_equal(v, getattr(c, n)):
                        rec.bad('changed', '%s: %s changed the known kernel %s' % (what, op.name, n))
                        return
    n, tr, complete = objs.reachable.last
    rec.stats['states'] += n
    rec.stats['transitions'] += tr
    rec.replayed += n
    if not complete:
        rec.undecided.append('state bound reached')
    rec.sample({'case': d.name, 'reachable_states': n, 'transitions': tr})


def cases():
    for d in descs():
        yield Case(d.name, explore, d, cost=d.n)
