"""C11: vfx and alpha intermediate samplers draw exactly from the DPP."""
import itertools

import numpy as np

from mc import engine, zoo
from mc.core import Case, SEED, THOROUGH

RULE = ('every outcome of the dictionary preprocessing (BLESS) is enumerated on the real code; for every dictionary so '
        'reached every outcome of one rejection round (Poisson size, item draws, acceptance, inner exact sampler) is '
        'enumerated and the law conditional on acceptance compared with the DPP law; also end to end and after every '
        'other sampling call on the same object')
BOUNDS = ('ground sets of size 1..3 (4 thorough), one rejection round (the rounds are independent), Poisson tails cut at '
          '1e-7..1e-5 with the cut mass accounted for')
ASSUMPTIONS = ['RandomState draws have their documented laws', 'rejection rounds are driven by identical code, so the law '
               'of the first accepted round is the law conditional on acceptance in one round']
MAXE = 150000 if THOROUGH else 6000
REJ = 'maximum number of rejections'


def lin(X, Y=None):
    X = np.atleast_2d(X)
    Y = X if Y is None else np.atleast_2d(Y)
    return X.dot(Y.T)


def kernels():
    X = np.random.RandomState(SEED + 5).randn(3, 3)
    out = {
        'one': np.array([[0.9]]),
        'two': np.array([[0.8, 0.1], [0.3, 0.7]]),
        'twodep': np.array([[0.7, 0.2], [0.7, 0.2]]),
        'three': np.array([[0.6, 0.1, 0.0], [0.2, 0.5, 0.3], [-0.1, 0.3, 0.6]]),
        'threerank2': np.array([[0.6, 0.1], [0.2, 0.5], [-0.1, 0.6]]),
        'orth': 0.7 * np.eye(3),
        'int2': np.array([[1, 0], [0, 1]]),
        'rnd': 0.9 * X / np.linalg.norm(X, axis=1).max(),
    }
    if THOROUGH:
        out['four'] = 0.5 * np.random.RandomState(3).randn(4, 3)
    return out


def fresh(X):
    from dppy.finite_dpps import FiniteDPP
    return FiniteDPP('likelihood', L_eval_X_data=(lin, X))


def conditional(rec, L, target, what, tail, allow_none=False):
    """Compare the law conditional on acceptance with target; anything but a rejection is judged."""
    if L is None:
        return
    ok = {o: p for o, p in L.p.items() if not (o[:1] == ('EXC',))}
    for o, p in L.p.items():
        if o[:1] == ('EXC',) and not (o[1] == 'ValueError' and REJ in o[2]):
            return rec.bad(what + '/raise', 'raised %s with probability %.3g' % (o[1:], p), path=L.traces.get(o))
    z = sum(ok.values())
    if z <= 1e-4:
        if not allow_none:
            rec.undecided.append('acceptance mass %.3g only' % z)
        return
    C = engine.Law({o: p / z for o, p in ok.items()}, 0.0, L.stats, L.traces)
    rec.compare(C, target, what, tol=1e-6 + 4 * L.residual / z)
    rec.residual = max(rec.residual, L.residual)


def policy(tail):
    return {'poisson_tail': tail}


ARGS = dict(verbose=False, max_iter=1, rls_oversample_bless=40.0)


def dictionaries(rec, mode, X, over):
    """All cached preprocessing results reachable from the random draws, as objects with that cache."""
    found = {}

    def prog(rng):
        o = fresh(X)
        from dppy import intermediate_sampling as isa
        f = isa.vfx_sampling_precompute_constants if mode == 'vfx' else isa.alpha_dpp_sampling_precompute_constants
        kw = {'rls_oversample_dppvfx' if mode == 'vfx' else 'rls_oversample_alphadpp': over}
        info = f(X, lin, rng, rls_oversample_bless=40.0, verbose=False, **kw)
        key = tuple(int(i) for i in info.dict_alphadpp.idx) if mode == 'alpha' else info.rls_estimate.tobytes()
        found.setdefault(key, info)
        return key
    L = rec.law(prog)
    return found, L


def per_dictionary(rec, mode, X, over, tail, setter):
    infos, L = dictionaries(rec, mode, X, over)
    target = zoo.law_L(lin(X))
    n = 0
    for key, info in sorted(infos.items(), key=lambda t: repr(t[0])):
        scale = info.alpha_star if mode == 'vfx' else info.alpha_hat
        if abs(scale - 1.0) > 0:
            return rec.bad('scale', 'no target size requested but rescaling %r' % scale)
        from dppy import exact_sampling as es
        f = es.dpp_vfx_sampler if mode == 'vfx' else es.alpha_dpp_sampler
        if mode == 'vfx':
            info = info._replace(q=setter(info.s))
        else:
            info = info._replace(r=setter(info.deff_alpha_L_hat))

        def prog(rng):
            s, _ = f(info, X, lin, random_state=rng, verbose=False, max_iter=1)
            return zoo.canon_set(s)
        conditional(rec, rec.law(prog, policy=policy(tail), max_exec=MAXE), target, 'dictionary', tail)
        n += 1
        if rec.violations:
            rec.violations[-1]['msg'] = 'dictionary %r: %s' % (key, rec.violations[-1]['msg'])
            return
    rec.evals += n


def end_to_end(rec, mode, X, tail, hist, kw):
    o0 = fresh(X)
    for h in hist:
        try:
            h(o0)
        except ValueError:
            pass
    import copy

    def prog(rng):
        o = copy.deepcopy(o0)
        s = o.sample_exact(mode=mode, random_state=rng, **dict(ARGS, **kw))
        if o.list_of_samples[-1] != s:
            return ('RECORD',)
        return zoo.canon_set(s)
    conditional(rec, rec.law(prog, policy=policy(tail), max_exec=MAXE), zoo.law_L(lin(X)), 'law', tail)


def histories():
    kw = dict(verbose=False, rls_oversample_bless=40.0)

    def r(s):
        return np.random.RandomState(s)
    return {
        'vfx': lambda o: o.sample_exact(mode='vfx', random_state=r(1), **kw),
        'alpha': lambda o: o.sample_exact(mode='alpha', random_state=r(2), **kw),
        'kvfx': lambda o: o.sample_exact_k_dpp(size=1, mode='vfx', random_state=r(3), **kw),
        'kalpha': lambda o: o.sample_exact_k_dpp(size=1, mode='alpha', random_state=r(4), **kw),
        'vfxsize': lambda o: o.sample_exact(mode='vfx', desired_expected_size=0.25, random_state=r(5), **kw),
        'GS': lambda o: o.sample_exact(random_state=r(6)),
        'kGS': lambda o: o.sample_exact_k_dpp(size=1, random_state=r(7)),
        'flush': lambda o: o.flush_samples(),
        'fail': lambda o: o.sample_exact(mode='vfx', max_iter=0, random_state=r(8), **kw),
        'failk': lambda o: o.sample_exact_k_dpp(size=99, mode='vfx', random_state=r(9), **kw),
    }


def target_size(rec, mode, X, size, tail):
    """With a target expected size the law is the DPP of the rescaled kernel announced by the sampler."""
    found = {}

    def prog(rng):
        from dppy import exact_sampling as es
        f = es.dpp_vfx_sampler if mode == 'vfx' else es.alpha_dpp_sampler
        s, info = f(None, X, lin, random_state=rng, desired_expected_size=size, **ARGS)
        a = info.alpha_star if mode == 'vfx' else info.alpha_hat
        return (round(float(a), 10),) + zoo.canon_set(s)
    L = rec.law(prog, policy=policy(tail), max_exec=MAXE)
    if L is None:
        return
    scales = {o[0] for o in L.p if o[0] != 'EXC'}
    if not scales:
        exc = [o for o in L.p]
        return rec.bad('refused', 'every outcome raised: %s' % exc[:2]) if not any(REJ in o[2] for o in exc) else None
    for a in scales:
        sub = {(o[1:] if o[0] == a else o): p for o, p in L.p.items() if o[0] in (a,)}
        conditional(rec, engine.Law(sub, L.residual, L.stats, {}), zoo.law_L(a * lin(X)), 'rescaled', tail)
        if not 0 < a <= 1:
            rec.bad('rescaled/scale', 'announced rescaling %r' % a)


def defaults(rec, n, scale):
    """Any data set size with the default parameters: the sampler must work (seeded runs)."""
    X = scale * np.random.RandomState(n).randn(n, 3)
    from mc.core import attempt
    for mode in ('vfx', 'alpha'):
        for s in range(3):
            o = fresh(X)
            a = attempt(o.sample_exact, mode=mode, random_state=s + SEED, verbose=False)
            rec.evals += 1
            rec.stats['states'] += 1
            rec.stats['transitions'] += 1
            if a[0] != 'ok' and not (a[1] == 'ValueError' and (REJ in a[2] or 'reconsider your kernel' in a[2]
                                                               or 'increase rls_oversample' in a[2])):
                return rec.bad('default/%s' % mode, 'n=%d: %s' % (n, a[1:]))


def cases():
    tail = 1e-7
    for kn, X in kernels().items():
        n = len(X)
        t = (tail if n < 3 else 1e-6) if THOROUGH else 1e-5
        if n <= 2:
            for mode in ('vfx', 'alpha'):
                yield Case('e2e/%s/%s' % (kn, mode), end_to_end, mode, X, t, (), {}, cost=50)
        for mode in ('vfx', 'alpha'):
            for over in (3.0, 20.0):
                for qn, q in (('s', lambda s: s), ('1', lambda s: 1.0), ('1.3s', lambda s: 1.3 * s), ('ss', lambda s: s * s)):
                    if n == 3 and qn != ('s' if mode == 'vfx' else '1') and not THOROUGH:
                        continue
                    if n == 2 and qn == 'ss' and not THOROUGH:
                        continue
                    if mode == 'alpha' and (qn == 'ss' or (n == 3 and over == 3.0 and not THOROUGH)):
                        continue  # r < 0.25: acceptance below 1e-5
                    yield Case('dict/%s/%s/%g/%s' % (kn, mode, over, qn), per_dictionary, mode, X, over, t, q,
                               cost=100 * n)
    X = kernels()['two']
    H = histories()
    for mode in ('vfx', 'alpha'):
        for h1 in H:
            for h2 in [None] + list(H):
                if h2 is not None and not THOROUGH and (h2 not in ('kvfx', 'kalpha', 'vfxsize')
                                                      or h1 not in ('vfx', 'alpha', 'kvfx', 'kalpha', 'flush')):
                    continue
                seq = (h1,) if h2 is None else (h1, h2)
                yield Case('hist/%s/%s' % (mode, '+'.join(seq)), end_to_end, mode, X, 1e-6 if THOROUGH else 1e-4, tuple(H[h] for h in seq),
                           {'r_func': lambda r: 1.0},
                           cost=30)
        for size in (0.2, 0.5):
            yield Case('size/%s/%g' % (mode, size), target_size, mode, X, size, 1e-6 if THOROUGH else 1e-5, cost=50)
    for n in (1, 2, 3, 4, 5, 8, 15, 40):
        for scale in (0.3, 1.0, 5.0):
            yield Case('default/%d/%g' % (n, scale), defaults, n, scale, cost=5)
