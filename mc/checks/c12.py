"""C12: k-DPP samples by intermediate sampling have exactly k items and the k-DPP law."""
import copy
import itertools

import numpy as np

from mc import engine, zoo
from mc.checks.c11 import conditional, histories, lin, policy, fresh, REJ
from mc.core import Case, SEED, THOROUGH, attempt

RULE = ('for every preprocessing result reachable from the random draws, every outcome of every rejection / size rejection '
        'round of the real sampler up to a number of trials is enumerated: every returned sample has k distinct items and the '
        'law conditional on success is the k-DPP; the trajectories of the rescaling search are enumerated exhaustively to '
        'greater depth with each inner draw replaced by its exact law at the rescaling in force; all sizes and failure points')
BOUNDS = ('ground sets of size 2..3, <= 3 size-rejection trials on the full code, <= 8 (14) trials of the search with exact '
          'inner laws on ground sets <= 4, Poisson tails cut with the cut mass accounted for')
ASSUMPTIONS = ['RandomState draws have their documented laws',
               'search trajectories: inner draws follow the DPP law at the announced rescaling (property C11)']
MAXE = 150000 if THOROUGH else 5000


def kernels():
    out = {
        'two': np.array([[1.6, 0.1], [0.3, 1.4]]),
        'orth2': 1.5 * np.eye(2),
        'three': np.array([[1.0, 0.1, 0.0], [0.2, 1.2, 0.3], [-0.1, 0.3, 0.9]]),
    }
    if THOROUGH:
        out['threerank2'] = np.array([[1.6, 0.1], [0.2, 1.5], [-1.0, 0.6]])
    return out


def infos(rec, mode, X, size, over):
    found = {}

    def prog(rng):
        from dppy import intermediate_sampling as isa
        f = isa.vfx_sampling_precompute_constants if mode == 'vfx' else isa.alpha_dpp_sampling_precompute_constants
        kw = {'rls_oversample_dppvfx' if mode == 'vfx' else 'rls_oversample_alphadpp': over}
        info = f(X, lin, rng, desired_expected_size=size, rls_oversample_bless=40.0, verbose=False, **kw)
        key = (round(float(info.alpha_star), 8),) + tuple(np.round(info.rls_estimate, 8)) if mode == 'vfx' else (
            tuple(int(i) for i in info.dict_alphadpp.idx) + (round(float(info.alpha_hat), 8),))
        found.setdefault(key, info)
        return key
    L = rec.law(prog)
    for o in (L.p if L is not None else ()):
        if o[:1] == ('EXC',) and not (o[1] == 'ValueError' and any(m in o[2] for m in OKERR)):
            rec.bad('precompute', 'preprocessing raised %s' % (o[1:],), path=L.traces.get(o))
    return found


OKERR = ('Increasing the expected sample size is currently not supported', 'The expected sample size is smaller',
         'try to increase rls_oversample', 'reconsider your kernel', REJ, 'maximum number of rejections')


def per_dictionary(rec, mode, X, size, over, trials, early, tail, factor):
    target = zoo.law_kdpp(lin(X), size)
    got = infos(rec, mode, X, size, over)
    if not got:
        return
    from dppy import exact_sampling as es
    for key, info in sorted(got.items(), key=lambda t: repr(t[0])):
        if mode == 'vfx':
            info = info._replace(q=factor * info.s)
            f = es.k_dpp_vfx_sampler
        else:
            info = info._replace(r=factor)
            f = es.alpha_k_dpp_sampler

        def prog(rng):
            s, new = f(size, info, X, lin, random_state=rng, verbose=False, max_iter=1,
                       max_iter_size_rejection=trials, early_stop=early)
            return zoo.canon_set(s)
        conditional(rec, rec.law(prog, policy=policy(tail), max_exec=MAXE), target, 'dictionary', tail,
                    allow_none=mode == 'alpha' and not early and trials < 3)
        rec.evals += 1
        if rec.violations:
            rec.violations[-1]['msg'] = 'dictionary %r: %s' % (key, rec.violations[-1]['msg'])
            return


def end_to_end(rec, mode, X, size, tail, hist, kw):
    o0 = fresh(X)
    for h in hist:
        attempt(h, o0)
    n0 = len(o0.list_of_samples)

    def prog(rng):
        o = copy.deepcopy(o0)
        try:
            s = o.sample_exact_k_dpp(size=size, mode=mode, random_state=rng, verbose=False, max_iter=1,
                                     rls_oversample_bless=40.0, **kw)
        finally:
            if len(o.list_of_samples) not in (n0, n0 + 1):
                return ('RECORD',)
        if o.list_of_samples[-1] != s or len(o.list_of_samples) != n0 + 1:
            return ('RECORD',)
        return zoo.canon_set(s)
    conditional(rec, rec.law(prog, policy=policy(tail), max_exec=MAXE), zoo.law_kdpp(lin(X), size), 'law', tail)


def refusals(rec, mode, n, scale):
    """Requests above the natural expected size of an exactly known kernel are refused, others served."""
    X = scale * np.random.RandomState(10 * n + SEED).randn(n, 3)
    L = lin(X)
    w = np.linalg.eigvalsh(L)
    deff = float(np.sum(w / (1 + w)))
    rank = np.linalg.matrix_rank(X)
    kw = dict(verbose=False, rls_oversample_bless=1e6, rls_oversample_dppvfx=1e6, rls_oversample_alphadpp=1e6)
    for k in range(1, n + 2):
        for s in (0, 1):
            o = fresh(X)
            a = attempt(o.sample_exact_k_dpp, size=k, mode=mode, random_state=s + SEED, **kw)
            rec.evals += 1
            rec.stats['states'] += 1
            rec.stats['transitions'] += 1
            if k >= deff + 1e-6:
                if a[0] == 'ok' or a[1] != 'ValueError' or len(o.list_of_samples):
                    rec.bad('accepted', 'size %d with natural expected size %.6g (n=%d): %s' % (k, deff, n, a))
            elif k < deff - 1e-6 and k <= rank:
                if a[0] != 'ok':
                    if not (a[1] == 'ValueError' and 'maximum number of rejections' in a[2]):
                        rec.bad('refused', 'size %d with natural expected size %.6g (n=%d): %s' % (k, deff, n, a))
                elif len(a[1]) != k or len(set(a[1])) != k or not set(a[1]) <= set(range(n)):
                    rec.bad('size', 'size %d: %r' % (k, a[1]))


def rescaling(rec, mode, n, scale):
    """With a dictionary of all points the announced rescaling has exactly the requested expected size."""
    from dppy import exact_sampling as es
    X = scale * np.random.RandomState(10 * n + SEED).randn(n, 3)
    w = np.linalg.eigvalsh(lin(X))
    deff = float(np.sum(w / (1 + w)))
    kw = dict(verbose=False, rls_oversample_bless=1e6, rls_oversample_dppvfx=1e6, rls_oversample_alphadpp=1e6)
    f = es.dpp_vfx_sampler if mode == 'vfx' else es.alpha_dpp_sampler
    for size in np.linspace(0.1, 1.3, 13) * deff:
        a = attempt(f, None, X, lin, random_state=SEED, desired_expected_size=float(size), **kw)
        rec.evals += 1
        rec.stats['states'] += 1
        rec.stats['transitions'] += 1
        if abs(size - deff) < 1e-6:
            continue
        if size > deff:
            if a[0] == 'ok':
                rec.bad('accepted', 'expected size %g with natural expected size %.6g' % (size, deff))
        elif a[0] != 'ok':
            if REJ not in a[2]:
                rec.bad('refused', 'expected size %g with natural expected size %.6g: %s' % (size, deff, a))
        else:
            al = a[1][1].alpha_star if mode == 'vfx' else a[1][1].alpha_hat
            got = float(np.sum(al * w / (1 + al * w)))
            if abs(got - size) > 1e-6 * max(1, size):
                rec.bad('rescaling', 'requested expected size %g, rescaled kernel has %g' % (size, got))


PROBLEMS = []


def memo(L, size):
    table = {}              # not visible from the explored frames: states stay mergeable

    class Law:
        def __deepcopy__(self, m):
            return self

        def __call__(self, a):
            k = round(a, 12)
            if k not in table:
                d = zoo.law_L(a * L)
                exact = np.diag(a * L.dot(np.linalg.inv(np.eye(len(L)) + a * L)))
                sets, p = [], []        # wrong sizes: one representative for too small, one for too large
                for side in (-1, 1):
                    m = {S: q for S, q in d.items() if np.sign(len(S) - size) == side}
                    if m:
                        sets.append(max(m, key=m.get))
                        p.append(sum(m.values()))
                for S, q in d.items():
                    if len(S) == size:
                        sets.append(S)
                        p.append(q)
                table[k] = (sets, np.array(p) / sum(p), exact)
            return table[k]
    return Law()


def trajectories(rec, X, size, trials, early, calls, start):
    """Search for the rescaling factor with exact inner laws: all size sequences."""
    import dppy.exact_sampling as es
    if not hasattr(es, 'alpha_dpp_sampling_do_sampling_loop'):
        rec.undecided.append('inner loop not reachable')
        return
    from dppy import intermediate_sampling as isa
    info0 = isa.alpha_dpp_sampling_precompute_constants(X, lin, np.random.RandomState(SEED), desired_expected_size=size,
                                                        rls_oversample_bless=1e6, rls_oversample_alphadpp=1e6, verbose=False)
    info0 = info0._replace(r=info0.deff_alpha_L_hat)
    if start is not None:
        info0 = info0._replace(alpha_hat=start, rls_upper_bound=start * info0.diag_L)
    L = lin(X)
    inner_law = memo(L, size)
    del PROBLEMS[:]

    def inner(X_data, eval_L, info, rng, **kw):
        a = float(info.alpha_hat)
        sets, p, exact = inner_law(a)
        if not (np.isfinite(a) and a > 0):
            PROBLEMS.append('rescaling %r' % a)
        if np.any(exact > np.asarray(info.rls_upper_bound) * (1 + 1e-9)):
            PROBLEMS.append('leverage scores exceed the announced bound')
        v = np.asarray(info.rls_upper_bound_valid)
        if v.any() and not np.allclose(np.asarray(info.rls_upper_bound)[v], exact[v], rtol=1e-6):
            PROBLEMS.append('leverage scores of another rescaling announced as valid')
        return list(sets[rng.choice(len(sets), p=p)]), 0, info

    def prog(rng):
        info = info0
        s = None
        for c in range(calls):
            s, info = es.alpha_k_dpp_sampler(size, info, X, lin, random_state=rng, max_iter_size_rejection=trials,
                                             early_stop=early)
            if len(s) != size:
                return ('SIZE', len(s))
        return tuple(s) + (('PROBLEM', PROBLEMS[0]) if PROBLEMS else ())

    old = es.alpha_dpp_sampling_do_sampling_loop
    es.alpha_dpp_sampling_do_sampling_loop = inner
    try:
        law = rec.law(prog, max_exec=400000 if THOROUGH else 30000)
    finally:
        es.alpha_dpp_sampling_do_sampling_loop = old
    if PROBLEMS:
        rec.bad('search', PROBLEMS[0])
    conditional(rec, law, zoo.law_kdpp(L, size), 'search law', 0, allow_none=True)


def cases():
    tail = 1e-6 if THOROUGH else 1e-4
    for kn, X in kernels().items():
        n = len(X)
        sizes = (1,) if n == 2 else ((1, 2) if THOROUGH else (1,))
        for k in sizes:
            for over in (3.0, 30.0) if THOROUGH or n == 2 else (30.0,):
                for trials in (1, 2) if n == 2 else (1,):
                    yield Case('dict/%s/vfx/%d/%g/%d' % (kn, k, over, trials), per_dictionary, 'vfx', X, k, over, trials,
                               False, tail, 1.0, cost=50 * n * trials)
                for trials, early in ((1, True), (2, True), (3, False)) if n == 2 else ((1, True),):
                    yield Case('dict/%s/alpha/%d/%g/%d/%s' % (kn, k, over, trials, early), per_dictionary, 'alpha', X, k, over,
                               trials, early, tail, 1.0, cost=50 * n * trials)
    X = kernels()['two']
    H = histories()
    for mode in ('vfx', 'alpha'):
        for h in [None] + list(H):
            yield Case('hist/%s/%s' % (mode, h), end_to_end, mode, X, 1, tail, () if h is None else (H[h],),
                       dict(r_func=lambda r: 1.0, q_func=lambda s: s, max_iter_size_rejection=2, early_stop=True), cost=40)
        for n in (2, 3, 5):
            for scale in (1.0, 3.0):
                yield Case('refuse/%s/%d/%g' % (mode, n, scale), refusals, mode, n, scale, cost=20)
                yield Case('rescale/%s/%d/%g' % (mode, n, scale), rescaling, mode, n, scale, cost=20)
    grid = {'t2': kernels()['two'], 't3': 2.0 * np.random.RandomState(SEED).randn(3, 3) + np.eye(3),
            't4': 2.0 * np.eye(4) + 0.3 * np.random.RandomState(SEED).randn(4, 4)}
    for kn, X in grid.items():
        n = len(X)
        w = np.linalg.eigvalsh(lin(X))
        for k in range(1, n):
            if k >= np.sum(w / (1 + w)) - 0.05:
                continue
            for trials in ((1, 2, 3, 5, 6, 8) + ((10, 12, 14) if THOROUGH else ())):
                for early in (True, False):
                    if n > 3 and not early and trials == 8 and not THOROUGH:
                        continue
                    for start in (None, 0.05, 1.0):
                        if start is not None and trials not in (3, 5):
                            continue
                        yield Case('search/%s/%d/%d/%s/%s' % (kn, k, trials, early, start), trajectories, X, k, trials,
                                   early, 1, start, cost=2.0 ** trials)
            for early in (True, False):
                yield Case('search2/%s/%d/%s' % (kn, k, early), trajectories, X, k, 4, early, 2, None, cost=20)
