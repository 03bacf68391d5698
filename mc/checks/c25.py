"""C25: observers work on every valid object and leave no trace; no operation leaks process-wide settings."""
import contextlib
import io
import random
import sys
import warnings

import numpy as np

from mc import engine, entries, families, objs
from mc.core import Case, SEED, THOROUGH, attempt, limit
from mc.families import clone, norm, snapshot

RULE = ('every observer (string forms, info, plots, histograms, kernel plots, normalisation, evaluation) is run in every object state '
        'reached by <= 2 (3) operations, under two floating-point policies of the caller: it must succeed and show the data of '
        'the object, leave every attribute as it was (attributes still unset may be computed) and every later seeded '
        'operation unchanged; every public operation, failing ones included, is run to every leaf of its tree of random '
        'outcomes (bounded) under both policies and must leave numpy error handling, print options, global random states, warning '
        'filters and matplotlib settings as they were')
BOUNDS = 'all public classes, ground sets <= 4, histories <= 2 (3), <= 60 random outcomes per entry point'
ASSUMPTIONS = ['the drawn data are read from the matplotlib artists; layout and styling are not judged']
POLICIES = ({}, dict(divide='ignore', over='warn', under='warn', invalid='ignore'))


def process():
    import matplotlib as mpl
    return dict(err=dict(np.geterr()), call=np.geterrcall(), buf=np.getbufsize(), printing=repr(sorted(np.get_printoptions().items())),
                nprandom=norm(np.random.get_state()), random=hash(random.getstate()), filters=list(warnings.filters),
                rc=dict.copy(mpl.rcParams), rec=sys.getrecursionlimit(), backend=mpl.get_backend())


@contextlib.contextmanager
def caller(policy):
    old = np.seterr(**policy) if policy else np.geterr()
    try:
        yield
    finally:
        np.seterr(**old)


def leaks(rec, what, f, policy):
    """Outcome of f, with process settings compared before and after."""
    with caller(policy), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        before = process()
        out = attempt(f)
        after = process()
    ch = {k: (str(before[k])[:80], str(after[k])[:80]) for k in before if before[k] != after[k]}
    if ch:
        rec.bad('leak|' + what, '%s (%s) changed process settings %s' % (what, out[0], ch))
    rec.stats['transitions'] += 1
    return out


# ---- what a figure shows ----

def offsets(ax):
    from matplotlib.collections import PathCollection
    return [np.asarray(c.get_offsets(), dtype=float) for c in ax.collections if isinstance(c, PathCollection)]


def figure(f):
    """Run f and return the axes of the figure it made (read before closing)."""
    import matplotlib.pyplot as plt
    plt.close('all')
    try:
        f()
        assert len(plt.get_fignums()) == 1, 'one figure expected, got %d' % len(plt.get_fignums())
        fig = plt.gcf()
        return [dict(offsets=offsets(ax), texts=[t.get_text() for t in ax.texts], title=ax.get_title(),
                     arrays=[np.asarray(c.get_array(), dtype=float).ravel() for c in ax.collections
                             if getattr(c, 'get_array', lambda: None)() is not None],
                     bars=[(p.get_x(), p.get_width(), p.get_height()) for p in ax.patches if hasattr(p, 'get_x')])
                for ax in fig.axes]
    finally:
        plt.close('all')


def shows_points(pts):
    pts = np.asarray(pts)
    xy = np.column_stack([pts.real, pts.imag]) if np.iscomplexobj(pts) else np.column_stack([pts, np.zeros(len(pts))]) if len(pts) else np.zeros((0, 2))

    def ok(axes):
        for ax in axes:
            for o in ax['offsets']:
                if o.shape == xy.shape and np.allclose(o, xy, rtol=1e-12, atol=1e-12):
                    return None
        return 'the points drawn are %s instead of %s' % (
            [o.tolist() for ax in axes for o in ax['offsets']][:2], xy.tolist())
    return ok


def shows_hist(*alternatives):
    """Density histogram of one of the data sets (whatever its bins), over the whole data unless `clip` says what is shown."""
    def ok(axes):
        b = sorted(t for ax in axes for t in ax['bars'])
        if not b:
            return 'no histogram drawn'
        edges = np.array([x for x, _, _ in b] + [b[-1][0] + b[-1][1]])
        got = np.array([h for _, _, h in b])
        msg = None
        for pts, clip in alternatives:
            pts = np.asarray(pts, dtype=float)
            lo, hi = edges[0], edges[-1]
            if clip is not None:
                pts = pts[(pts >= clip[0]) & (pts <= clip[1])]
                if lo > clip[0] + 1e-9 or hi < clip[1] - 1e-9:
                    msg = msg or 'histogram over [%g, %g]' % (lo, hi)
                    continue
            elif pts.size and (lo > pts.min() + 1e-9 or hi < pts.max() - 1e-9):
                msg = msg or 'histogram over [%g, %g], points over [%g, %g]' % (lo, hi, pts.min(), pts.max())
                continue
            # cumulated mass, insensitive to points lying on a bin edge up to roundoff
            area = np.cumsum(np.diff(edges) * got)
            n = max(len(pts), 1)
            below = [(pts < e - 1e-9).sum() / n for e in edges[1:]], [(pts <= e + 1e-9).sum() / n for e in edges[1:]]
            if not len(pts) or ((area >= np.array(below[0]) - 1e-9) & (area <= np.array(below[1]) + 1e-9)).all():
                return None
            msg = msg or 'the histogram drawn is not that of the points %s' % pts[:6]
        return msg
    return ok


def shows_matrix(M):
    def ok(axes):
        for ax in axes:
            for a in ax['arrays']:
                if a.size == M.size and np.allclose(a, M.ravel(), atol=1e-8):
                    return None
        return 'the matrix drawn is not the kernel'
    return ok


def shows_texts(want):
    def ok(axes):
        got = sorted(t for ax in axes for t in ax['texts'])
        return None if got == sorted(want) else 'labels drawn %s instead of %s' % (got, sorted(want))
    return ok


def any_(x):
    return None


class Obs:
    """run(o, rng): value; when(o): applies; want(o): verifier of the value (None, or what is wrong)."""

    def __init__(self, name, run, when=lambda o: True, want=lambda o: any_):
        self.name, self.run, self.when, self.want = name, run, when, want


def string_has(*parts):
    return lambda s: None if all(p in s for p in parts) else 'string form %r does not mention %s' % (s, parts)


def has_samples(o):
    return bool(o.list_of_samples)


def fig_obs(name, f, want=lambda o: any_, when=has_samples):
    return Obs(name, lambda o, r: figure(lambda: f(o, r)), when, want)


def count(o):
    return string_has('number of samples = %d' % len(o.list_of_samples))


def finite_obs(d):
    out = [Obs('str', lambda o, r: str(o).lower(), want=count)]

    def info(o, r):
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            o.info()
        return b.getvalue().lower()
    out.append(Obs('info', info, want=count))
    K = d.K if d.K is not None else None
    if K is not None:
        out.append(fig_obs('plot_kernel K', lambda o, r: o.plot_kernel('correlation'), lambda o: shows_matrix(K), lambda o: True))
        out.append(fig_obs('plot_kernel default K', lambda o, r: o.plot_kernel(), lambda o: shows_matrix(K), lambda o: True))
    if d.L is not None:
        out.append(fig_obs('plot_kernel L', lambda o, r: o.plot_kernel('likelihood'), lambda o: shows_matrix(d.L), lambda o: True))
    M = K if d.ktype == 'correlation' else d.L
    if M is not None:
        out.append(fig_obs('plot_kernel own', lambda o, r: o.plot_kernel(''), lambda o: shows_matrix(M), lambda o: True))
    return out


def exotic_obs(name):
    out = [Obs('str', lambda o, r: str(o).lower(), want=count if not name.startswith('ust') else lambda o: any_)]
    if name in ('carries', 'descent', 'virtual'):
        for vs in (True, False):
            out.append(fig_obs('plot vs=%s' % vs, lambda o, r, vs=vs: o.plot(vs_bernoullis=vs, random_state=r),
                               lambda o, vs=vs: descent_points(o, vs)))
    elif name.startswith('plancherel'):
        out.append(fig_obs('plot', lambda o, r: o.plot(), lambda o: shows_points(np.array(o.list_of_samples[-1], dtype=float))))
        out.append(fig_obs('diagram', lambda o, r: o.plot_diagram(),
                           lambda o: shows_points(np.array(o.list_of_samples[-1], dtype=float))))
        out.append(fig_obs('diagram norm', lambda o, r: o.plot_diagram(normalization=True),
                           lambda o: shows_points(np.array(o.list_of_samples[-1], dtype=float) / np.sqrt(o.theta))))
    else:
        def lab(o, edges):
            return shows_texts([str(v) for v in o.graph.nodes()] + [
                r'$e_{}$'.format(o.edges.index(e if e in o.edges else e[::-1])) for e in edges])
        out.append(fig_obs('plot', lambda o, r: o.plot(), lambda o: lab(o, o.list_of_samples[-1].edges())))
        out.append(fig_obs('plot_graph', lambda o, r: o.plot_graph(), lambda o: lab(o, o.graph.edges()), lambda o: True))
        out.append(fig_obs('plot_kernel', lambda o, r: o.plot_kernel(), lambda o: shows_matrix(transfer(o)), lambda o: True))
    return out


def descent_points(o, vs):
    want = sorted(float(x) for x in o.list_of_samples[-1])

    def ok(axes):
        for ax in axes:
            for off in ax['offsets']:
                if sorted(off[:, 0].tolist()) == want:
                    return None
        return 'the points drawn %s are not the last sample %s' % ([x.tolist() for ax in axes for x in ax['offsets']], want)
    return ok


def transfer(o):
    """Transfer current matrix of the (oriented) graph, from its own definition."""
    n = {v: i for i, v in enumerate(o.graph.nodes())}
    B = np.zeros((len(n), len(o.edges)))
    for j, (u, v) in enumerate(o.edges):
        a, b = sorted((n[u], n[v]))
        B[a, j], B[b, j] = -1.0, 1.0
    return B.T.dot(np.linalg.pinv(B.dot(B.T))).dot(B)


def last(o, z):
    pts = np.array(o.list_of_samples[-1])
    return clone(o).normalize_points(pts) if z else pts


def ensemble_obs(name):
    kind = name.partition('/')[0]
    out = [Obs('str', lambda o, r: str(o).lower(), want=count)]
    out.append(Obs('normalize', lambda o, r: o.normalize_points(np.array([0.25, 0.5, 0.75])), has_samples))
    for z in (True, False):
        zz = z and kind not in ('jacobi', 'circular')
        out.append(fig_obs('plot %s' % z, lambda o, r, z=z: o.plot(normalization=z), lambda o, zz=zz: shows_points(last(o, zz))))
        if kind == 'ginibre':           # moduli, displayed over [0, 1]
            hist_want = lambda o, zz=zz: shows_hist((np.abs(last(o, zz)), (0, 1)), (np.abs(last(o, zz)), None))      # noqa: E731
        elif kind == 'circular':        # arguments, in [-pi, pi] or [0, 2 pi]
            hist_want = lambda o, zz=zz: shows_hist((np.angle(last(o, False)), None), (np.angle(last(o, False)) % (2 * np.pi), None))      # noqa: E731
        else:
            hist_want = lambda o, zz=zz: shows_hist((last(o, zz), None))      # noqa: E731
        out.append(fig_obs('hist %s' % z, lambda o, r, z=z: o.hist(normalization=z), hist_want))
    return out


def observers(name):
    if name.startswith('finite/'):
        return finite_obs(next(d for d in objs.descriptions() if 'finite/' + d.name == name))
    return exotic_obs(name) if name.startswith(('ust', 'plancherel', 'carries', 'descent', 'virtual')) else ensemble_obs(name)


def family(rec, name, depth):
    import matplotlib.pyplot as plt      # noqa: F401 (imported before settings are compared)
    fam = next(f for f in families.all_families() if f.name == name)
    obs = observers(name)
    root = fam.build()
    layer, states, seen = [((), root)], [((), root)], {repr(snapshot(root))}
    for _ in range(depth):
        nxt = []
        for hist, o in layer:
            for op in fam.ops:
                for s in ((0, 1) if op.kind == 'sample' and not name.startswith('finite') else (0,)):
                    c = clone(o)
                    leaks(rec, '%s %s after %s' % (name, op.name, list(hist)),
                          lambda: op.f(c, np.random.RandomState(SEED + s)), POLICIES[(len(states) + s) % 2])
                    if op.name == 'bad size' and name == 'descent':
                        continue           # a permutation of negative size is taken for an empty one
                    k = repr(snapshot(c, ('list_of_samples',) if name.startswith('finite') else ()))
                    if k not in seen and len(getattr(c, 'list_of_samples', [])) <= 2:
                        seen.add(k)
                        nxt.append((hist + (op.name,), c))
        states += nxt
        layer = nxt
    for hist, o in states:
        ref = None
        for ob in obs:
            if not ob.when(o):
                continue
            for policy in POLICIES:
                c = clone(o)
                before = snapshot(c)
                what = '%s, %s after %s%s' % (name, ob.name, list(hist), ' (caller policy %s)' % policy if policy else '')
                got = leaks(rec, '%s %s' % (name, ob.name), lambda: ob.run(c, np.random.RandomState(SEED + 3)), policy)
                rec.stats['states'] += 1
                if got[0] != 'ok':
                    rec.bad(ob.name + '|fails', '%s raised %s: %s' % (what, got[1], got[2]), history=list(hist))
                    continue
                wrong = ob.want(o)(got[1])
                if wrong:
                    rec.bad(ob.name + '|shows', '%s: %s' % (what, wrong), history=list(hist))
                now = snapshot(c)
                ch = [k for k in now if now[k] != before.get(k) and before.get(k) is not None] + [k for k in before if k not in now]
                if ch:
                    rec.bad(ob.name + '|state', '%s changed %s' % (
                        what, {k: (str(before.get(k))[:60], str(now.get(k))[:60]) for k in ch}), history=list(hist))
                if now != before or policy:
                    continue               # caches were filled: the laws afterwards are judged by C17
                if ref is None:
                    ref = []
                    for op in fam.ops:
                        t = clone(o)
                        ref.append((norm(attempt(op.f, t, np.random.RandomState(SEED + 1))), snapshot(t)))
                for op, want in zip(fam.ops, ref):
                    t = clone(c)
                    rec.stats['transitions'] += 1
                    if (norm(attempt(op.f, t, np.random.RandomState(SEED + 1))), snapshot(t)) != want:
                        rec.bad(ob.name + '|later', '%s, then %s: not the same outcome as without the observer' % (what, op.name),
                                history=list(hist))
    rec.stats['executions'] = rec.stats['transitions']
    rec.sample({'case': name, 'states': len(states), 'observers': [ob.name for ob in obs]})


# ---- Jacobi ensemble and polynomial potentials ----

def jope_obj(rec, jp, N):
    from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
    jp = np.array(jp, dtype=float)
    d = len(jp)
    m = MultivariateJacobiOPE(N, jp.copy())
    X = 1.8 * np.modf(np.outer(np.arange(1, N + 1), [0.618, 0.382, 0.271][:d]) + 0.3 * np.arange(1, N + 1)[:, None] ** 2)[0] - 0.9
    obs = [('K', lambda o: o.K(X)), ('K2', lambda o: o.K(X, X[:1])), ('Kpw', lambda o: o.K(X, eval_pointwise=True)),
           ('polys', lambda o: o.eval_multiD_polynomials(X)), ('w', lambda o: o.eval_w(X))]
    if d < 3:
        obs += [('plot ' + w, lambda o, w=w: figure(lambda: o.plot(X, w))) for w in ('', 'BH') + (('EZ',) if N > 1 else ())]
    smp = [('sample', lambda o, r: o.sample(random_state=r)), ('proposal', lambda o, r: o.sample_chain_rule_proposal(random_state=r))]
    ref = [norm(attempt(f, clone(m), np.random.RandomState(SEED))) for _, f in smp]
    for policy in POLICIES:
        for n1, f1 in obs:
            for n2, f2 in obs:
                c = clone(m)
                before, X0 = snapshot(c), X.tobytes()
                alone = leaks(rec, n2, lambda: f2(clone(m)), policy)
                first = leaks(rec, n1, lambda: f1(c), policy)
                got = leaks(rec, n2, lambda: f2(c), policy)
                rec.stats['states'] += 2
                for nm, g in ((n1, first), (n2, got)):
                    if g[0] != 'ok':
                        rec.bad(nm + '|fails', '%s raised %s: %s' % (nm, g[1], g[2]))
                if norm(alone) != norm(got):
                    rec.bad('order|' + n2, '%s after %s differs from %s alone' % (n2, n1, n2))
                if snapshot(c) != before or X.tobytes() != X0:
                    rec.bad('state|' + n1, '%s then %s changed the object or the points' % (n1, n2))
                if n2.startswith('plot') and got[0] == 'ok' and d == 2:
                    shown = np.concatenate([x for ax in got[1][:1] for x in ax['offsets']] or [np.zeros((0, 2))])
                    if not np.allclose(np.sort(shown[:, 0]), np.sort(X[:, 0])):
                        rec.bad('shows|' + n2, '%s does not show the points' % n2)
            for (n2, f2), want in zip(smp, ref):
                c = clone(m)
                f1(c)
                if norm(leaks(rec, n2, lambda: f2(c, np.random.RandomState(SEED)), policy)) != want:
                    rec.bad('later|' + n1, '%s then %s: not the same outcome as without the observer' % (n1, n2))
    rec.stats['executions'] = rec.stats['transitions']


def potential(rec, coef, beta):
    from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as B
    with contextlib.redirect_stdout(io.StringIO()):
        m = B(beta, np.poly1d(coef))
    S = np.array([[0.1, -0.5, 0.3], [0.2, 0.4, -0.7]])
    obs = [('str', str), ('hist', lambda o: figure(lambda: o.hist(S))), ('hist flat', lambda o: figure(lambda: o.hist(S[0])))]
    if m.equilibrium_density is not None:
        obs.append(('density', lambda o: o.equilibrium_density(np.linspace(-3, 3, 13))))
        if m.support is not None:
            def rescale(o):
                c = clone(o)
                c.N = 5
                return c.rescale_largest_eig_val(1.3)
            obs.append(('rescale', rescale))
    smp = [lambda o, r, q=q: o.sample_mcmc(N=3, nb_gibbs_passes=2, nb_mala_steps=3, random_state=r, **q)
           for q in ({}, dict(return_chain_of_eig_vals=True), dict(return_chain_of_lambda_max=True))]
    start = [m]
    c = clone(m)
    attempt(smp[0], c, np.random.RandomState(0))
    start.append(c)
    for st, o in enumerate(start):
        ref = [norm(attempt(f, clone(o), np.random.RandomState(SEED))) for f in smp]
        for policy in POLICIES:
            for n1, f1 in obs:
                c = clone(o)
                before, S0 = snapshot(c), S.tobytes()
                got = leaks(rec, n1, lambda: f1(c), policy)
                rec.stats['states'] += 1
                if got[0] != 'ok':
                    rec.bad(n1 + '|fails', '%s raised %s: %s' % (n1, got[1], got[2]))
                    continue
                if snapshot(c) != before or S.tobytes() != S0:
                    rec.bad('state|' + n1, '%s changed the object or the sample' % n1)
                for f, want in zip(smp, ref):
                    t = clone(c)
                    if norm(leaks(rec, 'sample_mcmc', lambda: f(t, np.random.RandomState(SEED)), policy)) != want:
                        rec.bad('later|' + n1, '%s then sample_mcmc: not the same outcome as without' % n1)
    rec.stats['executions'] = rec.stats['transitions']


# ---- every entry point, every random outcome ----

def entry(rec, e, cap):
    for policy in POLICIES:
        def prog(rng):
            return leaks(rec, e.name, lambda: e.call(e.make(), rng), policy)[0]
        try:
            L = engine.law_of(prog, policy=entries.GRID if e.nodes else entries.NODES, merge=False,
                              max_exec=cap if e.rnd else 1, min_mass=1e-9, max_nodes=10 ** 6)
            rec.stats.add(L.stats)
            rec.residual = max(rec.residual, L.residual)
        except (engine.Unsupported, engine.Divergence) as x:
            rec.undecided.append(str(x))
        for s in range(SEED, SEED + 2):
            try:
                with limit(60):
                    prog(np.random.RandomState(s))
            except engine.Hang:
                rec.undecided.append('hang')
            rec.evals += 1


def refused(rec, part, parts):
    from mc.checks import c24
    for i, (name, thunk, _) in enumerate(c24.faults()):
        if i % parts == part:
            for policy in POLICIES:
                leaks(rec, name, thunk, policy)
                rec.evals += 1


JP = ([[0.5, -0.3]], [[-0.5, -0.5]], [[1.5, 0.2]], [[0.5, -0.5], [0.1, 0.2]], [[-0.5, -0.5], [0.5, 0.5]],
      [[0.1, 0.2], [-0.3, 0.5], [0.0, 0.0]])
POT = ([1, 0, 0], [0.5, 0.3, 0], [0.25, 0, 0, 0, 0], [0.25, 0, 0.5, 0, 0], [0.25, 0, -1.5, 0, 0], [1 / 20, -4 / 15, 1 / 5, 8 / 5, 0],
       [0.1, 0.2, 0, 0, 0], [1 / 6, 0, 0, 0, 0, 0, 0], [0.2, 0, 0.1, 0, 0.3, 0.1, 0])


def cases():
    for f in families.all_families():
        yield Case(f.name, family, f.name, 3 if THOROUGH else 2, cost=300 if f.name.startswith('finite') else 500)
    for jp in JP:
        for N in (1, 2, 3, 5):
            yield Case('jope/%s/%d' % (jp, N), jope_obj, jp, N, cost=50)
    for c in POT:
        yield Case('potential/%s' % (c,), potential, c, 2.0, cost=50)
    for p in range(8):
        yield Case('refused/%d' % p, refused, p, 8, cost=20)
    for e in entries.all_entries():
        yield Case('%s/%s' % (e.group, e.name), entry, e, 600 if THOROUGH else 60, cost=5 if e.rnd else 1)
