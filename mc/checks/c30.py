"""C30: normalised samples and the limiting laws drawn over them."""
import itertools

import numpy as np

from mc.core import Case, SEED, THOROUGH, attempt, quiet
from mc.families import clone, norm, snapshot

RULE = ('every sequence of sampling calls (both matrix models, default and non-default reference measures, several sizes and '
        'ratios, refused requests) on every ensemble: in every state, the normalisation of every point of a grid against the '
        'affine map under which the last sampled model converges to its limiting law (map derived from exact finite-size moments, '
        'verified at size 10^7), for every form of the argument, and every curve drawn by plots and histograms against that law')
BOUNDS = 'sequences of length <= 3 (4) of 6-8 requests, beta in {0, 1/2, 1, 2, 4}, sizes <= 6'
ASSUMPTIONS = ['curves are read from the matplotlib artists; a figure without curve is not judged']


# ---- limiting laws, written from their definitions ----

def semicircle(x):
    return np.sqrt(np.maximum(4 - x ** 2, 0)) / (2 * np.pi)


def marcenko_pastur(x, c):
    """Limit of eigenvalues of X X^T / M, c = N / M <= 1."""
    lo, hi = (1 - np.sqrt(c)) ** 2, (1 + np.sqrt(c)) ** 2
    return np.sqrt(np.maximum((hi - x) * (x - lo), 0)) / (2 * np.pi * c * x)


def wachter(x, a, b):
    """a = M1 / N, b = M2 / N."""
    s = a + b
    lo, hi = [(np.sqrt(a * (s - 1)) + e * np.sqrt(b)) ** 2 / s ** 2 for e in (-1, 1)]
    return s * np.sqrt(np.maximum((hi - x) * (x - lo), 0)) / (2 * np.pi * x * (1 - x))


def moments(f, lo, hi):
    t, w = np.polynomial.legendre.leggauss(400)
    t, w = (t + 1) * np.pi / 2, w * np.pi / 2
    x = (lo + hi) / 2 - (hi - lo) / 2 * np.cos(t)
    w = w * (hi - lo) / 2 * np.sin(t) * f(x)
    return w.sum(), (w * x).sum(), (w * x * x).sum()


def selftest(rec):
    """The maps of this file are the right ones: exact first moments of the finite ensembles at N = 10^7, against the laws."""
    N = 10 ** 7
    for beta in (0.5, 1, 2, 4):
        g = beta / 2
        loc, sc = 0.3, 1.7
        c = affine('hermite', beta, dict(loc=loc, scale=sc, size_N=N))
        m2 = sc ** 2 * (1 + g * (N - 1)) / c[1] ** 2
        want = moments(semicircle, -2, 2)
        rec.evals += 1
        if not np.allclose((1, (loc - c[0]) / c[1], m2), want, atol=1e-5):
            rec.bad('selftest', 'hermite %s' % (want,))
        for r in (1.0, 1.5, 4.0):
            M = r * N
            k, th = g * (M - N + 1), 0.6
            c = affine('laguerre', beta, dict(shape=k, scale=th, size_N=N, size_M=M))
            m1 = th * (k + g * (N - 1))
            m2 = th * (k + 1 + 2 * g * (N - 1)) * m1
            lo, hi = (1 - r ** -.5) ** 2, (1 + r ** -.5) ** 2
            want = moments(lambda x: marcenko_pastur(x, 1 / r), lo, hi)
            if not np.allclose((1, m1 / c[1], m2 / c[1] ** 2), want, atol=2e-4):
                rec.bad('selftest', 'laguerre %s' % (want,))
            for r2 in (1.2, 3.0):
                a, b = g * (M - N + 1), g * (r2 * N - N + 1)
                m1 = (a + g * (N - 1)) / (a + b + 2 * g * (N - 1))
                s = r + r2
                lo, hi = [(np.sqrt(r * (s - 1)) + e * np.sqrt(r2)) ** 2 / s ** 2 for e in (-1, 1)]
                want = moments(lambda x: wachter(x, r, r2), lo, hi)
                if not np.allclose((1, m1), want[:2], atol=2e-4):
                    rec.bad('selftest', 'jacobi %s %s' % (want, m1))


# ---- what the last sampled model calls for ----

def affine(kind, beta, p):
    """(centre, scale): points are sent to (x - centre) / scale."""
    if kind == 'hermite':
        return (p['loc'], p['scale'] / np.sqrt(2) * (np.sqrt(beta * p['size_N']) if beta else 1.0))
    if kind == 'laguerre':
        return (0.0, p['scale'] / 2 * (beta * p['size_M'] if beta else 1.0))
    if kind == 'ginibre':
        return (0.0, np.sqrt(p['size_N']))
    return (0.0, 1.0)


def curve(kind, beta, p):
    from scipy import stats
    if kind == 'hermite':
        return semicircle if beta else lambda x: stats.norm.pdf(x, 0, np.sqrt(2))
    if kind == 'laguerre':
        return (lambda x: marcenko_pastur(x, p['size_N'] / p['size_M'])) if beta else lambda x: stats.gamma.pdf(x, a=p['shape'], scale=2)
    if kind == 'jacobi':
        return (lambda x: wachter(x, p['size_M1'] / p['size_N'], p['size_M2'] / p['size_N'])) if beta else lambda x: stats.beta.pdf(x, p['a'], p['b'])
    if kind == 'circular':
        return lambda x: np.full(np.shape(x), 1 / (2 * np.pi))
    return lambda x: np.where((x >= 0) & (x <= 1), 2 * x, np.nan)       # modulus in the unit disk, the end jump excluded


def spans(kind, beta, p, x, top):
    """Abscissas cover the bulk of the limiting law, up to the largest point for laws without common support."""
    from scipy import stats
    lo, hi = np.nanmin(x), np.nanmax(x)
    if kind in ('hermite', 'laguerre', 'jacobi') and not beta:
        F = {'hermite': lambda t: stats.norm.cdf(t, 0, np.sqrt(2)), 'laguerre': lambda t: stats.gamma.cdf(t, a=p['shape'], scale=2),
             'jacobi': lambda t: stats.beta.cdf(t, p['a'], p['b'])}[kind]
        return F(hi) - F(lo) >= 0.9 or (F(lo) < 0.05 and hi >= top)
    if kind == 'hermite':
        a, b = -2, 2
    elif kind == 'laguerre':
        c = p['size_N'] / p['size_M']
        a, b = (1 - np.sqrt(c)) ** 2, (1 + np.sqrt(c)) ** 2
        b = max(min(b, top), a)
    else:
        a, b = p['size_M1'] / p['size_N'], p['size_M2'] / p['size_N']
        a, b = [(np.sqrt(a * (a + b - 1)) + e * np.sqrt(b)) ** 2 / (a + b) ** 2 for e in (-1, 1)]
    return lo <= a + max(0.03 * (b - a), 0.05) and hi >= b - max(0.03 * (b - a), 0.05)


def requests(kind, beta):
    """(name, call, parameters of the model sampled by the call)."""
    out = []

    def add(name, mode, kw, p):
        out.append((name, lambda o, r: getattr(o, 'sample_%s_model' % mode)(random_state=r, **kw), p))
    g = beta / 2
    if kind == 'hermite':
        for n in (1, 3, 6):
            if beta in (1, 2, 4):
                add('full%d' % n, 'full', dict(size_N=n), dict(loc=0.0, scale=np.sqrt(2), size_N=n))
            add('banded%d' % n, 'banded', dict(size_N=n), dict(loc=0.0, scale=np.sqrt(2), size_N=n))
        add('banded*', 'banded', dict(loc=-0.5, scale=3.0, size_N=4), dict(loc=-0.5, scale=3.0, size_N=4))
        add('refused', 'full', dict(size_N=-1), None)
        add('refused2', 'banded', dict(size_N=5, loc=0.1, scale=-2.0), None)
    elif kind == 'laguerre':
        for n, m in ((2, 2), (3, 7)):
            if beta in (1, 2, 4):
                add('full%d,%d' % (n, m), 'full', dict(size_N=n, size_M=m), dict(shape=g * (m - n + 1), scale=2.0, size_N=n, size_M=m))
            if beta:
                add('banded%d,%d' % (n, m), 'banded', dict(size_N=n, size_M=m), dict(shape=g * (m - n + 1), scale=2.0, size_N=n, size_M=m))
        for k, th, n in ((2.5, 3.0, 3), (1.0, 0.5, 1), (4.0, 2.0, 4)):
            add('banded*%g' % k, 'banded', dict(shape=k, scale=th, size_N=n), dict(shape=k, scale=th, size_N=n, size_M=k / g + n - 1 if beta else np.inf))
        add('refused', 'full', dict(size_N=5, size_M=4), None)
        add('refused2', 'banded', dict(size_N=5, size_M=4), None)
    elif kind == 'jacobi':
        for n, m, l in ((2, 3, 4), (3, 9, 4)):
            if beta in (1, 2, 4):
                add('full%d,%d,%d' % (n, m, l), 'full', dict(size_N=n, size_M1=m, size_M2=l),
                    dict(a=g * (m - n + 1), b=g * (l - n + 1), size_N=n, size_M1=m, size_M2=l))
            if beta:
                add('banded%d,%d,%d' % (n, m, l), 'banded', dict(size_N=n, size_M1=m, size_M2=l),
                    dict(a=g * (m - n + 1), b=g * (l - n + 1), size_N=n, size_M1=m, size_M2=l))
        for a, b, n in ((2.5, 1.5, 3), (1.0, 3.0, 2)):
            add('banded*%g' % a, 'banded', dict(a=a, b=b, size_N=n),
                dict(a=a, b=b, size_N=n, **({'size_M1': a / g + n - 1, 'size_M2': b / g + n - 1} if beta else {})))
        add('refused', 'full', dict(size_N=5, size_M1=4, size_M2=9), None)
    elif kind == 'circular':
        for n in (2, 5):
            for h in ('QR', 'Hermite'):
                if beta in ((1, 2) if h == 'QR' else (1, 2, 4)):
                    add('full%s%d' % (h, n), 'full', dict(size_N=n, haar_mode=h), dict(size_N=n))
            add('banded%d' % n, 'banded', dict(size_N=n), dict(size_N=n))
        add('refused', 'full', dict(size_N=3, haar_mode='bogus'), None)
    else:
        for n in (1, 2, 6):
            add('full%d' % n, 'full', dict(size_N=n), dict(size_N=n))
        add('refused', 'banded', dict(size_N=3), None)
    return out


CLASSES = dict(hermite='HermiteEnsemble', laguerre='LaguerreEnsemble', jacobi='JacobiEnsemble', circular='CircularEnsemble', ginibre='GinibreEnsemble')


def curves(f):
    import matplotlib.pyplot as plt
    plt.close('all')
    try:
        f()
        return [np.asarray(l.get_xydata(), dtype=float) for fig in map(plt.figure, plt.get_fignums()) for ax in fig.axes for l in ax.lines]
    finally:
        plt.close('all')


def judge(rec, kind, beta, o, p, hist, figures):
    what = '%s beta=%g after %s' % (CLASSES[kind], beta, list(hist))
    c, s = affine(kind, beta, p)
    for key, v in p.items():
        if key in o.params and not (o.params[key] is not None and np.isclose(o.params[key], v)):
            return rec.bad('params', '%s: parameter %s recorded as %r, the last sample has %r' % (what, key, o.params[key], v), history=list(hist))
    x = np.linspace(-3, 7, 11) if kind not in ('circular', 'ginibre') else np.linspace(-3, 7, 11) + 1j * np.linspace(2, -1, 11)
    for form in (x, x[:1], x.reshape(-1, 1), np.array(o.list_of_samples[-1])):
        want = (form - c) / s
        before = form.tobytes()
        got = attempt(o.normalize_points, form)
        rec.evals += 1
        if got[0] != 'ok' or np.shape(got[1]) != want.shape or not np.allclose(got[1], want, rtol=1e-10, atol=1e-12):
            return rec.bad('normalise', '%s: points %s normalised to %s instead of %s (x -> (x - %g) / %g)' % (
                what, form.ravel()[:3], np.ravel(got[1])[:3] if got[0] == 'ok' else got[1:], want.ravel()[:3], c, s), history=list(hist))
        if form.tobytes() != before:
            return rec.bad('mutation', '%s: normalisation rewrites its argument' % what)
    if not figures:
        return
    law = curve(kind, beta, p)
    for nm in ('plot', 'hist'):
        with quiet():
            got = attempt(curves, lambda: getattr(o, nm)(normalization=True))
        rec.evals += 1
        if got[0] != 'ok':
            return rec.bad('figure', '%s: %s raises %s' % (what, nm, got[1:]))
        top = np.max(np.real((np.array(o.list_of_samples[-1]) - c) / s))
        if kind in ('hermite', 'laguerre', 'jacobi') and not any(spans(kind, beta, p, xy[:, 0], top) for xy in got[1]):
            return rec.bad('curve', '%s: %s draws no curve over the support of the limiting law' % (what, nm), history=list(hist))
        for xy in got[1]:
            if kind == 'circular' and np.allclose(xy[:, 1], xy[0, 1]):
                want = np.full(len(xy), 1 / (2 * np.pi))
            elif kind == 'circular':
                continue
            else:
                want = law(xy[:, 0])
            if kind == 'ginibre':
                keep = xy[:, 0] < 1
                keep |= (xy[:, 0] == 1) & (xy[:, 1] != 0)
                xy, want = xy[keep], want[keep]
            if not np.allclose(xy[:, 1], want, rtol=1e-8, atol=1e-10, equal_nan=True):
                i = int(np.nanargmax(np.abs(xy[:, 1] - want)))
                return rec.bad('curve', '%s: %s draws density %.8g at %.6g, the limiting law has %.8g' % (
                    what, nm, xy[i, 1], xy[i, 0], want[i]), history=list(hist))


def ensemble(rec, kind, beta, depth):
    from dppy import beta_ensembles
    C = getattr(beta_ensembles, CLASSES[kind])
    reqs = requests(kind, beta)
    layer, seen, drawn = [((), C(beta) if kind != 'ginibre' else C(), None)], set(), set()
    for d in range(depth):
        nxt = []
        for hist, o, p in layer:
            for name, f, q in reqs:
                n = clone(o)
                rec.stats['transitions'] += 1
                with quiet():
                    r = attempt(f, n, np.random.RandomState(SEED))
                if q is not None and r[0] != 'ok':
                    return rec.bad('request', '%s(%g) %s after %s raises %s' % (CLASSES[kind], beta, name, list(hist), r[1:]))
                if q is None and r[0] == 'ok':
                    continue        # acceptance is C24's object; its parameters are not known here
                if q is None and p is None:
                    nxt.append((hist + (name,), n, None))
                    continue
                new = q if q is not None else p
                k = repr((sorted(new.items()), snapshot(n, ('list_of_samples',)), norm(n.list_of_samples[-1])))
                if k in seen:
                    continue
                seen.add(k)
                h = hist + (name,)
                fk = repr(sorted(new.items())), q is None
                judge(rec, kind, beta, n, new, h, fk not in drawn)
                drawn.add(fk)
                if rec.violations:
                    return
                nxt.append((h, n, new))
        layer = nxt
        rec.stats['states'] += len(layer)
    rec.stats['executions'] += rec.stats['transitions']
    rec.sample({'case': rec.cid, 'states': len(seen)})


# ---- the other classes that scale their samples ----

def plancherel(rec, theta):
    from dppy.exotic_dpps import PoissonizedPlancherel
    o = PoissonizedPlancherel(theta)
    for s in range(3):
        o.sample(random_state=np.random.RandomState(s))
        for z in (False, True):
            with quiet():
                got = attempt(lambda: shown(o, z))
            rec.evals += 1
            if got[0] != 'ok':
                return rec.bad('figure', 'plot_diagram raises %s' % (got[1:],))
            lines, points, segs = got[1]
            sc = np.sqrt(theta) if z else 1.0
            want = np.sort(np.asarray(o.list_of_samples[-1], dtype=float)) / sc
            if not any(len(q) == len(want) and np.allclose(np.sort(q), want) for q in points):
                return rec.bad('points', 'theta=%g: points drawn %s instead of %s' % (theta, points, want))
            # upper envelope of the drawn boxes: |u| + 2 (number of cells of content u) at every integer u
            diag = {}
            for i, row in enumerate(o.list_of_young_diag[-1]):
                for j in range(int(row)):
                    diag[j - i] = diag.get(j - i, 0) + 1
            for seg in segs:
                env = {}
                for (u0, v0), (u1, v1) in seg * sc:
                    if u0 == u1:
                        continue
                    if u0 > u1:
                        u0, v0, u1, v1 = u1, v1, u0, v0
                    for u in range(int(np.ceil(u0 - 1e-9)), int(np.floor(u1 + 1e-9)) + 1):
                        env[u] = max(env.get(u, 0), v0 + (v1 - v0) * (u - u0) / (u1 - u0))
                wrong = [u for u in diag if abs(env.get(u, 0) - abs(u) - 2 * diag[u]) > 1e-6] + \
                        [u for u in env if u not in diag and env[u] > abs(u) + 1e-6]
                if wrong:
                    return rec.bad('profile', 'theta=%g: the diagram drawn has profile %s at %s, the last diagram is %s' % (
                        theta, env.get(wrong[0]), wrong[0], list(o.list_of_young_diag[-1])))
            for xy in lines:
                x, y = xy[:, 0], xy[:, 1]
                ins = np.abs(x) <= 2
                omega = np.where(ins, 2 / np.pi * (x * np.arcsin(np.clip(x / 2, -1, 1)) + np.sqrt(np.maximum(4 - x ** 2, 0))), np.abs(x))
                if len(x) > 10 and not np.allclose(y, omega, atol=1e-9):
                    return rec.bad('curve', 'theta=%g: the limit shape drawn is not the Vershik-Kerov-Logan-Shepp curve' % theta)


def shown(o, z):
    import matplotlib.pyplot as plt
    from matplotlib.collections import LineCollection, PathCollection
    plt.close('all')
    try:
        o.plot_diagram(normalization=z)
        ax = plt.gcf().axes[0]
        return ([np.asarray(l.get_xydata(), dtype=float) for l in ax.lines],
                [np.asarray(c.get_offsets(), dtype=float)[:, 0] for c in ax.collections if isinstance(c, PathCollection)],
                [np.array(c.get_segments()) for c in ax.collections if isinstance(c, LineCollection) and len(c.get_segments())])
    finally:
        plt.close('all')


def potential(rec, V):
    """Histogram of a polynomial ensemble: the curve is the equilibrium density (itself judged by C27), over the whole support."""
    from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as B
    for beta, N in ((1, 3), (2, 4), (4, 2)):
        o = B(beta, np.poly1d(V))
        s = o.sample_mcmc(N, nb_gibbs_passes=2, random_state=np.random.RandomState(SEED))
        with quiet():
            got = attempt(curves, lambda: o.hist(s))
        rec.evals += 1
        if got[0] != 'ok':
            return rec.bad('figure', 'hist of V=%s raises %s' % (V, got[1:]))
        if o.equilibrium_density is not None and o.support is not None and not got[1]:
            return rec.bad('curve', 'V=%s: no curve drawn over the histogram' % (V,))
        for xy in got[1]:
            want = o.equilibrium_density(xy[:, 0])
            if not np.allclose(xy[:, 1], want) or xy[0, 0] > o.support[0] or xy[-1, 0] < o.support[1]:
                return rec.bad('curve', 'V=%s: the curve drawn is not the equilibrium density over its support' % (V,))


def saved(rec):
    """A figure is written exactly where it is asked for, and only when it is asked for."""
    import os
    import shutil
    import tempfile
    from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as B
    from dppy.finite_dpps import FiniteDPP
    o = B(2, np.poly1d([0.5, 0, 0]))
    s = o.sample_mcmc(3, nb_gibbs_passes=1, random_state=np.random.RandomState(SEED))
    k = FiniteDPP('correlation', **{'K': np.diag([0.5, 0.2])})
    k2 = FiniteDPP('likelihood', **{'L': np.diag([0.5, 2.])})
    for name, f in (('hist', lambda p: o.hist(s, save_file_name=p)), ('plot_kernel', lambda p: k.plot_kernel(save_path=p)),
                    ('plot_kernel/K of L', lambda p: k2.plot_kernel('correlation', save_path=p)),
                    ('plot_kernel/L', lambda p: k2.plot_kernel('likelihood', save_path=p))):
        for ask in ('', 'a.png', 'b.png'):
            d = tempfile.mkdtemp()
            cwd = os.getcwd()
            try:
                os.chdir(d)
                with quiet():
                    got = attempt(curves, lambda: f(os.path.join(d, ask) if ask else ask))
                files = sorted(os.listdir(d))
            finally:
                os.chdir(cwd)
                shutil.rmtree(d)
            rec.evals += 1
            rec.stats['states'] += 1
            rec.stats['transitions'] += 1
            if got[0] != 'ok':
                return rec.bad('saved', '%s raises %s' % (name, got[1:]))
            if files != ([ask] if ask else []):
                return rec.bad('saved', '%s asked to write %r wrote %s' % (name, ask, files))


def jope_plot(rec, params, N):
    """Marker sizes are the quadrature weights, curves the marginal reference densities (and the arcsine density)."""
    import matplotlib.pyplot as plt
    from matplotlib.collections import PathCollection
    from scipy import stats
    from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE
    jp = np.array(params, dtype=float)
    d = len(jp)
    o = MultivariateJacobiOPE(N, jp.copy())
    samples = [o.sample(random_state=np.random.RandomState(SEED + i)) for i in range(3)]
    samples.append(1.8 * np.modf(np.outer(np.arange(1, N + 1), [0.618, 0.382][:d]) + 0.3 * np.arange(1, N + 1)[:, None] ** 2)[0] - 0.9)
    dens = [lambda x, p=p: 0.5 * stats.beta.pdf((1 - x) / 2, 1 + p[0], 1 + p[1]) for p in jp]
    arc = lambda x: 0.5 * stats.beta.pdf((1 - x) / 2, 0.5, 0.5)
    for X in samples:
        Phi = np.asarray(o.eval_multiD_polynomials(X), dtype=float)
        w = {'': np.ones(N), 'BH': 1 / (Phi ** 2).sum(axis=1)}
        if N > 1 and np.linalg.cond(Phi) < 1e6:
            w['EZ'] = np.linalg.solve(Phi.T, np.eye(N)[0])      # sum_n w_n P_k(x_n) = 0 for every k > 0
        for mode, ref in w.items():
            plt.close('all')
            try:
                with quiet():
                    got = attempt(o.plot, X.copy(), mode)
                axes = plt.gcf().axes
                sc = [(np.asarray(c.get_offsets(), dtype=float), np.asarray(c.get_sizes(), dtype=float))
                      for ax in axes for c in ax.collections if isinstance(c, PathCollection)]
                lines = [[np.asarray(l.get_xydata(), dtype=float) for l in ax.lines] for ax in axes]
            finally:
                plt.close('all')
            rec.evals += 1
            rec.stats['states'] += 1
            rec.stats['transitions'] += 1
            what = 'plot of %d points, parameters %s, weights %r' % (N, params, mode)
            if got[0] != 'ok':
                return rec.bad('figure', '%s raises %s' % (what, got[1:]))
            pts = np.vstack([p for p, _ in sc]) if sc else np.zeros((0, 2))
            size = np.hstack([np.broadcast_to(z, len(p)) for p, z in sc]) if sc else np.zeros(0)
            full = X if d == 2 else np.hstack([X, np.zeros((N, 1))])
            if len(pts) != N or not np.allclose(np.array(sorted(map(tuple, pts))), np.array(sorted(map(tuple, full)))):
                return rec.bad('points', '%s: points drawn are not the sample' % what)
            if d == 2 or mode != 'EZ':
                near = ((full[:, None] - pts[None]) ** 2).sum(axis=2).argmin(axis=1)
                if not np.allclose(size[near] / np.abs(size).max(), np.abs(ref) / np.abs(ref).max(), rtol=1e-6, atol=1e-8):
                    return rec.bad('weights', '%s: marker sizes %s are not proportional to the weights %s' % (what, size[near], ref))
            allowed = [(lambda xy, i=i, f=f: np.allclose(xy[:, 1 - i], f(xy[:, i]), rtol=1e-8, equal_nan=True))
                       for i in range(d) for f in (dens[i], arc)]
            found = [any(a(xy) for a in allowed) for ls in lines for xy in ls]
            if not all(found) or len(found) < d:
                return rec.bad('curve', '%s: %d curves drawn, %d of them a marginal reference density' % (what, len(found), sum(found)))


def cases():
    yield Case('saved', saved)
    for params in ([[-.5, -.5]], [[.3, -.2]], [[0., .5]], [[.5, .5], [-.3, .1]], [[0., .25], [.25, .5]], [[-.5, -.5], [-.5, -.5]]):
        for N in (1, 2, 3, 6, 10):
            yield Case('jope/%s/%d' % (params, N), jope_plot, params, N)
    yield Case('selftest', selftest)
    for kind in CLASSES:
        for beta in {'circular': (1, 2, 4, 3, 6), 'ginibre': (2,)}.get(kind, (0, 0.5, 1, 2, 4)):
            yield Case('%s/%g' % (kind, beta), ensemble, kind, beta, 4 if THOROUGH else 3, cost=20)
    for t in (0.5, 3.0, 20.0, 200.0):
        yield Case('plancherel/%g' % t, plancherel, t)
    for V in ((0.5, 0, 0), (1., 0, 0), (0.25, 0, 0, 0, 0), (1 / 6, 0, 0, 0, 0, 0, 0), (0.25, 0, -1.25, 0, 0), (1 / 20, -4 / 15, 1 / 5, 8 / 5, 0)):
        yield Case('potential/%s' % (V,), potential, V)
