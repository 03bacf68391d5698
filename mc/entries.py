"""Every public entry point of DPPy with fresh caller-supplied arguments (used by the input-integrity and seeding checks)."""
import numpy as np

from mc import engine, zoo
from mc.checks.c01 import linear


class Entry:
    """make(): dict of fresh caller-owned arguments; call(args, rng): result. rnd: draws random numbers."""

    def __init__(self, name, make, call, rnd=True, nodes=False, int_seed=True):
        self.name, self.make, self.call, self.rnd, self.nodes, self.int_seed = name, make, call, rnd, nodes, int_seed


def content(x):
    """Everything observable of a caller-owned object, as an immutable value."""
    import networkx as nx
    if isinstance(x, nx.Graph):
        return ('G', type(x).__name__, repr(x.graph), repr(list(x.nodes(data=True))), repr(list(x.edges(data=True))))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('O', x.shape, tuple(content(v) for v in x.ravel()))
        return ('A', x.shape, x.strides, x.dtype.str, x.flags.writeable, x.tobytes())
    if isinstance(x, np.poly1d):
        return ('P', content(x.coeffs), x.variable)
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(content(v) for v in x))
    if isinstance(x, dict):
        return ('D', tuple((repr(k), content(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return ('S', tuple(sorted(map(repr, x))))
    if hasattr(x, '_asdict'):
        return ('N', content(x._asdict()))
    if callable(x):
        return 'callable'
    return type(x).__name__ if 'object at' in repr(x) else repr(x)


NODES = {
    'normal': lambda: (np.array([-0.9, 0.6]), np.array([0.5, 0.5])),
    'gamma': lambda k: (k * np.array([0.6, 1.3]), np.array([0.5, 0.5])),
    'beta': lambda a, b: (np.array([0.35, 0.6]), np.array([0.5, 0.5])),
    'poisson_max': 4,
}
GRID = dict(NODES, uniform=lambda: (np.array([0.2, 0.55, 0.9]), np.full(3, 1 / 3.)))


def close(f):
    def g(*a):
        import matplotlib.pyplot as plt
        try:
            return f(*a)
        finally:
            plt.close('all')
    return g


def proj(name='n3r2'):
    V = zoo.proj_bases()[name]
    return np.array(V), np.array(V.dot(V.T))


def spec():
    w, U = zoo.K_spectra()['mix3']
    return np.array(w), np.array(U)


def lker(name='rnd3'):
    return np.array(zoo.L_kernels()[name])


def data():
    return np.array([[4.0, 0.2, 1.0], [0.3, 5.1, 0.3], [3.7, 0.9, -4.0], [4.1, 4.6, 2.5]])


def exact():
    from dppy import exact_sampling as es
    for m in ('GS', 'Chol', 'Schur'):
        for k in (None, 1):
            yield Entry('proj_kernel/%s/%s' % (m, k), lambda: dict(K=proj()[1]),
                        lambda a, r, m=m, k=k: es.proj_dpp_sampler_kernel(a['K'], m, size=k, random_state=r))
        yield Entry('proj_kernel_f/%s' % m, lambda: dict(K=np.asfortranarray(proj('had4r2')[1])),
                    lambda a, r, m=m: getattr(es, 'proj_dpp_sampler_kernel_' + m)(a['K'], random_state=r))
        yield Entry('proj_kernel_view/%s' % m, lambda: dict(B=np.arange(100.).reshape(10, 10)),
                    lambda a, r, m=m: getattr(es, 'proj_dpp_sampler_kernel_' + m)(np.eye(3)[::-1][:, ::-1], random_state=r))
    yield Entry('generic', lambda: dict(K=(spec()[1] * spec()[0]).dot(spec()[1].T)),
                lambda a, r: es.dpp_sampler_generic_kernel(a['K'], random_state=r))
    yield Entry('generic/f', lambda: dict(K=np.asfortranarray((spec()[1] * spec()[0]).dot(spec()[1].T))),
                lambda a, r: es.dpp_sampler_generic_kernel(a['K'], random_state=r))
    yield Entry('selector', lambda: dict(w=spec()[0], U=spec()[1]),
                lambda a, r: es.dpp_eig_vecs_selector(a['w'], a['U'], random_state=r))
    for m in ('GS', 'GS_bis', 'KuTa12'):
        for k in (None, 1):
            yield Entry('proj_eig/%s/%s' % (m, k), lambda: dict(V=proj()[0]),
                        lambda a, r, m=m, k=k: es.proj_dpp_sampler_eig(a['V'], m, size=k, random_state=r))
        yield Entry('proj_eig_f/%s' % m, lambda: dict(V=np.asfortranarray(proj('had4r2')[0])),
                    lambda a, r, m=m: getattr(es, 'proj_dpp_sampler_eig_' + m)(a['V'], random_state=r))
    for k in (1, 2, 3):
        yield Entry('k_selector/%d' % k, lambda: dict(w=np.array([0.5, 1.5, 2.0]), U=spec()[1]),
                    lambda a, r, k=k: es.k_dpp_eig_vecs_selector(a['w'], a['U'], k, random_state=r))
        yield Entry('k_selector_E/%d' % k, lambda k=k: dict(
            w=np.array([0.5, 1.5, 2.0]), U=spec()[1],
            E=np.array(es.elementary_symmetric_polynomials(np.array([0.5, 1.5, 2.0]), k))),
            lambda a, r, k=k: es.k_dpp_eig_vecs_selector(a['w'], a['U'], k, a['E'], random_state=r))
    for k in (0, 2, 3):
        yield Entry('elementary/%d' % k, lambda: dict(w=np.array([0.5, 0.0, 2.0])),
                    lambda a, r, k=k: es.elementary_symmetric_polynomials(a['w'], k), rnd=False)


def interm():
    from dppy import bless as B, exact_sampling as es
    from dppy.utils import example_eval_L_polynomial as pol
    kw = dict(verbose=False, rls_oversample_bless=20.0)
    for en, ev in (('lin', linear), ('pol', pol)):
        for n, f in (('vfx', es.dpp_vfx_sampler), ('alpha', es.alpha_dpp_sampler)):
            yield Entry('%s/%s' % (n, en), lambda ev=ev: dict(X=data(), ev=ev),
                        lambda a, r, f=f: f(None, a['X'], a['ev'], random_state=r, **kw)[0])

            def two(a, r, f=f):
                s, info = f(None, a['X'], a['ev'], random_state=r, **kw)
                return s, f(info, a['X'], a['ev'], random_state=r, **kw)[0]
            yield Entry('%s/%s/twice' % (n, en), lambda ev=ev: dict(X=data(), ev=ev), two, int_seed=False)
            yield Entry('%s/%s/size' % (n, en), lambda ev=ev: dict(X=data(), ev=ev),
                        lambda a, r, f=f: f(None, a['X'], a['ev'], random_state=r, desired_expected_size=1.3, **kw)[0])
        for n, f in (('kvfx', es.k_dpp_vfx_sampler), ('kalpha', es.alpha_k_dpp_sampler)):
            yield Entry('%s/%s' % (n, en), lambda ev=ev: dict(X=data(), ev=ev),
                        lambda a, r, f=f: f(2, None, a['X'], a['ev'], random_state=r, **kw)[0])
    yield Entry('kalpha/prior', lambda: dict(X=data(), p=np.array([1., 2., 2., 1.])),
                lambda a, r: es.alpha_k_dpp_sampler(2, None, a['X'], linear, random_state=r,
                                                    prior_distribution=a['p'], **kw)[0])
    # the caller's intermediate information must survive a sampling call

    def info_of(mode, size=None):
        f = es.dpp_vfx_sampler if mode == 'vfx' else es.alpha_dpp_sampler
        return f(None, data(), linear, random_state=np.random.RandomState(0), desired_expected_size=size, **kw)[1]
    for mode, f in (('vfx', es.dpp_vfx_sampler), ('alpha', es.alpha_dpp_sampler)):
        yield Entry('info/' + mode, lambda mode=mode: dict(X=data(), info=info_of(mode)),
                    lambda a, r, f=f: f(a['info'], a['X'], linear, random_state=r, **kw)[0])
    for mode, f in (('vfx', es.k_dpp_vfx_sampler), ('alpha', es.alpha_k_dpp_sampler)):
        yield Entry('kinfo/' + mode, lambda mode=mode: dict(X=data(), info=info_of(mode, size=2)),
                    lambda a, r, f=f: f(2, a['info'], a['X'], linear, random_state=r, **kw)[0])
    for f, args in ((B.bless, (0.7, 5.0)), (B.bless_size, (2, 5.0))):
        for it in (None, 1, 3):
            yield Entry('%s/%s' % (f.__name__, it), lambda: dict(X=data()),
                        lambda a, r, f=f, args=args, it=it: dic_of(f(a['X'], linear, *args, random_state=r,
                                                                    nb_iter_bless=it, verbose=False)))

    def with_dict():
        X = data()
        return dict(X=X, D=B.bless(X, linear, 2.0, 20.0, random_state=0, verbose=False), Z=np.array(X[:2]))
    yield Entry('estimate_rls_bless', with_dict,
                lambda a, r: B.estimate_rls_bless(a['D'], a['Z'], linear, 0.9), rnd=False)
    yield Entry('reduce_lambda', with_dict, lambda a, r: dic_of(B.reduce_lambda(a['X'], linear, a['D'], 1.3, r, 6.0)),
                int_seed=False)


def dic_of(o):
    return tuple(map(dic_of, o)) if type(o) is tuple else content(o) if hasattr(o, '_asdict') else o


def mcmc():
    from dppy import mcmc_sampling as mc
    L = lker
    for m in ('AED', 'AD', 'E'):
        for s0 in ([0], [2, 0], None):
            def call(a, r, m=m):
                kw = dict(s_init=a['s']) if a['s'] is not None else {}
                if m == 'E':
                    kw['size'] = 2 if a['s'] is None else len(a['s'])
                return mc.dpp_sampler_mcmc(a['L'], m, nb_iter=3, random_state=r, **kw)
            yield Entry('mcmc/%s/%s' % (m, s0), lambda s0=s0: dict(L=L(), s=None if s0 is None else list(s0)), call)
    for n, f in (('aed', mc.add_exchange_delete_sampler), ('ad', mc.add_delete_sampler), ('e', mc.basis_exchange_sampler)):
        yield Entry('mcmc/%s/array' % n, lambda: dict(L=np.asfortranarray(L()), s=np.array([1, 2])),
                    lambda a, r, f=f: f(a['L'], list(a['s']), 3, None, r))
        yield Entry('mcmc/%s/list' % n, lambda: dict(L=L(), s=[1, 2]),
                    lambda a, r, f=f: f(a['L'], a['s'], 3, None, r))
        yield Entry('mcmc/%s/size' % n, lambda: dict(L=L(), s=[1, 2]),
                    lambda a, r, f=f: f(a['L'], a['s'], 4, random_state=r))
    yield Entry('init/AED', lambda: dict(L=L()), lambda a, r: mc.initialize_AED_sampler(a['L'], r))
    for k in (None, 2):
        yield Entry('init/AD/%s' % k, lambda: dict(L=L()), lambda a, r, k=k: mc.initialize_AD_and_E_sampler(a['L'], k, r))


def finite_forms():
    """FiniteDPP constructors on caller-owned parameters followed by every request of its interface."""
    from dppy.finite_dpps import FiniteDPP
    V, P = proj()
    w, U = spec()
    K = (U * w).dot(U.T)
    L = lker()
    n = 3
    full = np.linalg.qr(np.hstack([V, np.random.RandomState(0).randn(n, n)]))[0][:, :n]
    full[:, :2] = V
    ev = np.array([1.0, 1.0, 0.0])
    lw, lU = np.linalg.eigh(L)
    Phi = np.linalg.cholesky(L).T
    forms = [('likelihood', False, 'L', lambda: np.array(L)), ('likelihood', False, 'L_eig_dec', lambda: (np.array(lw), np.array(lU))),
             ('likelihood', False, 'L_gram_factor', lambda: np.array(Phi)),
             ('likelihood', False, 'L_gram_factor', lambda: np.array(Phi[:2])),
             ('likelihood', False, 'L_eval_X_data', lambda: (linear, data())),
             ('likelihood', True, 'L', lambda: np.array(P)), ('likelihood', True, 'L_gram_factor', lambda: np.array(V.T)),
             ('likelihood', True, 'L_eig_dec', lambda: (np.array(ev), np.array(full))),
             ('correlation', False, 'K', lambda: np.array(K)), ('correlation', False, 'K_eig_dec', lambda: (np.array(w), np.array(U))),
             ('correlation', True, 'K', lambda: np.array(P)), ('correlation', True, 'K_eig_dec', lambda: (np.array(ev), np.array(full))),
             ('correlation', True, 'A_zono', lambda: np.array([[2.0, 1.0], [0.0, 1.0]]).dot(V.T)),
             ('correlation', False, 'K', lambda: np.asfortranarray(K)), ('likelihood', False, 'L', lambda: np.asfortranarray(L)),
             ('likelihood', False, 'L_eig_dec', lambda: (np.array([-1e-12, 0.5, 2.0]), np.array(lU))),
             ('correlation', False, 'K_eig_dec', lambda: (np.array([-1e-12, 0.5, 1.0 + 1e-12]), np.array(U))),
             ('correlation', False, 'K_eig_dec', lambda: (np.array([0, 1, 1]), np.array(U))),
             ('correlation', True, 'K_eig_dec', lambda: (np.array([1.0 + 1e-12, 1.0 - 1e-12, -1e-12]), np.array(full))),
             ('correlation', True, 'K', lambda: np.array(P) + np.triu(np.full((n, n), 1e-13))),
             ('likelihood', False, 'L', lambda: np.array(L) + np.triu(np.full((n, n), 1e-13))),
             ('likelihood', False, 'L', lambda: np.array([[2, 1], [1, 3]])), ('correlation', True, 'K', lambda: np.eye(2, dtype=int))]
    acts = [('build', lambda o, r, s: None, False)]
    for m in ('GS', 'GS_bis', 'KuTa12', 'Chol', 'Schur', 'vfx', 'alpha', 'bogus'):
        kw = dict(verbose=False, rls_oversample_bless=20.0) if m in ('vfx', 'alpha') else {}
        acts.append(('exact ' + m, lambda o, r, s, m=m, kw=kw: o.sample_exact(mode=m, random_state=r, **kw), True))
        acts.append(('k ' + m, lambda o, r, s, m=m, kw=kw: o.sample_exact_k_dpp(size=2, mode=m, random_state=r, **kw), True))
    for m in ('AED', 'AD', 'E'):
        acts.append(('mcmc ' + m, lambda o, r, s, m=m: o.sample_mcmc(m, s_init=s, nb_iter=2, random_state=r,
                                                                     **({'size': 2} if m == 'E' else {})), True))
    acts.append(('kmcmc', lambda o, r, s: o.sample_mcmc_k_dpp(size=2, s_init=s, nb_iter=2, random_state=r), True))
    acts += [('compute_K', lambda o, r, s: o.compute_K(), False), ('compute_L', lambda o, r, s: o.compute_L(), False),
             ('plot', close(lambda o, r, s: (o.plot_kernel('correlation'), o.info())[0]), False)]
    return FiniteDPP, forms, acts


def exotic():
    import networkx as nx
    from dppy import exotic_dpps as ex, exotic_dpps_core as ec

    def g():
        G = nx.Graph()
        G.add_edges_from([(0, 1), (1, 2), (0, 2), (2, 3)])
        G.nodes[0]['colour'] = 'red'
        G[0][1]['weight'] = 2.0
        return G
    for m in ('Wilson', 'Aldous-Broder', 'GS', 'GS_bis', 'KuTa12', 'Schur', 'Chol', 'bogus'):
        yield Entry('ust/' + m, lambda: dict(G=g()), lambda a, r, m=m: _ust(ex, a['G'], m, r), rnd=m != 'bogus')
    for nm in ('plot', 'plot_graph', 'plot_kernel', 'compute_kernel', 'compute_kernel_eig_vecs', '__str__'):
        def obs(a, r, nm=nm):
            u = ex.UST(a['G'])
            if nm == 'plot':
                u.sample(random_state=r)
            getattr(u, nm)()
        yield Entry('ust/' + nm, lambda: dict(G=g()), close(obs), rnd=False)
    for root in (None, 0, 2):
        for f in (ec.ust_sampler_wilson, ec.ust_sampler_aldous_broder):
            yield Entry('%s/%s' % (f.__name__, root), lambda: dict(nb=[[1, 2], [0, 2], [0, 1, 3], [2]]),
                        lambda a, r, f=f, root=root: list(f(a['nb'], root, r).edges()))
    yield Entry('uniform_permutation', dict, lambda a, r: ec.uniform_permutation(4, r))
    for s in ([3, 1, 2], [2, 2, 1, 3], [1.5, 0.5]):
        yield Entry('RSK/list%d' % len(s), lambda s=s: dict(s=list(s)), lambda a, r: ec.RSK(a['s']), rnd=False)
        yield Entry('RSK/array%d' % len(s), lambda s=s: dict(s=np.array(s)), lambda a, r: ec.RSK(a['s']), rnd=False)
    yield Entry('xy_young_ru/array', lambda: dict(y=np.array([4, 2, 1])), lambda a, r: ec.xy_young_ru(a['y']), rnd=False)
    yield Entry('limit_shape', lambda: dict(x=np.array([-3., -1.0, 0.0, 2.5])), lambda a, r: ec.limit_shape(a['x']), rnd=False)
    for n, c in (('carries', lambda: ex.CarriesProcess(3)), ('descent', ex.DescentProcess),
                 ('virtual', lambda: ex.VirtualDescentProcess(0.3))):
        yield Entry(n, dict, lambda a, r, c=c: c().sample(3, random_state=r))

        def made(c=c):
            o = c()
            o.sample(5, random_state=np.random.RandomState(0))
            return dict(o=o)
        yield Entry(n + '/plot', made, close(lambda a, r: a['o'].plot(random_state=r)))
    yield Entry('plancherel', dict, lambda a, r: (lambda o: (o.sample(random_state=r), o.list_of_samples, o.list_of_young_diag))(
        ex.PoissonizedPlancherel(1.0)))


def _ust(ex, G, m, r):
    u = ex.UST(G)
    u.sample(mode=m, random_state=r)
    return sorted(map(tuple, map(sorted, u.list_of_samples[-1].edges())))


def matrices():
    from dppy import beta_ensembles as be, random_matrices as rm
    for b in (1, 2, 4):
        for n, f in (('hermite', lambda r, b: rm.hermite_sampler_full(2, b, random_state=r)),
                     ('laguerre', lambda r, b: rm.laguerre_sampler_full(3, 2, b, random_state=r)),
                     ('jacobi', lambda r, b: rm.jacobi_sampler_full(3, 2, 2, b, random_state=r)),
                     ('circular', lambda r, b: rm.circular_sampler_full(2, b, 'Hermite', random_state=r)),
                     ('circularQR', lambda r, b: rm.circular_sampler_full(2, b, 'QR', random_state=r))):
            if b == 4 and n == 'circularQR':
                continue
            yield Entry('%s_full/%d' % (n, b), dict, lambda a, r, f=f, b=b: f(r, b), nodes=True)
    for b in (1.5, 2):
        for n, f in (('normal', lambda r, b: rm.mu_ref_normal_sampler_tridiag(beta=b, size=3, random_state=r)),
                     ('gamma', lambda r, b: rm.mu_ref_gamma_sampler_tridiag(beta=b, size=3, random_state=r)),
                     ('beta', lambda r, b: rm.mu_ref_beta_sampler_tridiag(1.5, 2.0, beta=b, size=3, random_state=r))):
            yield Entry('%s_tridiag/%s' % (n, b), dict, lambda a, r, f=f, b=b: f(r, b), nodes=True)
    for b in (1, 2, 3):
        yield Entry('quindiag/%d' % b, dict,
                    lambda a, r, b=b: rm.mu_ref_unif_unit_circle_sampler_quindiag(beta=b, size=3, random_state=r), nodes=True)
    yield Entry('ginibre', dict, lambda a, r: rm.ginibre_sampler_full(2, random_state=r), nodes=True)
    x = lambda: dict(x=np.array([-2.5, 0.1, 0.5, 0.9, 3.0]))
    yield Entry('semi_circle_law', x, lambda a, r: rm.semi_circle_law(a['x']), rnd=False)
    yield Entry('marcenko_pastur_law', x, lambda a, r: rm.marcenko_pastur_law(a['x'], 4, 3), rnd=False)
    yield Entry('wachter_law', x, lambda a, r: rm.wachter_law(a['x'], 5, 4, 3), rnd=False)
    models = []
    for b in (0, 1, 2, 4):
        models += [('hermite/%d' % b, lambda b=b: be.HermiteEnsemble(b), [
            ('full', lambda o, r: o.sample_full_model(size_N=2, random_state=r)),
            ('banded', lambda o, r: o.sample_banded_model(loc=0.5, scale=2.0, size_N=3, random_state=r))]),
            ('laguerre/%d' % b, lambda b=b: be.LaguerreEnsemble(b), [
                ('banded', lambda o, r: o.sample_banded_model(shape=1.5, scale=3.0, size_N=3, random_state=r))] + ([
                    ('full', lambda o, r: o.sample_full_model(size_N=2, size_M=3, random_state=r)),
                    ('bandedM', lambda o, r: o.sample_banded_model(size_N=3, size_M=4, random_state=r))] if b else [])),
            ('jacobi/%d' % b, lambda b=b: be.JacobiEnsemble(b), [
                ('banded', lambda o, r: o.sample_banded_model(a=1.5, b=2.0, size_N=3, random_state=r))] + ([
                    ('full', lambda o, r: o.sample_full_model(size_N=2, size_M1=3, size_M2=2, random_state=r))] if b else [])),
            ('circular/%d' % b, lambda b=b: be.CircularEnsemble(b), [
                ('banded', lambda o, r: o.sample_banded_model(size_N=3, random_state=r)),
                ('full', lambda o, r: o.sample_full_model(size_N=2, random_state=r))] + ([
                    ('fullQR', lambda o, r: o.sample_full_model(size_N=2, haar_mode='QR', random_state=r))] if b in (1, 2) else []))]
    models.append(('ginibre-ens', lambda: be.GinibreEnsemble(),
                   [('full', lambda o, r: o.sample_full_model(size_N=2, random_state=r))]))
    for n, build, ops in models:
        for on, op in ops:
            yield Entry('%s/%s' % (n, on), dict, lambda a, r, build=build, op=op: op(build(), r), nodes=True)

            def norm(a, r, build=build, op=op):
                o = build()
                op(o, np.random.RandomState(0))
                return o.normalize_points(a['p'])
            yield Entry('%s/%s/normalize' % (n, on),
                        lambda: dict(p=np.array([0.25, 0.5, 0.75])), norm, rnd=False)


def jope():
    from dppy import multivariate_jacobi_ope as mj
    for d, N, jp in ((1, 2, [[0.3, -0.2]]), (1, 2, [[0.5, -0.5]]), (1, 2, [[1.5, 0.7]]), (2, 3, [[0.5, -0.5], [-0.3, 0.2]])):
        mk = lambda jp=jp: dict(jp=np.array(jp, dtype=float))
        nm = 'jope%d%s' % (d, jp[0])

        def X(d=d):
            return np.linspace(-0.8, 0.7, 3 * d).reshape(3, d)
        mx = lambda jp=jp, X=X: dict(jp=np.array(jp, dtype=float), X=X(), Y=X() / 2 + 0.1)
        B = lambda a, N=N: mj.MultivariateJacobiOPE(N, a['jp'])
        yield Entry(nm + '/eval_w', mx, lambda a, r, B=B: B(a).eval_w(a['X']), rnd=False)
        yield Entry(nm + '/polys', mx, lambda a, r, B=B: B(a).eval_multiD_polynomials(a['X']), rnd=False)
        yield Entry(nm + '/K', mx, lambda a, r, B=B: (B(a).K(a['X']), B(a).K(a['X'], a['Y']), B(a).K(a['X'], eval_pointwise=True),
                                                     B(a).K(a['X'], a['Y'], True), B(a).K(a['X'][0]), B(a).K(a['X'][0], a['Y'])),
                    rnd=False)
        yield Entry(nm + '/sample', mk, lambda a, r, B=B: B(a).sample(random_state=r), nodes=True)
        yield Entry(nm + '/sample-no-tridiag', mk, lambda a, r, B=B: B(a).sample(random_state=r, tridiag_1D=False), nodes=True)
        yield Entry(nm + '/proposal', mk, lambda a, r, B=B: B(a).sample_chain_rule_proposal(random_state=r), nodes=True)
        for w in ('', 'BH', 'EZ', True):
            yield Entry('%s/plot/%s' % (nm, w), lambda jp=jp, d=d, N=N: dict(jp=np.array(jp, dtype=float),
                                                                            S=np.linspace(-.6, .7, N * d).reshape(N, d)),
                        close(lambda a, r, B=B, w=w: B(a).plot(a['S'], weighted=w)), rnd=False)
        yield Entry(nm + '/helpers', lambda jp=jp, N=N, d=d: dict(jp=np.array(jp, dtype=float), deg=np.array([3] * d),
                                                                 o=np.array(list(mj.compute_ordering(N, d)))),
                    lambda a, r: (mj.compute_norms_1D_polynomials(a['jp'], 3),
                                  mj.compute_rejection_bounds(a['jp'], a['o'], True),
                                  mj.compute_rejection_bounds(a['jp'], a['o'], False),
                                  mj.compute_degrees_1D_polynomials(a['deg'])), rnd=False)


def potentials():
    from dppy import beta_ensemble_polynomial_potential as bp, beta_ensemble_polynomial_potential_core as bc
    V4 = lambda: dict(V=np.poly1d([0.25, 0.0, 0.5, 0.3, 0.0]))
    for n, V in (('quartic', [0.25, 0, 0.5, 0.3, 0]), ('const', [0.5, 0, 2.0]), ('sextic', [1 / 6., 0, 0, 0, 0, 0, 0]),
                 ('quad', [0.5, 0, 0]), ('cubic', [0.25, 0.1, 0.5, 0, 0]), ('sym', [0.25, 0, 0.5, 0, 0])):
        mk = lambda V=V: dict(V=np.poly1d(V))
        for ex in ((True, False) if n not in ('sextic', 'cubic') else (False,)):
            for ret in ({}, {'return_chain_of_eig_vals': True}, {'return_chain_of_lambda_max': True}):
                yield Entry('potential/%s/%s/%s' % (n, ex, ''.join(ret)), mk, lambda a, r, ex=ex, ret=ret:
                            bp.BetaEnsemblePolynomialPotential(2.0, a['V']).sample_mcmc(
                                N=2, nb_gibbs_passes=2, sample_exact_cond=ex, nb_mala_steps=2, random_state=r, **ret), nodes=True)
        yield Entry('potential/%s/build' % n, mk, lambda a, r: str(bp.BetaEnsemblePolynomialPotential(2.0, a['V'])), rnd=False)

        def hist(a, r):
            o = bp.BetaEnsemblePolynomialPotential(2.0, a['V'])
            o.N = 3
            o.hist(a['S'])
            if o.support is not None:
                return o.rescale_largest_eig_val(a['l'])
        yield Entry('potential/%s/hist' % n, lambda V=V: dict(V=np.poly1d(V), S=np.array([[0.1, -0.5], [0.2, 0.4]]),
                                                              l=np.array([1.9, 2.1])), close(hist), rnd=False)
    yield Entry('core/mala', V4, lambda a, r: bc.sampler_mala(0.2, a['V'], nb_steps=3, random_state=r), nodes=True)
    yield Entry('core/mala-array', lambda: dict(V=V4()['V'], x=np.array([0.2, 0.1])),
                lambda a, r: bc.sampler_mala(a['x'][0], a['V'], nb_steps=3, random_state=r), nodes=True)
    yield Entry('core/quartic', V4, lambda a, r: bc.sampler_exact_convex_quartic(a['V'], random_state=r), nodes=True)
    for sh in (0.5, 1.0, 2.5):
        for c2 in (0.0, 0.7):
            yield Entry('core/gamma/%g/%g' % (sh, c2), lambda c2=c2: dict(P=np.poly1d([c2, 0.6, 0.0])),
                        lambda a, r, sh=sh: bc.sampler_exact_convex_quartic(a['P'], shape=sh, random_state=r), nodes=True)
    for sh in (0.5, 1.0, 2.5):
        for co in ([0.7, -0.6, 0.0], [0.4, 0.7, 0.6, 0.0], [1.0, 0.1, -0.5, 0.0]):
            yield Entry('core/cubic/%g/%s' % (sh, co), lambda co=co: dict(P=np.poly1d(co)),
                        lambda a, r, sh=sh: bc.sampler_exact_convex_quartic(a['P'], shape=sh, random_state=r), nodes=True)
    ab = lambda: dict(a=np.linspace(-1, 1, 6), b=np.linspace(0.1, 1, 6), V=np.poly1d([1 / 6., .1, .2, .3, .5, .7, 0]))
    yield Entry('core/P_a', ab, lambda a, r: bc.polynomial_in_negative_log_conditional_a_coef(1, a['a'], a['b'], a['V']), rnd=False)
    yield Entry('core/P_b', ab, lambda a, r: bc.polynomial_in_negative_log_conditional_b_coef(1, a['a'], a['b'], a['V']), rnd=False)
    yield Entry('core/shift', V4, lambda a, r: bc.shift_pol(a['V'], 0.3), rnd=False)
    x = lambda: dict(x=np.array([-5.0, -0.3, 0.0, 0.4, 7.0]))
    for n, f in (('x2_x4', lambda: bc.equilibrium_x2_x4(1.0, 2.0)[0]), ('x2_x4 neg', lambda: bc.equilibrium_x2_x4(-9.0, 2.0)[0]),
                 ('cdf x2_x4 neg', lambda: bc.cdf_equilibrium_x2_x4(-9.0, 2.0)[0]),
                 ('cdf x2_x4', lambda: bc.cdf_equilibrium_x2_x4(1.0, 2.0)[0]), ('x2m', lambda: bc.equilibrium_x2m(3, 1.0)[0]),
                 ('cdf x4', lambda: bc.cdf_equilibrium_x2m(2, 1.0)[0]), ('cdf x6', lambda: bc.cdf_equilibrium_x2m(3, 1.0)[0]),
                 ('ClIt', lambda: bc.equilibrium_ClItKr10()[0])):
        yield Entry('core/' + n, x, lambda a, r, f=f: f()(a['x']), rnd=False)
    yield Entry('tracy', x, lambda a, r: bc.TracyWidom().cdf(a['x'], 10), rnd=False)


def utils():
    from dppy import utils as ut
    A = lambda: dict(A=np.array([[1.0, 0.2], [0.2, 0.5]]), B=np.array([[0.3, 0.1], [0.4, 0.9]]), v=np.array([0.2, 0.9]),
                     e=np.array([0.0, 1.0]), S=[1, 0], T=[0, 1], I=np.eye(2))
    for n, f in (('inner1d', lambda a: (ut.inner1d(a['A']), ut.inner1d(a['A'], a['B']), ut.inner1d(a['v']))),
                 ('det_ST', lambda a: (ut.det_ST(a['A'], a['S']), ut.det_ST(a['A'], a['S'], a['T']))),
                 ('is', lambda a: [g(a['A']) for g in (ut.is_square, ut.is_symmetric, ut.is_in_01, ut.is_geq_0,
                                                       ut.is_full_row_rank)]),
                 ('is2', lambda a: [ut.is_projection(a['I']), ut.is_orthonormal_columns(a['I']), ut.is_equal_to_O_or_1(a['e'])]),
                 ('stable', lambda a: (ut.stable_filter(a['I'], a['v']), ut.stable_invert_root(a['I'], a['v']))),
                 ('diag', lambda a: ut.evaluate_L_diagonal(ut.example_eval_L_polynomial, a['A'])),
                 ('lin', lambda a: (ut.example_eval_L_linear(a['A']), ut.example_eval_L_linear(a['A'], a['B']))),
                 ('pol', lambda a: (ut.example_eval_L_polynomial(a['A']), ut.example_eval_L_polynomial(a['A'], a['B']))),
                 ('min', lambda a: (ut.example_eval_L_min_kern(a['v'][:, None]),
                                    ut.example_eval_L_min_kern(a['v'][:, None], a['e'][:, None])))):
        yield Entry('utils/' + n, A, lambda a, r, f=f: f(a), rnd=False)


def all_entries():
    for g in (exact, interm, mcmc, exotic, matrices, jope, potentials, utils):
        for e in g():
            e.group = g.__name__
            yield e
