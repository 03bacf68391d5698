"""C24: invalid requests are refused and leave the object usable and unchanged."""
import numpy as np

from mc import families, objs
from mc.core import Case, SEED, THOROUGH, attempt
from mc.families import clone, graph, norm, snapshot

RULE = ('every invalid request of a table (entry point x mode x representation, sizes outside the admissible range, single-fault '
        'constructor parameters) is issued in every state reached by <= 1 (2) valid operations: the documented exception must be '
        'raised, nothing recorded, no public attribute changed (attributes still unset may be computed), and every valid '
        'operation afterwards gives the same outcome under the same seed as on a twin object that never saw the invalid request')
BOUNDS = 'all public classes, ground sets <= 4, about 90 constructor faults, 600 (state, invalid request) pairs per family'
ASSUMPTIONS = ['sampling_mode and size_k_dpp of FiniteDPP name the last requested mode: they are only displayed']
DISPLAY = {'FiniteDPP': ('sampling_mode', 'size_k_dpp', 'E_poly')}   # E_poly: table extended on demand, judged by the later samples
V, F, NI = 'ValueError', 'FloatingPointError', 'NotImplementedError'
ANY = None


class Bad:
    def __init__(self, name, f, *exc):
        self.name, self.f, self.exc = name, f, exc or (V,)


def finite_bad(d):
    """Invalid requests on a finite DPP described by d."""
    corr_proj = d.ktype == 'correlation' and d.proj
    one = d.ktype == 'correlation' and not d.proj and d.L is None      # some eigenvalue of K equals 1
    kexc = (V, F) if one else (V,)
    out = []
    for m in ('bogus', '', None, 'gs', 'Gs_bis', 'kuta12'):
        out.append(Bad('exact %s' % m, lambda o, r, m=m: o.sample_exact(mode=m, random_state=r)))
        for k in {1, d.rank}:
            out.append(Bad('k%d %s' % (k, m), lambda o, r, m=m, k=k: o.sample_exact_k_dpp(size=k, mode=m, random_state=r), *kexc))
    if not corr_proj:
        out.append(Bad('exact Schur', lambda o, r: o.sample_exact(mode='Schur', random_state=r)))
    if 'L_eval_X_data' not in d.params:
        for m in ('vfx', 'alpha'):
            out.append(Bad('exact ' + m, lambda o, r, m=m: o.sample_exact(mode=m, random_state=r)))
            out.append(Bad('k ' + m, lambda o, r, m=m: o.sample_exact_k_dpp(size=1, mode=m, random_state=r)))
    else:
        for m in ('vfx', 'alpha'):
            out.append(Bad('k99 ' + m, lambda o, r, m=m: o.sample_exact_k_dpp(size=99, mode=m, random_state=r, verbose=False,
                                                                              rls_oversample_bless=20.0)))
    if not d.proj:
        for m in ('Chol', 'Schur'):
            for k in {1, d.rank}:
                out.append(Bad('k%d %s' % (k, m), lambda o, r, m=m, k=k: o.sample_exact_k_dpp(size=k, mode=m, random_state=r), *kexc))
    kmodes = ('GS', 'GS_bis', 'KuTa12') + (('Chol', 'Schur') if d.proj else ())
    dense_only = d.proj and not ('K_eig_dec' in d.params or 'L_eig_dec' in d.params or 'A_zono' in d.params)
    for k in (d.rank + 1, d.n, d.n + 1, 99):
        if k <= d.rank:
            continue
        for m in kmodes:
            if dense_only and m in ('GS_bis', 'KuTa12'):
                pass
            out.append(Bad('oversize %d %s' % (k, m), lambda o, r, m=m, k=k: o.sample_exact_k_dpp(size=k, mode=m, random_state=r), *kexc))
        out.append(Bad('kmcmc %d' % k, lambda o, r, k=k: o.sample_mcmc_k_dpp(size=k, nb_iter=3, random_state=r), *kexc))
        out.append(Bad('E %d' % k, lambda o, r, k=k: o.sample_mcmc('E', size=k, nb_iter=3, random_state=r), *kexc))
    out.append(Bad('k -1', lambda o, r: o.sample_exact_k_dpp(size=-1, random_state=r), ANY))
    if corr_proj:
        for k in (0, d.rank - 1):
            for m in kmodes:
                out.append(Bad('undersize %d %s' % (k, m), lambda o, r, m=m, k=k: o.sample_exact_k_dpp(size=k, mode=m, random_state=r)))
            out.append(Bad('kmcmc %d' % k, lambda o, r, k=k: o.sample_mcmc_k_dpp(size=k, nb_iter=3, random_state=r)))
        out.append(Bad('E no size', lambda o, r: o.sample_mcmc('E', nb_iter=3, random_state=r)))
        for m in ('AED', 'AD'):
            out.append(Bad(m, lambda o, r, m=m: o.sample_mcmc(m, nb_iter=3, random_state=r)))
            out.append(Bad(m + ' init', lambda o, r, m=m: o.sample_mcmc(m, s_init=[0], nb_iter=3, random_state=r)))
        out.append(Bad('compute_L', lambda o, r: o.compute_L()))
        out.append(Bad('plot L', families.plotting(lambda o: o.plot_kernel('likelihood'))))
    if one:
        for m in ('AED', 'AD', 'E'):
            out.append(Bad(m, lambda o, r, m=m: o.sample_mcmc(m, nb_iter=3, random_state=r), F))
        out.append(Bad('compute_L', lambda o, r: o.compute_L(), F))
        out.append(Bad('k', lambda o, r: o.sample_exact_k_dpp(size=1, random_state=r), F))
        out.append(Bad('plot L', families.plotting(lambda o: o.plot_kernel('likelihood')), F))
    for m in ('bogus', '', None, 'aed', 'GS'):
        out.append(Bad('mcmc %s' % m, lambda o, r, m=m: o.sample_mcmc(m, random_state=r)))
    if 'A_zono' not in d.params:
        out.append(Bad('zonotope', lambda o, r: o.sample_mcmc('zonotope', random_state=r)))
    out.append(Bad('plot bogus', families.plotting(lambda o: o.plot_kernel('bogus'))))
    out.append(Bad('seed', lambda o, r: o.sample_exact(random_state='abc')))
    return out


def exotic_bad(name):
    out = []
    if name.startswith('ust'):
        for m in ('bogus', '', None, 'wilson', 'AB', 'gs'):
            out.append(Bad('mode %s' % m, lambda o, r, m=m: o.sample(mode=m, random_state=r)))
        out.append(Bad('seed', lambda o, r: o.sample(random_state='abc')))
    elif name in ('carries', 'virtual'):
        out.append(Bad('size -3', lambda o, r: o.sample(-3, random_state=r), ANY))
        out.append(Bad('seed', lambda o, r: o.sample(3, random_state='abc')))
    elif name == 'descent':
        out.append(Bad('seed', lambda o, r: o.sample(3, random_state='abc')))
    else:
        out.append(Bad('seed', lambda o, r: o.sample(random_state='abc')))
    return out


def ensemble_bad(name):
    kind, _, b = name.partition('/')
    b = int(b or 2)
    out = [Bad('seed', lambda o, r: o.sample_full_model(random_state='abc'))]
    if kind == 'hermite':
        out += [Bad('full -1', lambda o, r: o.sample_full_model(size_N=-1, random_state=r), ANY)]
        if b == 3:
            out += [Bad('full', lambda o, r: o.sample_full_model(size_N=2, random_state=r))]
    if kind == 'laguerre':
        for full in (True, False):
            def f(o, r, full=full, **k):
                return (o.sample_full_model if full else o.sample_banded_model)(random_state=r, **k)
            out += [Bad('M<N %s' % full, lambda o, r, f=f: f(o, r, size_N=3, size_M=2))]
            if b == 0:
                out += [Bad('shape 0 %s' % full, lambda o, r, f=f: f(o, r, size_N=2, size_M=7))]
        if b == 0:
            out += [Bad('shape -1', lambda o, r: o.sample_banded_model(shape=-1.0, size_N=2, random_state=r))]
        if b == 3:
            out += [Bad('full', lambda o, r: o.sample_full_model(size_N=2, size_M=6, random_state=r))]
    if kind == 'jacobi':
        for full in (True, False):
            def f(o, r, full=full, **k):
                return (o.sample_full_model if full else o.sample_banded_model)(random_state=r, **k)
            out += [Bad('M1<N %s' % full, lambda o, r, f=f: f(o, r, size_N=3, size_M1=2, size_M2=4)),
                    Bad('M2<N %s' % full, lambda o, r, f=f: f(o, r, size_N=3, size_M1=4, size_M2=2))]
            if b == 0:
                out += [Bad('a=b=0 %s' % full, lambda o, r, f=f: f(o, r, size_N=2, size_M1=7, size_M2=6))]
        if b == 3:
            out += [Bad('full', lambda o, r: o.sample_full_model(size_N=2, size_M1=6, size_M2=4, random_state=r))]
    if kind == 'circular':
        if b:
            for h in ('bogus', '', None, 'hermite', 'qr'):
                out += [Bad('haar %s' % h, lambda o, r, h=h: o.sample_full_model(size_N=2, haar_mode=h, random_state=r))]
        if b == 3:
            out += [Bad('full', lambda o, r: o.sample_full_model(size_N=2, random_state=r))]
    if kind == 'ginibre':
        out += [Bad('banded', lambda o, r: o.sample_banded_model(size_N=3, random_state=r), NI),
                Bad('banded args', lambda o, r: o.sample_banded_model(), NI)]
    return out


def empty_bad(name):
    """Refused only while no sample is available."""
    kind = name.partition('/')[0]
    if kind in ('hermite', 'laguerre', 'jacobi', 'circular', 'ginibre'):
        return [Bad('%s empty %s' % (nm, z), families.plotting(lambda o, nm=nm, z=z: getattr(o, nm)(normalization=z)))
                for nm in ('plot', 'hist') for z in (True, False)]
    return []


def all_families():
    from dppy import beta_ensembles as be
    for f in families.all_families():
        f.ops = [o for o in f.ops if o.kind != 'bad']
        yield f
    for n, c in (('laguerre', be.LaguerreEnsemble), ('jacobi', be.JacobiEnsemble), ('circular', be.CircularEnsemble)):
        yield families.Family(n + '/3', lambda c=c: c(3), [
            objs.Op('banded', lambda o, r: o.sample_banded_model(size_N=3, random_state=r), 'sample'),
            objs.Op('norm', lambda o, r: o.normalize_points(np.array([0.25, 0.5, 0.75]))),
            objs.Op('str', lambda o, r: str(o))])


def family(rec, name, depth):
    fam = next(f for f in all_families() if f.name == name)
    if name.startswith('finite/'):
        d = next(d for d in objs.descriptions() if 'finite/' + d.name == name)
        bads, empties = finite_bad(d), []
        fam.ops = [o for o in fam.ops if o.name != 'info']
    else:
        bads, empties = (ensemble_bad(name) if empty_bad(name) else exotic_bad(name)), empty_bad(name)
    prefixes, layer = [((), fam.build())], [((), fam.build())]
    seen = {repr(snapshot(layer[0][1]))}
    for _ in range(depth):
        nxt = []
        for hist, o in layer:
            for op in fam.ops:
                c = clone(o)
                attempt(op.f, c, np.random.RandomState(SEED))
                k = repr(snapshot(c))
                if k not in seen:
                    seen.add(k)
                    nxt.append((hist + (op.name,), c))
        prefixes += nxt
        layer = nxt
    hidden = DISPLAY.get(type(prefixes[0][1]).__name__, ())
    after = [(op, {}) for op in fam.ops]
    for hist, o in prefixes:
        todo = bads + (empties if not getattr(o, 'list_of_samples', [1]) else [])
        ref = None
        for bad in todo:
            c = clone(o)
            before = snapshot(c)
            got = attempt(bad.f, c, np.random.RandomState(SEED + 7))
            rec.stats['states'] += 1
            rec.stats['transitions'] += 1
            what = '%s after %s: invalid request "%s"' % (name, list(hist), bad.name)
            if got[0] == 'ok':
                rec.bad(bad.name + '|accepted', '%s was accepted and returned %s' % (what, repr(got[1])[:80]), history=list(hist))
                return
            if bad.exc != (None,) and got[1] not in bad.exc:
                rec.bad(bad.name + '|type', '%s raised %s (%s) instead of %s' % (what, got[1], got[2], '/'.join(bad.exc)))
                return
            now = snapshot(c)
            ch = [k for k in now if now[k] != before.get(k) and k not in hidden and before.get(k) is not None]
            ch += [k for k in before if k not in now]
            if ch:
                rec.bad(bad.name + '|state', '%s changed %s' % (what, {k: (str(before.get(k))[:60], str(now.get(k))[:60]) for k in ch}),
                        history=list(hist))
                return
            if ref is None:
                ref = []
                for op in fam.ops:
                    t = clone(o)
                    ref.append((attempt(op.f, t, np.random.RandomState(SEED + 1)), t))
            for op, (r0, t0) in zip(fam.ops, ref):
                t = clone(c)
                r1 = attempt(op.f, t, np.random.RandomState(SEED + 1))
                rec.stats['states'] += 1
                rec.stats['transitions'] += 1
                if (op.name == 'str' and hidden) or r0[0] != 'ok':      # only requests the twin accepts
                    continue
                logs = [(norm(getattr(t, l, None)), norm(getattr(t0, l, None))) for l in fam.logs]
                if norm(r1) != norm(r0) or any(a != b for a, b in logs):
                    rec.bad(bad.name + '|after', '%s, then %s gives %s instead of %s' % (
                        what, op.name, str(r1)[:100], str(r0)[:100]), history=list(hist))
                    return
    rec.stats['executions'] = rec.stats['transitions']
    rec.sample({'case': name, 'states': len(prefixes), 'invalid requests': [b.name for b in bads + empties]})


# ---- construction and stand-alone functions: single faults ----

def faults():
    """(name, thunk, exceptions): every call must be refused; its sane variant is the thunk named 'ok ...'."""
    import networkx as nx
    from dppy import beta_ensemble_polynomial_potential as bp, beta_ensembles as be, exact_sampling as es, exotic_dpps as ex
    from dppy import mcmc_sampling as mc, multivariate_jacobi_ope as mj, random_matrices as rm, utils as ut
    from dppy.finite_dpps import FiniteDPP as D
    from mc import entries
    w, U = entries.spec()
    P, K, L = entries.proj()[1], (U * w).dot(U.T), entries.lker()
    K, L = (K + K.T) / 2, (L + L.T) / 2
    Vp = entries.proj()[0]
    A = np.array([[2.0, 1.0], [0.0, 1.0]]).dot(Vp.T)
    full = np.linalg.qr(np.hstack([Vp, np.random.RandomState(0).randn(3, 3)]))[0][:, :3]
    full[:, :2] = Vp
    out = []

    def f(name, thunk, *exc):
        out.append((name, thunk, exc or (V,)))
    f('ok K', lambda: D('correlation', K=K))
    f('ok L', lambda: D('likelihood', L=L))
    f('ok P', lambda: D('correlation', projection=True, K=P))
    f('ok eig', lambda: D('correlation', projection=True, K_eig_dec=(np.array([1., 1., 0.]), full)))
    f('ok zono', lambda: D('correlation', projection=True, A_zono=A))
    for t in ('bogus', 'Correlation', '', None, 'K', 3):
        f('kernel_type %r' % (t,), lambda t=t: D(t, K=K))
        f('kernel_type %r L' % (t,), lambda t=t: D(t, L=L))
    for p in ('yes', 1, 0, None, 'True', [True]):
        f('projection %r' % (p,), lambda p=p: D('correlation', projection=p, K=P))
        f('projection %r L' % (p,), lambda p=p: D('likelihood', projection=p, L=P))
    for t, bad in (('correlation', dict(L=L)), ('correlation', {}), ('correlation', dict(k=K)), ('correlation', dict(L_gram_factor=L)),
                   ('correlation', dict(L_eig_dec=(w, U))), ('correlation', dict(L_eval_X_data=(entries.linear, entries.data()))),
                   ('likelihood', dict(K=K)), ('likelihood', {}), ('likelihood', dict(K_eig_dec=(w, U))), ('likelihood', dict(A_zono=A))):
        f('params %s %s' % (t, sorted(bad)), lambda t=t, bad=bad: D(t, **bad))
        f('params %s %s proj' % (t, sorted(bad)), lambda t=t, bad=bad: D(t, projection=True, **bad))
    for key, t, M in (('K', 'correlation', K), ('L', 'likelihood', L)):
        for i, j in ((0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)):
            B = M.copy()
            B[i, j] += 0.3
            f('%s asym %d%d' % (key, i, j), lambda t=t, key=key, B=B: D(t, **{key: B}))
        f(key + ' rect', lambda t=t, key=key, M=M: D(t, **{key: M[:2]}))
        f(key + ' 1d', lambda t=t, key=key, M=M: D(t, **{key: M[0]}))
        f(key + ' 3d', lambda t=t, key=key, M=M: D(t, **{key: M[None]}))
        for i in range(3):
            B = P.copy()
            B[i, i] += 0.25
            f('%s not projection %d' % (key, i), lambda t=t, key=key, B=B: D(t, projection=True, **{key: B}))
        for i, j in ((0, 1), (0, 2), (1, 2)):
            B = np.zeros((3, 3))           # the diagonals of B and B^2 agree, the spectrum is {1.2, 0.4, 0}
            B[i, i] = B[j, j] = 0.8
            B[i, j] = B[j, i] = 0.4
            f('%s projection diagonal %d%d' % (key, i, j), lambda t=t, key=key, B=B: D(t, projection=True, **{key: B}))
        B = 0.5 * P
        f('%s half projection' % key, lambda t=t, key=key, B=B: D(t, projection=True, **{key: B}))
    big = np.eye(12)
    big[3, 11] = 0.2
    f('K asym far', lambda: D('correlation', K=0.5 * big))
    far = np.eye(12)
    far[11, 11] = 0.5
    f('K not projection far', lambda: D('correlation', projection=True, K=far))
    for i in range(3):
        for v in (-0.2, 1.2, 5.0):
            e = w.copy()
            e[i] = v
            f('K_eig %d %g' % (i, v), lambda e=e: D('correlation', K_eig_dec=(e, U)))
        e = np.array([0.5, 1.5, 2.0])
        e[i] = -0.3
        f('L_eig %d' % i, lambda e=e: D('likelihood', L_eig_dec=(e, U)))
        for v in (0.5, -1.0, 2.0, 1e-3):
            e = np.array([1.0, 1.0, 0.0])
            e[i] = v
            f('proj K_eig %d %g' % (i, v), lambda e=e: D('correlation', projection=True, K_eig_dec=(e, full)))
            f('proj L_eig %d %g' % (i, v), lambda e=e: D('likelihood', projection=True, L_eig_dec=(e, full)))
        W = U.copy()
        W[:, i] *= 1.1
        f('K_eig vec norm %d' % i, lambda W=W: D('correlation', K_eig_dec=(w, W)))
        f('L_eig vec norm %d' % i, lambda W=W: D('likelihood', L_eig_dec=(w, W)))
        W2 = U.copy()
        W2[:, i] = U[:, (i + 1) % 3]
        f('K_eig vec rep %d' % i, lambda W=W2: D('correlation', K_eig_dec=(w, W)))
        f('L_eig vec rep %d' % i, lambda W=W2: D('likelihood', L_eig_dec=(w, W)))
    f('zono rank', lambda: D('correlation', projection=True, A_zono=np.array([[1.0, 2.0, 3.0], [2.0, 4.0, 6.0]])))
    f('zono shape', lambda: D('correlation', projection=True, A_zono=np.random.RandomState(0).randn(4, 3)))
    f('zono zero', lambda: D('correlation', projection=True, A_zono=np.zeros((2, 3))))
    for X in (np.zeros((0, 3)), np.zeros(3), np.zeros((2, 2, 2)), np.zeros((3, 0))):
        f('X_data %s' % (X.shape,), lambda X=X: D('likelihood', L_eval_X_data=(entries.linear, X)))
    f('eval_L', lambda: D('likelihood', L_eval_X_data=(3.0, entries.data())))
    f('eval_L str', lambda: D('likelihood', L_eval_X_data=('linear', entries.data())))
    # kernels found invalid when first needed
    for nm, B in (('neg', K - 0.6 * np.eye(3)), ('big', K + 0.6 * np.eye(3))):
        for op in ('GS', 'GS_bis', 'KuTa12'):
            f('K %s %s' % (nm, op), lambda B=B, op=op: D('correlation', K=B).sample_exact(op, random_state=0))
        f('K %s k' % nm, lambda B=B: D('correlation', K=B).sample_exact_k_dpp(1, random_state=0))
        f('K %s compute_L' % nm, lambda B=B: D('correlation', K=B).compute_L())
    B = L - 3.0 * np.eye(3)
    for op in ('GS', 'GS_bis', 'KuTa12', 'Chol'):
        f('L neg %s' % op, lambda B=B, op=op: D('likelihood', L=B).sample_exact(op, random_state=0))
    f('L neg k', lambda B=B: D('likelihood', L=B).sample_exact_k_dpp(1, random_state=0))
    f('L neg compute_K', lambda B=B: D('likelihood', L=B).compute_K())
    # samplers used directly
    for m in ('GS', 'Chol', 'Schur'):
        f('ok kernel %s' % m, lambda m=m: es.proj_dpp_sampler_kernel(P, m, random_state=0))
        for k in (3, 50):
            f('kernel oversize %s %d' % (m, k), lambda m=m, k=k: es.proj_dpp_sampler_kernel(P, m, size=k, random_state=0))
    for m in ('GS', 'GS_bis', 'KuTa12'):
        f('ok eig %s' % m, lambda m=m: es.proj_dpp_sampler_eig(Vp, m, random_state=0))
        for k in (3, 50):
            f('eig oversize %s %d' % (m, k), lambda m=m, k=k: es.proj_dpp_sampler_eig(Vp, m, size=k, random_state=0))
    for m in ('bogus', '', None, 'gs', 'GS_bis', 'KuTa12'):
        f('kernel mode %s' % m, lambda m=m: es.proj_dpp_sampler_kernel(P, m, random_state=0))
    for m in ('bogus', '', None, 'gs', 'Chol', 'Schur'):
        f('eig mode %s' % m, lambda m=m: es.proj_dpp_sampler_eig(Vp, m, random_state=0))
        f('eig mode %s empty' % m, lambda m=m: es.proj_dpp_sampler_eig(Vp[:, :0], m, random_state=0))
    for k in (3, 4):
        f('k selector %d' % k, lambda k=k: es.k_dpp_eig_vecs_selector(np.array([0.5, 0.0, 2.0]), U, k, random_state=0))
    # chains that cannot be started
    R1 = np.ones((3, 3))
    f('E init rank', lambda: mc.initialize_AD_and_E_sampler(R1, 2, 0))
    f('E init size', lambda: mc.initialize_AD_and_E_sampler(L, 4, 0))
    f('AD init zero', lambda: mc.initialize_AD_and_E_sampler(np.zeros((3, 3)), None, 0))
    f('mcmc E rank', lambda: mc.dpp_sampler_mcmc(R1, 'E', size=2, random_state=0))
    # exotic
    f('ok virtual', lambda: ex.VirtualDescentProcess(1.0))
    for x in (-0.1, 1.1, -1, 2, float('nan')):
        f('x_0 %s' % x, lambda x=x: ex.VirtualDescentProcess(x))
    for n, E in (('two edges', [(0, 1), (2, 3)]), ('isolated', [(0, 1), (1, 2)])):
        G = graph(E, n=4)
        f('ust ' + n, lambda G=G: ex.UST(G))
    G = nx.Graph([('a', 'b'), ('c', 'd')])
    f('ust labels', lambda: ex.UST(G))
    # beta ensembles
    for n, c in (('hermite', be.HermiteEnsemble), ('laguerre', be.LaguerreEnsemble), ('jacobi', be.JacobiEnsemble),
                 ('circular', be.CircularEnsemble)):
        f('ok ' + n, lambda c=c: c(2))
        for b in (-1, -2) + ((-0.5, float('nan')) if n != 'circular' else (2.0, 1.5, '2')):
            f('%s beta %s' % (n, b), lambda c=c, b=b: c(b))
    for b in (1, 4, 0, 3, 2.5):
        f('ginibre beta %s' % b, lambda b=b: be.GinibreEnsemble(b))
    # random matrices
    for b in (0, 3, -1, 1.5, '2', None):
        f('hermite full %s' % b, lambda b=b: rm.hermite_sampler_full(2, b, random_state=0))
        f('laguerre full %s' % b, lambda b=b: rm.laguerre_sampler_full(3, 2, b, random_state=0))
        f('jacobi full %s' % b, lambda b=b: rm.jacobi_sampler_full(3, 3, 2, b, random_state=0))
        f('circular full %s' % b, lambda b=b: rm.circular_sampler_full(2, b, 'Hermite', random_state=0))
    for b in (1, 2, 4):
        for h in ('bogus', '', None, 'hermite', 'qr'):
            f('haar %s %s' % (b, h), lambda b=b, h=h: rm.circular_sampler_full(2, b, h, random_state=0))
    for b in (0, -1, -0.5):
        f('normal tridiag %s' % b, lambda b=b: rm.mu_ref_normal_sampler_tridiag(beta=b, size=2, random_state=0))
        f('gamma tridiag %s' % b, lambda b=b: rm.mu_ref_gamma_sampler_tridiag(beta=b, size=2, random_state=0))
        f('beta tridiag %s' % b, lambda b=b: rm.mu_ref_beta_sampler_tridiag(1., 1., beta=b, size=2, random_state=0))
        f('quindiag %s' % b, lambda b=b: rm.mu_ref_unif_unit_circle_sampler_quindiag(beta=b, size=2, random_state=0))
    for b in (1.5, 2.5, '2'):
        f('quindiag %s' % b, lambda b=b: rm.mu_ref_unif_unit_circle_sampler_quindiag(beta=b, size=2, random_state=0))
    # Jacobi orthogonal polynomial ensemble
    f('ok jope', lambda: mj.MultivariateJacobiOPE(3, np.array([[0.5, -0.5], [0.1, 0.2]])))
    f('ok jope1', lambda: mj.MultivariateJacobiOPE(3, np.array([[1.5, -0.9]])))
    for n in (0, -1, 1.0, 2.5, '3', None):
        f('jope N %r' % (n,), lambda n=n: mj.MultivariateJacobiOPE(n, np.array([[0.5, -0.5]])))
        f('jope N %r d2' % (n,), lambda n=n: mj.MultivariateJacobiOPE(n, np.array([[0.5, -0.5], [0.1, 0.2]])))
    for i in range(2):
        for v in (-1.0, -1.5, -7.0):
            jp = np.array([[0.5, 0.5]])
            jp[0, i] = v
            f('jope1 %d %g' % (i, v), lambda jp=jp: mj.MultivariateJacobiOPE(2, jp))
        for j in range(2):
            for v in (-0.51, 0.51, -1.0, 2.0, float('nan')):
                jp = np.array([[0.5, 0.5], [-0.5, 0.1]])
                jp[i, j] = v
                f('jope2 %d%d %g' % (i, j, v), lambda jp=jp: mj.MultivariateJacobiOPE(2, jp))
    J3 = lambda: mj.MultivariateJacobiOPE(2, np.full((3, 2), 0.1))
    f('jope plot d=3', families.plotting(lambda _: J3().plot(np.zeros((2, 3)))).__get__(None) if False else
      (lambda: families.plotting(lambda o: o.plot(np.zeros((2, 3))))(J3(), None)), NI)
    # polynomial potentials
    BP = bp.BetaEnsemblePolynomialPotential
    f('ok potential', lambda: BP(2, np.poly1d([1, 0, 0])))
    for b in (0, -1, -0.5, float('nan')):
        f('potential beta %s' % b, lambda b=b: BP(b, np.poly1d([1, 0, 0])))
    for n, c in (('degree 1', [1, 0]), ('degree 3', [1, 0, 0, 0]), ('degree 5', [1, 0, 0, 0, 0, 0]), ('degree 7', [1] + [0] * 7),
                 ('degree 8', [1] + [0] * 8), ('degree 9', [1] + [0] * 9), ('degree 10', [1] + [0] * 10), ('g_5', [1, 0.1, 0, 0, 0, 0, 0]),
                 ('negative 2', [-1, 0, 0]), ('negative 4', [-0.2, 0, 1, 0, 0]), ('negative 6', [-1, 0, 0, 0, 5, 0, 0])):
        f('potential ' + n, lambda c=c: BP(2, np.poly1d(c)))
    ex_ = dict(N=2, nb_gibbs_passes=1, sample_exact_cond=True, random_state=0)
    f('ok exact', lambda: BP(2, np.poly1d([0.25, 0, 0.5, 0, 0])).sample_mcmc(**ex_))
    for n, c in (('cubic', [0.25, 0.1, 0, 0, 0]), ('sextic', [1, 0, 0, 0, 0, 0, 0]), ('negative g_2', [1, 0, -0.5, 0, 0])):
        f('exact ' + n, lambda c=c: BP(2, np.poly1d(c)).sample_mcmc(**ex_))
    # validators and seeds
    for s in ('abc', 1.5, [1.5], {}, -1):
        f('seed %r' % (s,), lambda s=s: ut.check_random_state(s), V, 'TypeError')
    from dppy import beta_ensemble_polynomial_potential_core as bc
    for m in (1, 4, 5):
        f('cdf_x2m %d' % m, lambda m=m: bc.cdf_equilibrium_x2m(m, 1.0), NI)
    return out


def group(rec, names):
    for name, thunk, exc in faults():
        if name not in names:
            continue
        rec.evals += 1
        got = attempt(thunk)
        if name.startswith('ok '):
            if got[0] != 'ok':
                rec.bad(name, 'valid request %s refused: %s' % (name, got[1:]))
        elif got[0] == 'ok':
            rec.bad(name, 'invalid request %s accepted: %s' % (name, repr(got[1])[:80]))
        elif got[1] not in exc:
            rec.bad(name, 'invalid request %s raised %s (%s) instead of %s' % (name, got[1], got[2], '/'.join(exc)))


def cases():
    for f in all_families():
        yield Case(f.name, family, f.name, 2 if THOROUGH else 1, cost=100)
    names = [n for n, _, _ in faults()]
    assert len(names) == len(set(names)), [n for n in names if names.count(n) > 1]
    for n in names:
        yield Case('fault/' + n, group, (n,), cost=1)
