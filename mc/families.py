"""Every object of DPPy that keeps a sample history, with its operations (sampling calls, failing calls, others)."""
import copy

import numpy as np

from mc import objs, zoo
from mc.objs import Op


def norm(x):
    """Content of a sample, entry or parameter as an immutable value (exact)."""
    import networkx as nx
    if isinstance(x, nx.Graph):
        return ('G', tuple(sorted(x.nodes(), key=str)), tuple(sorted(tuple(sorted(e, key=str)) for e in x.edges())))
    if isinstance(x, np.ndarray):
        return ('A', x.shape, x.dtype.str, x.tobytes()) if x.dtype != object else ('O', tuple(map(norm, x.ravel())))
    if isinstance(x, (list, tuple)):
        return ('L', tuple(map(norm, x)))
    if isinstance(x, dict):
        return ('D', tuple((str(k), norm(v)) for k, v in x.items()))
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, (set, frozenset)):
        return ('S', tuple(sorted(map(str, x))))
    if isinstance(x, np.poly1d):
        return ('P', norm(x.coeffs))
    if x is None or isinstance(x, (int, str, bool, complex)):
        return x
    return type(x).__name__


class Family:
    """build(): a fresh object; ops: list of Op (kind 'sample' / 'bad' / 'flush' / 'other')."""

    def __init__(self, name, build, ops, logs=('list_of_samples',)):
        self.name, self.build, self.ops, self.logs = name, build, ops, logs


def plotting(f):
    def g(o, r):
        import matplotlib.pyplot as plt
        try:
            return f(o)
        finally:
            plt.close('all')
    return g


def graph(edges, n=None):
    import networkx as nx
    g = nx.Graph()
    g.add_nodes_from(range(n or 1 + max(max(e) for e in edges)))
    g.add_edges_from(edges)
    return g


def finite(thorough=False, plots=False):
    for d in objs.descriptions():
        ops = []
        for op in objs.operations(d, plots):
            kind = 'sample' if op.target else 'flush' if op.name == 'flush' else \
                'bad' if op.name.startswith(('bad', 'oversize')) else 'other'
            o = Op(op.name, op.f, kind)
            o.mcmc = op.kind == 'mcmc'
            ops.append(o)
        if 'L_eval_X_data' in d.params:
            ops.append(Op('vfx', lambda o, r: o.sample_exact(mode='vfx', random_state=r, verbose=False,
                                                             rls_oversample_bless=20.), 'sample'))
            ops.append(Op('alpha', lambda o, r: o.sample_exact(mode='alpha', random_state=r, verbose=False,
                                                               rls_oversample_bless=20.), 'sample'))
            ops.append(Op('bad vfx', lambda o, r: o.sample_exact_k_dpp(size=99, mode='vfx', random_state=r,
                                                                       verbose=False, rls_oversample_bless=20.), 'bad'))
        else:
            ops.append(Op('bad vfx', lambda o, r: o.sample_exact(mode='vfx', random_state=r), 'bad'))
            ops.append(Op('bad alpha', lambda o, r: o.sample_exact_k_dpp(size=1, mode='alpha', random_state=r), 'bad'))
        yield Family('finite/' + d.name, d.build, ops)


def exotic(plots=False):
    from dppy import exotic_dpps as ex
    S = [Op('sample%d' % n, lambda o, r, n=n: o.sample(n, random_state=r), 'sample') for n in (1, 2, 3)]
    base = S + [Op('flush', lambda o, r: o.flush_samples(), 'flush'), Op('str', lambda o, r: str(o)),
                Op('bad size', lambda o, r: o.sample(-3, random_state=r), 'bad')]
    if plots:
        base += [Op('plot', plotting(lambda o: o.plot())), Op('plot2', plotting(lambda o: o.plot(vs_bernoullis=False)))]
    yield Family('carries', lambda: ex.CarriesProcess(3), base)
    yield Family('descent', lambda: ex.DescentProcess(), base)
    yield Family('virtual', lambda: ex.VirtualDescentProcess(0.3), base)
    P = [Op('sample', lambda o, r: o.sample(random_state=r), 'sample'), Op('str', lambda o, r: str(o))]
    if plots:
        P += [Op('plot', plotting(lambda o: o.plot())),
              Op('diag', plotting(lambda o: o.plot_diagram())),
              Op('diagn', plotting(lambda o: o.plot_diagram(normalization=True)))]
    yield Family('plancherel', lambda: ex.PoissonizedPlancherel(3.0), P, ('list_of_samples', 'list_of_young_diag'))
    yield Family('plancherel-small', lambda: ex.PoissonizedPlancherel(0.5), P, ('list_of_samples', 'list_of_young_diag'))
    for gn, E in (('K3', [(0, 1), (0, 2), (1, 2)]), ('diamond', [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)])):
        U = [Op(m, lambda o, r, m=m: o.sample(mode=m, random_state=r), 'sample')
             for m in ('Wilson', 'Aldous-Broder', 'GS', 'Schur', 'Chol')]
        U += [Op('flush', lambda o, r: o.flush_samples(), 'flush'), Op('str', lambda o, r: str(o)),
              Op('kernel', lambda o, r: o.compute_kernel()),
              Op('bad mode', lambda o, r: o.sample(mode='bogus', random_state=r), 'bad')]
        if plots:
            U += [Op('plot', plotting(lambda o: o.plot())), Op('plot_graph', plotting(lambda o: o.plot_graph())),
                  Op('plot_kernel', plotting(lambda o: o.plot_kernel()))]
        yield Family('ust/' + gn, lambda E=E: ex.UST(graph(E)), U)


def ensembles(plots=False):
    from dppy import beta_ensembles as be

    def com(*ops):
        out = list(ops) + [Op('flush', lambda o, r: o.flush_samples(), 'flush'), Op('str', lambda o, r: str(o)),
                           Op('norm', lambda o, r: o.normalize_points(np.array([0.25, 0.5, 0.75])))]
        if plots:
            for nm in ('plot', 'hist'):
                for z in (True, False):
                    out.append(Op('%s%d' % (nm, z), plotting(lambda o, nm=nm, z=z: getattr(o, nm)(normalization=z))))
        return out
    for b in (0, 1, 2, 4):
        yield Family('hermite/%d' % b, lambda b=b: be.HermiteEnsemble(b), com(
            Op('full', lambda o, r: o.sample_full_model(size_N=3, random_state=r), 'sample'),
            Op('banded', lambda o, r: o.sample_banded_model(loc=0.5, scale=2.0, size_N=4, random_state=r), 'sample'),
            Op('bad', lambda o, r: o.sample_full_model(size_N=-1, random_state=r), 'bad')))
        lag = [Op('banded', lambda o, r: o.sample_banded_model(shape=1.5, scale=3.0, size_N=4, random_state=r), 'sample'),
               Op('bad', lambda o, r: o.sample_full_model(size_N=3, size_M=2, random_state=r), 'bad')]
        if b:
            lag += [Op('full', lambda o, r: o.sample_full_model(size_N=3, size_M=5, random_state=r), 'sample'),
                    Op('bandedM', lambda o, r: o.sample_banded_model(size_N=3, size_M=4, random_state=r), 'sample')]
        yield Family('laguerre/%d' % b, lambda b=b: be.LaguerreEnsemble(b), com(*lag))
        jac = [Op('banded', lambda o, r: o.sample_banded_model(a=1.5, b=2.0, size_N=4, random_state=r), 'sample'),
               Op('bad', lambda o, r: o.sample_full_model(size_N=3, size_M1=2, size_M2=4, random_state=r), 'bad')]
        if b:
            jac += [Op('full', lambda o, r: o.sample_full_model(size_N=3, size_M1=5, size_M2=4, random_state=r), 'sample'),
                    Op('bandedM', lambda o, r: o.sample_banded_model(size_N=3, size_M1=4, size_M2=5, random_state=r),
                       'sample')]
        yield Family('jacobi/%d' % b, lambda b=b: be.JacobiEnsemble(b), com(*jac))
        cir = [Op('banded', lambda o, r: o.sample_banded_model(size_N=4, random_state=r), 'sample'),
               Op('full', lambda o, r: o.sample_full_model(size_N=3, random_state=r), 'sample')]
        if b:
            cir.append(Op('bad', lambda o, r: o.sample_full_model(size_N=3, haar_mode='bogus', random_state=r), 'bad'))
        if b in (1, 2):
            cir.append(Op('fullQR', lambda o, r: o.sample_full_model(size_N=3, haar_mode='QR', random_state=r), 'sample'))
        yield Family('circular/%d' % b, lambda b=b: be.CircularEnsemble(b), com(*cir))
    yield Family('hermite/3', lambda: be.HermiteEnsemble(3), com(
        Op('full3', lambda o, r: o.sample_full_model(size_N=3, random_state=r), 'bad'),
        Op('banded', lambda o, r: o.sample_banded_model(size_N=4, random_state=r), 'sample')))
    yield Family('ginibre', lambda: be.GinibreEnsemble(), com(
        Op('full', lambda o, r: o.sample_full_model(size_N=3, random_state=r), 'sample'),
        Op('full4', lambda o, r: o.sample_full_model(size_N=4, random_state=r), 'sample'),
        Op('banded', lambda o, r: o.sample_banded_model(size_N=3, random_state=r), 'bad')))


def all_families(plots=False):
    yield from finite(plots=plots)
    yield from exotic(plots)
    yield from ensembles(plots)


def snapshot(o, drop=()):
    return {k: norm(v) for k, v in vars(o).items() if k not in drop and k != 'nx'}


def clone(o):
    memo = {}
    nx = vars(o).get('nx')
    if nx is not None:
        memo[id(nx)] = nx
    return copy.deepcopy(o, memo)
