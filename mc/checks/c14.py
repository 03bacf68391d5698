"""C14: uniform spanning tree samplers are uniform over all spanning trees."""
import itertools

import networkx as nx
import numpy as np

from mc import zoo
from mc.core import Case, SEED, THOROUGH, attempt
from mc.families import clone, graph

RULE = ('for every connected graph in the bound, every sampling mode (and the core walks from every root), all random '
        'walks are enumerated on the real code with state merging, giving the exact law of the returned tree, which is '
        'compared with the uniform law over the spanning trees found by brute force; kernels are compared with '
        'brute-force edge-set inclusion probabilities; the same after every other operation on the object')
BOUNDS = ('all connected labelled graphs on <= 4 nodes, all connected graphs on 5 nodes up to isomorphism (quick: those '
          'with <= 7 edges for the walks), relabelled / string-labelled / self-loop variants')
ASSUMPTIONS = ['RandomState draws have their documented laws', 'float tolerance 1e-8']
MODES = ('Wilson', 'Aldous-Broder', 'GS', 'GS_bis', 'KuTa12', 'Schur', 'Chol')


def edge(a, b):
    return (a, b) if str(a) <= str(b) else (b, a)


def spanning_trees(g):
    E = [edge(*e) for e in g.edges() if e[0] != e[1]]
    n = g.number_of_nodes()
    out = []
    for T in itertools.combinations(E, n - 1):
        t = nx.Graph()
        t.add_nodes_from(g.nodes())
        t.add_edges_from(T)
        if nx.is_connected(t):
            out.append(frozenset(T))
    return out


def canon_tree(t):
    return ('T', tuple(sorted((edge(*e) for e in t.edges()), key=str)), tuple(sorted(map(str, t.nodes()))))


def target(g):
    nodes = tuple(sorted(map(str, g.nodes())))
    tr = spanning_trees(g)
    return {('T', tuple(sorted(t, key=str)), nodes): 1.0 / len(tr) for t in tr}


def one(rec, g, mode):
    from dppy.exotic_dpps import UST

    def prog(rng):
        u = UST(g)
        u.sample(mode=mode, random_state=rng)
        return canon_tree(u.list_of_samples[-1])
    rec.check_law(prog, target(g))


def rooted(rec, g, name, root):
    from dppy import exotic_dpps_core as core_
    f = getattr(core_, name)
    nb = [list(g.neighbors(v)) for v in range(g.number_of_nodes())]

    def prog(rng):
        return canon_tree(f(nb, root=root, random_state=rng))
    rec.check_law(prog, target(g))


def after(rec, g, hist, mode):
    from dppy.exotic_dpps import UST
    u0 = UST(g)
    for h in hist:
        attempt(h, u0, np.random.RandomState(SEED))

    def prog(rng):
        u = clone(u0)
        u.sample(mode=mode, random_state=rng)
        return canon_tree(u.list_of_samples[-1])
    rec.check_law(prog, target(g))


def kernel(rec, g, first):
    from dppy.exotic_dpps import UST
    u = UST(g)
    if first:
        attempt(u.sample, mode=first, random_state=SEED)
    a = attempt(u.compute_kernel)
    if a[0] != 'ok':
        return rec.bad('kernel', 'compute_kernel raised %s' % (a[1:],))
    K, E = np.asarray(u.kernel), [edge(*e) for e in u.edges]
    n, m = g.number_of_nodes(), len(E)
    if K.shape != (m, m) or not np.allclose(K, K.T, atol=1e-9):
        return rec.bad('kernel', 'not a symmetric %d x %d matrix' % (m, m))
    if not np.allclose(K.dot(K), K, atol=1e-8) or abs(np.trace(K) - (n - 1)) > 1e-8:
        return rec.bad('kernel', 'not a projection of rank %d' % (n - 1))
    trees = spanning_trees(g)
    for r in range(1, min(m, n) + 1):
        for S in itertools.combinations(range(m), r):
            want = sum(all(E[i] in t for i in S) for t in trees) / len(trees)
            got = zoo.minor(K, S)
            rec.evals += 1
            if abs(got - want) > 1e-7:
                return rec.bad('kernel', 'edges %s: minor %.8f, inclusion probability %.8f'
                               % ([E[i] for i in S], got, want))
    rec.stats['states'] += rec.evals
    rec.stats['transitions'] += rec.evals


def labelled(nmax):
    for n in range(2, nmax + 1):
        pairs = list(itertools.combinations(range(n), 2))
        for m in range(n - 1, len(pairs) + 1):
            for E in itertools.combinations(pairs, m):
                g = graph(E, n)
                if nx.is_connected(g):
                    yield 'n%d_%s' % (n, ''.join('%d%d' % e for e in E)), g


def atlas(nmax):
    for g in nx.graph_atlas_g():
        if 2 <= g.number_of_nodes() <= nmax and nx.is_connected(g):
            yield 'atlas%s' % g.name, nx.Graph(g)


def variants():
    g = nx.Graph()
    g.add_nodes_from([2, 0, 1, 3])
    g.add_edges_from([(3, 1), (0, 1), (2, 0), (3, 2), (2, 1)])
    yield 'order', g
    yield 'grid', nx.grid_2d_graph(2, 2)
    g = nx.Graph([('x', 'y'), ('y', 'z'), ('z', 'x'), ('z', 'w')])
    yield 'strings', g
    g = graph([(0, 1), (1, 2), (0, 2), (2, 3)])
    g.add_edge(0, 0)
    g.add_edge(2, 2)
    yield 'loops', g
    g = nx.Graph([(10, 20), (20, 30), (10, 30)])
    yield 'gaps', g
    g = nx.Graph([(1, 2), (2, 3), (3, 1)])
    yield 'onebased', g
    g = graph([(0, 1), (1, 2), (0, 2)])
    nx.set_edge_attributes(g, 5.0, 'weight')
    yield 'weighted', g


def cases():
    for gn, g in labelled(4):
        for m in MODES:
            yield Case('%s/%s' % (gn, m), one, g, m, cost=g.number_of_edges())
        for f in ('ust_sampler_wilson', 'ust_sampler_aldous_broder'):
            for r in range(g.number_of_nodes()):
                yield Case('%s/%s/root%d' % (gn, f, r), rooted, g, f, r, cost=g.number_of_edges())
        yield Case('%s/kernel' % gn, kernel, g, None)
    for gn, g in atlas(5 if not THOROUGH else 6):
        n, m_ = g.number_of_nodes(), g.number_of_edges()
        if n < 5:
            continue
        for m in MODES:
            if n == 6 and m_ > 8 and m not in ('Schur', 'Chol', 'GS'):
                continue
            if m in ('Wilson', 'Aldous-Broder') and m_ > 7 and not THOROUGH:
                continue
            yield Case('%s/%s' % (gn, m), one, g, m, cost=m_ ** 3)
        yield Case('%s/kernel' % gn, kernel, g, None, cost=m_ ** 2)
    for gn, g in variants():
        for m in MODES:
            yield Case('%s/%s' % (gn, m), one, g, m, cost=30)
        yield Case('%s/kernel' % gn, kernel, g, None)
    ops = [('mode:' + m, lambda u, r, m=m: u.sample(mode=m, random_state=r)) for m in MODES]
    ops += [('kernel', lambda u, r: u.compute_kernel()), ('eig', lambda u, r: u.compute_kernel_eig_vecs()),
            ('flush', lambda u, r: u.flush_samples()), ('bad', lambda u, r: u.sample(mode='bogus', random_state=r))]
    tri = graph([(0, 1), (0, 2), (1, 2), (2, 3)])
    for (n1, o1), (n2, o2) in itertools.product(ops, repeat=2):
        for m in MODES:
            yield Case('hist/%s,%s/%s' % (n1, n2, m), after, tri, (o1, o2), m)
    for m in MODES:
        yield Case('hist/%s/kernel' % m, kernel, tri, m)
