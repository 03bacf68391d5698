"""C28: the zonotope chain targets the projection DPP."""
import itertools

import numpy as np

from mc import engine, fakelp
from mc.core import Case, THOROUGH, attempt

RULE = ('every full-row-rank matrix of a zoo x linear objective x starting point x direction: the exact one-step law of the real '
        'chain (position on the segment and acceptance as symbolic uniforms, the linear programs solved for every value of the '
        'uniform at once) is compared with the hit-and-run law computed from the dual description of the tiles: next basis B\' with '
        'probability (length of the segment in tile B\') / (length of the segment) x min(1, |det B\'| / |det B|); for rank one '
        'detailed balance with respect to det^2 on the whole chain; every longer chain over nodes of the uniforms against the '
        'same model; every visited state must be a basis; recorded chain equal to the returned one')
BOUNDS = 'rank 1..3, 2..5 columns, 2 (6) objectives, 3 (8) starting points, 2^r directions; chains of 3 (4) states over 2 nodes'
ASSUMPTIONS = ['cvxopt is not installed: linear programs are solved by exact enumeration of the basic solutions (mc/fakelp.py)',
               'tolerance 1e-3: the sampler takes points within 1e-5 of a tile face for ill conditioned',
               'hit-and-run with acceptance |det B\'|/|det B| has stationary density proportional to |det B| on tile B (volume '
               '|det B|), hence mass proportional to det^2 (symmetry of the proposal on segments)']
TOL = 1e-3


def zoo():
    r = np.random.RandomState(7)
    out = {'r1/int': [[1., 2., 3.]], 'r1/neg': [[1., -2., 0.5, 1.5]], 'r1/two': [[3., 1.]], 'r1/eq': [[1., 1., 1.]],
           'r2/tri': [[2., 1., 0.], [0., 1., 1.]], 'r2/sq': [[1., 0., 1., 1.], [0., 1., 1., -1.]],
           'r2/par': [[1., 2., 0.], [0., 0., 1.]], 'r2/zero': [[1., 0., 1.], [0., 0., 2.]],
           'r2/rnd': r.randn(2, 4), 'r2/rnd5': r.randn(2, 5), 'r3/rnd4': r.randn(3, 4), 'r2/full': [[1., 0.3], [0.2, 1.]],
           'r3/full': np.eye(3) + 0.2 * r.rand(3, 3), 'r1/one': [[2.]]}
    return {k: np.array(v, dtype=float) for k, v in out.items()}


def tiles(A, c):
    """Basis -> (inverse, corner): the tile is corner + A_B [0,1]^r, the other coordinates set by the reduced costs."""
    r, n = A.shape
    out = {}
    for B in itertools.combinations(range(n), r):
        M = A[:, B]
        if abs(np.linalg.det(M)) < 1e-10:
            continue
        inv = np.linalg.inv(M)
        red = c - c[list(B)].dot(inv).dot(A)
        corner = sum((A[:, j] for j in range(n) if j not in B and red[j] < 0), np.zeros(r))
        out[B] = (inv, corner, abs(np.linalg.det(M)))
    return out


def where(T, x):
    for B, (inv, corner, _) in T.items():
        t = inv.dot(x - corner)
        if (t > 2e-5).all() and (t < 1 - 2e-5).all():
            return B
    return None


def chord(T, x, d):
    """Basis -> interval of alpha with x + alpha d in the tile."""
    out = {}
    for B, (inv, corner, _) in T.items():
        p, q = inv.dot(x - corner), inv.dot(d)
        a, e = -np.inf, np.inf
        for pi, qi in zip(p, q):
            if abs(qi) < 1e-13:
                if not 0 <= pi <= 1:
                    a, e = 1, 0
                continue
            u, v = sorted((-pi / qi, (1 - pi) / qi))
            a, e = max(a, u), min(e, v)
        if e > a:
            out[B] = (a, e)
    return out


def basis(s):
    return tuple(sorted(int(i) for i in s))


def setup(A, r, i, j):
    rng = np.random.RandomState(1000 * i + j)
    return np.round(rng.randn(A.shape[1]), 3), A.dot(np.round(0.15 + 0.7 * rng.rand(A.shape[1]), 3))


def sampler(A, via):
    from dppy.finite_dpps import FiniteDPP
    from dppy.mcmc_sampling import zonotope_sampler
    if via == 'function':
        return lambda **k: zonotope_sampler(A, **k)

    def f(**k):
        o = FiniteDPP('correlation', projection=True, A_zono=A)
        ret = o.sample_mcmc('zonotope', **k)
        assert len(o.list_of_samples) == 1 and list(ret) == list(o.list_of_samples[0][-1]), 'sample not recorded'
        return o.list_of_samples[0]
    return f


def target_step(T, x, dirs, B0):
    law = {}
    for w, d in dirs:
        ch = chord(T, x, d)
        tot = sum(e - a for a, e in ch.values())
        stay = w
        for B, (a, e) in ch.items():
            p = w * (e - a) / tot * min(1.0, T[B][2] / T[B0][2])
            law[B] = law.get(B, 0.0) + p
            stay -= p
        law[B0] = law.get(B0, 0.0) + stay
    return law


ZN = np.array([-0.8, 1.1]), np.array([0.45, 0.55])


def directions(r):
    return [(np.prod([ZN[1][k] for k in ks]), np.array([ZN[0][k] for k in ks])) for ks in itertools.product((0, 1), repeat=r)]


def step(rec, name, via):
    A = zoo()[name]
    r, n = A.shape
    for i in range(6 if THOROUGH else 2):
        for j in range(8 if THOROUGH else 3):
            c, x = setup(A, r, i, j)
            T = tiles(A, c)
            B0 = where(T, x)
            if B0 is None:
                continue

            def prog(rng):
                out = sampler(A.copy(), via)(lin_obj=c.copy(), x_0=x.copy(), nb_iter=2, random_state=rng)
                return tuple(basis(s) for s in out)
            policy = {'normal': lambda: ZN, 'uniform_array': lambda: (np.array([0.5]), np.array([1.0]))}
            with fakelp.installed():
                law = rec.law(prog, policy=policy, merge=False, max_exec=10 ** 6, max_nodes=10 ** 7)
            if law is None:
                return
            want = {(B0, B): p for B, p in target_step(T, x, directions(r), B0).items()}
            compare(rec, law, want, '%s objective %s from %s' % (name, c.tolist(), x.tolist()), T)
            if rec.violations:
                return
    rec.sample({'matrix': name, 'tiles': len(T)})


def compare(rec, law, want, what, T):
    for k in set(law.p) | set(want):
        if k and isinstance(k[0], str):
            return rec.bad('error', '%s: %s' % (what, k))
        if any(b not in T for b in k):
            return rec.bad('basis', '%s: the chain visits %s, not made of bases' % (what, k))
        if abs(law.p.get(k, 0.0) - want.get(k, 0.0)) > TOL + law.residual:
            return rec.bad('law', '%s: chain %s has probability %.6f instead of %.6f' % (what, k, law.p.get(k, 0.0), want.get(k, 0.0)))


def rank_one(rec, name):
    """The whole transition matrix: for rank one the next tile does not depend on the position."""
    A = zoo()[name]
    n = A.shape[1]
    c = np.round(np.random.RandomState(3).randn(n), 3)
    T = tiles(A, c)
    P = np.zeros((n, n))
    for B, (inv, corner, _) in T.items():
        x = corner + A[:, list(B)].dot([0.5])

        def prog(rng):
            out = sampler(A.copy(), 'function')(lin_obj=c.copy(), x_0=x.copy(), nb_iter=2, random_state=rng)
            return tuple(basis(s) for s in out)
        policy = {'normal': lambda: ZN, 'uniform_array': lambda: (np.array([0.5]), np.array([1.0]))}
        with fakelp.installed():
            law = rec.law(prog, policy=policy, merge=False, max_exec=10 ** 6, max_nodes=10 ** 7)
        if law is None:
            return
        for k, p in law.p.items():
            if k[0] != B:
                return rec.bad('start', '%s: chain started in tile %s begins with %s' % (name, B, k))
            P[B[0], k[1][0]] += p
    pi = A[0] ** 2 / np.sum(A[0] ** 2)
    F = pi[:, None] * P
    live = [b[0] for b in T]
    if np.abs(F - F.T).max() > TOL:
        rec.bad('balance', '%s: flows %s are not symmetric' % (name, np.round(F, 5).tolist()))
    if np.abs(pi.dot(P) - pi)[live].max() > TOL:
        rec.bad('stationary', '%s: law after one step %s instead of %s' % (name, pi.dot(P).tolist(), pi.tolist()))


UN = np.array([0.13, 0.42, 0.91]), np.array([0.3, 0.4, 0.3])
UN2 = np.array([0.22, 0.71]), np.array([0.45, 0.55])


def chains(rec, name, via, steps):
    A = zoo()[name]
    r, n = A.shape
    c, x0 = setup(A, r, 1, 1)
    T = tiles(A, c)
    if where(T, x0) is None:
        return

    def prog(rng):
        k = dict(T_max=1e6) if via == 'object' else {}
        out = sampler(A.copy(), via)(lin_obj=c.copy(), x_0=x0.copy(), nb_iter=steps, random_state=rng, **k)
        return tuple(basis(s) for s in out)
    dirs = directions(r)
    U = UN if r == 1 else UN2
    # the unused default objective and default starting point may be drawn as well: one node for the uniforms of the latter
    single = {'normal': lambda: ZN, 'uniform_array': lambda: (np.array([0.5]), np.array([1.0])), 'uniform_scalar': lambda: U}
    with fakelp.installed():
        law = rec.law(prog, policy=single, merge=False, max_exec=3 * 10 ** 5, max_nodes=10 ** 7)
    if law is None:
        return
    want = {}

    def go(x, hist, p):
        if len(hist) == steps:
            want[hist] = want.get(hist, 0.0) + p
            return
        for w, d in dirs:
            ch = chord(T, x, d)
            a, e = min(v[0] for v in ch.values()), max(v[1] for v in ch.values())
            for u, wu in zip(*U):
                y = x + (a + (e - a) * u) * d
                B = where(T, y)
                if B is None:
                    go(x, hist + (hist[-1],), p * w * wu)
                    continue
                q = min(1.0, T[B][2] / T[hist[-1]][2])
                acc = sum(wv for v, wv in zip(*U) if v < q)
                if acc:
                    go(y, hist + (B,), p * w * wu * acc)
                if acc < 1:
                    go(x, hist + (hist[-1],), p * w * wu * (1 - acc))
    go(x0, (where(T, x0),), 1.0)
    compare(rec, law, want, '%s, chain of %d' % (name, steps), T)


def defaults(rec, name):
    """Random objective and starting point: the chain only visits bases."""
    A = zoo()[name]
    T = tiles(A, np.arange(A.shape[1]) + 0.1)
    for via in ('function', 'object'):
        def prog(rng):
            out = sampler(A.copy(), via)(nb_iter=2, random_state=rng)
            return tuple(basis(s) for s in out)
        policy = {'normal': lambda: ZN, 'uniform': lambda: (np.array([0.23, 0.81]), np.array([0.5, 0.5]))}
        with fakelp.installed():
            law = rec.law(prog, policy=policy, merge=False, max_exec=20000 if THOROUGH else 3000, max_nodes=10 ** 7)
        if law is None:
            return
        for k in law.p:
            if isinstance(k[0], str):
                return rec.bad('error', '%s: %s' % (name, k))
            if len(k) != 2 or any(b not in T for b in k):
                return rec.bad('basis', '%s with defaults: chain %s, not made of 2 bases' % (name, k))


def cases():
    for name, A in zoo().items():
        r, n = A.shape
        for via in ('function', 'object'):
            yield Case('step/%s/%s' % (name, via), step, name, via, cost=20)
        if r == 1:
            yield Case('rank1/' + name, rank_one, name, cost=5)
        yield Case('chain/%s' % name, chains, name, 'function', 4 if THOROUGH and r < 3 else 3 if r < 3 else 2, cost=50)
        yield Case('chain-object/%s' % name, chains, name, 'object', 2, cost=20)
        yield Case('default/%s' % name, defaults, name, cost=20)
