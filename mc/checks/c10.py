"""C10: sampling is reproducible from its seed and isolated from the global generator."""
import random

import numpy as np

from mc import engine, entries, families
from mc.core import Case, SEED, THOROUGH, attempt, limit, quiet
from mc.entries import content

RULE = ('every sampling entry point is explored over the outcomes of the supplied generator while the global generator and the '
        'construction of any other generator are replaced by objects that refuse to be used, and every explored path is replayed '
        'against the recorded result; integer seeds, identically seeded generators, scrambled global states and the default '
        '(global) generator are compared on each; all operation sequences up to a depth are run twice on fresh objects under '
        'different global states')
BOUNDS = 'about 230 sampling entry points, <= 200 (2000) executions each, 3 (6) seeds; histories of length <= 2 (3) on 60 objects'
ASSUMPTIONS = ['RandomState with equal state produces equal streams (NumPy)']


class Foreign(Exception):
    """Randomness taken from somewhere else than the supplied generator."""


class _Refuse:
    def __getattr__(self, name):
        raise Foreign('global generator used: ' + name)


class _Meta(type):
    real = np.random.RandomState

    def __instancecheck__(cls, x):
        return isinstance(x, _Meta.real)

    def __subclasscheck__(cls, c):
        return issubclass(c, _Meta.real)

    def __call__(cls, *a, **k):
        raise Foreign('another generator was created: RandomState%r' % (a,))


class NoOther(metaclass=_Meta):
    """Stand-in for np.random.RandomState: instances are recognised, new ones refused."""


class poisoned:
    """No generator but the supplied one can be used inside."""
    NAMES = [n for n in dir(np.random.RandomState) if not n.startswith('_') and hasattr(np.random, n)]

    def __enter__(self):
        def no(name):
            def f(*a, **k):
                raise Foreign('global generator used: ' + name)
            return f
        self.saved = {n: getattr(np.random, n) for n in self.NAMES + ['RandomState', 'default_rng', 'Generator']}
        self.rand = np.random.mtrand._rand
        np.random.mtrand._rand = _Refuse()
        for n in self.NAMES + ['default_rng']:
            setattr(np.random, n, no(n))
        np.random.RandomState = NoOther
        self.py = {n: getattr(random, n) for n in ('random', 'randint', 'choice', 'shuffle', 'sample', 'uniform', 'gauss',
                                                   'randrange')}
        for n in self.py:
            setattr(random, n, no('random.' + n))

    def __exit__(self, *a):
        np.random.mtrand._rand = self.rand
        for n, v in self.saved.items():
            setattr(np.random, n, v)
        for n, v in self.py.items():
            setattr(random, n, v)


def gstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], repr(s[4])), random.getstate()


def freeze(x):
    return families.norm(x)


def result(e, r):
    a = e.make()
    try:
        with quiet(), limit(60):
            return ('ok', freeze(e.call(a, r)))
    except Exception as x:
        return ('exc', type(x).__name__, str(x)[:100])
    except engine.Hang:
        return ('hang',)


def one(rec, e, cap, seeds):
    for s in seeds:
        np.random.seed(4242 + s)
        g0 = gstate()
        first = result(e, np.random.RandomState(s))
        rec.evals += 5
        if gstate() != g0:
            return rec.bad('global', '%s with a supplied generator changed the global generator' % e.name)
        np.random.seed(99 + s)
        np.random.rand(s)
        random.seed(s)
        again = result(e, np.random.RandomState(s))
        if again != first:
            return rec.bad('reproducible', '%s: two runs with RandomState(%d) differ: %s / %s' % (e.name, s, first, again))
        if e.int_seed:
            for v in (s, np.int64(s)):
                g0 = gstate()
                got = result(e, v)
                if got != first:
                    return rec.bad('seed', '%s: random_state=%r gives %s, RandomState(%d) %s' % (e.name, v, got, s, first))
                if gstate() != g0:
                    return rec.bad('global', '%s with an integer seed changed the global generator' % e.name)
            for none in (None, np.random):
                np.random.seed(s)
                got = result(e, none)
                if got != first:
                    return rec.bad('default', '%s without generator after np.random.seed(%d): %s instead of %s' % (e.name, s, got, first))
            ref = np.random.RandomState(s)
            result(e, ref)
            if families.norm(list(ref.get_state()[1:4])) != families.norm(list(np.random.get_state()[1:4])):
                return rec.bad('default', '%s without generator does not consume the global generator' % e.name)
    foreign = []

    def prog(rng):
        a = e.make()
        with poisoned():
            try:
                with quiet():
                    return ('ok', freeze(e.call(a, rng)))
            except Foreign as x:
                if not foreign:
                    foreign.append(str(x))
                return ('foreign',)
            except Exception as x:
                return ('exc', type(x).__name__, str(x)[:100])
    policy = entries.GRID if e.nodes else entries.NODES
    try:
        L = engine.law_of(prog, policy=policy, merge=False, max_exec=cap, min_mass=1e-9, max_nodes=10 ** 6)
        rec.stats.add(L.stats)
        rec.residual = max(rec.residual, L.residual)
        n = 0
        for o, path in L.traces.items():
            if n >= cap // 4:
                break
            n += 1
            if engine.replay(prog, path, policy) != o:
                return rec.bad('reproducible', '%s: replaying the draws %s gave another result' % (e.name, path))
        rec.replayed += n
    except engine.Divergence as x:
        return rec.bad('reproducible', '%s: identical draws did not reproduce the execution (%s)' % (e.name, x))
    except engine.Unsupported as x:
        rec.undecided.append(str(x))
    if foreign:
        rec.bad('foreign', '%s with a supplied generator: %s' % (e.name, foreign[0]))


def history(rec, fam, depth):
    ops = [op for op in fam.ops if op.kind != 'flush']
    count = [0]

    def run(seq, as_int):
        o = fam.build()
        out = []
        rng = np.random.RandomState(SEED)
        for i, op in enumerate(seq):
            try:
                out.append(('ok', freeze(op.f(o, SEED + i if as_int else rng))))
            except Exception as x:
                out.append((type(x).__name__, str(x)[:100]))
        return out, families.snapshot(o)

    def go(seq):
        for op in ops:
            if rec.violations:
                return
            s = seq + (op,)
            if op.kind == 'sample':
                for as_int in (False, True):
                    res = []
                    for g in (1, 2):
                        np.random.seed(g)
                        g0 = gstate()
                        with quiet():
                            res.append(run(s, as_int))
                        if gstate() != g0:
                            return rec.bad('global', '%s: %s changed the global generator' % (fam.name, s), history=[o.name for o in s])
                    count[0] += 1
                    if res[0] != res[1]:
                        return rec.bad('reproducible', '%s: %s run twice from fresh objects with the same seed differ' % (fam.name, s),
                                       history=[o.name for o in s])
            if len(s) < depth:
                go(s)
    go(())
    rec.stats['states'] += count[0]
    rec.stats['transitions'] += count[0]
    rec.stats['executions'] += 2 * count[0]


def finite_draws(rec, i, cap, seeds):
    C, forms, acts = entries.finite_forms()
    kt, pr, key, mk = forms[i]
    for name, f, rnd in acts:
        if rnd and 'bogus' not in name:
            def call(a, rng, f=f):
                o = C(kt, projection=pr, **{key: a[key]})
                r = f(o, rng, list(a['s']))
                return r, o.list_of_samples
            one(rec, entries.Entry('%s/%s' % (key, name), lambda: {key: mk(), 's': [0, 1]}, call), cap, seeds)


def cases():
    cap = 2000 if THOROUGH else 200
    seeds = range(SEED, SEED + (6 if THOROUGH else 3))
    for e in entries.all_entries():
        if e.rnd:
            yield Case('%s/%s' % (e.group, e.name), one, e, cap, seeds, cost=5)
    for i in range(len(entries.finite_forms()[1])):
        yield Case('finite/%d' % i, finite_draws, i, cap, seeds, cost=500)
    for fam in families.all_families():
        yield Case('history/' + fam.name, history, fam, 3 if THOROUGH else 2, cost=300)
