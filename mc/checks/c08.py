"""C08: every successful sampling call is recorded exactly once and returned unchanged."""
import numpy as np

from mc import engine, families, objs, zoo
from mc.core import Case, SEED, THOROUGH, attempt

RULE = ('every sequence of operations (sampling calls in all modes, failing calls, flushes, other calls) up to a depth '
        'is run on the real objects, for several generator seeds, with a full check of the history after every call; in '
        'addition every outcome of every draw of each finite-DPP sampling call after every other call is enumerated')
BOUNDS = 'operation sequences of length <= 3 (4 thorough) over 5-20 operations, all objects that keep a history'
ASSUMPTIONS = ['sequences are driven by fixed seeds; draws of the last call enumerated exhaustively for finite DPPs']


def plain(f, *a):
    try:
        return ('ok', f(*a))
    except Exception as e:
        return ('exc', type(e).__name__, str(e)[:100])


def step(fam, op, o, rng, call=attempt):
    """Apply op to o; returns an error message or ''."""
    before = {l: list(getattr(o, l)) for l in fam.logs}
    bnorm = {l: [families.norm(e) for e in v] for l, v in before.items()}
    a = call(op.f, o, rng)
    if op.kind == 'flush':
        if a[0] != 'ok':
            return 'flush failed: %s' % (a,)
        if any(len(getattr(o, l)) for l in fam.logs):
            return 'flush left %d entries' % len(o.list_of_samples)
        return ''
    if op.kind == 'bad' and a[0] == 'ok':
        return ''                     # whether the call must be refused is another property
    grow = 1 if a[0] == 'ok' and op.kind == 'sample' else 0
    for l in fam.logs:
        now = getattr(o, l)
        if not isinstance(now, list):
            return '%s is a %s' % (l, type(now).__name__)
        if len(now) != len(before[l]) + grow:
            return '%s: %s (%s) changed the length from %d to %d' % (
                l, op.name, a[0] if a[0] == 'ok' else a[1:], len(before[l]), len(now))
        got = [families.norm(e) for e in now]
        if got[:len(before[l])] != bnorm[l]:
            return '%s: %s changed an earlier entry' % (l, op.name)
        if grow:
            new = now[-1]
            for e in before[l]:
                if e is new or (isinstance(e, np.ndarray) and isinstance(new, np.ndarray) and np.shares_memory(e, new)):
                    return '%s: new entry of %s shares memory with an earlier one' % (l, op.name)
                if isinstance(e, list) and isinstance(new, list):
                    inner = {id(x) for x in e if isinstance(x, (list, np.ndarray))}
                    if any(id(x) in inner for x in new):
                        return '%s: new entry of %s shares a state with an earlier one' % (l, op.name)
    if grow and a[1] is not None:
        new = getattr(o, fam.logs[0])[-1]
        want = new[-1] if getattr(op, 'mcmc', False) else new
        if families.norm(a[1]) != families.norm(want):
            return '%s returned %r but recorded %r' % (op.name, a[1], new)
    return ''


def sequences(rec, fam, depth, seed):
    count = [0, 0]

    def go(o, hist, kept):
        if rec.violations:
            return
        for i, op in enumerate(fam.ops):
            c = families.clone(o)
            count[1] += 1
            msg = step(fam, op, c, np.random.RandomState(seed + len(hist)))
            if msg:
                rec.bad('history', 'after %s: %s' % (list(hist), msg), history=list(hist) + [op.name])
                return
            count[0] += 1
            if len(hist) + 1 < depth:
                go(c, hist + (op.name,), kept)
    go(fam.build(), (), ())
    rec.stats['states'] += count[0]
    rec.stats['transitions'] += count[1]
    rec.replayed += count[0]
    rec.evals += count[1]
    rec.sample({'object': fam.name, 'sequences': count[0], 'depth': depth})


def returned(rec, fam, seed):
    """One long run on a single object: values returned earlier never change later."""
    ops = [op for op in fam.ops if op.kind != 'flush']
    for a in ops:
        if a.kind != 'sample':
            continue
        for b in fam.ops:
            for c in fam.ops:
                o = fam.build()
                r = attempt(a.f, o, np.random.RandomState(seed))
                ret = r[1] if r[0] == 'ok' and r[1] is not None else None
                val = families.norm(ret)
                attempt(b.f, o, np.random.RandomState(seed + 1))
                attempt(c.f, o, np.random.RandomState(seed + 2))
                rec.evals += 1
                if families.norm(ret) != val:
                    rec.bad('returned', 'the sample returned by %s changed after %s, %s' % (a, b, c))
                    return
    rec.stats['states'] += rec.evals
    rec.stats['transitions'] += 3 * rec.evals


def outcomes(rec, fam, first):
    """Every outcome of every draw of each sampling call following `first`."""
    o = fam.build()
    if first is not None:
        attempt(first.f, o, np.random.RandomState(SEED))
    for op in fam.ops:
        if op.kind != 'sample' or op.name in ('vfx', 'alpha'):
            continue

        def prog(rng):
            return step(fam, op, families.clone(o), rng, plain)
        L = rec.law(prog, min_mass=1e-9)
        if L is None:
            continue
        for m, p in L.p.items():
            if m != '':
                rec.bad('outcome', 'after %s: %s' % (first, m), path=L.traces.get(m))
                return


def cases():
    for fam in families.all_families():
        n = len(fam.ops)
        depth = 3 if n <= 12 else 2
        if THOROUGH:
            depth += 1
        for s in (0, 1) if not THOROUGH else (0, 1, 2, 3):
            yield Case('%s/seq%d' % (fam.name, s), sequences, fam, depth, 10 * s + SEED, cost=n ** depth)
        yield Case('%s/returned' % fam.name, returned, fam, SEED, cost=n ** 2)
        if fam.name.startswith(('finite', 'ust', 'descent', 'virtual', 'carries')):
            for first in [None] + fam.ops:
                yield Case('%s/outcomes/%s' % (fam.name, first), outcomes, fam, first, cost=20)
