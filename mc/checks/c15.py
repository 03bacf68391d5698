"""C15: RSK is the Robinson-Schensted-Knuth bijection."""
import itertools
from math import factorial

import numpy as np

from mc.core import Case, THOROUGH, attempt

RULE = ('every word up to a length over integer and real alphabets and every permutation up to a size is fed to the real '
        'row insertion (the prefixes of a word are the states of the insertion machine, checked one by one); tableau '
        'conditions, Greene invariants (brute force over all sub-words), injectivity, inverse symmetry and counting '
        'identities are checked on all of them')
BOUNDS = 'words of length <= 6 over 4 letters, <= 7 over 3, <= 9 over 2 (one more thorough), permutations of size <= 7 (8); every pattern of 4 '\
         'letters blown up to words of length 160 (360)'
ASSUMPTIONS = []


def tableau_error(P, Q, w):
    """'' or what is wrong with (P, Q) for the word w."""
    if [len(r) for r in P] != [len(r) for r in Q]:
        return 'shapes differ: %s / %s' % (P, Q)
    sh = [len(r) for r in P]
    if any(a < b for a, b in zip(sh, sh[1:])) or 0 in sh:
        return 'shape %s is not a partition' % sh
    if sorted(x for r in P for x in r) != sorted(w):
        return 'P %s does not contain the entries of the word' % (P,)
    if sorted(x for r in Q for x in r) != list(range(1, len(w) + 1)):
        return 'Q %s is not filled with 1..n' % (Q,)
    for T, strict in ((P, False), (Q, True)):
        for r in T:
            if any(a > b or (strict and a == b) for a, b in zip(r, r[1:])):
                return 'row %s not increasing' % (r,)
        for u, v in zip(T, T[1:]):
            if any(a >= b for a, b in zip(u, v)):
                return 'columns of %s not strictly increasing' % (T,)
    return ''


def lis_cover(w):
    """best[k] = max size of a union of k weakly increasing subsequences (brute force, Greene)."""
    n = len(w)
    best = [0] * (n + 1)
    for m in range(1 << n):
        s = [w[i] for i in range(n) if m >> i & 1]
        # a sequence is a union of k weakly increasing ones iff its longest strictly decreasing one has length <= k
        d = []
        for i, x in enumerate(s):
            d.append(1 + max([d[j] for j in range(i) if s[j] > x], default=0))
        k = max(d, default=0)
        best[k] = max(best[k], len(s))
    for k in range(1, n + 1):
        best[k] = max(best[k], best[k - 1])
    return best


def call(RSK, w):
    a = attempt(RSK, w)
    if a[0] != 'ok':
        return None, 'raised %s' % (a[1:],)
    P, Q = a[1]
    return ([list(map(float, r)) for r in P], [list(map(int, r)) for r in Q]), ''


def words(rec, alphabet, n, greene, shape_of):
    from dppy.exotic_dpps_core import RSK
    seen = {}
    for w in itertools.product(alphabet, repeat=n):
        keep = list(w)
        arg = shape_of(keep)
        kb = arg.tobytes() if isinstance(arg, np.ndarray) else None
        r, err = call(RSK, arg)
        rec.stats['states'] += 1
        rec.stats['transitions'] += n
        rec.evals += 1
        if r is None:
            return rec.bad('raise', 'RSK(%s) %s' % (keep, err))
        if (kb is not None and arg.tobytes() != kb) or (isinstance(arg, list) and arg != keep):
            return rec.bad('mutation', 'RSK modified its argument %s' % keep)
        P, Q = r
        err = tableau_error(P, Q, keep)
        if not err:
            key = (repr(P), repr(Q))
            if key in seen:
                err = 'same tableaux as %s' % (seen[key],)
            seen[key] = keep
        if not err and greene:
            best = lis_cover(keep)
            tot = 0
            for k in range(1, n + 1):
                tot += len(P[k - 1]) if k <= len(P) else 0
                if tot != best[k]:
                    err = 'first %d rows hold %d entries, maximal union of %d non-decreasing subsequences is %d' % (
                        k, tot, k, best[k])
                    break
        if err:
            return rec.bad('rsk', 'RSK(%s): %s' % (keep, err), word=list(map(float, keep)))
    rec.sample({'alphabet': list(map(float, alphabet)), 'length': n, 'words': len(alphabet) ** n})


def prefix(rec, alphabet, n):
    """The tableau of a prefix is the tableau of the word restricted to the first insertions."""
    from dppy.exotic_dpps_core import RSK
    for w in itertools.product(alphabet, repeat=n):
        r, err = call(RSK, w)
        s, err2 = call(RSK, w[:-1])
        rec.evals += 1
        rec.stats['states'] += 1
        rec.stats['transitions'] += 1
        if r is None or s is None:
            return rec.bad('raise', 'RSK(%s) %s' % (w, err or err2))
        Q = [[x for x in row if x != n] for row in r[1]]
        if [q for q in Q if q] != s[1]:
            return rec.bad('prefix', 'Q of %s is %s, Q of its prefix is %s' % (w, r[1], s[1]))


def hook(shape):
    n = sum(shape)
    p = 1
    for i, a in enumerate(shape):
        for j in range(a):
            p *= a - j + sum(1 for b in shape[i + 1:] if b > j)
    return factorial(n) // p


def perms(rec, n):
    from dppy.exotic_dpps_core import RSK
    count = {}
    for w in itertools.permutations(range(1, n + 1)):
        r, err = call(RSK, np.array(w, dtype=int))
        rec.evals += 1
        rec.stats['states'] += 1
        rec.stats['transitions'] += n
        if r is None:
            return rec.bad('raise', 'RSK(%s) %s' % (w, err))
        P, Q = r
        err = tableau_error(P, Q, w)
        if err:
            return rec.bad('rsk', 'RSK(%s): %s' % (w, err))
        inv = [0] * n
        for i, x in enumerate(w):
            inv[x - 1] = i + 1
        s, err = call(RSK, inv)
        if s is None or [list(map(int, t)) for t in s[0]] != Q or s[1] != [list(map(int, t)) for t in P]:
            return rec.bad('inverse', 'RSK of the inverse of %s is %s, expected the exchanged pair' % (w, s))
        sh = tuple(len(row) for row in P)
        count[sh] = count.get(sh, 0) + 1
    for sh, c in count.items():
        if c != hook(sh) ** 2:
            return rec.bad('count', 'shape %s obtained by %d permutations, should be %d' % (sh, c, hook(sh) ** 2))
    rec.sample({'permutations': factorial(n)})


def reference(w):
    """Row insertion written from its definition."""
    P, Q = [], []
    for t, x in enumerate(w, 1):
        for i in range(len(P) + 1):
            if i == len(P):
                P.append([x])
                Q.append([t])
                break
            j = sum(1 for y in P[i] if y <= x)
            if j == len(P[i]):
                P[i].append(x)
                Q[i].append(t)
                break
            P[i][j], x = x, P[i][j]
    return P, Q


def scale(rec, letters, m, blow, form):
    """Every pattern of length m, each letter repeated (or replaced by a run of consecutive values), far values."""
    from dppy.exotic_dpps_core import RSK
    for pat in itertools.product(range(len(letters)), repeat=m):
        w = []
        for i, c in enumerate(pat):
            for j in range(blow):
                w.append({'rep': letters[c], 'up': letters[c] + j, 'down': letters[c] - j,
                          'alt': letters[c] + (-1) ** j * j}[form])
        a = attempt(RSK, list(w))
        rec.evals += 1
        rec.stats['states'] += len(w)
        rec.stats['transitions'] += len(w)
        if a[0] != 'ok':
            return rec.bad('raise', 'RSK raised %s on a word of length %d' % (a[1:], len(w)), word=list(map(str, w)))
        P, Q = reference(w)
        got = [[list(r) for r in T] for T in a[1]]
        if got != [P, Q]:
            return rec.bad('rsk', 'RSK of %s... (length %d) is not the row insertion tableau' % (w[:10], len(w)),
                           word=list(map(str, w)))


def cases():
    t = 1 if THOROUGH else 0
    fl = (-1.5, 0.0, 0.25, 3.0)
    for n in range(0, 7 + t):
        yield Case('w4/%d' % n, words, (0, 1, 2, 3), n, True, list, cost=4 ** n)
        yield Case('real4/%d' % n, words, fl, n, n <= 5, lambda w: np.array(w, dtype=float), cost=4 ** n)
        if 0 < n < 7:
            yield Case('prefix/%d' % n, prefix, (0, 1, 2, 3), n, cost=4 ** n)
    yield Case('w3/7', words, (2, 5, 9), 7 + t, True, tuple, cost=9000)
    yield Case('w2/9', words, (0, 1), 9 + t, True, lambda w: np.array(w), cost=9000)
    yield Case('w5/5', words, (-2, -1, 0, 1, 2), 5 + t, True, list, cost=9000)
    eps = 2.0 ** -52
    near = (1.0, 1.0 + eps, 1.0 + 2 * eps)
    yield Case('near/5', words, near, 5 + t, True, lambda w: np.array(w))
    yield Case('huge/5', scale, (2 ** 53, 2 ** 53 + 1, -2 ** 53 - 1, 2 ** 62), 4, 1, 'rep')
    yield Case('tiny/5', scale, (5e-324, 0.0, -5e-324, 1e308), 5, 1, 'rep')
    yield Case('inf/5', scale, (float('-inf'), 0.0, float('inf')), 5, 1, 'rep')
    for form in ('rep', 'up', 'down', 'alt'):
        for blow in ((2, 40) if not t else (2, 40, 90)):
            yield Case('scale/%s/%d' % (form, blow), scale, (-70000, 0, 20, 300), 4, blow, form, cost=20 * blow)
    for n in range(0, 8 + t):
        yield Case('perm/%d' % n, perms, n, cost=factorial(n))
