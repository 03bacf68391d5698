"""C23: elementary symmetric polynomials are exact."""
import itertools
from fractions import Fraction

import numpy as np

from mc.core import Case, SEED, THOROUGH

RULE = ('every spectrum over an alphabet of zero, tiny, moderate, huge and repeated values up to a length, every table '
        'size: every entry (k, n) of the table computed by the real dynamic program (each entry is one reachable state '
        'of the recursion) is compared with the exact rational value of e_k of the first n values')
BOUNDS = 'alphabet of 7 values, length <= 5 (6 thorough), sizes 0..length+1; selected spectra of length <= 40'
ASSUMPTIONS = ['relative tolerance 1e-12 * N (the recursion has no cancellation for non-negative spectra)']
ALPHABET = (0.0, 1e-12, 1e-3, 0.5, 1.0, 3.0, 1e9)


def esp(vals, size):
    E = [[Fraction(0)] * (len(vals) + 1) for _ in range(size + 1)]
    for n in range(len(vals) + 1):
        p = [Fraction(1)]
        for v in vals[:n]:
            v = Fraction(v)
            q = p + [Fraction(0)]
            for i, c in enumerate(p):
                q[i + 1] += v * c
            p = q
        for k in range(min(size, n) + 1):
            E[k][n] = p[k]
    return E


def verify(rec, vals, size, f):
    arr = np.array(vals)
    keep = arr.tobytes()
    got = np.asarray(f(arr, size))
    if arr.tobytes() != keep:
        rec.bad('mutation', 'the spectrum %s was modified' % (vals,))
        return False
    want = esp([float(v) for v in vals], size)
    if got.shape != (size + 1, len(vals) + 1):
        rec.bad('shape', 'table of %s, size %d has shape %s' % (vals, size, got.shape))
        return False
    for k in range(size + 1):
        for n in range(len(vals) + 1):
            w = float(want[k][n])
            rec.stats['states'] += 1
            rec.stats['transitions'] += 1
            if not abs(got[k, n] - w) <= 1e-12 * max(1, len(vals)) * abs(w):
                rec.bad('value', 'e_%d of the first %d values of %s is %r, should be %r'
                        % (k, n, list(vals), float(got[k, n]), w), spectrum=list(map(float, vals)), k=k, n=n)
                return False
    rec.evals += 1
    return True


def block(rec, length, first):
    from dppy.exact_sampling import elementary_symmetric_polynomials as f
    for rest in itertools.product(ALPHABET, repeat=length - len(first)):
        vals = first + rest
        for size in range(length + 2):
            if not verify(rec, vals, size, f):
                return
    rec.sample({'spectra': len(ALPHABET) ** (length - len(first)), 'length': length})


def special(rec, vals):
    from dppy.exact_sampling import elementary_symmetric_polynomials as f
    for size in sorted({0, 1, 2, 3, len(vals) // 2, len(vals) - 1, len(vals)}):
        if size >= 0 and not verify(rec, vals, size, f):
            return


def cases():
    for n in range(1, 7 if THOROUGH else 6):
        if n < 4:
            yield Case('len%d' % n, block, n, ())
        else:
            for a in itertools.product(ALPHABET, repeat=n - 3):
                yield Case('len%d/%s' % (n, ','.join(map(str, a))), block, n, a, cost=n)
    r = np.random.RandomState(SEED)
    for n in (7, 10, 20, 40):
        yield Case('ones%d' % n, special, [1.0] * n)
        yield Case('int%d' % n, special, list(range(n)))
        yield Case('geo%d' % n, special, [10.0 ** (k - n // 2) for k in range(n)])
        yield Case('dec%d' % n, special, [2.0 ** (-k) for k in range(n)])
        yield Case('rnd%d' % n, special, list(r.rand(n) * 10.0 ** r.randint(-6, 6, n)))
        yield Case('zeros%d' % n, special, [0.0] * (n // 2) + [2.0] * (n - n // 2))
