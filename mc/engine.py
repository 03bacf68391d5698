"""Explicit-state probabilistic model checker for code driven by a NumPy RandomState.

The checked program is ordinary Python code (the real DPPy functions).  Its only
source of nondeterminism, the random generator, is replaced by `CtlRNG`, whose
draws are choice points.  `Explorer` enumerates *all* outcomes of all choice
points by deterministic replay, merges choice points that are reached in the
same interpreter state (so that rejection loops and random walks become finite
Markov chains), and solves the resulting absorbing chain.  The result is the
exact law of the program's observable outcome, up to an explicitly reported
`residual` mass that was not explored.
"""
import ctypes
import dis
import functools
import heapq
import itertools
import math
import signal
import struct
import sys
import time
import types
import weakref

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spla
from scipy import stats


class Unsupported(BaseException):
    """The program used randomness in a way the explorer does not model."""


class Abort(BaseException):
    """Internal: stop the current execution (state already explored / cut)."""


class Divergence(BaseException):
    """Replay of a recorded prefix did not reproduce the recorded choice."""


class Hang(BaseException):
    """One execution ran for longer than the per-execution limit."""


# --------------------------------------------------------------------------
# Lazy uniforms: an interval of [0, 1) that is refined by every comparison
# --------------------------------------------------------------------------

class _Base:
    __slots__ = ('lo', 'hi', 'ctl')

    def __init__(self, ctl, lo=0.0, hi=1.0):
        self.lo, self.hi, self.ctl = lo, hi, ctl


def _ident(x):
    return x


class LazyU:
    """Value f(u) of a uniform u on [lo, hi), f strictly monotone."""
    __slots__ = ('base', 'fwd', 'inv', 'inc', 'dom', 'tag')
    __array_priority__ = 1000

    def __init__(self, base, fwd=_ident, inv=_ident, inc=True, tag=()):
        self.base, self.fwd, self.inv, self.inc, self.tag = base, fwd, inv, inc, tag

    # -- comparison ---------------------------------------------------------
    def _below(self, c):
        """True iff f(u) < c (ties have probability zero)."""
        if isinstance(c, LazyU):
            if c.base is self.base and c.tag == self.tag:
                return False
            raise Unsupported('comparison of two random reals')
        c = float(c)
        b = self.base
        if math.isnan(c):
            return False
        flo, fhi = self.fwd(b.lo), self.fwd(b.hi)
        vmin, vmax = (flo, fhi) if self.inc else (fhi, flo)
        if c >= vmax:
            return True
        if c <= vmin:
            return False
        t = float(self.inv(c))
        t = min(max(t, b.lo), b.hi)
        w = b.hi - b.lo
        p_lo = (t - b.lo) / w
        k = b.ctl.branch([p_lo, 1.0 - p_lo], 'cmp')
        if k == 0:
            b.hi = t
        else:
            b.lo = t
        return (k == 0) == self.inc

    def _cmp(self, other, below):
        if isinstance(other, np.ndarray) and other.ndim:
            out = np.empty(other.shape, dtype=bool)
            for i in np.ndindex(*other.shape):
                r = self._below(other[i])
                out[i] = r if below else not r
            return out
        if isinstance(other, (list, tuple)):
            return self._cmp(np.asarray(other), below)
        r = self._below(other.item() if isinstance(other, np.ndarray) else other)
        return r if below else not r

    def __lt__(self, o): return self._cmp(o, True)
    def __le__(self, o): return self._cmp(o, True)
    def __gt__(self, o): return self._cmp(o, False)
    def __ge__(self, o): return self._cmp(o, False)
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    __hash__ = object.__hash__

    # -- monotone arithmetic -------------------------------------------------
    def _map(self, g, ginv, ginc, tag):
        f, inv = self.fwd, self.inv
        return LazyU(self.base, lambda u: g(f(u)), lambda c: inv(ginv(c)),
                     self.inc == ginc, self.tag + (tag,))

    def _scalar(self, o):
        if isinstance(o, LazyU):
            raise Unsupported('arithmetic between random reals')
        return float(o)

    def _vec(self, o, op):
        if isinstance(o, np.ndarray) and o.ndim:
            out = np.empty(o.shape, dtype=object)
            for i in np.ndindex(*o.shape):
                out[i] = op(o[i])
            return out
        return NotImplemented

    def __add__(self, o):
        if getattr(type(o), 'lazy_operand', False): return NotImplemented
        v = self._vec(o, self.__add__)
        if v is not NotImplemented: return v
        c = self._scalar(o)
        return self._map(lambda x: x + c, lambda y: y - c, True, ('+', c))
    __radd__ = __add__

    def __sub__(self, o):
        v = self._vec(o, self.__sub__)
        if v is not NotImplemented: return v
        return self + (-self._scalar(o))

    def __rsub__(self, o):
        v = self._vec(o, self.__rsub__)
        if v is not NotImplemented: return v
        return (-self) + self._scalar(o)

    def __neg__(self):
        return self._map(lambda x: -x, lambda y: -y, False, ('neg',))

    def __pos__(self):
        return self

    def __mul__(self, o):
        if getattr(type(o), 'lazy_operand', False): return NotImplemented
        v = self._vec(o, self.__mul__)
        if v is not NotImplemented: return v
        c = self._scalar(o)
        if c == 0.0:
            return 0.0
        if math.isnan(c) or math.isinf(c):
            return c
        return self._map(lambda x: x * c, lambda y: y / c, c > 0, ('*', c))
    __rmul__ = __mul__

    def __truediv__(self, o):
        v = self._vec(o, self.__truediv__)
        if v is not NotImplemented: return v
        c = self._scalar(o)
        if c == 0.0 or math.isnan(c):
            raise Unsupported('division of a random real by 0/nan')
        return self._map(lambda x: x / c, lambda y: y * c, c > 0, ('/', c))

    def __rtruediv__(self, o):
        v = self._vec(o, self.__rtruediv__)
        if v is not NotImplemented: return v
        c = self._scalar(o)
        vmin, vmax = self._range()
        if vmin < 0 < vmax:
            raise Unsupported('reciprocal of signed random real')
        def g(x):
            return c / x if x else math.copysign(math.inf, c)
        def gi(y):
            return c / y if y else math.inf
        return self._map(g, gi, c < 0, ('r/', c))

    def _range(self):
        a, b = self.fwd(self.base.lo), self.fwd(self.base.hi)
        return (a, b) if a <= b else (b, a)

    def log(self):
        vmin, _ = self._range()
        if vmin < 0:
            raise Unsupported('log of negative random real')
        return self._map(lambda x: math.log(x) if x > 0 else -math.inf,
                         lambda y: math.exp(y) if y < 700 else math.inf,
                         True, ('log',))

    def log1p(self):
        return (self + 1.0).log()

    def exp(self):
        return self._map(lambda x: math.exp(min(x, 700.0)),
                         lambda y: math.log(y) if y > 0 else -math.inf,
                         True, ('exp',))

    def sqrt(self):
        return self._map(lambda x: math.sqrt(max(x, 0.0)),
                         lambda y: y * y if y > 0 else 0.0, True, ('sqrt',))

    def __pow__(self, k):
        vmin, _ = self._range()
        k = float(k)
        if vmin < 0 or k <= 0:
            raise Unsupported('power of random real')
        return self._map(lambda x: x ** k,
                         lambda y: y ** (1.0 / k) if y > 0 else 0.0, True, ('pow', k))

    # -- discretisation -------------------------------------------------------
    def _cells(self, rnd):
        vmin, vmax = self._range()
        if not (math.isfinite(vmin) and math.isfinite(vmax)) or vmax - vmin > 4096:
            raise Unsupported('discretisation of an unbounded random real')
        lo, hi = math.floor(vmin) - 1, math.ceil(vmax) + 1
        k = None
        for c in range(lo, hi + 1):       # smallest integer threshold above value
            if self._below(c + (0.5 if rnd == 'rint' else 0.0)):
                k = c
                break
        if rnd == 'floor':
            return k - 1
        return k                          # ceil / rint

    def floor(self): return self._cells('floor')
    def ceil(self): return self._cells('ceil')
    def rint(self): return self._cells('rint')
    __floor__, __ceil__ = floor, ceil

    def __int__(self):
        vmin, _ = self._range()
        if vmin < 0:
            raise Unsupported('int() of signed random real')
        return self._cells('floor')
    __trunc__ = __int__

    def astype(self, t):
        return t(self) if t is int else self

    def __float__(self):
        raise Unsupported('float() of a random real')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != '__call__' or any(k not in ('dtype', 'casting') for k in kw):
            raise Unsupported('ufunc %s.%s on a random real' % (ufunc, method))
        n = ufunc.__name__
        if len(inputs) == 1:
            if hasattr(self, n):
                return getattr(self, n)()
            if n == 'negative': return -self
            if n == 'isnan': return False
            if n == 'isfinite': return True
            if n == 'absolute' and self._range()[0] >= 0: return self
            raise Unsupported('ufunc ' + n)
        a, b = inputs
        rev = {'less': 'greater', 'less_equal': 'greater_equal',
               'greater': 'less', 'greater_equal': 'less_equal'}
        ops = {'less': '__lt__', 'less_equal': '__le__', 'greater': '__gt__',
               'greater_equal': '__ge__', 'add': '__add__', 'multiply': '__mul__',
               'subtract': '__sub__', 'true_divide': '__truediv__', 'divide': '__truediv__',
               'power': '__pow__', 'equal': '__eq__', 'not_equal': '__ne__'}
        rops = {'add': '__radd__', 'multiply': '__rmul__', 'subtract': '__rsub__',
                'true_divide': '__rtruediv__', 'divide': '__rtruediv__'}
        if a is self:
            if n in ops: return getattr(self, ops[n])(b)
        else:
            if isinstance(a, np.ndarray) and a.dtype == object and a.ndim:
                box = np.empty(a.shape, dtype=object)
                for i in np.ndindex(*a.shape):
                    box[i] = b
                return ufunc(a, box)
            if n in rev: return getattr(self, ops[rev[n]])(a)
            if n in rops: return getattr(self, rops[n])(a)
        raise Unsupported('ufunc ' + n)

    def __repr__(self):
        return 'U[%g,%g)%s' % (self.base.lo, self.base.hi, self.tag)


# --------------------------------------------------------------------------
# Canonical form of interpreter states
# --------------------------------------------------------------------------

class CannotCanon(Exception):
    pass


_ITERS = {'range_iterator', 'list_iterator', 'tuple_iterator', 'enumerate', 'zip',
          'list_reverseiterator', 'str_iterator', 'map', 'count', 'chain', 'repeat',
          'dict_keyiterator', 'longrange_iterator', 'reversed'}


class Canon:
    def __init__(self):
        self.memo = {}
        self.keep = []

    def __call__(self, o):
        t = type(o)
        if o is None or t is bool or t is int or t is str or t is bytes:
            return (t.__name__, o)
        if t is float:
            return ('f', struct.pack('d', o))
        if t is complex:
            return ('c', struct.pack('dd', o.real, o.imag))
        if isinstance(o, np.generic):
            return ('np', o.dtype.str, o.tobytes())
        if t is tuple:
            return ('t',) + tuple(map(self, o))
        if isinstance(o, np.random.RandomState):
            return 'RNG'
        if isinstance(o, LazyU):
            return ('U', self(o.base), o.tag, o.inc)
        if isinstance(o, (types.BuiltinFunctionType, type, types.ModuleType, np.ufunc, np.dtype,
                          types.CodeType)) or o is Ellipsis or o is NotImplemented:
            if isinstance(o, types.BuiltinFunctionType) and not isinstance(o.__self__, (types.ModuleType, type(None), type)):
                return ('bm', o.__name__, self(o.__self__))
            return ('id', id(o))
        if t is weakref.ref:
            return ('wr', self(o()))
        if isinstance(o, slice):
            return ('sl', self(o.start), self(o.stop), self(o.step))
        if t is range:
            return ('r', o.start, o.stop, o.step)
        i = id(o)
        if i in self.memo:
            return ('ref', self.memo[i])
        self.memo[i] = len(self.memo)
        self.keep.append(o)
        if t is _Base:
            return ('B', o.lo, o.hi)
        if isinstance(o, np.ndarray):
            if o.dtype == object:
                return ('ndo', o.shape) + tuple(self(x) for x in o.ravel())
            return ('nd', o.dtype.str, o.shape, o.tobytes())
        if isinstance(o, list):
            return ('l',) + tuple(map(self, o))
        if isinstance(o, dict):
            return ('d', t.__name__) + tuple((self(k), self(v)) for k, v in o.items())
        if isinstance(o, (set, frozenset)):
            return ('s',) + tuple(sorted((self(k) for k in o), key=repr))
        if isinstance(o, types.FunctionType):
            cl = tuple(self._cell(c) for c in (o.__closure__ or ()))
            return ('fn', id(o.__code__), cl, self(o.__defaults__), self(o.__kwdefaults__))
        if isinstance(o, types.MethodType):
            return ('m', self(o.__func__), self(o.__self__))
        if t is types.CellType:
            return self._cell(o)
        if t is functools.partial:
            return ('p', self(o.func), self(o.args), self(o.keywords))
        if t is types.GeneratorType and not o.gi_running:
            g = o.gi_frame
            if g is None:
                return ('gen', id(o.gi_code), None)
            stk = _frame_stack(g) if _STACK_OK else None
            if stk is None or o.gi_yieldfrom is not None:
                raise CannotCanon(t)
            return ('gen', id(o.gi_code), g.f_lasti, self(dict(g.f_locals)), tuple(map(self, stk)))
        if t.__name__ in _ITERS:
            return ('it', t.__name__) + tuple(self(x) for x in o.__reduce__()[1:])
        if t.__flags__ & (1 << 9) and not t.__module__.startswith(('builtins', '_thread')):
            slots = []                                 # heap type: attributes are __dict__ and __slots__
            for c in t.__mro__:
                sl = c.__dict__.get('__slots__', ())
                if not c.__flags__ & (1 << 9) and c is not object and not issubclass(c, (tuple, dict, list)):
                    raise CannotCanon(t)
                for n in ((sl,) if isinstance(sl, str) else sl):
                    if n.startswith('__') and not n.endswith('__'):
                        n = '_' + c.__name__.lstrip('_') + n
                    if n not in ('__dict__', '__weakref__') and hasattr(o, n):
                        slots.append((n, self(getattr(o, n))))
            base = tuple(map(self, o)) if isinstance(o, (tuple, list)) else \
                tuple((self(k), self(v)) for k, v in o.items()) if isinstance(o, dict) else ()
            return ('o', id(t), self(getattr(o, '__dict__', None)), tuple(slots), base)
        if isinstance(o, tuple):
            return ('nt', id(t)) + tuple(map(self, o))
        raise CannotCanon(t)

    def _cell(self, c):
        try:
            return self(c.cell_contents)
        except ValueError:
            return 'empty'


_DEPTH = {}


def _depths(co):
    """{offset: evaluation stack depth before that instruction} by abstract interpretation."""
    if co in _DEPTH:
        return _DEPTH[co]
    ins = list(dis.get_instructions(co))
    nxt = {a.offset: b.offset for a, b in zip(ins, ins[1:])}
    at = {i.offset: i for i in ins}
    depth, todo = {}, [(0, 0)]
    for e in dis._parse_exception_table(co):
        todo.append((e.target, e.depth + (1 if e.lasti else 0) + 1))
    while todo:
        o, d = todo.pop()
        if o in depth or o not in at:
            continue
        depth[o] = d
        i = at[o]
        arg = i.arg if i.opcode >= dis.HAVE_ARGUMENT else None
        if i.opcode in dis.hasjrel or i.opcode in dis.hasjabs:
            todo.append((i.argval, d + dis.stack_effect(i.opcode, arg, jump=True)))
        if i.opname not in ('RETURN_VALUE', 'RETURN_CONST', 'RAISE_VARARGS', 'RERAISE',
                            'JUMP_FORWARD', 'JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT') and o in nxt:
            todo.append((nxt[o], d + dis.stack_effect(i.opcode, arg, jump=False)))
    _DEPTH[co] = depth, at
    return _DEPTH[co]


_LIVE = {}
_ALLNAMES = {'locals', 'vars', 'dir', 'eval', 'exec', '_getframe', 'currentframe', 'stack'}


def _live(co):
    """{offset: names of plain locals that may be read after that instruction}; None = all of them."""
    if co in _LIVE:
        return _LIVE[co]
    if _ALLNAMES & set(co.co_names):
        _LIVE[co] = None
        return None
    ins = list(dis.get_instructions(co))
    pos = {i.offset: n for n, i in enumerate(ins)}
    succ = []
    for n, i in enumerate(ins):
        out = []
        if i.opcode in dis.hasjrel or i.opcode in dis.hasjabs:
            out.append(pos[i.argval])
        if i.opname not in ('RETURN_VALUE', 'RETURN_CONST', 'RAISE_VARARGS', 'RERAISE',
                            'JUMP_FORWARD', 'JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT') and n + 1 < len(ins):
            out.append(n + 1)
        succ.append(out)
    for e in dis._parse_exception_table(co):
        for n, i in enumerate(ins):
            if e.start <= i.offset < e.end:
                succ[n].append(pos[e.target])
    use = [i.argval if i.opname in ('LOAD_FAST', 'LOAD_FAST_CHECK', 'LOAD_FAST_AND_CLEAR', 'LOAD_CLOSURE')
           else None for i in ins]
    kill = [i.argval if i.opname in ('STORE_FAST', 'DELETE_FAST') else None for i in ins]
    after = [frozenset()] * len(ins)
    before = [frozenset()] * len(ins)
    changed = True
    while changed:
        changed = False
        for n in range(len(ins) - 1, -1, -1):
            a = frozenset().union(*[before[m] for m in succ[n]]) if succ[n] else frozenset()
            b = a - {kill[n]} if kill[n] else a
            if use[n]:
                b = b | {use[n]}
            if a != after[n] or b != before[n]:
                after[n], before[n] = a, b
                changed = True
    cells = set(co.co_cellvars) | set(co.co_freevars)
    out = {}
    for n, i in enumerate(ins):            # f_lasti may point into the inline cache of an instruction
        for o in range(i.offset, ins[n + 1].offset if n + 1 < len(ins) else i.offset + 2, 2):
            out[o] = after[n] | cells
    _LIVE[co] = out
    return _LIVE[co]


def _code_of(func):
    if isinstance(func, types.FunctionType):
        return func.__code__
    if isinstance(func, types.MethodType):
        return _code_of(func.__func__)
    if isinstance(func, type):
        return _code_of(func.__dict__.get('__init__'))
    impl = getattr(func, '_implementation', None)
    if isinstance(impl, types.FunctionType):
        return impl.__code__
    return None


def _frame_stack(f, child=None):
    """Evaluation stack of a suspended CPython 3.12 frame; None if unknown.

    When the interpreter has not saved its stack pointer (a Python function called through C), the depth is
    derived from the bytecode; this is only done for a plain call whose callee is exactly `child`, so that no
    C code in between can hold state.
    """
    fr = ctypes.c_void_p.from_address(id(f) + 24).value
    st = ctypes.c_int.from_address(fr + 64).value
    co = f.f_code
    n = len(set(co.co_varnames) | set(co.co_cellvars)) + len(co.co_freevars)

    def slot(i):
        p = ctypes.c_void_p.from_address(fr + 72 + 8 * i).value
        return None if not p else ctypes.cast(p, ctypes.py_object).value
    if st < 0:
        if child is None:
            return None
        depth, at = _depths(co)
        i = at.get(f.f_lasti)
        if i is None or f.f_lasti not in depth or i.opname != 'CALL_FUNCTION_EX':
            return None
        top = depth[f.f_lasti]
        func = slot(n + top - 2 - (i.arg & 1))
        if _code_of(func) is not child:
            return None
        st = n + top - 3 - (i.arg & 1)
    return [slot(i) for i in range(n, st)]


_STACK_OK = sys.version_info[:2] == (3, 12) and sys.implementation.name == 'cpython'
_OWN = __file__


def state_key(stop_code):
    """Canonical state of all frames between the program's RNG call and the explorer."""
    if not _STACK_OK:
        return None
    f = sys._getframe(1)
    child = None
    while f is not None and f.f_code.co_filename == _OWN and f.f_code is not stop_code:
        child = f.f_code
        f = f.f_back
    # everything the engine itself holds (partial vectors) is in `extra`
    c = Canon()
    out = []
    try:
        while f is not None and f.f_code is not stop_code:
            if f.f_code.co_filename == _OWN:
                # re-entrant call from the engine (callbacks): not merged
                return None
            if f.f_code.co_flags & (0x20 | 0x80 | 0x200):     # generators / coroutines
                return None
            stk = _frame_stack(f, child)
            if stk is None:
                return None
            child = f.f_code
            live = _live(f.f_code)
            if live is not None:
                live = live.get(f.f_lasti)
            out.append((id(f.f_code), f.f_lasti,
                        tuple((k, c(v)) for k, v in f.f_locals.items() if live is None or k in live),
                        tuple(c(v) for v in stk)))
            f = f.f_back
    except CannotCanon:
        return None
    return tuple(out)


# --------------------------------------------------------------------------
# Controlled generator
# --------------------------------------------------------------------------

_REF = np.random.RandomState(0)      # only used to validate arguments
_PASS = {'get_state', 'set_state', 'seed'}


class CtlRNG(np.random.RandomState):
    """RandomState whose every draw is a choice point of the explorer."""

    def __init__(self, ctl, policy=None):
        super().__init__(0)
        self._ctl = ctl
        self._policy = policy or {}

    # helpers ---------------------------------------------------------------
    def _shape(self, size):
        if size is None:
            return None
        if isinstance(size, (int, np.integer)):
            return (int(size),)
        return tuple(int(s) for s in size)

    def _fill(self, size, one, dtype=float):
        shp = self._shape(size)
        if shp is None:
            return one(None)
        out = np.empty(shp, dtype=dtype)
        ctl = self._ctl
        tok = ctl.push(out)
        for n, i in enumerate(np.ndindex(*shp)):
            ctl.partial(tok, (n, None))
            out[i] = one(i)
            ctl.extend(tok, out[i])
        ctl.pop(tok)
        return out

    def _bc(self, size, *args):
        """Broadcast parameters; returns (size, getter)."""
        arrs = [np.asarray(a) for a in args]
        if size is None:
            b = np.broadcast(*arrs) if len(arrs) > 1 else arrs[0]
            shp = b.shape
            if shp == ():
                return None, lambda i: tuple(a.item() for a in arrs)
        else:
            shp = self._shape(size)
        full = [np.broadcast_to(a, shp) for a in arrs]
        return shp, lambda i: tuple(a[i] for a in full)

    def _u(self):
        return LazyU(_Base(self._ctl))

    # uniforms ----------------------------------------------------------------
    def random_sample(self, size=None):
        pol = self._policy.get('uniform')
        if pol is not None:
            return self._cont('uniform', size, ())
        if size is None and 'uniform_scalar' in self._policy:
            return self._cont('uniform_scalar', size, ())
        if size is not None and 'uniform_array' in self._policy:
            return self._cont('uniform_array', size, ())
        if size is None:
            return self._u()
        shp = self._shape(size)
        out = np.empty(shp, dtype=object)
        for i in np.ndindex(*shp):
            out[i] = self._u()
        return out

    def random(self, size=None):
        return self.random_sample(size)

    def rand(self, *shape):
        return self.random_sample(shape if shape else None)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and np.ndim(low) == 0 and np.ndim(high) == 0:
            return self.random_sample() * (high - low) + low
        shp, g = self._bc(size, low, high)
        u = self.random_sample(shp)
        out = np.empty(shp, dtype=object)
        for i in np.ndindex(*shp):
            l, h = g(i)
            out[i] = u[i] * (h - l) + l
        return out

    # discrete draws ------------------------------------------------------------
    def choice(self, a, size=None, replace=True, p=None):
        ref = _REF.choice(a, size=size, replace=replace, p=p)  # validates
        arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = len(arr)
        pr = np.full(n, 1.0 / n) if p is None else np.asarray(p, dtype=float)
        pr = pr / pr.sum() if n else pr
        if size is None:
            k = self._ctl.branch(pr, 'choice')
            if np.ndim(a) == 0:
                return int(k)
            return arr[k]
        shp = self._shape(size)
        m = int(np.prod(shp))
        ctl = self._ctl
        idx = []
        tok = ctl.push(idx)
        if replace and m > self._policy.get('multiset_above', 3):
            # symmetric reduction: one order per multiset, multinomial weight
            left, rem = m, 1.0
            for j in range(n):
                if left == 0:
                    break
                q = 1.0 if j == n - 1 else min(1.0, max(0.0, pr[j] / rem)) if rem > 0 else 0.0
                w = stats.binom.pmf(np.arange(left + 1), left, q)
                c = ctl.branch(w, 'multi')
                idx.extend([j] * c)
                ctl.extend(tok, (j, c))
                left -= c
                rem -= pr[j]
        else:
            q = pr.copy()
            for _ in range(m):
                j = ctl.branch(q / q.sum(), 'choice')
                idx.append(j)
                ctl.extend(tok, j)
                if not replace:
                    q[j] = 0.0
        ctl.pop(tok)
        out = arr[np.array(idx, dtype=int)].reshape(shp + arr.shape[1:])
        return out.astype(ref.dtype) if hasattr(ref, 'dtype') else out

    def randint(self, low, high=None, size=None, dtype=int):
        _REF.randint(low, high, size=size, dtype=dtype)
        if high is None:
            low, high = 0, low
        if np.ndim(low) or np.ndim(high):
            shp, g = self._bc(size, low, high)
        else:
            shp, g = self._shape(size), lambda i: (low, high)
        def one(i):
            l, h = g(i)
            k = self._ctl.branch(np.full(int(h) - int(l), 1.0 / (int(h) - int(l))), 'randint')
            return int(l) + k
        return self._fill(shp, one, dtype=dtype)

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return self.randint(low, high + 1, size)

    def permutation(self, x):
        arr = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        self.shuffle(arr)
        return arr

    def shuffle(self, x):
        n = len(x)
        order, left = [], list(range(n))
        ctl = self._ctl
        tok = ctl.push(order)
        for _ in range(n):
            k = ctl.branch(np.full(len(left), 1.0 / len(left)), 'perm') if len(left) > 1 else 0
            order.append(left.pop(k))
            ctl.extend(tok, order[-1])
        ctl.pop(tok)
        if isinstance(x, np.ndarray):
            x[...] = x[order]
        else:
            x[:] = [x[i] for i in order]

    def poisson(self, lam=1.0, size=None):
        _REF.poisson(lam, size)
        shp, g = self._bc(size, lam)
        cap = self._policy.get('poisson_tail', 1e-9)
        kmax = self._policy.get('poisson_max', None)
        def one(i):
            l, = g(i)
            l = float(l)
            top = int(stats.poisson.isf(cap, l)) if l > 0 else 0
            if kmax is not None:
                top = min(top, kmax)
            w = stats.poisson.pmf(np.arange(top + 1), l)
            return self._ctl.branch(w, 'poisson')
        return self._fill(shp, one, dtype=int)

    def binomial(self, n, p, size=None):
        _REF.binomial(n, p, size)
        shp, g = self._bc(size, n, p)
        def one(i):
            m, q = g(i)
            return self._ctl.branch(stats.binom.pmf(np.arange(int(m) + 1), int(m), float(q)), 'binom')
        return self._fill(shp, one, dtype=int)

    def geometric(self, p, size=None):
        shp, g = self._bc(size, p)
        def one(i):
            q, = g(i)
            top = int(stats.geom.isf(1e-12, q))
            return 1 + self._ctl.branch(stats.geom.pmf(np.arange(1, top + 2), q), 'geom')
        return self._fill(shp, one, dtype=int)

    def multinomial(self, n, pvals, size=None):
        if size is not None:
            raise Unsupported('multinomial(size)')
        pvals = np.asarray(pvals, dtype=float)
        out = np.zeros(len(pvals), dtype=int)
        left, rem = int(n), 1.0
        ctl = self._ctl
        tok = ctl.push(out)
        for j in range(len(pvals)):
            q = 1.0 if j == len(pvals) - 1 else min(1.0, max(0.0, pvals[j] / rem)) if rem > 0 else 0.0
            out[j] = ctl.branch(stats.binom.pmf(np.arange(left + 1), left, q), 'multinom') if left else 0
            ctl.extend(tok, int(out[j]))
            left -= out[j]
            rem -= pvals[j]
        ctl.pop(tok)
        return out

    # continuous draws: enumerated on the cubature / grid given by the policy ----
    def _cont(self, name, size, params):
        pol = self._policy.get(name)
        if pol is None:
            raise Unsupported('continuous draw ' + name)
        if params:
            shp, g = self._bc(size, *params)
        else:
            shp, g = self._shape(size), lambda i: ()
        def one(i):
            vals, w = pol(*g(i))
            return vals[self._ctl.branch(w, name)]
        return self._fill(shp, one)

    def standard_normal(self, size=None):
        return self._cont('normal', size, ())

    def randn(self, *shape):
        return self._cont('normal', shape if shape else None, ())

    def normal(self, loc=0.0, scale=1.0, size=None):
        shp, g = self._bc(size, loc, scale)
        _REF.normal(loc, scale, size)
        z = self._cont('normal', shp, ())
        if shp is None:
            l, s = g(None)
            return l + s * z
        out = np.empty(shp)
        for i in np.ndindex(*shp):
            l, s = g(i)
            out[i] = l + s * z[i]
        return out

    def standard_gamma(self, shape, size=None):
        return self.gamma(shape, 1.0, size)

    def gamma(self, shape, scale=1.0, size=None):
        _REF.gamma(shape, scale, size)
        shp, g = self._bc(size, shape, scale)
        pol = self._policy.get('gamma')
        if pol is None:
            raise Unsupported('continuous draw gamma')
        def one(i):
            k, s = g(i)
            vals, w = pol(float(k))
            return s * vals[self._ctl.branch(w, 'gamma')]
        return self._fill(shp, one)

    def chisquare(self, df, size=None):
        return 2.0 * self.gamma(np.asarray(df) / 2.0 if np.ndim(df) else df / 2.0, 1.0, size)

    def exponential(self, scale=1.0, size=None):
        if self._policy.get('gamma') is not None:
            return self.gamma(1.0, scale, size)
        if size is None and np.ndim(scale) == 0:
            return -(1.0 - self.random_sample()).log() * scale
        raise Unsupported('exponential')

    def standard_exponential(self, size=None):
        return self.exponential(1.0, size)

    def beta(self, a, b, size=None):
        _REF.beta(a, b, size)
        shp, g = self._bc(size, a, b)
        pol = self._policy.get('beta')
        if pol is None:
            raise Unsupported('continuous draw beta')
        def one(i):
            x, y = g(i)
            vals, w = pol(float(x), float(y), i) if getattr(pol, 'indexed', False) else pol(float(x), float(y))
            return vals[self._ctl.branch(w, 'beta')]
        return self._fill(shp, one)


def _refuse(name):
    def method(self, *a, **k):
        raise Unsupported('RandomState.' + name)
    return method


for _n in dir(np.random.RandomState):
    if not _n.startswith('_') and _n not in CtlRNG.__dict__ and _n not in _PASS:
        setattr(CtlRNG, _n, _refuse(_n))


# --------------------------------------------------------------------------
# Explorer
# --------------------------------------------------------------------------

class Law:
    """Exact law of the outcome of a program."""

    def __init__(self, probs, residual, stats_, traces):
        self.p, self.residual, self.stats, self.traces = probs, residual, stats_, traces

    def __getitem__(self, k):
        return self.p.get(k, 0.0)


class Stats(dict):
    def __init__(self):
        super().__init__(states=0, transitions=0, executions=0, merged=0, cut=0)

    def add(self, o):
        for k, v in o.items():
            self[k] = self.get(k, 0) + v


def _alarm(signum, frame):
    raise Hang()


class GlobalPatch:
    """While active, the global NumPy generator is the controlled one."""
    NAMES = [n for n in dir(np.random.RandomState) if not n.startswith('_')
             and n not in _PASS and hasattr(np.random, n)]

    def __enter__(self):
        self.saved = {n: getattr(np.random, n) for n in self.NAMES}
        self.rand = np.random.mtrand._rand
        return self

    def set(self, rng):
        np.random.mtrand._rand = rng
        for n in self.NAMES:
            setattr(np.random, n, getattr(rng, n))

    def __exit__(self, *a):
        np.random.mtrand._rand = self.rand
        for n, v in self.saved.items():
            setattr(np.random, n, v)


class Explorer:
    def __init__(self, prog, policy=None, merge=True, max_exec=200000, eps=1e-10,
                 prune=1e-13, deadline=None, max_depth=20000, exec_limit=30,
                 keep_traces=3, min_mass=1e-12, max_nodes=400000):
        self.prog, self.policy, self.merge = prog, policy, merge
        self.max_exec, self.eps, self.prune = max_exec, eps, prune
        self.deadline, self.max_depth, self.exec_limit = deadline, max_depth, exec_limit
        self.keep_traces, self.min_mass, self.max_nodes = keep_traces, min_mass, max_nodes

    # -- interface used by the generator -------------------------------------------
    def push(self, obj):
        self._extra.append([])
        return len(self._extra) - 1

    def partial(self, tok, v):
        pass

    def extend(self, tok, v):
        self._extra[tok].append(v if not isinstance(v, np.generic) else v.item())

    def pop(self, tok):
        del self._extra[tok:]

    def branch(self, probs, kind):
        probs = np.asarray(probs, dtype=float)
        t = self._t
        self._t = t + 1
        n = len(probs)
        if t < len(self._prefix):
            k = self._prefix[t]
            if k >= n:
                raise Divergence('choice %d of %d at depth %d' % (k, n, t))
            if t == len(self._prefix) - 1:
                node = self._from
                if not np.array_equal(self.nodes[node[0]][0], probs):
                    raise Divergence('probabilities changed at depth %d' % t)
                self._link = self._prefix_link
            self._path.append(k)
            self._mass *= probs[k]
            return k
        if t >= self.max_depth or self._mass < self.min_mass:
            self.stats['cut'] += 1
            raise Abort()
        key = None
        if self.merge:
            key = state_key(_EXEC_CODE)
            if key is None and t >= 500:
                self.stats['cut'] += 1
                raise Abort()
            if key is not None:
                key = (key, kind, tuple(map(repr, self._extra)), probs.tobytes())
                key = hash_key(key)
                hit = self.index.get(key)
                if hit is not None:
                    self.edges[self._edge] = ('n', hit)
                    self.stats['merged'] += 1
                    self._linked = True
                    raise Abort()
        node = len(self.nodes)
        self.nodes.append((probs,))
        self.stats['states'] += 1
        if key is not None:
            self.index[key] = node
        if self._edge is None:
            self.root = ('n', node)
        else:
            self.edges[self._edge] = ('n', node)
        best = int(np.argmax(probs))
        for k in range(n):
            if k != best:
                if probs[k] <= self.prune:
                    continue
                m = self._mass * probs[k]
                self._count += 1
                heapq.heappush(self.queue, (-m, self._count, (self._link, k), (node, k)))
        self._edge = (node, best)
        self.stats['transitions'] += 1
        self._path.append(best)
        self._link = (self._link, best)
        self._mass *= probs[best]
        return best

    # -- execution ---------------------------------------------------------------
    def _execute(self):
        return self.prog(self.rng)

    def _run(self, link, frm):
        prefix, l = [], link
        while l is not None:
            l, k = l
            prefix.append(k)
        prefix.reverse()
        self._prefix, self._from, self._t = prefix, frm, 0
        self._prefix_link, self._link = link, None
        self._path, self._mass, self._extra = [], 1.0, []
        self._edge = frm
        self._linked = False
        self.stats['executions'] += 1
        np.seterr(all='warn')
        try:
            signal.setitimer(signal.ITIMER_REAL, self.exec_limit)
            try:
                out = self._execute()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if self._t < len(prefix):
                raise Divergence('execution ended after %d of %d choices' % (self._t, len(prefix)))
        except Abort:
            return
        except Hang:
            out = ('HANG',)
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except Exception as e:       # an exception of the program is an observation
            out = ('EXC', type(e).__name__, str(e)[:160])
        if self._edge is None:
            self.root = ('o', out)
        else:
            self.edges[self._edge] = ('o', out)
        if out not in self.trace_of:
            self.trace_of[out] = list(self._path)

    def explore(self):
        self.nodes, self.edges, self.index = [], {}, {}
        self.queue, self._count, self.stats = [], 0, Stats()
        self.trace_of, self.root = {}, None
        old = signal.signal(signal.SIGALRM, _alarm)
        complete = True
        self.rng = CtlRNG(self, self.policy)
        with GlobalPatch() as patch:
            patch.set(self.rng)
            try:
                self._run(None, None)
                while self.queue:
                    if (self.stats['executions'] >= self.max_exec or len(self.nodes) >= self.max_nodes
                            or (self.deadline and time.time() > self.deadline)):
                        complete = False
                        break
                    m, _, link, edge = heapq.heappop(self.queue)
                    if -m < self.min_mass:
                        complete = False
                        break
                    self.stats['transitions'] += 1
                    self._run(link, edge)
            finally:
                signal.signal(signal.SIGALRM, old)
        law = self._solve()
        law.complete = complete
        return law

    def _solve(self):
        if self.root is None:
            return Law({}, 1.0, self.stats, self.trace_of)
        if self.root[0] == 'o':
            return Law({self.root[1]: 1.0}, 0.0, self.stats, self.trace_of)
        n = len(self.nodes)
        I, J, V = [], [], []
        absorbed = []
        for (a, k), (kind, tgt) in self.edges.items():
            p = float(self.nodes[a][0][k])
            if kind == 'n':
                I.append(tgt); J.append(a); V.append(p)
            else:
                absorbed.append((a, p, tgt))
        Q = sp.csc_matrix((V, (I, J)), shape=(n, n))
        e = np.zeros(n)
        e[self.root[1]] = 1.0
        if all(i > j for i, j in zip(I, J)):       # forward edges only: acyclic
            v = e
            out = [[] for _ in range(n)]
            for i, j, p in zip(I, J, V):
                out[j].append((i, p))
            for j in range(n):
                vj = v[j]
                for i, p in out[j]:
                    v[i] += vj * p
        else:
            v = spla.spsolve(sp.identity(n, format='csc') - Q, e)
        probs = {}
        for a, p, o in absorbed:
            probs[o] = probs.get(o, 0.0) + v[a] * p
        return Law(probs, max(0.0, 1.0 - sum(probs.values())), self.stats, self.trace_of)


def hash_key(key):
    import hashlib, pickle
    return hashlib.blake2b(pickle.dumps(key, protocol=4), digest_size=20).digest()


_EXEC_CODE = Explorer._execute.__code__


def replay(prog, path, policy=None):
    """Re-execute one recorded choice path without the explorer."""
    class _One(Explorer):
        def branch(self, probs, kind):
            t = self._t
            self._t += 1
            if t >= len(self._prefix):
                raise Divergence('path too short')
            return self._prefix[t]
    ex = _One(prog, policy)
    ex._prefix, ex._t, ex._extra = path, 0, []
    with GlobalPatch() as gp:
        rng = CtlRNG(ex, policy)
        gp.set(rng)
        try:
            return prog(rng)
        except Exception as e:
            return ('EXC', type(e).__name__, str(e)[:160])


def law_of(prog, **kw):
    return Explorer(prog, **kw).explore()


# --------------------------------------------------------------------------
# Cubature rules for continuous draws (exact on polynomials)
# --------------------------------------------------------------------------

def gauss_normal(n):
    x, w = np.polynomial.hermite_e.hermegauss(n)
    w = w / w.sum()
    return lambda: (x, w)


def gauss_gamma(n):
    from scipy.special import roots_genlaguerre
    cache = {}
    def rule(k):
        if k not in cache:
            x, w = roots_genlaguerre(n, k - 1.0) if k != 1 else roots_genlaguerre(n, 0.0)
            cache[k] = (x, w / w.sum())
        return cache[k]
    return rule


def gauss_beta(n):
    from scipy.special import roots_jacobi
    cache = {}
    def rule(a, b):
        if (a, b) not in cache:
            x, w = roots_jacobi(n, b - 1.0, a - 1.0)
            cache[(a, b)] = ((1.0 + x) / 2.0, w / w.sum())
        return cache[(a, b)]
    return rule
