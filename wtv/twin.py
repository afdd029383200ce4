"""Mechanical extraction of the code under /repo into a symbolic twin.

Every run parses the current source of each wake_t module and executes the
*same statements* in a namespace in which numbers are symbolic.  What the
extraction changes (and nothing else):

  * float literals become exact rationals, `a / b` and `a ** b` go through a
    function that is exact on ints;
  * decorators that only select a compiler (numba) become the identity, and
    are recorded;
  * `for`/`while` loops whose trip count is symbolic are executed by the loop
    rules of loops.py (generic independent iteration, or sidecar invariant);
  * numpy / math / scipy.constants / builtins are the shims below.
"""
import ast
import builtins
import hashlib
import math as _math
import os
import sys
import types
from fractions import Fraction

import numpy as _np

from . import expr as X
from .expr import E, SComplex, Unsupported, PathAbort, lift

REPO = os.environ.get('WTV_REPO', '/repo')


# --------------------------------------------------------------------------
# generic-element arrays
# --------------------------------------------------------------------------
class Poison:
    """Value of a local carried between iterations of a generic loop."""

    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def __getattribute__(self, k):
        if k in ('__class__',):
            return Poison
        raise Unsupported('loop-carried variable used')

    def _bad(self, *a, **k):
        raise Unsupported('loop-carried variable used')

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __truediv__ = __rtruediv__ = __pow__ = __neg__ = __bool__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _bad
    __getitem__ = __setitem__ = __call__ = __iter__ = __len__ = _bad
    __index__ = __float__ = __int__ = __abs__ = _bad
    __hash__ = None


def _pw(a):
    return a.val if isinstance(a, PArray) else a


class PArray:
    """1D array seen at one arbitrary (generic) index."""
    _is_parray = True
    __array_priority__ = 2000
    ndim = 1

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __init__(self, val, n=None, name=None, kind='real'):
        self.val = val
        self.n = n if n is not None else X.ctx().generic_n
        self.name = name
        self.kind = kind

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    @property
    def dtype(self):
        return float

    def _own(self, idx):
        c = X.ctx()
        if isinstance(idx, tuple) and len(idx) == 1:
            idx = idx[0]
        if isinstance(idx, slice) and idx == slice(None):
            return 'all'
        if isinstance(idx, types.EllipsisType):
            return 'all'
        if isinstance(idx, E) and c.generic_i is not None and \
                X.same(idx, c.generic_i):
            return 'own'
        raise Unsupported('element access outside the own iteration')

    def __getitem__(self, idx):
        if isinstance(idx, tuple) and len(idx) == 1:
            idx = idx[0]
        if isinstance(idx, PMask):
            return PSel(self.val, self.n, idx.cond)
        k = self._own(idx)
        c = X.ctx()
        if c.in_generic:
            c.reads.add(id(self))
        return self if k == 'all' else self.val

    def __setitem__(self, idx, v):
        if isinstance(idx, tuple) and len(idx) == 1:
            idx = idx[0]
        if isinstance(idx, (PMask,)):
            if isinstance(v, PArray) and not (
                    isinstance(v, PSel) and X.same(v.cond, idx.cond)):
                raise Unsupported('array stored into a selection')
            if X.const_of(idx.cond) is False:
                return
            if getattr(self, 'frozen', False):
                X.ctx().frame_viol(self.name)
            v = lift2(_pw(v))
            self.val = v if X.const_of(idx.cond) is True else X.ite(
                idx.cond, v, self.val)
            return
        k = self._own(idx)
        c = X.ctx()
        if getattr(self, 'frozen', False):
            c.frame_viol(self.name)
        if k == 'all':
            self.val = lift2(_pw(v))
        else:
            if isinstance(v, PArray):
                raise Unsupported('array stored into element')
            self.val = lift2(v)

    def copy(self):
        return PArray(self.val, self.n, None, self.kind)

    def astype(self, *_a, **_k):
        return self.copy()

    def fill(self, v):
        self[:] = v

    def _b(self, o, f, inplace=False):
        if isinstance(o, PArray):
            o = o.val
        elif not X.isnum(o):
            return NotImplemented
        return PArray(f(self.val, o), self.n)

    def __add__(s, o): return s._b(o, lambda a, b: a + b)
    def __radd__(s, o): return s._b(o, lambda a, b: b + a)
    def __sub__(s, o): return s._b(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._b(o, lambda a, b: b - a)
    def __mul__(s, o): return s._b(o, lambda a, b: a * b)
    def __rmul__(s, o): return s._b(o, lambda a, b: b * a)
    def __truediv__(s, o): return s._b(o, lambda a, b: xdiv(a, b))
    def __rtruediv__(s, o): return s._b(o, lambda a, b: xdiv(b, a))
    def __pow__(s, o): return s._b(o, lambda a, b: xpow(a, b))
    def __neg__(s): return PArray(-s.val, s.n)
    def __pos__(s): return s
    def __abs__(s): return PArray(abs(s.val), s.n)

    def _i(s, o, f):
        s[:] = f(s.val, _pw(o))
        return s

    def __iadd__(s, o): return s._i(o, lambda a, b: a + b)
    def __isub__(s, o): return s._i(o, lambda a, b: a - b)
    def __imul__(s, o): return s._i(o, lambda a, b: a * b)
    def __itruediv__(s, o): return s._i(o, lambda a, b: xdiv(a, b))

    def _c(s, o, f):
        return PMask(f(lift(s.val), lift(_pw(o))), s.n)

    def __lt__(s, o): return s._c(o, lambda a, b: a < b)
    def __le__(s, o): return s._c(o, lambda a, b: a <= b)
    def __gt__(s, o): return s._c(o, lambda a, b: a > b)
    def __ge__(s, o): return s._c(o, lambda a, b: a >= b)
    def __eq__(s, o): return s._c(o, lambda a, b: a == b)
    def __ne__(s, o): return s._c(o, lambda a, b: a != b)
    __hash__ = object.__hash__

    @property
    def real(self):
        return PArray(self.val.real, self.n)

    @property
    def imag(self):
        return PArray(self.val.imag, self.n)

    def __iter__(self):
        raise Unsupported('iteration over generic array')

    def __len__(self):
        raise Unsupported('len of generic array')

    def sum(self, *a, **k):
        return agg('sum', self)

    def mean(self, *a, **k):
        return agg('mean', self)

    def min(self, *a, **k):
        return agg('min', self)

    def max(self, *a, **k):
        return agg('max', self)

    def std(self, *a, **k):
        return agg('std', self)

    def ravel(self):
        return self

    def flatten(self):
        return self.copy()


class PSel(PArray):
    """elements of a generic array selected by a mask"""

    def __init__(self, val, n, cond):
        PArray.__init__(self, val, n)
        self.cond = cond

    def _b(self, o, f, inplace=False):
        if isinstance(o, PSel):
            if not X.same(o.cond, self.cond):
                raise Unsupported('different selections combined')
            o = o.val
        elif not X.isnum(o):
            raise Unsupported('selection combined with an array')
        return PSel(f(self.val, o), self.n, self.cond)

    def _i(self, o, f):
        return self._b(o, f)

    def __neg__(s): return PSel(-s.val, s.n, s.cond)

    def _no(self, *a, **k):
        raise Unsupported('operation on a selection')

    copy = sum = mean = min = max = std = _c = _own = _no
    size = property(_no)
    shape = property(_no)


class PMask:
    _is_parray = True
    ndim = 1

    def __init__(self, cond, n):
        self.cond, self.n = X._tb(cond), n

    def __and__(s, o): return PMask(X.and_(s.cond, o.cond), s.n)
    def __or__(s, o): return PMask(X.or_(s.cond, o.cond), s.n)
    def __invert__(s): return PMask(X.not_(s.cond), s.n)

    def __bool__(self):
        raise Unsupported('truth of array')


class PIdx(PMask):
    """np.where(mask)[0]: indices of the selected elements.  The path is
    split on whether the generic element is one of them."""

    def __init__(self, mask):
        PMask.__init__(self, X.boolc(bool(mask.cond)), mask.n)
        c = X.ctx()
        if X.const_of(self.cond) is True:
            self.size = c.fresh_int('count', 1)
        else:
            self.size = c.fresh_int('count', 0)

    @property
    def shape(self):
        return (self.size,)

    def __len__(self):
        raise Unsupported('len of a selection')


def lift2(v):
    if isinstance(v, (E, SComplex)):
        return v
    return lift(v)


def agg(name, a, w=None):
    """Aggregate over a generic array: an uninterpreted value that depends
    only on the element function (named by its normal form)."""
    v = a.val if isinstance(a, PArray) else lift(a)
    c = X.ctx()
    if isinstance(v, SComplex):
        raise Unsupported('aggregate of complex')
    if w is not None:
        if name != 'mean':
            return X.uf('agg_w' + name, v, _pw(w))
        return xdiv(agg('sum', PArray(v * _pw(w))), agg('sum', PArray(_pw(w))))
    if name == 'mean':
        return xdiv(agg('sum', PArray(v)), X.ctx().generic_n)
    if name == 'sum':
        # linear: one uninterpreted sum per monomial of the element
        try:
            n, d = X.rat(v)
        except X.TooBig:
            return X.uf('agg_sum', v)
        t = lift(0)
        for m, c in n.items():
            t = t + X.const(c) * X.uf('agg_sum', X.from_rat(
                X.r_simpl({m: X.F1}, d)))
        return t
    return X.uf('agg_' + name, v)


# --------------------------------------------------------------------------
# grids with symbolic indices
# --------------------------------------------------------------------------
class GridIn:
    """Read-only array of unknown contents: element = uninterpreted f(i,j)."""
    _is_parray = True

    def __init__(self, name, shape, bounds=None):
        self.name, self.shape = name, tuple(shape)
        self.ndim = len(self.shape)
        self.log = []

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    def _idx(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        if len(idx) != self.ndim:
            raise Unsupported('partial index')
        out = []
        c = X.ctx()
        for k, (i, n) in enumerate(zip(idx, self.shape)):
            if isinstance(i, slice):
                raise Unsupported('slice of symbolic grid')
            if isinstance(i, int) and i < 0:
                i = n + i
            i = lift(i)
            if i.sort != 'Int':
                i = X.asint(X.norm(i))
            if not c.quiet:
                c.prove('safety: %s index %d within array' % (self.name, k),
                        X.and_(X.ge(i, X.const(X.F0, 'Int')),
                               X.lt(i, lift(n))))
            out.append(i)
        return out

    def __getitem__(self, idx):
        return X.uf('A_' + self.name, *self._idx(idx))

    def __setitem__(self, idx, v):
        X.ctx().frame_viol(self.name)

    def __len__(self):
        raise Unsupported('len')


class GridAccum(GridIn):
    """Array that is accumulated into; logs (index, delta) per store."""

    def __init__(self, name, shape):
        GridIn.__init__(self, name, shape)
        self.log = []
        self.fresh = 0
        self.last = None

    def __getitem__(self, idx):
        ix = self._idx(idx)
        self.fresh += 1
        v = X.var('%s@%d' % (self.name, self.fresh))
        self.last = (ix, v)
        return v

    def __setitem__(self, idx, val):
        ix = self._idx(idx)
        if self.last is None or not all(
                X.same(a, b) for a, b in zip(ix, self.last[0])):
            raise Unsupported('store that is not an accumulation')
        v = self.last[1]
        self.last = None
        d = X.norm(lift(val) - v)
        if v.args[0] in X.free_vars([d]):
            raise Unsupported('non-additive update')
        self.log.append((ix, d))


# --------------------------------------------------------------------------
# exact arithmetic helpers used by rewritten code
# --------------------------------------------------------------------------
def xdiv(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) \
            and not isinstance(a, bool):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        return X.const(Fraction(a) / Fraction(b))
    if isinstance(a, float) and isinstance(b, (int, float)):
        return xdiv(X.lift(a), b)
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        a2 = a.astype(object) if isinstance(a, _np.ndarray) and \
            a.dtype != object else a
        b2 = b.astype(object) if isinstance(b, _np.ndarray) and \
            b.dtype != object else b
        if isinstance(a2, _np.ndarray) and not isinstance(b2, _np.ndarray):
            out = _np.empty(a2.shape, dtype=object)
            f, o = a2.ravel(), out.ravel()
            for i in range(f.size):
                o[i] = xdiv(f[i], b2)
            return o.reshape(a2.shape)
        if isinstance(a2, _np.ndarray) or isinstance(b2, _np.ndarray):
            A, B = _np.broadcast_arrays(_np.asarray(a2, dtype=object),
                                        _np.asarray(b2, dtype=object))
            o = _np.empty(A.size, dtype=object)
            for i, (p, q) in enumerate(zip(A.ravel(), B.ravel())):
                o[i] = xdiv(p, q)
            return o.reshape(A.shape)
    return a / b


def xpow(a, b):
    if isinstance(b, E) and b.isconst and b.val.denominator == 1:
        b = int(b.val)
    if isinstance(a, int) and not isinstance(a, bool) and \
            isinstance(b, int) and b < 0:
        return X.const(Fraction(a) ** b)
    if isinstance(a, (int, float)) and isinstance(b, (E, float)):
        return X.power(lift(a), lift(b))
    if isinstance(a, _np.ndarray) and a.dtype == object:
        o = _np.empty(a.size, dtype=object)
        for i, p in enumerate(a.ravel()):
            o[i] = xpow(p, b)
        return o.reshape(a.shape)
    return a ** b


def lit(s):
    return X.const(Fraction(s))


def clit(s):
    return SComplex(0, X.const(Fraction(s)))


# --------------------------------------------------------------------------
# builtins shim
# --------------------------------------------------------------------------
def s_int(x=0, *a):
    if isinstance(x, E):
        return X.toint(x)
    if isinstance(x, Fraction):
        return int(x)
    return int(x, *a)


def s_round(x, *a):
    if isinstance(x, E) and not a:
        k = X.const_of(x)
        if k is not None:
            return X.const(Fraction(round(k)), 'Int')
        return X.floor(X.norm(x) + Fraction(1, 2))
    return round(x, *a)


def s_float(x=0.):
    if isinstance(x, E):
        return x if x.sort == 'Real' else X.E('add', (
            X.const(X.F0, 'Real'), x), 'Real') if not x.isconst else \
            X.const(x.val)
    if isinstance(x, str):
        return float(x)
    return lift(x)


def _pick(args, f):
    r = args[0]
    for a in args[1:]:
        if isinstance(r, E) or isinstance(a, E):
            r = a if bool(f(lift(a), lift(r))) else r
        else:
            r = a if f(a, r) else r
    return r


def s_min(*a, **k):
    if len(a) == 1 and isinstance(a[0], PArray):
        return agg('min', a[0])
    if len(a) == 1:
        a = list(a[0])
    return _pick(a, lambda x, y: x < y) if not k else builtins.min(a, **k)


def s_max(*a, **k):
    if len(a) == 1 and isinstance(a[0], PArray):
        return agg('max', a[0])
    if len(a) == 1:
        a = list(a[0])
    return _pick(a, lambda x, y: x > y) if not k else builtins.max(a, **k)


def s_len(x):
    if isinstance(x, (PArray, GridIn)) or hasattr(x, '_sym_shape'):
        return x.shape[0]
    return len(x)


class SRange:
    def __init__(self, lo, hi, step, parallel=False):
        self.lo, self.hi, self.step, self.parallel = lo, hi, step, parallel

    def __iter__(self):
        raise Unsupported('symbolic range outside a for statement')


def s_range(*a, parallel=False):
    lo, hi, st = 0, None, 1
    if len(a) == 1:
        hi, = a
    elif len(a) == 2:
        lo, hi = a
    else:
        lo, hi, st = a

    def cc(v):
        if isinstance(v, E):
            k = X.const_of(v)
            if k is not None and k.denominator == 1:
                return int(k)
        elif isinstance(v, _np.integer):
            return int(v)
        return v
    lo, hi, st = cc(lo), cc(hi), cc(st)
    if all(isinstance(v, int) for v in (lo, hi, st)):
        return range(lo, hi, st)
    return SRange(lo, hi, st, parallel)


def s_prange(*a):
    return s_range(*a, parallel=True)


def s_isinstance(x, t):
    if isinstance(x, E):
        ts = t if isinstance(t, tuple) else (t,)
        ok = False
        for q in ts:
            if q in (float, s_float, _np.floating) and x.sort != 'Bool':
                ok = True
            if q in (int, s_int, _np.integer) and x.sort == 'Int':
                ok = True
            if q in (bool,) and x.sort == 'Bool':
                ok = True
            if isinstance(q, type) and issubclass(E, q):
                ok = True
        return ok
    ts = t if isinstance(t, tuple) else (t,)
    rep = {s_float: float, s_int: int}
    ts = tuple(rep.get(q, q) if not isinstance(q, type) else q for q in ts)
    ts2 = []
    for q in ts:
        if q is np_shim.ndarray:
            ts2 += [_np.ndarray, PArray, GridIn]
        else:
            ts2.append(q)
    return isinstance(x, tuple(ts2))


def s_sum(it, start=0):
    if isinstance(it, PArray):
        return agg('sum', it)
    r = start
    for v in it:
        r = r + v
    return r


def s_abs(x):
    return abs(x)


def s_callable_float(x):
    return callable(x)


# --------------------------------------------------------------------------
# numpy / math shims
# --------------------------------------------------------------------------
def _elem(f1, x):
    if isinstance(x, PArray):
        return PArray(f1(x.val), x.n)
    if isinstance(x, _np.ndarray):
        o = _np.empty(x.size, dtype=object)
        for i, p in enumerate(x.ravel()):
            o[i] = f1(p)
        return o.reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return _elem(f1, oarr(x))
    return f1(x)


def oarr(x):
    if isinstance(x, PArray):
        return x
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return x
    a = _np.empty(_np.shape(x) if not _has_sym(x) else _symshape(x),
                  dtype=object)
    if _has_sym(x):
        _fill(a, x)
    else:
        a[...] = x
    return a


def _has_sym(x):
    if isinstance(x, (E, SComplex, PArray)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    return False


def _symshape(x):
    if isinstance(x, _np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        return (len(x),) + (_symshape(x[0]) if len(x) else ())
    return ()


def _fill(a, x):
    if a.ndim == 0:
        a[()] = x
        return
    if a.ndim == 1:
        for i, v in enumerate(x):
            a[i] = v
        return
    for i, v in enumerate(x):
        _fill(a[i], v)


def s_arctan2(a, b):
    if isinstance(a, PArray) or isinstance(b, PArray):
        n = a.n if isinstance(a, PArray) else b.n
        return PArray(X.uf('atan2', _pw(a), _pw(b)), n)
    if isinstance(a, _np.ndarray) or isinstance(b, _np.ndarray):
        A, B = _np.broadcast_arrays(oarr(a), oarr(b))
        o = _np.empty(A.size, dtype=object)
        for i, (p, q) in enumerate(zip(A.ravel(), B.ravel())):
            o[i] = X.uf('atan2', p, q)
        return o.reshape(A.shape)
    return X.uf('atan2', a, b)


class _NPShim(types.ModuleType):
    """numpy on symbolic values; falls back to real numpy on concrete ones."""

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        r = getattr(_np, k)
        if callable(r) and not isinstance(r, type):
            def guarded(*a, **kw):
                if any(isinstance(v, (PArray, PMask, GridIn)) or
                       hasattr(v, '_sym_shape') for v in a):
                    raise Unsupported('np.%s on symbolic array' % k)
                if any(isinstance(v, E) for v in a):
                    raise Unsupported('np.%s on symbolic scalar' % k)
                return r(*a, **kw)
            return guarded
        return r


np_shim = _NPShim()
math_shim = types.ModuleType('math')
PI = 'pi'


def _pi():
    return X.var('pi', positive=True)


def _shape_sym(shape):
    if isinstance(shape, (tuple, list)):
        return any(isinstance(s, E) and X.const_of(s) is None for s in shape)
    return isinstance(shape, E) and X.const_of(shape) is None


def _mk(fill):
    def f(shape, dtype=None, **_k):
        if _shape_sym(shape):
            c = X.ctx()
            s = shape[0] if isinstance(shape, (tuple, list)) else shape
            if c.generic_n is not None and X.same(lift(s), c.generic_n) and \
                    not (isinstance(shape, (tuple, list)) and len(shape) > 1):
                return PArray(lift(fill) if fill is not None
                              else X.var('uninit', ), s)
            hook = c.data.get('alloc')
            if hook is not None:
                r = hook(shape, fill, dtype)
                if r is not None:
                    return r
            raise Unsupported('allocation of symbolic size')
        if isinstance(shape, (tuple, list)):
            shape = tuple(int(s) for s in shape)
        else:
            shape = int(shape)
        a = _np.empty(shape, dtype=object)
        a[...] = fill if fill is not None else UNINIT
        return a
    return f


class _Uninit:
    def __repr__(self):
        return 'uninit'

    def _bad(self, *a):
        raise Unsupported('uninitialised array element used')
    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = _bad


UNINIT = _Uninit()


def _pair(g, a, b):
    if not isinstance(a, _np.ndarray) and not isinstance(b, _np.ndarray):
        return g(a, b)
    A, B = _np.broadcast_arrays(oarr(a), oarr(b))
    o = _np.empty(A.size, dtype=object)
    for i, (p, q) in enumerate(zip(A.ravel(), B.ravel())):
        o[i] = g(p, q)
    return o.reshape(A.shape)


def s_where(c, a=None, b=None):
    if a is None:
        if isinstance(c, PMask):
            return (PIdx(c),)
        raise Unsupported('np.where(cond)')
    if isinstance(c, PMask):
        return PArray(X.ite(c.cond, _pw(a), _pw(b)), c.n)
    if isinstance(c, E):
        return X.ite(c, a, b)
    C, A, B = _np.broadcast_arrays(oarr(c), oarr(a), oarr(b))
    o = _np.empty(C.size, dtype=object)
    for i, (p, q, r) in enumerate(zip(C.ravel(), A.ravel(), B.ravel())):
        o[i] = X.ite(p, q, r) if isinstance(p, E) else (q if p else r)
    return o.reshape(C.shape)


def s_arange(*a, **k):
    a = [int(v) if isinstance(v, E) and X.const_of(v) is not None else v
         for v in a]
    if any(isinstance(v, E) for v in a):
        c = X.ctx()
        hook = c.data.get('arange')
        if hook is not None:
            return hook(*a)
        raise Unsupported('arange of symbolic length')
    return _np.arange(*a, **k).astype(object)


def s_cumsum(a, *_x, **_k):
    if isinstance(a, _np.ndarray):
        o = _np.empty(a.size, dtype=object)
        s = 0
        for i, v in enumerate(a.ravel()):
            s = s + v
            o[i] = s
        return o
    if hasattr(a, 'cumsum'):
        return a.cumsum()
    raise Unsupported('cumsum')


def s_npsum(a, *x, **k):
    if isinstance(a, PArray):
        return agg('sum', a)
    if isinstance(a, _np.ndarray):
        return a.sum(*x, **k)
    if isinstance(a, (list, tuple)):
        return s_sum(a)
    return a


def s_average(a, weights=None, **k):
    if isinstance(a, PArray):
        return agg('mean', a, weights)
    if isinstance(a, _np.ndarray) and a.dtype == object:
        if weights is None:
            return xdiv(a.sum(), a.size)
        return xdiv((a * weights).sum(), weights.sum())
    return _np.average(a, weights=weights, **k)


def s_reduce(f, a, *x, **k):
    if isinstance(a, PArray):
        return agg(f, a)
    a = _np.asarray(a)
    if a.dtype == object and not x and not k:
        r = a.flat[0]
        for v in a.flat[1:]:
            r = s_max(r, v) if f == 'max' else s_min(r, v)
        return r
    return getattr(_np, f)(a, *x, **k)


def s_array(x, dtype=None, **k):
    if isinstance(x, PArray):
        return x.copy()
    if isinstance(x, (list, tuple)) and any(
            isinstance(v, PArray) for v in x):
        return PRows([v.copy() if isinstance(v, PArray) else v for v in x])
    if _has_sym(x):
        a = oarr(x)
        return a.copy()
    r = _np.array(x, dtype=None, **k)
    return r.astype(object) if r.dtype.kind in 'fic' else r


class PRows:
    """2D array = stack of generic rows (k x N)."""
    _is_parray = True
    __array_priority__ = 3000
    ndim = 2

    def __init__(self, rows):
        self.rows = list(rows)

    @property
    def shape(self):
        return (len(self.rows), self.rows[0].n)

    def __getitem__(self, i):
        if isinstance(i, tuple):
            r = self.rows[i[0]]
            return r[i[1]] if not isinstance(i[1], slice) else r
        if isinstance(i, (int, E)):
            return self.rows[int(i)]
        return PRows(self.rows[i])

    def __setitem__(self, i, v):
        if isinstance(i, tuple):
            if isinstance(i[1], slice) and i[1] == slice(None):
                i = i[0]
            else:
                self.rows[i[0]][i[1]] = v
                return
        self.rows[int(i)] = v if isinstance(v, PArray) else PArray(
            lift(v), self.rows[0].n)

    def __iter__(self):
        return iter(self.rows)

    def __len__(self):
        return len(self.rows)

    def __iadd__(self, o):
        self.rows = [a + b for a, b in zip(self.rows, o.rows)]
        return self

    def __add__(self, o):
        return PRows([a + b for a, b in zip(self.rows, o.rows)])

    def copy(self):
        return PRows([r.copy() for r in self.rows])


def s_dot(a, b):
    if isinstance(b, PRows):
        out = []
        for i in range(a.shape[0]):
            acc = None
            for j in range(a.shape[1]):
                t = b.rows[j] * a[i, j]
                acc = t if acc is None else acc + t
            out.append(acc)
        return PRows(out)
    return _np.dot(a, b)


def s_einsum(spec, *ops):
    if len(ops) == 3 and isinstance(ops[1], PRows):
        if spec.replace(' ', '').split('->')[0] != 'ijk,j...,k...':
            raise Unsupported('einsum ' + spec)
        T, B, C = ops
        rows = []
        for i in range(T.shape[0]):
            acc = PArray(X.const(X.F0), B.rows[0].n)
            for j in range(T.shape[1]):
                for k in range(T.shape[2]):
                    t = T[i, j, k]
                    if isinstance(t, (int, float)) and t == 0:
                        continue
                    if isinstance(t, E) and t.isconst and t.val == 0:
                        continue
                    acc = acc + B.rows[j] * C.rows[k] * t
            rows.append(acc)
        # result axes: (N, i) when '...' precedes implicit output
        if '->' in spec:
            out = spec.split('->')[1].strip()
            if out == 'i...':
                return PRows(rows)
            if out != '...i':
                raise Unsupported('einsum ' + spec)
        return PCols(rows)
    return _np.einsum(spec, *ops)


class PCols:
    """N x k array; only .T is supported."""

    def __init__(self, rows):
        self.rows = rows

    @property
    def T(self):
        return PRows(self.rows)


def s_zeros_like(x, *a, **k):
    if isinstance(x, PArray):
        return PArray(X.const(X.F0), x.n)
    if isinstance(x, PRows):
        return PRows([s_zeros_like(r) for r in x.rows])
    if hasattr(x, 'zeros_like'):
        return x.zeros_like()
    o = _np.empty(_np.shape(x), dtype=object)
    o[...] = 0
    return o


def s_linspace(a, b, num=50, **k):
    if k:
        raise Unsupported('linspace options')
    n = X.const_of(lift(num))
    if n is not None:
        n = int(n)
        o = _np.empty(n, dtype=object)
        for i in range(n):
            o[i] = lift(a) if n == 1 else a + xdiv(lift(b) - a, n - 1) * i
        return o
    hook = X.ctx().data.get('linspace')
    if hook is None:
        raise Unsupported('linspace of symbolic length')
    return hook(lift(a), lift(b), num)


def s_clip(x, lo, hi):
    def f(v):
        return _pick([_pick([v, lo], lambda a, b: a > b), hi],
                     lambda a, b: a < b)
    return _elem(f, x)


def _fill_np():
    m = np_shim
    m.sqrt = lambda x: _elem(lambda v: X.sqrt(v), x)
    m.exp = lambda x: _elem(lambda v: X.exp(v), x)
    m.sin = lambda x: _elem(lambda v: X.sin(v), x)
    m.cos = lambda x: _elem(lambda v: X.cos(v), x)
    m.tan = lambda x: _elem(lambda v: X.div(X.sin(v), X.cos(v)), x)
    m.sinh = lambda x: _elem(lambda v: X.sinh(v), x)
    m.cosh = lambda x: _elem(lambda v: X.cosh(v), x)
    m.log = lambda x: _elem(lambda v: X.uf('log', v), x)
    m.abs = lambda x: _elem(abs, x)
    m.absolute = m.abs
    m.floor = lambda x: _elem(X.floor, x)
    m.mod = m.remainder = lambda a, b: _pair(lambda p, q: lift(p) % q, a, b)
    m.ceil = lambda x: _elem(X.ceil, x)
    m.square = lambda x: _elem(lambda v: v * v, x)
    m.power = lambda x, n: _elem(lambda v: xpow(v, n), x)
    m.conjugate = lambda x: _elem(lambda v: lift(v).conjugate(), x)
    m.conj = m.conjugate
    m.real = lambda x: _elem(lambda v: lift(v).real, x)
    m.imag = lambda x: _elem(lambda v: lift(v).imag, x)
    m.arctan2 = s_arctan2
    m.angle = lambda x: _elem(lambda v: X.uf('atan2', lift(v).imag,
                                             lift(v).real), x)
    m.zeros = _mk(0)
    m.ones = _mk(1)
    m.empty = _mk(None)
    m.zeros_like = s_zeros_like
    m.ones_like = lambda x, *a, **k: s_zeros_like(x) + 1
    m.empty_like = s_zeros_like
    m.full_like = lambda x, v, *a, **k: s_zeros_like(x) + v
    m.where = s_where

    def s_argsort(x, *a, **k):
        if isinstance(x, PSel):
            raise Unsupported('sort of a selection')
        if isinstance(x, PArray):
            return PArray(X.uf('argsort', x.val), x.n)
        if getattr(x, '_is_parray', False):
            raise Unsupported('np.argsort on symbolic array')
        return _np.argsort(x, *a, **k)
    m.argsort = s_argsort
    m.arange = s_arange
    m.cumsum = s_cumsum
    m.sum = s_npsum
    m.mean = lambda a, *x, **k: agg('mean', a) if isinstance(a, PArray) \
        else s_average(a)
    m.average = s_average
    for k, f in (('amax', 'max'), ('max', 'max'), ('amin', 'min'),
                 ('min', 'min')):
        setattr(m, k, lambda a, *x, f=f, **kw: s_reduce(f, a, *x, **kw))
    m.array = s_array
    m.asarray = lambda x, *a, **k: x if isinstance(
        x, (PArray, _np.ndarray, PRows)) else s_array(x)
    m.dot = s_dot
    m.einsum = s_einsum
    m.clip = s_clip
    m.linspace = s_linspace
    m.round = lambda x, *a: _elem(lambda v: s_round(v, *a), x)
    m.rint = lambda x: _elem(s_round, x)
    m.argmin = lambda *a, **k: s_argmin(*a, **k)
    m.minimum = lambda a, b: _elem(lambda v: s_min(v, b), a)
    m.maximum = lambda a, b: _elem(lambda v: s_max(v, b), a)
    m.ndarray = _np.ndarray
    m.float64 = s_float
    m.complex128 = _np.complex128
    m.isnan = lambda x: False
    m.float32 = lambda x: x
    m.logical_and = lambda a, b: a & b
    m.logical_or = lambda a, b: a | b
    m.logical_not = lambda a: ~a
    mm = math_shim
    for k in ('sqrt', 'exp', 'sin', 'cos', 'sinh', 'cosh'):
        setattr(mm, k, getattr(X, k))
    mm.tan = lambda v: X.div(X.sin(v), X.cos(v))
    mm.log = lambda v: X.uf('log', v)
    mm.floor = lambda v: X.floor(v)
    mm.ceil = lambda v: X.ceil(v)
    mm.fabs = abs
    mm.atan2 = lambda a, b: X.uf('atan2', a, b)
    mm.pow = xpow
    mm.hypot = lambda a, b: X.sqrt(lift(a) * a + lift(b) * b)


class _PiProp:
    pass


def _np_getattr(self, k):
    if k == 'pi':
        return _pi()
    return _orig_getattr(self, k)


_orig_getattr = _NPShim.__getattr__
_NPShim.__getattr__ = _np_getattr
_fill_np()


class _MathMod(types.ModuleType):
    def __getattr__(self, k):
        if k == 'pi':
            return _pi()
        if k in math_shim.__dict__:
            return math_shim.__dict__[k]
        raise AttributeError(k)


math_mod = _MathMod('math')


class _Constants(types.ModuleType):
    """scipy.constants: symbolic positive physical constants."""

    def __getattr__(self, k):
        if k == 'pi':
            return _pi()
        if k in ('c', 'e', 'm_e', 'm_p', 'epsilon_0', 'mu_0',
                 'elementary_charge', 'electron_mass', 'speed_of_light'):
            k = {'elementary_charge': 'e', 'electron_mass': 'm_e',
                 'speed_of_light': 'c'}.get(k, k)
            if k == 'mu_0':
                c = X.var('ct_c', positive=True)
                return 1 / (X.var('ct_epsilon_0', positive=True) * c * c)
            return X.var('ct_' + k, positive=True)
        import scipy.constants
        return getattr(scipy.constants, k)


ct_shim = _Constants('scipy.constants')


# --------------------------------------------------------------------------
# AST rewriting
# --------------------------------------------------------------------------
class _Names(ast.NodeVisitor):
    """names assigned in a loop body; whether attributes are assigned"""

    def __init__(self):
        self.names, self.attr = set(), False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Store):
            self.attr = True
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_Lambda = \
        visit_ListComp


def exposed(body):
    """names that may be read in `body` before being assigned in it"""
    out = set()

    def expr(n, done):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and \
                    x.id not in done:
                out.add(x.id)

    def store(t, done):
        if isinstance(t, ast.Name):
            done.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for q in t.elts:
                store(q, done)
        elif isinstance(t, ast.Starred):
            store(t.value, done)
        else:
            expr(t, done)

    def block(sts, done):
        """returns the definitely assigned names, None if unreachable"""
        for s in sts:
            if isinstance(s, ast.Assign):
                expr(s.value, done)
                for t in s.targets:
                    store(t, done)
            elif isinstance(s, ast.AugAssign):
                expr(s.value, done)
                if isinstance(s.target, ast.Name):
                    if s.target.id not in done:
                        out.add(s.target.id)
                    done.add(s.target.id)
                else:
                    expr(s.target, done)
            elif isinstance(s, ast.AnnAssign):
                if s.value is not None:
                    expr(s.value, done)
                    store(s.target, done)
            elif isinstance(s, ast.If):
                expr(s.test, done)
                a = block(s.body, set(done))
                b = block(s.orelse, set(done))
                if a is None and b is None:
                    return None
                done = a if b is None else b if a is None else a & b
            elif isinstance(s, ast.For):
                expr(s.iter, done)
                d = set(done)
                store(s.target, d)
                block(s.body, d)
                block(s.orelse, set(done))
            elif isinstance(s, ast.While):
                expr(s.test, done)
                block(s.body, set(done))
                block(s.orelse, set(done))
            elif isinstance(s, (ast.Break, ast.Continue)):
                return None
            elif isinstance(s, (ast.Return, ast.Raise)):
                expr(s, done)
                return None
            elif isinstance(s, ast.With):
                for w in s.items:
                    expr(w.context_expr, done)
                    if w.optional_vars is not None:
                        store(w.optional_vars, done)
                d = block(s.body, done)
                if d is None:
                    return None
                done = d
            elif isinstance(s, ast.Try):
                block(s.body, set(done))
                for h in s.handlers:
                    block(h.body, set(done))
                block(s.orelse, set(done))
                block(s.finalbody, set(done))
            else:
                expr(s, done)
        return done
    block(body, set())
    return out


class Rewriter(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.stack = []
        self.counts = {}
        self.k = 0

    def _fn(self, node):
        self.stack.append(node.name)
        self.counts['.'.join(self.stack)] = 0
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = [self.visit(s) for s in node.body]
        node.body = [y for s in node.body
                     for y in (s if isinstance(s, list) else [s])]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None
                                 for d in node.args.kw_defaults]
        node.returns = None
        for a in node.args.args + node.args.kwonlyargs:
            a.annotation = None
        self.stack.pop()
        return node

    visit_FunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return self.visit(ast.copy_location(
            ast.Assign(targets=[node.target], value=node.value), node))

    def visit_Constant(self, node):
        v = node.value
        if isinstance(v, float):
            return ast.copy_location(_call('__lit__', ast.Constant(repr(v))),
                                     node)
        if isinstance(v, complex):
            return ast.copy_location(
                _call('__clit__', ast.Constant(repr(v.imag))), node)
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(_call('__div__', node.left, node.right),
                                     node)
        if isinstance(node.op, ast.Pow):
            return ast.copy_location(_call('__pow__', node.left, node.right),
                                     node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)) and \
                isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=_call('__aug__', ast.Constant(
                    type(node.op).__name__),
                    ast.Name(node.target.id, ast.Load()), node.value)), node)
        if isinstance(node.op, (ast.Div, ast.Pow)) and \
                isinstance(node.target, ast.Name):
            f = '__div__' if isinstance(node.op, ast.Div) else '__pow__'
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=_call(f, ast.Name(node.target.id, ast.Load()),
                            node.value)), node)
        return node

    def visit_For(self, node):
        q = '.'.join(self.stack) or '<module>'
        k = self.counts.get(q, 0)
        self.counts[q] = k + 1
        key = '%s:%s:%d' % (self.mod, q, k)
        nv = _Names()
        for s in node.body:
            nv.visit(s)
        tv = _Names()
        tv.visit(node.target)
        names = sorted(nv.names - tv.names)
        self.generic_visit(node)
        self.k += 1
        it = '__it%d' % self.k
        tgt = sorted(tv.names)
        pre = ast.Assign(
            targets=[ast.Name(it, ast.Store())],
            value=_call('__loop__', ast.Constant(key), node.iter,
                        ast.Constant(tuple(names)), ast.Constant(tuple(tgt)),
                        ast.Constant(nv.attr)))
        out = [pre]
        if names:
            def upd(meth):
                return ast.If(
                    test=ast.Attribute(ast.Name(it, ast.Load()), 'sym',
                                       ast.Load()),
                    body=[ast.Assign(
                        targets=[ast.Tuple([ast.Name(n, ast.Store())
                                            for n in names], ast.Store())],
                        value=ast.Call(
                            func=ast.Attribute(ast.Name(it, ast.Load()),
                                               meth, ast.Load()),
                            args=[_call('__locals__')], keywords=[]))],
                    orelse=[])
            out.append(upd('enter'))
            h = upd('head')
            h.body[0].value = _call('__head__', ast.Name(it, ast.Load()),
                                    ast.Constant(tuple(names)),
                                    _call('__locals__'))
            node.body.insert(0, h)
        node.iter = ast.Name(it, ast.Load())
        out.append(node)
        if names:
            out.append(upd('leave'))
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out

    def visit_While(self, node):
        q = '.'.join(self.stack) or '<module>'
        kq = q + ':while'
        k = self.counts.get(kq, 0)
        self.counts[kq] = k + 1
        nv = _Names()
        for s in node.body:
            nv.visit(s)
        nv.names &= exposed(node.body)
        self.generic_visit(node)
        names = sorted(nv.names)
        call = _call('__whilestep__', ast.Constant('%s:%s:while%d' % (
            self.mod, q, k)), ast.Constant(tuple(names)),
            _call('__locals__'))
        node.body.insert(0, ast.Assign([ast.Tuple(
            [ast.Name(n, ast.Store()) for n in names], ast.Store())],
            call) if names else ast.Expr(call))
        ast.fix_missing_locations(node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and \
                node.func.attr == 'astype' and len(node.args) == 1 and \
                not node.keywords:
            return ast.copy_location(
                _call('__astype__', node.func.value, node.args[0]), node)
        return node


def _call(name, *args):
    return ast.Call(func=ast.Name(name, ast.Load()), args=list(args),
                    keywords=[])


def _flat_bodies(tree):
    """NodeTransformer returns lists for statements; generic_visit handles
    list results already, except in _fn where we flattened manually."""
    return tree


# --------------------------------------------------------------------------
# loop rules
# --------------------------------------------------------------------------
class ConcreteLoop:
    sym = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)


class GenericLoop:
    """Rule 'independent iterations': the body is executed once for an
    arbitrary index; arrays may only be touched at that index and locals may
    not carry values between iterations (both enforced)."""
    sym = True

    def __init__(self, key, rng, names, attr):
        self.key, self.rng, self.names = key, rng, names
        if attr:
            raise Unsupported('attribute assigned in symbolic loop ' + key)

    def enter(self, loc):
        return tuple(Poison(n) for n in self.names)

    leave = enter

    def __iter__(self):
        c = X.ctx()
        c.in_generic += 1
        try:
            yield c.generic_i
        finally:
            c.in_generic -= 1
        c.loops.append((self.key, 'generic', self.rng.parallel))


def aug(op, a, b):
    """a op= b; in place for arrays"""
    if isinstance(a, _np.ndarray) and a.dtype == object:
        a[...] = {'Add': lambda: a + b, 'Sub': lambda: a - b,
                  'Mult': lambda: a * b, 'Div': lambda: xdiv(a, b)}[op]()
        return a
    if op == 'Add':
        a += b
    elif op == 'Sub':
        a -= b
    elif op == 'Mult':
        a *= b
    elif hasattr(type(a), '__itruediv__'):
        a /= b
    else:
        a = xdiv(a, b)
    return a


def do_head(it, names, loc):
    h = getattr(it, 'head', None)
    return h(loc) if h else tuple(loc[n] for n in names)


def do_loop(key, it, names, tgt, attr):
    it = getattr(it, 'rng', it)
    if not isinstance(it, SRange):
        return ConcreteLoop(it)
    c = X.ctx()
    rule = c.loop_rules.get(key)
    if rule is None:
        for k, v in c.loop_rules.items():
            if k.endswith('*') and key.startswith(k[:-1]):
                rule = v
                break
    if rule is not None:
        return rule(key, it, names, tgt)
    if c.generic_n is None:
        raise Unsupported('symbolic loop %s without rule' % key)
    if not (X.const_of(lift(it.lo)) == 0 and it.step == 1 and
            X.same(lift(it.hi), c.generic_n)):
        raise Unsupported('loop %s does not run over all particles' % key)
    return GenericLoop(key, it, names, attr)


def whilestep(key, names, loc):
    c = X.ctx()
    same = tuple(loc[n] if n in loc else Poison(n) for n in names)
    if c is None:
        return same
    rule = c.loop_rules.get(key)
    if rule is not None:
        return rule.step(names, loc) or same
    c.wsteps[key] = c.wsteps.get(key, 0) + 1
    if c.wsteps[key] > c.max_while:
        c.ex.truncated = True
        raise PathAbort('while bound')
    return same


class WhileInvariant:
    """Rule for an unbounded while loop: `inv(loc)` yields named conditions
    that hold at the loop head; `havoc(loc)` replaces, in place, the state
    the loop changes by an arbitrary one.  Established on entry, preserved
    by one arbitrary iteration; a `break` leaves with the invariant state."""

    def __init__(self, inv, havoc, carried):
        self.inv, self.havoc, self.carried, self.n = inv, havoc, carried, 0

    def step(self, names, loc):
        c = X.ctx()
        if self.n == 0:
            bad = [n for n in names if n in loc and n not in self.carried]
            if bad:
                raise Unsupported('loop-carried local ' + bad[0])
        for nm in self.carried:
            if nm not in loc:
                raise Unsupported('loop variable %s not found' % nm)
        for nm, g in self.inv(loc):
            c.prove('%s: %s' % (
                'invariant on entry' if self.n == 0 else
                'invariant preserved', nm), g)
        self.n += 1
        if self.n > 1:
            raise PathAbort('loop closed')
        self.havoc(loc)
        for nm, g in self.inv(loc):
            c.assume(g)


def astype(a, t):
    if isinstance(a, _np.ndarray) and a.dtype == object:
        return a.copy()
    if isinstance(a, _np.ndarray) and not isinstance(t, (type, str)) and \
            not isinstance(t, _np.dtype):
        return a.copy()
    return a.astype(t)


def s_argmin(a, *x, **k):
    if isinstance(a, _np.ndarray) and a.dtype == object and a.ndim == 1:
        j = 0
        for i in range(1, a.size):
            if bool(lift(a[i]) < lift(a[j])):
                j = i
        return j
    if isinstance(a, (PArray, GridIn)):
        raise Unsupported('argmin')
    return _np.argmin(a, *x, **k)


# --------------------------------------------------------------------------
# twin package
# --------------------------------------------------------------------------
class Stub:
    pass


class Twin:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.stubs = {}
        self.loaded = {}       # module -> sha256 of source
        self.njit = {}         # qualname -> 'serial'|'parallel'

    def stub(self, dotted, f):
        self.stubs[dotted] = f

    def path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def get(self, dotted):
        m, _, n = dotted.rpartition('.')
        mod = self.load(m)
        try:
            return getattr(mod, n)
        except AttributeError:
            raise Unsupported('%s not found' % dotted)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name == 'wake_t.utilities.numba':
            m = self._numba(name)
            self.mods[name] = m
            return m
        p, pkg = self.path(name)
        if not os.path.exists(p):
            raise Unsupported('module %s not found' % name)
        if '.' in name:
            self.load(name.rpartition('.')[0])
        m = types.ModuleType(name)
        m.__file__ = p
        if pkg:
            m.__path__ = [os.path.dirname(p)]
        m.__package__ = name if pkg else name.rpartition('.')[0]
        self.mods[name] = m
        src = open(p).read()
        self.loaded[name] = hashlib.sha256(src.encode()).hexdigest()
        if name == 'wake_t' or (pkg and name.count('.') <= 9):
            # packages: lazily resolved attributes instead of eager imports
            self._lazy_pkg(m, src)
            return m
        code = compile_twin(name, src, p)
        m.__dict__.update(self.env(m))
        exec(code, m.__dict__)
        for d, f in self.stubs.items():
            mm, _, n = d.rpartition('.')
            if mm == name:
                m.__dict__[n] = f
        return m

    def _lazy_pkg(self, m, src):
        tw = self
        tree = ast.parse(src)
        table = {}
        for s in tree.body:
            if isinstance(s, ast.ImportFrom):
                base = m.__name__.split('.')
                if s.level:
                    base = base[:len(base) - (s.level - 1)]
                    tgt = '.'.join(base + ([s.module] if s.module else []))
                else:
                    tgt = s.module
                for a in s.names:
                    table[a.asname or a.name] = (tgt, a.name)
            elif isinstance(s, ast.Assign) and isinstance(
                    s.value, ast.Constant) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name):
                setattr(m, s.targets[0].id, s.value.value)

        def ga(k):
            if k in table:
                t, n = table[k]
                if t.startswith('wake_t'):
                    return getattr(tw.load(t), n)
                import importlib
                return getattr(importlib.import_module(t), n)
            p, _ = tw.path(m.__name__ + '.' + k)
            if os.path.exists(p):
                return tw.load(m.__name__ + '.' + k)
            raise AttributeError(k)
        m.__getattr__ = ga

    def _numba(self, name):
        m = types.ModuleType(name)

        def deco(kind):
            def d(*a, **k):
                kd = 'parallel' if k.get('parallel') else kind

                def w(f):
                    self.njit[f.__module__ + '.' + f.__qualname__] = kd
                    return f
                if a and callable(a[0]):
                    return w(a[0])
                return w
            return d
        m.njit_serial = deco('serial')
        m.njit_parallel = deco('parallel')
        m.prange = s_prange
        m.num_threads = 1
        m.set_num_threads = lambda n: None
        m.get_num_threads = lambda: 1
        return m

    def env(self, m):
        b = dict(builtins.__dict__)
        b.update(int=s_int, float=s_float, min=s_min, max=s_max, len=s_len,
                 range=s_range, isinstance=s_isinstance, sum=s_sum,
                 round=s_round,
                 __import__=self._import)
        return {'__builtins__': b, '__lit__': lit, '__clit__': clit,
                '__div__': xdiv, '__pow__': xpow, '__loop__': do_loop, '__head__': do_head, '__aug__': aug,
                '__whilestep__': whilestep, '__astype__': astype,
                '__locals__': lambda: sys._getframe(1).f_locals,
                '__name__': m.__name__}

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'].split('.')
            pkg = pkg[:len(pkg) - (level - 1)]
            name = '.'.join(pkg + ([name] if name else []))
        if name == 'wake_t' or name.startswith('wake_t.'):
            m = self.load(name)
            if fromlist:
                return _Facade(self, m)
            return self.load('wake_t')
        if name == 'numpy':
            return np_shim
        if name == 'math':
            return math_mod
        if name == 'scipy.constants':
            if fromlist:
                return ct_shim
            s = types.ModuleType('scipy')
            s.constants = ct_shim
            return s
        if name == 'scipy' and fromlist and 'constants' in fromlist:
            s = types.ModuleType('scipy')
            s.constants = ct_shim
            return s
        if name == 'numba':
            m = self._numba('numba')
            m.njit = m.njit_serial
            m.jit = m.njit_serial
            m.__version__ = '0'
            return m
        return builtins.__import__(name, globals, locals, fromlist or (), 0)


class _Facade:
    """module wrapper for `from wake_t.x import a, b` on lazy packages"""

    def __init__(self, tw, m):
        self.__dict__['_m'] = m
        self.__dict__['_tw'] = tw

    def __getattr__(self, k):
        if k == '__path__':
            raise AttributeError(k)
        return getattr(self._m, k)


_CODE = {}


def compile_twin(name, src, path):
    key = (name, hash(src))
    c = _CODE.get(key)
    if c is None:
        tree = ast.parse(src, path)
        tree = Rewriter(name).visit(tree)
        ast.fix_missing_locations(tree)
        c = compile(tree, path, 'exec')
        _CODE[key] = c
    return c
