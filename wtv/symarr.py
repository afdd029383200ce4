"""One- and two-dimensional arrays of symbolic length, elements given by a
function of the (symbolic) index.  Element-wise arithmetic, index and slice
access, writes at an index, whole-array assignment."""
from fractions import Fraction

import numpy as _np

from . import expr as X
from .expr import E, SComplex, Unsupported, lift
from . import twin as T


def num(v):
    if isinstance(v, (SComplex, E)):
        return v
    if isinstance(v, complex):
        return SComplex(lift(v.real), lift(v.imag))
    return lift(v)


def ite(c, a, b):
    k = X._tb(c)
    if k.op == 'const':
        return a if k.val else b
    t = X.ctx()
    if t is not None and t.data.get('split'):
        return a if bool(k) else b
    if isinstance(a, SComplex) or isinstance(b, SComplex):
        a, b = X.tocomplex(a), X.tocomplex(b)
        return SComplex(X.ite(c, a.re, b.re), X.ite(c, a.im, b.im))
    return X.ite(c, a, b)


def _distinct(a, b):
    c = X.ctx()
    for x, y in (c.data.get('distinct', ()) if c is not None else ()):
        if X.same(a, x) and X.same(b, y) or X.same(a, y) and X.same(b, x):
            return True
    return False


def idx(i, n, what, check=True):
    """index expression 0 <= i < n; negative constants count from the end"""
    i = lift(i)
    k = X.const_of(i)
    if k is not None and k < 0:
        i = lift(n) + i
    elif k is None and X.ctx() is not None:
        # an expression like -1 - k counts from the end
        p, d = X.rat(i)
        if not d and p.get((), 0) < 0 and all(v < 0 for v in p.values()) \
                and bool(i < 0):
            i = X.norm(lift(n) + i)
    if i.sort != 'Int':
        i = X.asint(X.norm(i))
    c = X.ctx()
    if check and c is not None and not c.quiet:
        done = c.data.setdefault('idxok', set())
        k = (i, lift(n), what)
        if k not in done:
            done.add(k)
            g = [x for x in (X._tb(i >= 0), X._tb(i < n))
                 if c.known.get(x) is not True]
            c.prove('safety: index of %s within the array' % what,
                    X.and_(*g) if g else X.boolc(True))
    return i


class FArr:
    """a[i] = f(i), 0 <= i < n"""
    _is_parray = True
    _is_farr = True
    _sym_shape = True
    __array_priority__ = 4000
    ndim = 1

    def __init__(self, n, f, name='array', frozen=False):
        self.n, self.f, self.name, self.frozen = lift(n), f, name, frozen

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def at(self, i):
        return num(self.f(lift(i)))

    # -- access
    def _slice(self, s):
        n = self.n
        st = 1 if s.step is None else s.step
        st = X.const_of(lift(st))
        if st not in (1, -1):
            raise Unsupported('slice step')

        def lim(v, d):
            if v is None:
                return lift(d)
            v = lift(v)
            k = X.const_of(v)
            if k is None and X.ctx().data.get('clip') and bool(v > n):
                return n
            return n + v if k is not None and k < 0 else v
        if st == 1:
            lo, hi = lim(s.start, 0), lim(s.stop, n)
            return lo, hi - lo, 1
        if s.start is not None or s.stop is not None:
            raise Unsupported('reversed slice')
        return n - 1, n, -1

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if isinstance(i, slice):
            lo, m, st = self._slice(i)
            return View1(self, lo, m, st)
        return self.at(idx(i, self.n, self.name))

    def __setitem__(self, i, v):
        if self.frozen:
            X.ctx().frame_viol(self.name)
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                self.f = fun(v, self.n)
                return
            lo, m, st = self._slice(i)
            if st != 1:
                raise Unsupported('write to reversed slice')
            g, f = fun(v, m), self.f
            self.f = lambda k: ite(X.and_(k >= lo, k < lo + m),
                                   g(k - lo), num(f(k)))
            return
        j = idx(i, self.n, self.name)
        f, v = self.f, num(v)

        def h(k):
            if X.same(k, j):
                return v
            if _distinct(k, j):
                return num(f(k))
            return ite(X.eq(k, j), v, num(f(k)))
        self.f = h

    def __len__(self):
        raise Unsupported('len')

    def __iter__(self):
        raise Unsupported('iteration over an array of symbolic length')

    def copy(self):
        return FArr(self.n, self.f, self.name)

    def fill(self, v):
        self[:] = v

    def zeros_like(self):
        return FArr(self.n, lambda k: lift(0), self.name)

    def astype(self, t):
        return self.copy()

    def argmin(self):
        h = X.ctx().data.get('argmin')
        if h is None:
            raise Unsupported('argmin')
        return h(self)

    # -- arithmetic
    def _bin(self, o, op):
        if isinstance(o, _np.ndarray) and o.ndim == 0:
            o = o.item()
        f = self.f
        if isinstance(o, FArr):
            g = o.f
            return FArr(self.n, lambda k: op(num(f(k)), num(g(k))))
        if isinstance(o, (_np.ndarray, list, tuple)) or \
                getattr(o, '_is_parray', False):
            return NotImplemented
        o = num(o)
        return FArr(self.n, lambda k: op(num(f(k)), o))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, T.xdiv)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: T.xdiv(b, a))

    def __pow__(self, o):
        return self._bin(o, T.xpow)

    def __neg__(self):
        return self._bin(lift(-1), lambda a, b: a * b)

    def __iadd__(self, o):
        self[:] = self + o
        return self

    def __isub__(self, o):
        self[:] = self - o
        return self

    def __imul__(self, o):
        self[:] = self * o
        return self

    def __itruediv__(self, o):
        self[:] = self / o
        return self

    def map(self, g):
        f = self.f
        return FArr(self.n, lambda k: g(num(f(k))))

    @property
    def real(self):
        return self.map(lambda v: v.real if isinstance(v, SComplex) else v)

    @property
    def imag(self):
        return self.map(lambda v: v.imag if isinstance(v, SComplex)
                        else lift(0))

    # comparisons give element-wise conditions
    def _cmp(self, o, op):
        return self._bin(o, op)

    def __lt__(self, o):
        return self._cmp(o, X.lt)

    def __le__(self, o):
        return self._cmp(o, X.le)

    def __gt__(self, o):
        return self._cmp(o, X.gt)

    def __ge__(self, o):
        return self._cmp(o, X.ge)

    __hash__ = object.__hash__


def fun(v, n):
    if isinstance(v, FArr):
        return v.f
    if isinstance(v, (_np.ndarray, list, tuple)) or \
            getattr(v, '_is_parray', False):
        raise Unsupported('assignment of this array')
    v = num(v)
    return lambda k: v


class FArr2:
    """a[i, j] = f(i, j)"""
    _is_parray = True
    _is_farr = True
    _sym_shape = True
    __array_priority__ = 4001
    ndim = 2

    def __init__(self, n, m, f, name='array', frozen=False):
        self.n, self.m, self.f = lift(n), lift(m), f
        self.name, self.frozen = name, frozen

    @property
    def shape(self):
        return (self.n, self.m)

    @property
    def size(self):
        return self.n * self.m

    def at(self, i, j):
        return num(self.f(lift(i), lift(j)))

    @staticmethod
    def _full(s):
        return isinstance(s, slice) and s.start is None and \
            s.stop is None and s.step is None

    def __getitem__(self, i):
        if not isinstance(i, tuple):
            i = (i, slice(None))
        a, b = i
        f = self.f
        if isinstance(a, slice) and isinstance(b, slice):
            la, na, sa = FArr._slice(FArr(self.n, None), a)
            lb, nb, sb = FArr._slice(FArr(self.m, None), b)
            return View2(self, la, na, sa, lb, nb, sb)
        if isinstance(b, slice):
            return RowView(self, idx(a, self.n, self.name), 0)[b]
        if isinstance(a, slice):
            return RowView(self, idx(b, self.m, self.name), 1)[a]
        return self.at(idx(a, self.n, self.name), idx(b, self.m, self.name))

    def __setitem__(self, i, v):
        if self.frozen:
            X.ctx().frame_viol(self.name)
        if not isinstance(i, tuple):
            i = (i, slice(None))
        a, b = i
        f = self.f
        if isinstance(a, slice):
            la, na, sa = FArr._slice(FArr(self.n, None), a)
            if sa != 1:
                raise Unsupported('write to reversed slice')

            def ina(p):
                if self._full(a):
                    return X.boolc(True)
                return X.and_(p >= la, p < la + na)
        else:
            la = idx(a, self.n, self.name)

            def ina(p):
                return X.boolc(True) if X.same(p, la) else X.eq(p, la)
        if isinstance(b, slice):
            lb, nb, sb = FArr._slice(FArr(self.m, None), b)
            if sb != 1:
                raise Unsupported('write to reversed slice')

            def inb(q):
                if self._full(b):
                    return X.boolc(True)
                return X.and_(q >= lb, q < lb + nb)
        else:
            lb = idx(b, self.m, self.name)

            def inb(q):
                return X.boolc(True) if X.same(q, lb) else X.eq(q, lb)
        if isinstance(v, FArr2):
            g = v.f
            h = lambda p, q: g(p - la, q - lb)
        elif isinstance(v, FArr):
            g = v.f
            h = (lambda p, q: g(p - la)) if isinstance(a, slice) and \
                not isinstance(b, slice) else (lambda p, q: g(q - lb))
        elif isinstance(v, (_np.ndarray, list, tuple)) or \
                getattr(v, '_is_parray', False):
            raise Unsupported('assignment of this array')
        else:
            v = num(v)
            h = lambda p, q: v
        def new(p, q):
            k = X._tb(X.and_(ina(p), inb(q)))
            t = X.ctx()
            if k.op == 'const' or t is not None and t.data.get('split'):
                return num(h(p, q)) if bool(k) else num(f(p, q))
            return ite(k, num(h(p, q)), num(f(p, q)))
        self.f = new

    def __len__(self):
        raise Unsupported('len')

    def __iter__(self):
        raise Unsupported('iteration over an array of symbolic length')

    def copy(self):
        return FArr2(self.n, self.m, self.f, self.name)

    def zeros_like(self):
        return FArr2(self.n, self.m, lambda p, q: lift(0), self.name)

    def _bin(self, o, op):
        f = self.f
        if isinstance(o, FArr2):
            g = o.f
            return FArr2(self.n, self.m,
                         lambda p, q: op(num(f(p, q)), num(g(p, q))))
        if isinstance(o, FArr):
            g = o.f
            return FArr2(self.n, self.m,
                         lambda p, q: op(num(f(p, q)), num(g(q))))
        if isinstance(o, (_np.ndarray, list, tuple)) or \
                getattr(o, '_is_parray', False):
            return NotImplemented
        o = num(o)
        return FArr2(self.n, self.m, lambda p, q: op(num(f(p, q)), o))

    __add__, __radd__ = FArr.__add__, FArr.__radd__
    __sub__, __rsub__ = FArr.__sub__, FArr.__rsub__
    __mul__, __rmul__ = FArr.__mul__, FArr.__rmul__
    __truediv__, __rtruediv__ = FArr.__truediv__, FArr.__rtruediv__
    __pow__, __neg__ = FArr.__pow__, FArr.__neg__

    def __iadd__(self, o):
        r = self + o
        if self.frozen:
            X.ctx().frame_viol(self.name)
        self.f = r.f
        return self

    def __isub__(self, o):
        r = self - o
        if self.frozen:
            X.ctx().frame_viol(self.name)
        self.f = r.f
        return self

    def __imul__(self, o):
        r = self * o
        if self.frozen:
            X.ctx().frame_viol(self.name)
        self.f = r.f
        return self

    def __itruediv__(self, o):
        r = self / o
        if self.frozen:
            X.ctx().frame_viol(self.name)
        self.f = r.f
        return self

    def map(self, g):
        f = self.f
        return FArr2(self.n, self.m, lambda p, q: g(num(f(p, q))))

    real = FArr.real
    imag = FArr.imag
    __hash__ = object.__hash__


class View1(FArr):
    """slice of a one-dimensional array: reads see the array at the time of
    the operation, writes go to the array"""

    def __init__(self, base, lo, n, st):
        self.base, self.lo, self.st, self.n = base, lo, st, lift(n)
        self.name = base.name

    frozen = property(lambda s: s.base.frozen)

    @property
    def f(self):
        g, lo, st = self.base.f, self.lo, self.st
        return lambda k: g(lo + k * st)

    @f.setter
    def f(self, h):
        if self.st != 1:
            raise Unsupported('write to reversed slice')
        self.base[self.lo:self.lo + self.n] = FArr(self.n, h, self.name)


class RowView(FArr):
    """row (ax 0) or column (ax 1) of a two-dimensional array"""

    def __init__(self, base, r, ax):
        self.base, self.r, self.ax = base, r, ax
        self.n = base.m if ax == 0 else base.n
        self.name = base.name

    frozen = property(lambda s: s.base.frozen)

    @property
    def f(self):
        g, r = self.base.f, self.r
        return (lambda k: g(r, k)) if self.ax == 0 else (lambda k: g(k, r))

    @f.setter
    def f(self, h):
        v = FArr(self.n, h, self.name)
        if self.ax == 0:
            self.base[self.r, :] = v
        else:
            self.base[:, self.r] = v


class View2(FArr2):
    def __init__(self, base, la, na, sa, lb, nb, sb):
        self.base, self.o = base, (la, sa, lb, sb)
        self.n, self.m, self.name = lift(na), lift(nb), base.name

    frozen = property(lambda s: s.base.frozen)

    @property
    def f(self):
        g, (la, sa, lb, sb) = self.base.f, self.o
        return lambda p, q: g(la + p * sa, lb + q * sb)

    @f.setter
    def f(self, h):
        la, sa, lb, sb = self.o
        if sa != 1 or sb != 1:
            raise Unsupported('write to reversed slice')
        self.base[la:la + self.n, lb:lb + self.m] = FArr2(
            self.n, self.m, h, self.name)


class Stack:
    """np.array([row, row, ...])"""
    _is_parray = True
    __array_priority__ = 4002

    def __init__(self, rows):
        self.rows = list(rows)

    def __len__(self):
        return len(self.rows)

    def __iter__(self):
        return iter(self.rows)

    def __getitem__(self, i):
        if isinstance(i, tuple):
            return self.rows[i[0]][i[1:] if len(i) > 2 else i[1]]
        if isinstance(i, slice):
            return Stack(self.rows[i])
        return self.rows[i]

    def _op(self, o, op):
        if isinstance(o, Stack):
            return Stack([op(a, b) for a, b in zip(self.rows, o.rows)])
        return Stack([op(a, o) for a in self.rows])

    def __add__(self, o):
        return self._op(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._op(o, lambda a, b: a - b)

    def __mul__(self, o):
        return self._op(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._op(o, lambda a, b: a / b)

    def __neg__(self):
        return Stack([-a for a in self.rows])
    __hash__ = object.__hash__


def _maybe(c):
    c = X._tb(c)
    return not (c.op == 'const' and not c.val)


class SArr(FArr):
    """Array filled by single assignment: a read at an index that was not
    written yields the unknown value name(index)."""

    at_rep = None

    def __init__(self, n, name, cplx=False):
        FArr.__init__(self, n, None, name)
        self.w = []
        self.cplx = cplx
        self.f = self._get

    def _get(self, k):
        k = lift(k)
        if k.sort != 'Int':
            k = X.asint(X.norm(k))
        for j, v in self.w:
            if X.same(j, k):
                return v
        if SArr.at_rep is not None:
            # must belong to an earlier iteration: checked after the loop
            SArr.at_rep['reads'].append((self, k))
        return X.uf('V_' + self.name, X.norm(k))

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported('slice write')
        j = idx(i, self.n, self.name)
        for k, _ in self.w:
            if X.same(k, j):
                raise Unsupported('element of %s assigned twice' % self.name)
        self.w.append((j, num(v)))
        if SArr.at_rep is not None:
            SArr.at_rep['writes'].append((self, j))


class Reps:
    """Loop rule: executes the body for representative indices that lie in
    the range of the loop, in the order of the loop.  Locals assigned in the
    body may not carry values between iterations.  With `nth`, the
    representatives are iteration numbers instead of loop indices."""
    sym = True

    def __init__(self, reps, nth=False):
        self.reps, self.nth = reps, nth

    def __call__(self, key, it, names, tgt):
        self.key, self.it, self.names = key, it, names
        return self

    def enter(self, loc):
        return tuple(T.Poison(n) for n in self.names)

    leave = enter

    def __iter__(self):
        it = self.it
        st = X.const_of(lift(it.step))
        if st not in (1, -1):
            raise Unsupported('loop step in ' + self.key)
        for r in (self.reps if st == 1 or self.nth
                  else list(self.reps)[::-1]):
            lo, hi = lift(it.lo), lift(it.hi)
            if self.nth:
                r = lo + r * st
            c = X.and_(r >= lo, r < hi) if st == 1 else X.and_(
                r <= lo, r > hi)
            if bool(c):
                cur = SArr.at_rep = {'reads': [], 'writes': []}
                try:
                    yield r
                finally:
                    SArr.at_rep = None
                for arr, k in cur['reads']:
                    for ar2, w in cur['writes']:
                        if arr is ar2:
                            d = X.const_of(X.norm((k - w) * st))
                            if d is None or d >= 0:
                                raise Unsupported(
                                    'read of %s ahead of its assignment' %
                                    arr.name)


class Fold:
    """Loop rule for loops with accumulators: the body is executed for
    representative iterations; a local carried between iterations has, at
    the head of iteration k, the value name(k) of an uninterpreted function
    (its initial value in the first iteration).  `known` maps (loop, local)
    to the prefix sum (sum, increment) it is claimed to be: the loop
    invariant local = sum(k), established on entry (sum(lo) = 0) and
    preserved by every representative iteration.  Without `known`, the
    increments are recorded in `found`."""
    sym = True

    def __init__(self, reps, known=None, on_break=None):
        self.reps, self.known, self.found = reps, known or {}, {}
        self.on_break = on_break

    def __call__(self, key, it, names, tgt):
        o = Fold.__new__(Fold)
        o.__dict__.update(self.__dict__)
        o.key, o.it, o.names, o.cur, o.prev = key, it, names, None, None
        if X.const_of(lift(it.step)) != 1:
            raise Unsupported('loop step in ' + key)
        return o

    def val(self, n, r):
        if X.same(r, lift(self.it.lo)):
            return self.init[n]
        k = self.known.get((self.key, n))
        if k == 'const':
            return self.init[n]
        if k is not None:
            return k[0](r)
        return X.uf('acc:%s:%s' % (self.key, n), r)

    def enter(self, loc):
        self.init = {}
        for n in self.names:
            v = loc.get(n)
            if isinstance(v, (int, float, E, Fraction)) and \
                    not isinstance(v, bool):
                self.init[n] = lift(v)
        return tuple(loc.get(n, None) if n in self.init
                     else T.Poison(n) for n in self.names)

    def head(self, loc):
        self.close(loc)
        p, self.cur = self.prev, self.r
        self.prev = self.r
        if p is not None and X.same(p + 1, self.r):
            return tuple(loc[n] for n in self.names)
        return tuple(self.val(n, self.r) if n in self.init
                     else T.Poison(n) for n in self.names)

    def close(self, loc):
        """end of a representative iteration"""
        r, self.cur = self.cur, None
        if r is None:
            return
        c = X.ctx()
        for n, v0 in self.init.items():
            v = loc.get(n)
            if not isinstance(v, (E, int, float, Fraction)):
                continue
            k = self.known.get((self.key, n))
            if k == 'const':
                c.prove_eq('invariant preserved: %s unchanged' % n, lift(v),
                           v0)
            elif k is not None:
                if X.same(r, lift(self.it.lo)):
                    c.prove_eq('invariant on entry: %s' % n, v0,
                               k[0](lift(self.it.lo)))
                c.prove_eq('invariant preserved: %s' % n, lift(v),
                           k[0](r) + k[1](r))
            elif not X.same(r, lift(self.it.lo)):
                self.found.setdefault((self.key, n), []).append(
                    (r, lift(v) - self.val(n, r), v0))

    def leave(self, loc):
        self.close(loc)
        if not self.done:
            if self.on_break is not None:
                self.on_break(self.key)
            raise Unsupported('break in loop ' + self.key)
        if not self.complete:
            return tuple(T.Poison(n) for n in self.names)
        return tuple(loc[n] for n in self.names)

    def __iter__(self):
        it = self.it
        self.done, last = False, None
        lo, hi = lift(it.lo), lift(it.hi)
        for r in self.reps(self):
            if bool(X.and_(r >= lo, r < hi)):
                self.r = last = r
                yield r
        self.complete = last is not None and X.same(last, hi - 1)
        self.done = True


def shim(m):
    """numpy functions on these arrays"""
    def wrap(name, g):
        old = getattr(m, name)

        def f(x, *a, **k):
            if isinstance(x, (FArr, FArr2)):
                return x.map(g)
            return old(x, *a, **k)
        setattr(m, name, f)
    for n in ('sqrt', 'exp', 'sin', 'cos', 'sinh', 'cosh'):
        wrap(n, getattr(X, n))
    wrap('log', lambda v: X.uf('log', v))
    wrap('abs', abs)
    wrap('absolute', abs)
    wrap('square', lambda v: v * v)
    wrap('conjugate', lambda v: v.conjugate() if isinstance(v, SComplex)
         else v)
    wrap('conj', lambda v: v.conjugate() if isinstance(v, SComplex) else v)
    wrap('real', lambda v: v.real if isinstance(v, SComplex) else v)
    wrap('imag', lambda v: v.imag if isinstance(v, SComplex) else lift(0))
    wrap('angle', lambda v: X.uf('atan2', X.tocomplex(v).im,
                                 X.tocomplex(v).re))


shim(T.np_shim)


def _meshgrid(a, b, indexing='xy', **k):
    if not isinstance(a, FArr) or not isinstance(b, FArr):
        return _np.meshgrid(a, b, indexing=indexing, **k)
    f, g = a.f, b.f
    if indexing == 'ij':
        return [FArr2(a.n, b.n, lambda p, q: f(p)),
                FArr2(a.n, b.n, lambda p, q: g(q))]
    return [FArr2(b.n, a.n, lambda p, q: f(q)),
            FArr2(b.n, a.n, lambda p, q: g(p))]


T.np_shim.meshgrid = _meshgrid


def _wrapnp(name, g):
    old = getattr(T.np_shim, name)

    def f(x, *a, **k):
        y = x[0] if isinstance(x, (tuple, list)) and len(x) else x
        if isinstance(y, (FArr, FArr2)):
            return g(x, *a, **k)
        return old(x, *a, **k)
    setattr(T.np_shim, name, f)


def _cumsum(x, axis=None):
    """prefix sums: an unknown function S of the indices, named by the
    element function (S(j) = S(j-1) + x(j) is a fact of the contract)"""
    if isinstance(x, FArr):
        g = x.at(X.var('cs_i', 'Int'))
        return FArr(x.n, lambda i: X.uf('cumsum1', X.norm(lift(g)), i))
    g = X.norm(x.at(X.var('cs_i', 'Int'), X.var('cs_j', 'Int')))
    if axis not in (1, -1):
        raise Unsupported('cumsum axis')
    return FArr2(x.n, x.m, lambda i, j: X.uf('cumsum2', g, i, j))


def _concat(xs, axis=0):
    if len(xs) != 2 or not all(isinstance(v, FArr2) for v in xs) or \
            axis not in (1, -1):
        raise Unsupported('concatenate')
    f, g = xs[0].f, xs[1].f
    m = xs[0].m
    return FArr2(xs[0].n, m + xs[1].m,
                 lambda p, q: ite(q < m, num(f(p, q)), num(g(p, q - m))))


def _grad1(f, n, h, order):
    """numpy.gradient along one axis: f(k), 0 <= k < n"""
    def d(k):
        mid = T.xdiv(f(k + 1) - f(k - 1), 2 * h)
        if order == 1:
            lo = T.xdiv(f(lift(1)) - f(lift(0)), h)
            hi = T.xdiv(f(n - 1) - f(n - 2), h)
        else:
            lo = T.xdiv(4 * f(lift(1)) - 3 * f(lift(0)) - f(lift(2)), 2 * h)
            hi = T.xdiv(3 * f(n - 1) - 4 * f(n - 2) + f(n - 3), 2 * h)
        return ite(X.eq(k, lift(0)), lo, ite(X.eq(k, lift(n - 1)), hi, mid))
    return d


def _gradient(x, *h, axis=None, edge_order=1):
    if edge_order not in (1, 2) or any(
            isinstance(v, (FArr, FArr2, _np.ndarray)) for v in h):
        raise Unsupported('gradient')
    f = x.f
    if isinstance(x, FArr):
        d = _grad1(f, x.n, h[0] if h else lift(1), edge_order)
        return FArr(x.n, lambda k: d(lift(k)))

    def ax(k, h):
        if k == 0:
            return FArr2(x.n, x.m, lambda p, q: _grad1(
                lambda i: f(i, q), x.n, h, edge_order)(p))
        return FArr2(x.n, x.m, lambda p, q: _grad1(
            lambda j: f(p, j), x.m, h, edge_order)(q))
    h = list(h) or [lift(1)]
    if axis is not None:
        return ax(axis % 2, h[0])
    if len(h) == 1:
        h = h * 2
    return [ax(0, h[0]), ax(1, h[1])]


_wrapnp('array', lambda x, *a, **k: x.copy() if isinstance(
    x, (FArr, FArr2)) else Stack(x))
_wrapnp('cumsum', _cumsum)
_wrapnp('concatenate', _concat)
_wrapnp('gradient', _gradient)


def alloc(ctx, single=()):
    """np.zeros/empty/ones and arange of symbolic length give FArr/FArr2"""
    k = [0]

    def hook(shape, fill, dtype):
        sh = shape if isinstance(shape, (tuple, list)) else (shape,)
        k[0] += 1
        nm = 'new%d' % k[0]
        if len(sh) == 1:
            if fill is None:
                return FArr(sh[0], lambda i: X.uf('uninit_' + nm, i), nm)
            return FArr(sh[0], lambda i: lift(fill), nm)
        if len(sh) == 2:
            if fill is None:
                return FArr2(sh[0], sh[1], lambda i, j: X.uf(
                    'uninit_' + nm, i, j), nm)
            return FArr2(sh[0], sh[1], lambda i, j: lift(fill), nm)
        return None
    ctx.data['alloc'] = hook

    def arange(*a):
        if len(a) == 1:
            o = FArr(a[0], lambda i: i, 'arange')
        elif len(a) == 2:
            lo = lift(a[0])
            o = FArr(lift(a[1]) - lo, lambda i: lo + i, 'arange')
        if len(a) < 3:
            o.rng = T.SRange(0 if len(a) == 1 else a[0], a[-1], 1)
            return o
        raise Unsupported('arange step')
    ctx.data['arange'] = arange

    def linspace(lo, hi, n):
        n = lift(n)
        if bool(X.eq(n, lift(1))):
            return FArr(n, lambda i: lo, 'linspace')
        return FArr(n, lambda i: lo + T.xdiv(hi - lo, n - 1) * i, 'linspace')
    ctx.data['linspace'] = linspace
