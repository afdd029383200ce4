"""1D arrays of symbolic length, given by an element function of the index."""
from fractions import Fraction
from . import expr as X
from .expr import E, Unsupported, lift
from . import twin as T


class SymVec:
    _is_parray = True
    _sym_shape = True
    __array_priority__ = 2500
    ndim = 1

    def __init__(self, n, f, name=None, frozen=False):
        self.n, self.f, self.name, self.frozen = lift(n), f, name, frozen

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def at(self, i):
        return self.f(lift(i))

    def _norm(self, i):
        if isinstance(i, int):
            return lift(i) if i >= 0 else self.n + i
        if isinstance(i, E):
            k = X.const_of(i)
            if k is not None and k < 0:
                return self.n + i
            if i.sort != 'Int':
                i = X.asint(X.norm(i))
            return i
        raise Unsupported('SymVec index')

    def bound(self, i):
        c = X.ctx()
        if c is not None and not c.quiet:
            c.prove('safety: %s index within array' % (self.name or 'array'),
                    X.and_(X.ge(i, lift(0)), X.lt(i, self.n)))

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if isinstance(i, slice):
            lo, n = self._slice(i)
            f = self.f
            return SymVec(n, lambda k: f(k + lo), self.name)
        i = self._norm(i)
        self.bound(i)
        return self.f(i)

    def _slice(self, s):
        if s.step not in (None, 1):
            raise Unsupported('strided slice')
        lo = lift(0) if s.start is None else self._norm(s.start)
        hi = self.n if s.stop is None else self._norm(s.stop)
        return lo, hi - lo

    def __setitem__(self, i, v):
        if self.frozen:
            X.ctx().frame_viol(self.name)
        old = self.f
        if isinstance(i, slice):
            lo, n = self._slice(i)
            g = v.f if isinstance(v, SymVec) else (lambda k: lift(v))
            if isinstance(v, SymVec):
                c = X.ctx()
                c.prove('safety: assigned slice has matching length',
                        X.eq(lift(v.n), lift(n)))
            self.f = lambda k: _ite(
                X.and_(X.le(lo, k), X.lt(k, lo + n)), lambda: g(k - lo),
                lambda: old(k))
            return
        i = self._norm(i)
        self.bound(i)
        v = T.lift2(v)
        self.f = lambda k: _ite(X.eq(k, i), lambda: v, lambda: old(k))

    def _b(self, o, g):
        f = self.f
        if isinstance(o, SymVec):
            h = o.f
            if not X.same(self.n, o.n):
                X.ctx().prove('safety: equal array lengths',
                              X.eq(self.n, o.n))
            return SymVec(self.n, lambda k: g(f(k), h(k)))
        if not X.isnum(o):
            return NotImplemented
        return SymVec(self.n, lambda k: g(f(k), o))

    def __add__(s, o): return s._b(o, lambda a, b: a + b)
    def __radd__(s, o): return s._b(o, lambda a, b: b + a)
    def __sub__(s, o): return s._b(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._b(o, lambda a, b: b - a)
    def __mul__(s, o): return s._b(o, lambda a, b: a * b)
    def __rmul__(s, o): return s._b(o, lambda a, b: b * a)
    def __truediv__(s, o): return s._b(o, T.xdiv)
    def __rtruediv__(s, o): return s._b(o, lambda a, b: T.xdiv(b, a))
    def __pow__(s, o): return s._b(o, T.xpow)
    def __neg__(s): return SymVec(s.n, lambda k: -s.f(k))

    def copy(self):
        return SymVec(self.n, self.f)

    def __len__(self):
        raise Unsupported('len')

    def __iter__(self):
        raise Unsupported('iterate')

    def cumsum(self):
        """Inclusive prefix sum; exact closed form when the element is a
        polynomial of degree <= 2 in the index, else uninterpreted."""
        k = X.var('cs!k', 'Int')
        e = X.norm(self.f(k))
        r = X.rat(e)
        a = X.atom(k)
        if r[1] == ():
            byd = {}
            ok = True
            for m, c in r[0].items():
                d = dict(m)
                p = d.pop(a, 0)
                if p > 2:
                    ok = False
                rest = tuple(sorted(d.items()))
                byd.setdefault(p, {})[rest] = c
            if ok:
                def f(i):
                    i = lift(i)
                    s = {0: i + 1, 1: T.xdiv(i * (i + 1), 2),
                         2: T.xdiv(i * (i + 1) * (2 * i + 1), 6)}
                    t = lift(0)
                    for p, co in byd.items():
                        t = t + X.from_poly(co) * s[p]
                    return t
                return SymVec(self.n, f)
        nm = 'cumsum!%d' % X.atom(e)
        return SymVec(self.n, lambda i: X.uf(nm, i))


def _ite(c, a, b):
    if c.op == 'const':
        return a() if c.val else b()
    return X.ite(c, a(), b())


def alloc(shape, fill, dtype):
    if isinstance(shape, (tuple, list)):
        if len(shape) != 1:
            return None
        shape = shape[0]
    c = X.ctx()
    k = c.data.setdefault('alloc_n', [0])
    k[0] += 1
    if fill is None:
        nm = 'uninit%d' % k[0]
        return SymVec(shape, lambda i: X.uf(nm, i), nm)
    return SymVec(shape, lambda i: lift(fill), 'alloc%d' % k[0])


def arange(*a):
    if len(a) == 1:
        return SymVec(a[0], lambda i: i, 'arange')
    if len(a) == 2:
        lo = lift(a[0])
        return SymVec(lift(a[1]) - lo, lambda i: i + lo, 'arange')
    raise Unsupported('arange step')


def linspace(a, b, n):
    step = T.xdiv(b - a, n - 1)
    return SymVec(n, lambda i: a + step * i, 'linspace')


def install(c):
    c.data['linspace'] = linspace
    c.data['alloc'] = alloc
    c.data['arange'] = arange
