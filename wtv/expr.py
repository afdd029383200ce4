"""Exact symbolic expressions used by the verification-condition generator.

Real values are treated as mathematical reals (Python ints as mathematical
integers).  Expressions are immutable DAG nodes.  A real expression has a
rational normal form  num / prod(den_i**p_i)  over *atoms* (variables and
uninterpreted / transcendental applications); the normal form is what decides
algebraic identities, and what is sent to the SMT solver for comparisons.
"""
from fractions import Fraction
import math

F0, F1 = Fraction(0), Fraction(1)


class Unsupported(Exception):
    """The code left the subset this verifier can interpret."""


class PathAbort(Exception):
    """The current symbolic path ends here (not an error)."""


# --------------------------------------------------------------------------
# context hook (set by engine.Explorer)
# --------------------------------------------------------------------------
class _Ctx:
    cur = None


def ctx():
    return _Ctx.cur


# --------------------------------------------------------------------------
# atoms
# --------------------------------------------------------------------------
class AtomTable:
    def __init__(self):
        self.atoms = []          # E nodes
        self.byid = {}
        self.sq = {}             # atom index -> E  (atom**2 rewrites to E)
        self.positive = set()    # atom indices known > 0
        self.nonneg = set()
        self.unit = set()        # atom indices known in (0, 1)
        self.apps = {}           # (name) -> list of (args, atom index)

    def add(self, e):
        i = len(self.atoms)
        self.atoms.append(e)
        return i


TAB = AtomTable()


def reset():
    global TAB
    TAB = AtomTable()
    E._cons = {}


# --------------------------------------------------------------------------
# polynomials: dict  monomial -> Fraction,   monomial = tuple((atom, exp),...)
# --------------------------------------------------------------------------
LIMIT = 60000


class TooBig(Exception):
    pass


def p_const(c):
    return {(): c} if c else {}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            r.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_scale(a, c):
    if not c:
        return {}
    if c == 1:
        return a
    return {m: v * c for m, v in a.items()}


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > LIMIT * 20:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    r = {m: c for m, c in r.items() if c}
    if len(r) > LIMIT:
        raise TooBig()
    return p_reduce(r)


def p_pow(a, n):
    r = {(): F1}
    while n:
        if n & 1:
            r = p_mul(r, a)
        n >>= 1
        if n:
            a = p_mul(a, a)
    return r


def p_reduce(p):
    """Apply atom**2 -> poly rules (only polynomial rules are applied here)."""
    sq = TAB.sq
    if not sq:
        return p
    todo = None
    for m in p:
        for a, e in m:
            if e >= 2 and a in sq and sq[a][1] == ():
                todo = True
                break
        if todo:
            break
    if not todo:
        return p
    out = {}
    for m, c in p.items():
        hit = None
        for k, (a, e) in enumerate(m):
            if e >= 2 and a in sq and sq[a][1] == ():
                hit = k
                break
        if hit is None:
            out = p_add(out, {m: c})
            continue
        a, e = m[hit]
        rest = m[:hit] + (((a, e % 2),) if e % 2 else ()) + m[hit + 1:]
        t = p_mul({rest: c}, p_pow(sq[a][0], e // 2))
        out = p_add(out, t)
    return p_reduce(out)


def p_key(p):
    return tuple(sorted(p.items()))


def m_order(m):
    # graded-lex-ish order key (total order compatible with multiplication:
    # pure lex on atoms with exponents)
    return m


def _lead(p):
    # lex leading monomial by (atom small first, larger exp greater)
    best = None
    for m in p:
        if best is None or _lexgt(m, best):
            best = m
    return best


def _lexgt(a, b):
    i = 0
    while True:
        if i >= len(a):
            return False
        if i >= len(b):
            return True
        if a[i][0] != b[i][0]:
            return a[i][0] < b[i][0]
        if a[i][1] != b[i][1]:
            return a[i][1] > b[i][1]
        i += 1


def m_div(a, b):
    d = dict(a)
    for x, e in b:
        v = d.get(x, 0) - e
        if v < 0:
            return None
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return tuple(sorted(d.items()))


def p_divexact(a, b, maxsteps=3000):
    """Exact multivariate division a / b or None (no sq rules assumed)."""
    if not a:
        return {}
    lb = _lead(b)
    cb = b[lb]
    q = {}
    a = dict(a)
    steps = 0
    while a:
        steps += 1
        if steps > maxsteps:
            return None
        la = _lead(a)
        m = m_div(la, lb)
        if m is None:
            return None
        c = a[la] / cb
        q[m] = c
        for mb, v in b.items():
            mm = m_mul(m, mb)
            w = a.get(mm, F0) - c * v
            if w:
                a[mm] = w
            else:
                a.pop(mm, None)
    return q


def p_content(p):
    """Common monomial of all terms."""
    it = iter(p)
    m = next(it, ())
    com = dict(m)
    for m in it:
        if not com:
            break
        d = dict(m)
        for a in list(com):
            e = min(com[a], d.get(a, 0))
            if e:
                com[a] = e
            else:
                del com[a]
    return tuple(sorted(com.items()))


# --------------------------------------------------------------------------
# rational forms: (num poly, den) ; den = tuple of (factor_key, power),
# factor_key = p_key of a monic polynomial
# --------------------------------------------------------------------------
def r_const(c):
    return (p_const(c), ())


def den_poly(den):
    r = {(): F1}
    for k, p in den:
        r = p_mul(r, p_pow(dict(k), p))
    return r


def _den_merge(d1, d2):
    if d1 == d2:
        return d1, {(): F1}, {(): F1}
    a, b = dict(d1), dict(d2)
    m1, m2 = {(): F1}, {(): F1}
    out = dict(a)
    for k, p in b.items():
        out[k] = max(p, a.get(k, 0))
    for k, p in out.items():
        x = p - a.get(k, 0)
        if x:
            m1 = p_mul(m1, p_pow(dict(k), x))
        x = p - b.get(k, 0)
        if x:
            m2 = p_mul(m2, p_pow(dict(k), x))
    return tuple(sorted(out.items())), m1, m2


def r_simpl(n, d):
    if not n:
        return ({}, ())
    if not d:
        return (n, ())
    out = []
    for k, p in d:
        fp = dict(k)
        while p:
            if len(fp) == 1:
                # atom
                (m, c), = fp.items()
                q = {}
                ok = True
                for mm, cc in n.items():
                    x = m_div(mm, m)
                    if x is None:
                        ok = False
                        break
                    q[x] = cc / c
                if not ok:
                    break
                n = q
            else:
                if len(n) > 400 or len(fp) > 60:
                    break
                q = p_divexact(n, fp)
                if q is None:
                    break
                n = q
            p -= 1
        if p:
            out.append((k, p))
    return (n, tuple(out))


def r_add(a, b):
    if not a[0]:
        return b
    if not b[0]:
        return a
    d, m1, m2 = _den_merge(a[1], b[1])
    n = p_add(p_mul(a[0], m1), p_mul(b[0], m2))
    return r_simpl(n, d)


def r_mul(a, b):
    if not a[0] or not b[0]:
        return ({}, ())
    dd = dict(a[1])
    for k, p in b[1]:
        dd[k] = dd.get(k, 0) + p
    n = p_mul(a[0], b[0])
    return r_fixsq(r_simpl(n, tuple(sorted(dd.items()))))


def r_fixsq(r):
    """Apply rational square rules left in the numerator."""
    sq = TAB.sq
    n, d = r
    bad = False
    for m in n:
        for a, e in m:
            if e >= 2 and a in sq:
                bad = True
                break
        if bad:
            break
    if not bad:
        return r
    out = ({}, ())
    for m, c in n.items():
        t = (p_const(c), ())
        mm = []
        for a, e in m:
            if e >= 2 and a in sq:
                for _ in range(e // 2):
                    t = _r_mul_raw(t, sq[a])
                if e % 2:
                    mm.append((a, 1))
            else:
                mm.append((a, e))
        t = _r_mul_raw(t, ({tuple(mm): F1}, ()))
        out = r_add(out, t)
    if d:
        out = _r_mul_raw(out, ({(): F1}, d))
    return out


def _r_mul_raw(a, b):
    if not a[0] or not b[0]:
        return ({}, ())
    dd = dict(a[1])
    for k, p in b[1]:
        dd[k] = dd.get(k, 0) + p
    return r_simpl(p_mul(a[0], b[0]), tuple(sorted(dd.items())))


def r_inv(a):
    n, d = a
    if not n:
        raise ZeroDivisionError("division by symbolic zero")
    num = den_poly(d)
    # factor n: monomial content * rest
    c = p_content(n)
    rest = {m_div(m, c): v for m, v in n.items()} if c else n
    den = {}
    extra = ({(): F1}, ())
    for at, e in c:
        if at in TAB.sq:
            # 1/s**e = s**e / (s*s)**e
            extra = r_mul(extra, ({((at, e),): F1}, ()))
            inv = r_inv(TAB.sq[at])
            for _ in range(e):
                extra = r_mul(extra, inv)
        else:
            k = p_key({((at, 1),): F1})
            den[k] = den.get(k, 0) + e
    if len(rest) == 1 and () in rest:
        num = p_scale(num, 1 / rest[()])
    else:
        # rationalise  (u + v*s) with a single sqrt atom if simple
        lc = rest[_lead(rest)]
        num = p_scale(num, 1 / lc)
        rest = p_scale(rest, 1 / lc)
        k = p_key(rest)
        den[k] = den.get(k, 0) + 1
    r = r_simpl(num, tuple(sorted(den.items())))
    return r_mul(r, extra)


def r_neg(a):
    return (p_scale(a[0], Fraction(-1)), a[1])


# --------------------------------------------------------------------------
# expressions
# --------------------------------------------------------------------------
def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported("non-finite float constant")
        return Fraction(repr(x))
    raise TypeError(x)


def lift(x):
    """Python/numpy scalar or E -> E (or SComplex)."""
    if isinstance(x, (E, SComplex)):
        return x
    if isinstance(x, (bool, int)):
        return const(Fraction(int(x)), 'Int')
    if isinstance(x, Fraction):
        return const(x)
    if isinstance(x, float):
        return const(frac(x))
    if isinstance(x, complex):
        return SComplex(const(frac(x.real)), const(frac(x.imag)))
    t = type(x).__name__
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        return lift(x.item())
    raise Unsupported("cannot lift %s" % t)


def isnum(x):
    return isinstance(x, (E, SComplex, int, float, Fraction, complex)) or (
        hasattr(x, 'dtype') and getattr(x, 'shape', None) == ()
        and not hasattr(x, '_is_parray'))


class E:
    __slots__ = ('op', 'args', 'sort', '_rat', '_hash', 'nid')
    _cons = {}
    _next = 0
    __array_priority__ = 1000

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __new__(cls, op, args, sort):
        # children are keyed by identity number: E.__eq__ is symbolic and must
        # never be called by a dict lookup
        key = (op, tuple([('#', a.nid) if isinstance(a, E) else a
                          for a in args]), sort)
        r = E._cons.get(key)
        if r is not None:
            return r
        self = object.__new__(cls)
        self.op, self.args, self.sort = op, args, sort
        self._rat = None
        self._hash = hash(E._next)
        E._next += 1
        self.nid = E._next
        E._cons[key] = self
        return self

    def __hash__(self):
        return self._hash

    # -- construction helpers
    @property
    def isconst(self):
        return self.op == 'const'

    @property
    def val(self):
        return self.args[0]

    def __repr__(self):
        return show(self)

    # numpy-like attributes, so that code treating scalars as 0-d works
    @property
    def real(self):
        return self

    @property
    def imag(self):
        return const(F0)

    def conjugate(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    # -- arithmetic
    def _bin(self, o, f, g=None):
        if isinstance(o, E):
            return f(self, o)
        if isinstance(o, SComplex) or getattr(o, '_is_parray', False):
            return NotImplemented
        if hasattr(o, 'shape') and getattr(o, 'shape') != ():
            if g is not None:
                return _on_array(o, g)
            return NotImplemented
        try:
            o = lift(o)
        except Unsupported:
            return NotImplemented
        if isinstance(o, SComplex):
            return NotImplemented
        return f(self, o)

    def __add__(self, o):
        if isinstance(o, complex):
            return SComplex(self, const(F0)) + o
        return self._bin(o, add, lambda v: self + v)

    def __radd__(self, o):
        if isinstance(o, complex):
            return o + SComplex(self, const(F0))
        return self._bin(o, lambda a, b: add(b, a),
                         lambda v: v + self)

    def __sub__(self, o):
        if isinstance(o, complex):
            return SComplex(self, const(F0)) - o
        return self._bin(o, sub, lambda v: self - v)

    def __rsub__(self, o):
        if isinstance(o, complex):
            return lift(o) - SComplex(self, const(F0))
        return self._bin(o, lambda a, b: sub(b, a),
                         lambda v: v - self)

    def __mul__(self, o):
        if isinstance(o, complex):
            return SComplex(self, const(F0)) * o
        return self._bin(o, mul, lambda v: self * v)

    def __rmul__(self, o):
        if isinstance(o, complex):
            return SComplex(self, const(F0)) * o
        return self._bin(o, lambda a, b: mul(b, a),
                         lambda v: v * self)

    def __truediv__(self, o):
        if isinstance(o, complex):
            return SComplex(self, const(F0)) / o
        return self._bin(o, div, lambda v: self / v)

    def __rtruediv__(self, o):
        if isinstance(o, complex):
            return lift(o) / SComplex(self, const(F0))
        return self._bin(o, lambda a, b: div(b, a),
                         lambda v: v / self)

    def __neg__(self):
        return mul(const(Fraction(-1), self.sort), self)

    def __pos__(self):
        return self

    def __pow__(self, o):
        return self._bin(o, power)

    def __rpow__(self, o):
        return self._bin(o, lambda a, b: power(b, a))

    def __floordiv__(self, o):
        return self._bin(o, lambda a, b: floor(div(a, b)))

    def __rfloordiv__(self, o):
        return self._bin(o, lambda a, b: floor(div(b, a)))

    def __mod__(self, o):
        return self._bin(o, lambda a, b: sub(a, mul(b, floor(div(a, b)))))

    def __rmod__(self, o):
        return self._bin(o, lambda a, b: sub(b, mul(a, floor(div(b, a)))))

    def __abs__(self):
        if self.isconst:
            return const(abs(self.val), self.sort)
        if sign_known(self) == 1:
            return self
        c = ctx()
        if c is not None and not c.nofork:
            return self if bool(ge(self, const(F0))) else -self
        return ite(ge(self, const(F0)), self, -self)

    # -- comparisons
    def __lt__(self, o):
        return self._bin(o, lt, lambda v: self < v)

    def __le__(self, o):
        return self._bin(o, le, lambda v: self <= v)

    def __gt__(self, o):
        return self._bin(o, lambda a, b: lt(b, a), lambda v: self > v)

    def __ge__(self, o):
        return self._bin(o, lambda a, b: le(b, a), lambda v: self >= v)

    def __eq__(self, o):
        if o is self:
            return TRUE if self.sort != 'Bool' else TRUE
        if o is None or isinstance(o, str):
            return False
        return self._bin(o, eq, lambda v: self == v)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        r = self._bin(o, eq, lambda v: self != v)
        return r if r is NotImplemented or not isinstance(r, E) else not_(r)

    # -- boolean connectives for specs
    def __and__(self, o):
        return and_(self, o)

    def __rand__(self, o):
        return and_(o, self)

    def __or__(self, o):
        return or_(self, o)

    def __ror__(self, o):
        return or_(o, self)

    def __invert__(self):
        return not_(self)

    def __bool__(self):
        if self.sort == 'Bool':
            if self.op == 'const':
                return bool(self.val)
            c = ctx()
            if c is None:
                raise Unsupported("branch on symbolic value outside engine")
            return c.decide(self)
        if self.isconst:
            return self.val != 0
        return bool(not_(eq(self, const(F0))))

    def __float__(self):
        if self.isconst:
            return float(self.val)
        raise Unsupported("float() of symbolic value " + show(self)[:80])

    def __index__(self):
        if self.isconst and self.val.denominator == 1:
            return int(self.val)
        raise Unsupported("index from symbolic value " + show(self)[:80])

    def __int__(self):
        if self.isconst:
            return int(self.val)
        raise Unsupported("int() of symbolic value")

    def __complex__(self):
        return complex(float(self))

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return ceil(self)

    def __round__(self, n=None):
        if self.isconst:
            return const(Fraction(round(self.val, n) if n else
                                  round(self.val)))
        raise Unsupported('round')

    # numpy object-array ufunc hooks
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def sin(self):
        return sin(self)

    def cos(self):
        return cos(self)

    def tan(self):
        return div(sin(self), cos(self))

    def log(self):
        return uf('log', self)

    def arctan2(self, o):
        return uf('atan2', self, o)

    def sinh(self):
        return sinh(self)

    def cosh(self):
        return cosh(self)

    def floor(self):
        return floor(self)

    def ceil(self):
        return ceil(self)

    def astype(self, *_a, **_k):
        return self


def const(c, sort='Real'):
    if sort == 'Real' and c.denominator == 1 and False:
        sort = 'Int'
    return E('const', (c,), sort)


TRUE = None
FALSE = None


def _init_bool():
    global TRUE, FALSE
    TRUE = E('const', (True,), 'Bool')
    FALSE = E('const', (False,), 'Bool')


_init_bool()


def boolc(b):
    # not cached: reset() clears the cons table, but node identity of
    # constants is irrelevant for booleans
    return TRUE if b else FALSE


def var(name, sort='Real', positive=False, nonneg=False):
    e = E('var', (name,), sort)
    if sort != 'Bool':
        a = atom(e)
        if positive:
            TAB.positive.add(a)
            TAB.nonneg.add(a)
        if nonneg:
            TAB.nonneg.add(a)
    return e


def atom(e):
    i = TAB.byid.get(e)
    if i is None:
        i = TAB.add(e)
        TAB.byid[e] = i
    return i


def set_unit(v):
    """declare 0 < v < 1 (the caller also assumes it)"""
    TAB.unit.add(atom(v))


def set_square(v, expr):
    """Declare the rewrite rule v**2 -> expr."""
    TAB.sq[atom(v)] = rat(lift(expr))


def same(a, b):
    """Syntactic/polynomial equality of two expressions (no path info)."""
    if a is b:
        return True
    try:
        return not r_add(rat(a), r_neg(rat(b)))[0]
    except TooBig:
        return False


def _app(name, args, sort):
    """Uninterpreted application with arguments compared up to normal form."""
    lst = TAB.apps.setdefault(name, [])
    for ar, e in lst:
        if len(ar) == len(args) and all(
                x is y or (x.sort != 'Bool' and y.sort != 'Bool' and
                           same(x, y)) for x, y in zip(ar, args)):
            return e
    e = E('uf', (name,) + tuple(args), sort)
    atom(e)
    lst.append((tuple(args), e))
    return e


def uf(name, *args, sort='Real'):
    return _app(name, [lift(a) for a in args], sort)


def isort(a, b):
    return 'Int' if a.sort == 'Int' and b.sort == 'Int' else 'Real'


def add(a, b):
    if a.isconst and a.val == 0 and (b.sort == 'Real' or a.sort == 'Int'):
        return b
    if b.isconst and b.val == 0 and (a.sort == 'Real' or b.sort == 'Int'):
        return a
    if a.isconst and b.isconst:
        return const(a.val + b.val, isort(a, b))
    return E('add', (a, b), isort(a, b))


def sub(a, b):
    if a is b:
        return const(F0, a.sort)
    return add(a, mul(const(Fraction(-1), 'Int'), b))


def mul(a, b):
    if a.isconst and b.isconst:
        return const(a.val * b.val, isort(a, b))
    if a.isconst:
        if a.val == 0:
            return const(F0, isort(a, b))
        if a.val == 1 and (b.sort == 'Real' or a.sort == 'Int'):
            return b
    if b.isconst:
        if b.val == 0:
            return const(F0, isort(a, b))
        if b.val == 1 and (a.sort == 'Real' or b.sort == 'Int'):
            return a
    return E('mul', (a, b), isort(a, b))


def div(a, b):
    if b.isconst:
        if b.val == 0:
            raise ZeroDivisionError("division by zero")
        if a.isconst:
            return const(a.val / b.val)
        return mul(a, const(1 / b.val)) if b.val != 1 or a.sort == 'Int' \
            else a
    c = ctx()
    if c is not None:
        c.on_div(b)
    return E('div', (a, b), 'Real')


def power(a, b):
    if not b.isconst:
        if a.isconst and b.sort != 'Int':
            return uf('pow', a, b)
        raise Unsupported('symbolic exponent')
    n = b.val
    if n.denominator == 1:
        n = int(n)
        if a.isconst:
            if a.val == 0 and n < 0:
                raise ZeroDivisionError
            return const(a.val ** n, a.sort if n >= 0 else 'Real')
        if n == 0:
            return const(F1, a.sort)
        if n == 1:
            return a
        if n < 0:
            return div(const(F1), power(a, const(Fraction(-n))))
        if n > 64:
            raise Unsupported('huge exponent')
        return E('pow', (a, n), a.sort)
    if n.denominator == 2:
        s = sqrt(a)
        return power(s, const(Fraction(n.numerator), 'Int'))
    if a.isconst:
        return uf('pow', a, b)
    return uf('pow', a, b)


def rat(e):
    """Rational normal form of a numeric expression."""
    r = e._rat
    if r is not None:
        return r
    # iterative post-order to avoid deep recursion
    stack = [e]
    while stack:
        x = stack[-1]
        if x._rat is not None:
            stack.pop()
            continue
        op = x.op
        if op == 'const':
            x._rat = r_const(x.val)
            stack.pop()
            continue
        if op in ('var', 'uf', 'ite'):
            x._rat = ({((atom(x), 1),): F1}, ())
            stack.pop()
            continue
        kids = [k for k in x.args if isinstance(k, E)]
        miss = [k for k in kids if k._rat is None]
        if miss:
            stack.extend(miss)
            continue
        if op == 'add':
            x._rat = r_add(kids[0]._rat, kids[1]._rat)
        elif op == 'mul':
            x._rat = r_mul(kids[0]._rat, kids[1]._rat)
        elif op == 'div':
            x._rat = r_mul(kids[0]._rat, r_inv(kids[1]._rat))
        elif op == 'pow':
            b = kids[0]._rat
            r = ({(): F1}, ())
            for _ in range(x.args[1]):
                r = r_mul(r, b)
            x._rat = r
        else:
            raise Unsupported('rat of ' + op)
        stack.pop()
    return e._rat


def from_poly(p, sort='Real'):
    r = None
    for m, c in sorted(p.items()):
        t = const(c, 'Int' if c.denominator == 1 else 'Real')
        for a, n in m:
            x = TAB.atoms[a]
            t = mul(t, x if n == 1 else power(x, const(Fraction(n), 'Int')))
        r = t if r is None else add(r, t)
    return const(F0, 'Int') if r is None else r


def from_rat(r):
    n = from_poly(r[0])
    if not r[1]:
        return n
    d = None
    for k, p in r[1]:
        t = from_poly(dict(k))
        if p != 1:
            t = power(t, const(Fraction(p), 'Int'))
        d = t if d is None else mul(d, t)
    return E('div', (n, d), 'Real')


def norm(e):
    """Normalised copy of a numeric expression (cancels factors)."""
    if isinstance(e, SComplex):
        return SComplex(norm(e.re), norm(e.im))
    try:
        return from_rat(rat(lift(e)))
    except TooBig:
        return e


def const_of(e):
    """Fraction if e normalises to a constant, else None."""
    if e.isconst:
        return e.val
    try:
        r = rat(e)
    except TooBig:
        return None
    if not r[0]:
        return F0
    if not r[1] and len(r[0]) == 1 and () in r[0]:
        return r[0][()]
    return None


def _m_sign(m, c):
    """Sign of a monomial if known: +1, -1, 0 (=nonneg) or None."""
    s = 1 if c > 0 else -1
    strict = True
    for a, e in m:
        if a in TAB.positive:
            continue
        if e % 2 == 0 or a in TAB.nonneg:
            strict = False
            continue
        return None
    return s if strict else s * 0.5


def p_sign(p):
    """+1: known >0, 0.5: known >=0, negatives alike, None unknown."""
    if not p:
        return None
    ss = [_m_sign(m, c) for m, c in p.items()]
    if any(s is None for s in ss):
        return None
    if all(s > 0 for s in ss):
        return 1 if any(s == 1 for s in ss) else 0.5
    if all(s < 0 for s in ss):
        return -1 if any(s == -1 for s in ss) else -0.5
    return None


def sign_known(e):
    try:
        n, d = rat(e)
    except TooBig:
        return None
    s = p_sign(n)
    if s is None:
        return None
    for k, p in d:
        if p % 2 == 0:
            continue
        x = p_sign(dict(k))
        if x is None:
            return None
        s *= 1 if x > 0 else -1
    return 1 if s > 0 else -1


def _cmp_poly(a, b):
    """(poly p, exact) with sign(p)==sign(a-b) when denominators have known
    sign; otherwise None."""
    try:
        n, d = r_add(rat(a), r_neg(rat(b)))
    except TooBig:
        return None
    s = 1
    for k, p in d:
        if p % 2 == 0:
            continue
        x = p_sign(dict(k))
        if x is None:
            return None
        if x < 0:
            s = -s
    if s < 0:
        n = p_scale(n, Fraction(-1))
    # divide out positive monomial content
    if n:
        c = tuple((a_, e_) for a_, e_ in p_content(n) if a_ in TAB.positive)
        if c:
            n = {m_div(m, c): v for m, v in n.items()}
    return n


def _cmp(op, a, b):
    if a.isconst and b.isconst:
        x, y = a.val, b.val
        return boolc(x < y if op == 'lt' else x <= y if op == 'le'
                     else x == y)
    p = _cmp_poly(a, b)
    if p is not None:
        if not p:
            return boolc(op != 'lt')
        if len(p) == 1 and () in p:
            v = p[()]
            return boolc(v < 0 if op == 'lt' else v <= 0 if op == 'le'
                         else False)
        s = p_sign(p)
        if s is not None:
            if op == 'lt':
                if s == -1:
                    return TRUE
                if s >= 0.5:
                    return FALSE
            elif op == 'le':
                if s <= -0.5:
                    return TRUE
                if s == 1:
                    return FALSE
            else:
                if abs(s) == 1:
                    return FALSE
        if op == 'eq':
            lc = p[_lead(p)]
            if lc < 0:
                p = p_scale(p, Fraction(-1))
        # canonical scale
        den = 1
        for v in p.values():
            den = den * v.denominator // math.gcd(den, v.denominator)
        g = 0
        for v in p.values():
            g = math.gcd(g, int(v * den))
        p = p_scale(p, Fraction(den, g) if g else F1)
        return E('cmp', (op, p_key(p)), 'Bool')
    return E('rawcmp', (op, a, b), 'Bool')


def lt(a, b):
    return _cmp('lt', a, b)


def le(a, b):
    return _cmp('le', a, b)


def ge(a, b):
    return _cmp('le', b, a)


def gt(a, b):
    return _cmp('lt', b, a)


def eq(a, b):
    if isinstance(a, SComplex) or isinstance(b, SComplex):
        a, b = tocomplex(a), tocomplex(b)
        return and_(eq(a.re, b.re), eq(a.im, b.im))
    if a.sort == 'Bool' and b.sort == 'Bool':
        return or_(and_(a, b), and_(not_(a), not_(b)))
    return _cmp('eq', a, b)


def _tb(x):
    if isinstance(x, E):
        if x.sort != 'Bool':
            return not_(eq(x, const(F0)))
        return x
    return boolc(bool(x))


def not_(a):
    a = _tb(a)
    if a.op == 'const':
        return boolc(not a.val)
    if a.op == 'not':
        return a.args[0]
    return E('not', (a,), 'Bool')


def and_(*xs):
    r = []
    for x in xs:
        x = _tb(x)
        if x.op == 'const':
            if not x.val:
                return FALSE
            continue
        r.append(x)
    if not r:
        return TRUE
    if len(r) == 1:
        return r[0]
    return E('and', tuple(r), 'Bool')


def or_(*xs):
    r = []
    for x in xs:
        x = _tb(x)
        if x.op == 'const':
            if x.val:
                return TRUE
            continue
        r.append(x)
    if not r:
        return FALSE
    if len(r) == 1:
        return r[0]
    return E('or', tuple(r), 'Bool')


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    c = _tb(c)
    if isinstance(a, SComplex) or isinstance(b, SComplex):
        a, b = tocomplex(a), tocomplex(b)
        return SComplex(ite(c, a.re, b.re), ite(c, a.im, b.im))
    a, b = lift(a), lift(b)
    if c.op == 'const':
        return a if c.val else b
    if a is b:
        return a
    e = E('ite', (c, a, b), isort(a, b))
    atom(e)
    return e


# -- special functions ------------------------------------------------------
def _perfect_root(p):
    """q if the polynomial is c * monomial**2 with rational sqrt, else None"""
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(e % 2 == 0 for _, e in m):
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return {tuple((a, e // 2) for a, e in m): Fraction(n, d)}
    return None


ROOT_HINTS = []


def sqrt(x):
    x = lift(x)
    if isinstance(x, SComplex):
        if const_of(x.im) != 0:
            raise Unsupported('complex sqrt')
        # principal branch on the real axis
        if bool(ge(x.re, const(F0))):
            return SComplex(sqrt(x.re), const(F0))
        return SComplex(const(F0), sqrt(-x.re))
    k = const_of(x)
    if k is not None and not x.isconst:
        x = const(k)
    if x.isconst:
        v = x.val
        if v < 0:
            raise ValueError('math domain error')
        n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if n * n == v.numerator and d * d == v.denominator:
            return const(Fraction(n, d))
    c = ctx()
    if c is not None:
        for h in c.root_hints:
            if same(mul(h, h), x):
                return h
        c.on_sqrt(x)
    try:
        r = rat(x)
    except TooBig:
        r = None
    if r is not None:
        # pull out perfect square content of declared-nonnegative atoms
        n, d = r
        if not d:
            q = _perfect_root(n)
            if q is not None:
                (m, cc), = q.items()
                if all(a in TAB.nonneg for a, _ in m):
                    return from_poly(q)
    e = _app('sqrt', [x], 'Real')
    a = atom(e)
    TAB.nonneg.add(a)
    if r is not None and a not in TAB.sq:
        TAB.sq[a] = r
        s = p_sign(r[0])
        if s == 1 and all(p_sign(dict(k)) == 1 or p % 2 == 0
                          for k, p in r[1]):
            TAB.positive.add(a)
    return e


def _trig_terms(x):
    """x as list of (coef, monomial-expression) for angle expansion."""
    try:
        n, d = rat(x)
    except TooBig:
        return None
    return _split_terms(n, d)


def p_divrem(a, b, maxsteps=600):
    """Multivariate division a = q b + r."""
    lb = _lead(b)
    cb = b[lb]
    q, r = {}, {}
    a = dict(a)
    steps = 0
    while a:
        steps += 1
        if steps > maxsteps:
            return None
        la = _lead(a)
        m = m_div(la, lb)
        if m is None:
            r[la] = a.pop(la)
            continue
        c = a[la] / cb
        q[m] = c
        for mb, v in b.items():
            mm = m_mul(m, mb)
            w = a.get(mm, F0) - c * v
            if w:
                a[mm] = w
            else:
                a.pop(mm, None)
    return q, r


def _split_terms(n, d):
    """n / d as a list of (coefficient, monomial, denominator): the parts of
    n divisible by a factor of d are simplified first."""
    if not n:
        return []
    for i, (k, p) in enumerate(d):
        if len(k) < 2:
            continue
        o = p_divrem(n, dict(k))
        if o is None or not o[0]:
            continue
        q, r = o
        d2 = d[:i] + (((k, p - 1),) if p > 1 else ()) + d[i + 1:]
        return _split_terms(q, d2) + _split_terms(r, d)
    out = []
    for m, c in sorted(n.items()):
        n2, d2 = r_simpl({m: F1}, d)
        (m2, c2), = n2.items()
        out.append((c * c2, m2, d2))
    return out


def _sincos1(x):
    """(sin, cos) of an expression without expansion, even/odd normalised."""
    s = _app('sin', [x], 'Real')
    c = _app('cos', [x], 'Real')
    sa = atom(s)
    if sa not in TAB.sq:
        TAB.sq[sa] = r_add(r_const(F1), r_neg(
            ({((atom(c), 2),): F1}, ())))
    return s, c


def _sincos(x):
    x = lift(x)
    k = const_of(x)
    if k == 0:
        return const(F0), const(F1)
    t = _trig_terms(x)
    if t is None:
        return _sincos1(x)

    def base(m, c):
        return from_rat(({m: c}, d)) if d else from_poly({m: c})
    S, C = const(F0), const(F1)
    for c, m, d in t:
        neg = c < 0
        if not d and len(m) == 1 and m[0][1] == 1 and TAB.atoms[
                m[0][0]].args[:1] == ('pi',) and \
                TAB.atoms[m[0][0]].op == 'var' and c.denominator in (1, 2):
            # multiples of pi/2
            q = int(2 * c) % 4
            s, co = [(0, 1), (1, 0), (0, -1), (-1, 0)][q]
            s, co = const(Fraction(s)), const(Fraction(co))
            S, C = add(mul(S, co), mul(C, s)), sub(mul(C, co), mul(S, s))
            continue
        if (m == () and not d) or abs(c.numerator) > 12:
            s, co = _sincos1(base(m, abs(c)))
        else:
            s1, c1 = _sincos1(base(m, Fraction(1, c.denominator)))
            s, co = s1, c1
            for _ in range(abs(c.numerator) - 1):
                s, co = add(mul(s, c1), mul(co, s1)), \
                    sub(mul(co, c1), mul(s, s1))
        if neg:
            s = -s
        S, C = add(mul(S, co), mul(C, s)), sub(mul(C, co), mul(S, s))
    return S, C


def sin(x):
    if isinstance(x, SComplex):
        if const_of(x.im) == 0:
            return SComplex(sin(x.re), const(F0))
        if const_of(x.re) == 0:
            return SComplex(const(F0), sinh(x.im))
        raise Unsupported('complex sin')
    return _sincos(x)[0]


def cos(x):
    if isinstance(x, SComplex):
        if const_of(x.im) == 0:
            return SComplex(cos(x.re), const(F0))
        if const_of(x.re) == 0:
            return SComplex(cosh(x.im), const(F0))
        raise Unsupported('complex cos')
    return _sincos(x)[1]


def sinh(x):
    x = lift(x)
    a, b = exp(x), exp(-x)
    return div(sub(a, b), const(Fraction(2)))


def cosh(x):
    x = lift(x)
    a, b = exp(x), exp(-x)
    return div(add(a, b), const(Fraction(2)))


def exp(x):
    """exp with exp(a+b)=exp(a)exp(b), exp(-a)=1/exp(a) normalisation."""
    x = lift(x)
    if isinstance(x, SComplex):
        m = exp(x.re)
        s, c = _sincos(x.im)
        return SComplex(mul(m, c), mul(m, s))
    k = const_of(x)
    if k == 0:
        return const(F1)
    try:
        n, d = rat(x)
    except TooBig:
        n, d = None, None
    if n is None:
        e = _app('exp', [x], 'Real')
        TAB.positive.add(atom(e))
        TAB.nonneg.add(atom(e))
        return e
    r = const(F1)
    for c, m, d2 in _split_terms(n, d):
        base = from_rat(({m: F1}, d2))
        # split coefficient into integer multiple of exp(base/den)
        q = Fraction(1, c.denominator)
        arg = mul(const(q), base) if q != 1 else base
        e = _app('exp', [arg], 'Real')
        a = atom(e)
        TAB.positive.add(a)
        TAB.nonneg.add(a)
        k = c.numerator
        t = power(e, const(Fraction(abs(k)), 'Int'))
        r = mul(r, t) if k > 0 else E('div', (r, t), 'Real')
    return r


def floor(x):
    x = lift(x)
    if x.sort == 'Int':
        return x
    if x.isconst:
        return const(Fraction(math.floor(x.val)), 'Int')
    try:
        n, d = rat(x)
    except TooBig:
        return _app('floor', [x], 'Int')
    if d:
        return _app('floor', [x], 'Int')
    ip, fp = {}, {}
    for m, c in n.items():
        if c.denominator == 1 and all(TAB.atoms[a].sort == 'Int'
                                      for a, _ in m):
            ip[m] = c
        elif m == ():
            k = math.floor(c)
            if k:
                ip[m] = Fraction(k)
            if c - k:
                fp[m] = c - k
        else:
            fp[m] = c
    if not fp or set(fp) == {()}:
        return asint(from_poly(ip))
    if len(fp) == 1:
        (m, c), = fp.items()
        if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and \
                m[0][0] in TAB.unit:
            if c < 0:
                ip = p_add(ip, p_const(Fraction(-1)))
            return asint(from_poly(ip))
    f = _app('floor', [from_poly(fp)], 'Int')
    return asint(add(f, from_poly(ip))) if ip else f


def asint(e):
    if e.sort == 'Int':
        return e
    if e.isconst and e.val.denominator == 1:
        return const(e.val, 'Int')
    return e


def ceil(x):
    x = lift(x)
    return -floor(-x)


def toint(x):
    """Python int()."""
    if not isinstance(x, (E, SComplex)):
        return int(x)
    if x.sort == 'Bool':
        return ite(x, 1, 0)
    if x.sort == 'Int':
        return x
    if x.isconst:
        return const(Fraction(int(x.val)), 'Int')
    if bool(ge(x, const(F0))):
        return floor(x)
    return ceil(x)


# -- complex ----------------------------------------------------------------
def _on_array(o, g):
    """element-wise on an object ndarray"""
    if type(o).__module__ != 'numpy' or o.dtype != object:
        return NotImplemented
    import numpy as np
    r = np.empty(o.size, dtype=object)
    for i, v in enumerate(o.ravel()):
        r[i] = g(v)
    return r.reshape(o.shape)


class SComplex:
    __slots__ = ('re', 'im')
    __array_priority__ = 1001

    def __init__(self, re, im):
        self.re, self.im = lift(re), lift(im)

    real = property(lambda s: s.re)
    imag = property(lambda s: s.im)
    shape = property(lambda s: ())
    ndim = property(lambda s: 0)

    def __repr__(self):
        return '(%r + %r j)' % (self.re, self.im)

    def conjugate(self):
        return SComplex(self.re, -self.im)

    conj = conjugate

    def _c(self, o):
        if getattr(o, '_is_parray', False) or (
                hasattr(o, 'shape') and getattr(o, 'shape') != ()):
            return None
        try:
            return tocomplex(o)
        except Unsupported:
            return None

    def _arr(self, o, f):
        return _on_array(o, f)

    def __add__(self, o):
        c = self._c(o)
        return self._arr(o, lambda v: self + v) if c is None else SComplex(
            self.re + c.re, self.im + c.im)

    __radd__ = __add__

    def __sub__(self, o):
        c = self._c(o)
        return self._arr(o, lambda v: self - v) if c is None else SComplex(
            self.re - c.re, self.im - c.im)

    def __rsub__(self, o):
        c = self._c(o)
        return self._arr(o, lambda v: v - self) if c is None else c - self

    def __mul__(self, o):
        c = self._c(o)
        return self._arr(o, lambda v: self * v) if c is None else SComplex(
            self.re * c.re - self.im * c.im, self.re * c.im + self.im * c.re)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (E, int, float, Fraction)):
            return SComplex(self.re / o, self.im / o)
        o = self._c(o)
        if o is None:
            return NotImplemented
        d = o.re * o.re + o.im * o.im
        n = self * o.conjugate()
        return SComplex(n.re / d, n.im / d)

    def __rtruediv__(self, o):
        o = self._c(o)
        return NotImplemented if o is None else o / self

    def __neg__(self):
        return SComplex(-self.re, -self.im)

    def __pos__(self):
        return self

    def __pow__(self, n):
        n = lift(n)
        k = const_of(n)
        if k is None or k.denominator != 1 or k < 0:
            raise Unsupported('complex power')
        r = SComplex(1, 0)
        for _ in range(int(k)):
            r = r * self
        return r

    def __abs__(self):
        return sqrt(self.re * self.re + self.im * self.im)

    def __eq__(self, o):
        return eq(self, tocomplex(o))

    def __ne__(self, o):
        return not_(eq(self, tocomplex(o)))

    __hash__ = None

    def exp(self):
        return exp(self)


def tocomplex(x):
    if isinstance(x, SComplex):
        return x
    x = lift(x)
    if isinstance(x, SComplex):
        return x
    return SComplex(x, const(F0))


# -- printing ---------------------------------------------------------------
def show(e, depth=8):
    if isinstance(e, SComplex):
        return repr(e)
    if depth == 0:
        return '...'
    op = e.op
    if op == 'const':
        return str(e.val)
    if op == 'var':
        return e.args[0]
    if op == 'uf':
        return '%s(%s)' % (e.args[0], ', '.join(
            show(a, depth - 1) for a in e.args[1:]))
    if op == 'cmp':
        return '(%s %s 0)' % (show_poly(dict(e.args[1])),
                              {'lt': '<', 'le': '<=', 'eq': '=='}[e.args[0]])
    if op == 'rawcmp':
        return '(%s %s %s)' % (show(e.args[1], depth - 1), e.args[0],
                               show(e.args[2], depth - 1))
    if op == 'pow':
        return '%s**%d' % (show(e.args[0], depth - 1), e.args[1])
    s = {'add': ' + ', 'mul': '*', 'div': '/', 'and': ' & ', 'or': ' | '}
    if op in s:
        return '(' + s[op].join(show(a, depth - 1) for a in e.args) + ')'
    return '%s(%s)' % (op, ', '.join(show(a, depth - 1) for a in e.args))


def show_poly(p):
    t = []
    for m, c in list(sorted(p.items()))[:12]:
        t.append(str(c) + ''.join('*%s%s' % (
            show(TAB.atoms[a], 3), '' if n == 1 else '**%d' % n)
            for a, n in m))
    return ' + '.join(t) + (' + ...' if len(p) > 12 else '')


# -- numeric evaluation -----------------------------------------------------
_FN = {
    'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'exp': math.exp,
    'log': math.log, 'floor': math.floor, 'atan2': math.atan2,
    'pow': lambda a, b: a ** b,
}


def evaluate(e, env, ufs=None, memo=None):
    """Floating-point value of e; env: var name -> number; ufs: callable
    (name, argvalues) for uninterpreted functions."""
    if memo is None:
        memo = {}
    if isinstance(e, SComplex):
        return complex(evaluate(e.re, env, ufs, memo),
                       evaluate(e.im, env, ufs, memo))
    e = lift(e)
    if e in memo:
        return memo[e]
    op = e.op
    ev = lambda x: evaluate(x, env, ufs, memo)
    if op == 'const':
        r = float(e.val) if e.sort != 'Bool' else e.val
        if e.sort == 'Int':
            r = int(e.val)
    elif op == 'var':
        r = env[e.args[0]]
    elif op == 'add':
        r = ev(e.args[0]) + ev(e.args[1])
    elif op == 'mul':
        r = ev(e.args[0]) * ev(e.args[1])
    elif op == 'div':
        r = ev(e.args[0]) / ev(e.args[1])
    elif op == 'pow':
        r = ev(e.args[0]) ** e.args[1]
    elif op == 'ite':
        r = ev(e.args[1]) if ev(e.args[0]) else ev(e.args[2])
    elif op == 'uf':
        a = [ev(x) for x in e.args[1:]]
        f = _FN.get(e.args[0])
        r = f(*a) if f else ufs(e.args[0], a)
    elif op == 'cmp':
        v = 0.
        for m, c in e.args[1]:
            t = float(c)
            for a, n in m:
                t *= ev(TAB.atoms[a]) ** n
            v += t
        r = v < 0 if e.args[0] == 'lt' else v <= 0 if e.args[0] == 'le' \
            else v == 0
    elif op == 'rawcmp':
        a, b = ev(e.args[1]), ev(e.args[2])
        r = a < b if e.args[0] == 'lt' else a <= b if e.args[0] == 'le' \
            else a == b
    elif op == 'and':
        r = all(ev(x) for x in e.args)
    elif op == 'or':
        r = any(ev(x) for x in e.args)
    elif op == 'not':
        r = not ev(e.args[0])
    else:
        raise Unsupported('eval ' + op)
    memo[e] = r
    return r


TRANSC = ('sin', 'cos', 'exp', 'log', 'atan2', 'tan')


def uf_names(es):
    seen, out, st = set(), set(), list(es)
    while st:
        e = st.pop()
        if not isinstance(e, E) or e in seen:
            continue
        seen.add(e)
        if e.op == 'uf':
            out.add(e.args[0])
            st.extend(e.args[1:])
        elif e.op in ('cmp',):
            for m, _ in e.args[1]:
                st.extend(TAB.atoms[a] for a, _ in m)
        elif e.op == 'pow':
            st.append(e.args[0])
        elif e.op not in ('const', 'var'):
            st.extend(e.args)
    return out


def holds(e, env, memo=None, pol=True, ufs=None):
    """Truth of a condition in floating point, with tolerance in favour of
    `pol`."""
    memo = {} if memo is None else memo
    op = e.op
    if op == 'const':
        return bool(e.val)
    if op == 'not':
        return not holds(e.args[0], env, memo, not pol, ufs)
    if op == 'and':
        return all(holds(x, env, memo, pol, ufs) for x in e.args)
    if op == 'or':
        return any(holds(x, env, memo, pol, ufs) for x in e.args)
    if op == 'cmp':
        v, s = 0., 0.
        for m, c in e.args[1]:
            t = float(c)
            for a, n in m:
                t *= evaluate(TAB.atoms[a], env, ufs, memo) ** n
            v += t
            s += abs(t)
        k = e.args[0]
    elif op == 'rawcmp':
        a = evaluate(e.args[1], env, ufs, memo)
        b = evaluate(e.args[2], env, ufs, memo)
        v, s, k = a - b, abs(a) + abs(b), e.args[0]
    else:
        return bool(evaluate(e, env, ufs, memo))
    tol = 1e-7 * s
    if k == 'eq':
        return abs(v) <= tol
    return v <= tol if pol else v < -tol


def free_vars(es):
    seen, out = set(), {}
    st = list(es)
    while st:
        x = st.pop()
        if isinstance(x, SComplex):
            st += [x.re, x.im]
            continue
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'var':
            out[x.args[0]] = x
        elif x.op == 'cmp':
            for m, c in x.args[1]:
                for a, n in m:
                    st.append(TAB.atoms[a])
        else:
            for a in x.args:
                if isinstance(a, (E, SComplex)):
                    st.append(a)
    return out


def diff(e, v, memo=None):
    """Derivative of the expression e with respect to the variable v."""
    memo = {} if memo is None else memo
    e = lift(e)
    if e in memo:
        return memo[e]
    op, d = e.op, lambda x: diff(x, v, memo)
    if e is v:
        r = const(F1)
    elif op in ('const', 'var'):
        r = const(F0)
    elif op == 'add':
        r = add(d(e.args[0]), d(e.args[1]))
    elif op == 'mul':
        r = add(mul(d(e.args[0]), e.args[1]), mul(e.args[0], d(e.args[1])))
    elif op == 'div':
        a, b = e.args
        r = div(sub(mul(d(a), b), mul(a, d(b))), mul(b, b))
    elif op == 'pow':
        a, n = e.args
        n = n.val if isinstance(n, E) else n
        r = mul(mul(const(Fraction(n)), power(a, const(Fraction(n - 1)))),
                d(a))
    elif op == 'uf' and e.args[0] == 'log':
        r = div(d(e.args[1]), e.args[1])
    elif op == 'uf' and e.args[0] == 'arctan':
        r = div(d(e.args[1]), add(const(F1), mul(e.args[1], e.args[1])))
    elif op == 'uf' and e.args[0] in ('sin', 'cos', 'exp', 'sqrt'):
        n, a = e.args[0], e.args[1]
        r = d(a)
        if const_of(r) != 0:
            r = mul(r, cos(a) if n == 'sin' else -sin(a) if n == 'cos' else e
                    if n == 'exp' else div(const(F1), 2 * e))
    else:
        if v.args[0] not in free_vars([e]):
            r = const(F0)
        else:
            raise Unsupported('derivative of ' + op)
    memo[e] = r
    return r
