"""CSR: step tiling, reference trajectory, history independence, kicks."""
import itertools
import types
from .push_common import *
from .. import symarr as SA
from .c11 import Steps, TE

ASSUMPTIONS = ['element length > 0; one charge sign per bunch; |charge of a '
               'particle| = e (the CSR model of the code)',
               'histogram, kernel density estimate, convolution and '
               'interpolation as documented (numpy, scipy)',
               'planar trajectory (the elements bend in the x-z plane)']
CM = 'wake_t.physics_models.collective_effects.csr'


class Sub2:
    def __init__(self, st, k):
        self.st, self.k = st, k


class Steps2(Steps):
    def __getitem__(self, s):
        if isinstance(s, slice) and s.start is None and s.stop is None:
            return Sub2(self, lift(s.step))
        raise Unsupported('slice of steps')


class El:
    def __init__(self, **k):
        self.__dict__.update(k)


def body_steps(ctx):
    tw = twin(ctx)
    mod, cm = tw.load(TE), tw.load(CM)
    ctx.data['arange'] = lambda *a: Steps2(*(a if len(a) > 1
                                             else (0, a[0])))
    L = R('L', positive=True)
    st, tr = R('csr_step', positive=True), R('traj_step', positive=True)
    nout = [None, I('n_out')][ctx.choose(2, 'n_out')]
    ctx.assume(L > 0, st > 0, tr > 0)
    if nout is not None:
        ctx.assume(nout >= 1)
    calc = cm.CSRCalculator()
    calc.set_settings(st, tr, 100)
    el = mod.TMElement(L, R('theta'), R('k1'), R('k2'), R('g'), True, nout,
                       2)
    el.csr_calculator = calc
    calc._lattice_elements.append(el)
    calc._set_element_steps(el)
    ds = lift(calc.get_csr_step(el))
    l, track, out = el._determine_steps()
    l = lift(l)
    if isinstance(track, np.ndarray):
        n, lo = lift(len(track)), lift(track[0])
        if nout is not None and isinstance(out, np.ndarray):
            exp = [i for i in track if bool(X.eq(
                (len(track) - 1 - i) * nout % n, lift(0)))]
            ctx.prove('output steps', X.boolc(
                sorted(int(i) for i in out) == [int(i) for i in exp]))
            out = Sub2(track, -T.xdiv(n, nout))
    elif isinstance(track, Steps):
        n, lo = track.n, track.lo
    else:
        raise Unsupported('steps')
    ctx.prove('at least one step', n >= 1)
    ctx.prove_eq('first step', lift(lo), lift(0))
    ctx.prove('the steps tile the element exactly', X.eq(n * l, L))
    ctx.prove('steps are not longer than the CSR step', l <= st)
    ctx.prove('kicks act over one step', X.eq(ds, l))
    dst = lift(calc._lattice_element_traj_steps[-1][1])
    ctx.prove('trajectory step is not longer than requested', dst <= tr)
    ctx.prove('trajectory step is positive', dst > 0)
    if nout is None:
        ctx.prove('no outputs', X.boolc(isinstance(out, list) and
                                        len(out) == 0))
        return
    if not isinstance(out, Sub2):
        raise Unsupported('output steps')
    k = -out.k
    ctx.prove('output every k-th step from the last',
              X.and_(k >= 1, X.eq(k * nout, n)))
    ctx.prove('outputs are evenly spaced',
              X.eq(k * l * nout, L))


def body_clear(ctx):
    tw = twin(ctx)
    mod, cm = tw.load(TE), tw.load(CM)
    calc = cm.CSRCalculator()
    fresh = cm.CSRCalculator()
    s = [R('s1', positive=True), R('s2', positive=True), I('nb')]
    calc.set_settings(*s)
    fresh.set_settings(*s)
    for k in range(2):
        calc._lattice_elements.append(El(length=R('L%d' % k), n_out=None,
                                         theta=lift(0)))
        calc._lattice_element_steps.append(I('st%d' % k))
        calc._lattice_element_traj_steps.append([R('a%d' % k),
                                                 R('b%d' % k)])
    calc._ref_traj = 'old'
    calc.clear()
    for a in sorted(set(vars(fresh)) | set(vars(calc))):
        p, q = getattr(calc, a, 'missing'), getattr(fresh, a, 'missing')
        if isinstance(q, X.E):
            ctx.prove_eq('settings are kept: ' + a, lift(p), q)
        else:
            ctx.prove('nothing of the previous lattice is left: ' + a,
                      X.boolc(type(p) is type(q) and p == q))


def body_traj(ctx):
    """geometry of the reference trajectory (bounded number of points)"""
    tw = twin(ctx)
    cm = tw.load(CM)
    n = 1 + ctx.choose(3, 'points')
    bend = ctx.choose(3, 'bend')
    L = R('L', positive=True)
    ctx.assume(L > 0)
    ds = L * Fr(1, n)
    phi = R('phi', positive=True)         # a twelfth of the bending angle
    th = [lift(0), 12 * phi, -12 * phi][bend]
    if bend:
        ctx.assume(phi > 0)
    a = R('alpha')
    st = [R('s0'), R('x0'), R('y0'), R('z0'), X.sin(a), lift(0), X.cos(a)]
    calc = cm.CSRCalculator()
    el = El(length=L, theta=th, n_out=None)
    calc._lattice_elements.append(el)
    calc._lattice_element_traj_steps.append([L, ds])
    old = np.empty((7, 2), dtype=object)
    for k in range(7):
        old[k, 0], old[k, 1] = R('o%d' % k), st[k]
    calc._ref_traj = old
    calc._calculate_trajectory(el)
    t = calc._ref_traj
    ctx.prove('points are appended', X.boolc(t.shape == (7, n + 2)))
    for j in range(n + 2):
        if j < 2:
            for k in range(7):
                ctx.prove_eq('earlier points are kept', lift(t[k, j]),
                             lift(old[k, j]))
            continue
        s = L * Fr(j - 1, n)
        v = [lift(q) for q in t[:, j]]
        ctx.prove_eq('arc length', v[0], R('s0') + s)
        b = a + th * Fr(j - 1, n)
        ctx.prove_eq('tangent x', v[4], X.sin(b))
        ctx.prove_eq('tangent y', v[5], lift(0))
        ctx.prove_eq('tangent z', v[6], X.cos(b))
        ctx.prove_eq('vertical position', v[2], R('y0'))
        if bend:
            rho = T.xdiv(L, th)
            ex, ez = rho * (X.cos(a) - X.cos(b)), rho * (X.sin(b) -
                                                         X.sin(a))
        else:
            ex, ez = s * X.sin(a), s * X.cos(a)
        ctx.prove_eq('position is the integral of the tangent (x)', v[1],
                     R('x0') + ex)
        ctx.prove_eq('position is the integral of the tangent (z)', v[3],
                     R('z0') + ez)


class Row(SA.FArr):
    """array of symbolic length that broadcasts against columns (k, 1)"""

    @staticmethod
    def of(a):
        return Row(a.n, a.f, a.name)

    def _bin(self, o, op):
        if isinstance(o, np.ndarray) and o.ndim == 1 and o.size == 1:
            o = o[0]
        if isinstance(o, np.ndarray) and o.ndim == 2 and o.shape[1] == 1:
            return Rows([self._bin(v, op) for v in o[:, 0]])
        if isinstance(o, Rows):
            return NotImplemented
        r = SA.FArr._bin(self, o, op)
        return r if r is NotImplemented else Row.of(r)

    def map(self, g):
        return Row.of(SA.FArr.map(self, g))


class Rows:
    """k rows of symbolic length"""
    _is_parray = True
    _sym_shape = True
    __array_priority__ = 5000
    __array_ufunc__ = None

    def __init__(self, rows):
        self.rows = list(rows)

    @property
    def shape(self):
        return (len(self.rows), self.rows[0].n)

    def _bin(self, o, op):
        k = len(self.rows)
        if isinstance(o, Rows):
            if len(o.rows) != k:
                raise Unsupported('shape of the rows')
            o = o.rows
        elif isinstance(o, np.ndarray) and o.shape == (k, 1):
            o = list(o[:, 0])
        elif isinstance(o, np.ndarray) and o.ndim:
            raise Unsupported('broadcast against rows')
        else:
            o = [o] * k
        return Rows([r._bin(v, op) for r, v in zip(self.rows, o)])

    __add__, __radd__ = SA.FArr.__add__, SA.FArr.__add__
    __sub__, __rsub__ = SA.FArr.__sub__, SA.FArr.__rsub__
    __mul__, __rmul__ = SA.FArr.__mul__, SA.FArr.__mul__
    __truediv__ = SA.FArr.__truediv__
    __neg__ = SA.FArr.__neg__

    def _key(self, i):
        if isinstance(i, tuple):
            if len(i) != 2 or i[1] not in (slice(None), Ellipsis):
                raise Unsupported('index of the trajectory')
            i = i[0]
        return i

    def __getitem__(self, i):
        r = self.rows[self._key(i)]
        return Rows(r) if isinstance(r, list) else r

    def __setitem__(self, i, v):
        i = self._key(i)
        if not isinstance(i, slice):
            self.rows[i] = Row.of(v)
            return
        n, k = self.rows[0].n, range(*i.indices(len(self.rows)))
        if isinstance(v, np.ndarray) and v.shape == (len(k), 1):
            v = [Row(n, lambda q, x=x: x) for x in v[:, 0]]
        elif isinstance(v, Rows) and len(v.rows) == len(k):
            v = v.rows
        else:
            raise Unsupported('assignment to rows')
        for j, x in zip(k, v):
            self.rows[j] = x


class Ref:
    """the trajectory so far: any number of points, the last one known"""
    _is_parray = True
    __array_ufunc__ = None

    def __init__(self, last):
        self.last = last

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2:
            a, b = i
            if b == [-1] and isinstance(a, slice):
                return self.last[a].reshape(-1, 1)
            if not isinstance(b, (list, slice)) and X.const_of(
                    lift(b)) == -1:
                return self.last[a]
        raise Unsupported('access to the earlier trajectory')


class TrajNP:
    def __init__(self, n):
        self.n, self.done = n, []

    def __getattr__(self, k):
        return getattr(T.np_shim, k)

    def zeros(self, shape, *a, **k):
        if isinstance(shape, tuple) and len(shape) == 2 and \
                X.const_of(lift(shape[1])) is None:
            return Rows([Row(shape[1], lambda i: lift(0))
                         for _ in range(int(X.const_of(lift(shape[0]))))])
        return T.np_shim.zeros(shape, *a, **k)

    def empty(self, shape, *a, **k):
        return self.zeros(shape, *a, **k)

    def append(self, a, b, axis=None):
        if isinstance(a, Ref) and isinstance(b, Rows) and axis in (1, -1):
            self.done.append((a, b))
            return self.done[-1]
        raise Unsupported('append')

    def concatenate(self, t, axis=0):
        if len(t) == 2 and isinstance(t[0], Ref):
            return self.append(t[0], t[1], axis)
        return T.np_shim.concatenate(t, axis=axis)

    def hstack(self, t):
        return self.concatenate(t, axis=1)


def body_traj_any(ctx):
    """geometry of the reference trajectory, any number of points"""
    tw = twin(ctx)
    cm = tw.load(CM)
    SA.alloc(ctx)
    n, m = I('n_points'), I('m')
    ctx.assume(n >= 1, m >= 1, m <= n)
    if bool(X.eq(n, lift(1))):
        m = lift(1)
    bend = ctx.choose(3, 'bend')
    L = R('L', positive=True)
    phi = R('phi', positive=True)    # half the angle of a trajectory step
    th = [lift(0), 2 * n * phi, -2 * n * phi][bend]
    a = R('alpha')
    last = np.array([R('s0'), R('x0'), R('y0'), R('z0'), X.sin(a), lift(0),
                     X.cos(a)], dtype=object)

    def linspace(lo, hi, k):
        ctx.prove_eq('number of trajectory points', lift(k), n)
        # from lo in equal steps to hi
        d = (hi - lo)
        if bool(X.eq(n, lift(1))):
            return Row(n, lambda i: lo)
        ctx.prove_eq('trajectory points at equal distances', d * n,
                     (n - 1) * L)
        return Row(n, lambda i: lo + L / n * i)
    ctx.data['linspace'] = linspace
    ar = ctx.data['arange']
    ctx.data['arange'] = lambda *q: Row.of(ar(*q))
    cm.np = N = TrajNP(n)
    calc = cm.CSRCalculator()
    el = El(length=L, theta=th, n_out=None)
    calc._lattice_elements.append(el)
    calc._lattice_element_traj_steps.append([L, L / n])
    calc._ref_traj = ref = Ref(last)
    calc._calculate_trajectory(el)
    ctx.prove('points are appended to the earlier ones', X.boolc(
        len(N.done) == 1 and N.done[0][0] is ref and
        calc._ref_traj is N.done[0] and len(N.done[0][1].rows) == 7))
    if not N.done:
        return
    for r in N.done[0][1].rows:
        ctx.prove_eq('number of points', lift(r.n), n)
    v = [lift(r.at(m - 1)) for r in N.done[0][1].rows]
    ctx.prove_eq('arc length', v[0], R('s0') + L / n * m)
    b = a + [0, 2, -2][bend] * phi * m
    ctx.prove_eq('tangent x', v[4], X.sin(b))
    ctx.prove_eq('tangent y', v[5], lift(0))
    ctx.prove_eq('tangent z', v[6], X.cos(b))
    ctx.prove_eq('vertical position', v[2], R('y0'))
    if bend:
        rho = T.xdiv(L, th)
        ex, ez = rho * (X.cos(a) - X.cos(b)), rho * (X.sin(b) - X.sin(a))
    else:
        ex, ez = L / n * m * X.sin(a), L / n * m * X.cos(a)
    ctx.prove_eq('position is the integral of the tangent (x)', v[1],
                 R('x0') + ex)
    ctx.prove_eq('position is the integral of the tangent (z)', v[3],
                 R('z0') + ez)


class KerNP:
    """numpy calls of the CSR kernel"""

    def __init__(self, ctx, **k):
        self.ctx, self.sums = ctx, []
        self.__dict__.update(k)

    def __getattr__(self, k):
        return getattr(T.np_shim, k)

    @staticmethod
    def _each(x, f):
        if isinstance(x, np.ndarray):
            o = np.empty(x.shape, dtype=object)
            for k in np.ndindex(x.shape):
                o[k] = f(lift(x[k]))
            return o
        return x.map(f) if isinstance(x, SA.FArr) else f(lift(x))

    def log(self, x):
        def f(v):
            v = X.norm(v)
            return lift(0) if X.const_of(v) == 1 else X.uf('log', v)
        return self._each(x, f)

    def arctan(self, x):
        return self._each(x, lambda v: X.uf('arctan', X.norm(v)))

    def diff(self, x, append=None):
        if not isinstance(x, SA.FArr) or append is None:
            raise Unsupported('diff')
        f, n, a = x.f, x.n, SA.num(append)
        return SA.FArr(n, lambda k: SA.ite(
            k + 1 < n, SA.num(f(k + 1)), a) - SA.num(f(k)))

    def cumsum(self, x):
        f, q = x.f, len(self.sums)
        self.sums.append((x.n, f))
        return SA.FArr(x.n, lambda k: X.uf('partial_sum%d' % q, X.norm(k)))


def body_short(ctx):
    """the kernel of the straight line ahead of the trajectory is the
    integral of the retarded force; planar trajectory"""
    tw = twin(ctx)
    ctx.generic()
    cm = tw.load(CM)
    cm.np = KerNP(ctx)
    sg = (-1, 0, 1)[ctx.choose(3, 'side')]
    t = R('t', positive=True)
    ctx.assume(t < 1)
    be, ga = (1 - t**2) / (1 + t**2), (1 + t**2) / (2 * t)
    al, de = R('alpha'), R('delta')
    A = R('a', positive=True) if sg else lift(0)
    b, s1 = R('b'), R('s1')
    e1 = X.sin(al), lift(0), X.cos(al)
    eo = X.sin(de), lift(0), X.cos(de)
    u = X.cos(al) * sg, lift(0), -X.sin(al) * sg
    traj = np.empty((7, 4), dtype=object)
    for k in range(7):
        for j in range(4):
            traj[k, j] = R('tr%d_%d' % (k, j))
    for k in range(3):
        traj[4 + k, 0], traj[4 + k, 2] = e1[k], eo[k]
        traj[1 + k, 2] = traj[1 + k, 0] + b * e1[k] - A * u[k]
    traj[0, 2] = traj[0, 0] - s1
    winf = s1 + b
    q = [R('q%d' % k, positive=True) for k in range(3)]
    Rk = [(x + A**2 / x) / 2 for x in q]
    sk = [winf - (x - A**2 / x) / 2 for x in q]
    wk = [x + be * y for x, y in zip(sk, Rk)]
    ctx.assume(*[w < 0 for w in wk])
    ctx.root_hints += [be, A] + [ga * (y + be * (x - winf))
                                 for x, y in zip(sk, Rk)]
    calc = cm.CSRCalculator()
    w = np.empty(3, dtype=object)
    w[:] = wk
    KS = calc._calculate_kernel_short_range(2, traj, w, ga)
    ctx.prove('one value for each bin', X.boolc(len(KS) == 3))
    ctx.prove_eq('integral starts at the first point', lift(KS[0]), lift(0))
    n = lambda k: [((winf - sk[k]) * x - A * y) / Rk[k]
                   for x, y in zip(e1, u)]
    dot = lambda x, y: sum((i * j for i, j in zip(x, y)), lift(0))
    for k in (1, 2):
        nk = n(k)
        f = (be * (dot(nk, e1) - dot(nk, eo)) - be**2 * (1 - dot(e1, eo)) -
             1 / ga**2) / Rk[k] - (1 - be * dot(nk, e1)) / wk[k] / ga**2
        d = X.diff(lift(KS[k]), q[k])
        ctx.prove_eq('kernel is the integral of the force', d,
                     f * X.diff(sk[k], q[k]))
        ctx.prove_eq('independent of the other bins', X.diff(
            lift(KS[k]), q[3 - k]), lift(0))


class Last:
    """np.where(condition)[0]"""

    def __init__(self, v):
        self.v = v

    def __len__(self):
        return 0 if self.v is None else 1

    @property
    def size(self):
        return len(self)

    def __getitem__(self, k):
        if k != -1 or self.v is None:
            raise Unsupported('element of where')
        return self.v


def body_long(ctx):
    """kernel along the trajectory; where the search starts does not
    matter"""
    tw = twin(ctx)
    ctx.generic()
    ctx.data['clip'] = ctx.data['split'] = True
    cm = tw.load(CM)
    SA.alloc(ctx)
    N, i, i0 = I('n_traj'), I('i'), I('i_0')
    t = R('t', positive=True)
    ctx.assume(t < 1, i >= 1, i < N, i0 >= 0, i0 < i)
    be, ga = (1 - t**2) / (1 + t**2), (1 + t**2) / (2 * t)
    ctx.root_hints.append(be)
    tr = lambda k, j: X.uf('traj%d' % int(X.const_of(lift(k))), X.norm(j))
    traj = SA.FArr2(7, N, tr, 'trajectory', frozen=True)
    wmin = R('w_min')
    ctx.assume(wmin < 0)

    def dist(j):
        return T.np_shim.sqrt(sum(((tr(k, i) - tr(k, j))**2
                                   for k in (1, 2, 3)), lift(0)))

    def wof(j):
        return tr(0, j) - tr(0, i) + be * dist(j)
    some = bool(ctx.choose(2, 'trajectory reaches behind the bunch'))
    J = I('J') if some else lift(0)
    if some:
        # last point with w <= w_min
        ctx.assume(J >= 0, J < i, wof(J) <= wmin)
        ctx.assume(X.or_(i0 <= J, wof(i0) > wmin))
    else:
        # no point has w <= w_min: the start index is 0
        i0 = lift(0)
        ctx.assume(wof(i0) > wmin)
    # contract of the start index
    ctx.assume(X.or_(X.eq(i0, lift(0)), wof(i0) <= wmin))
    log = []

    def where(c):
        log.append(1)
        k = I('k')
        ctx.assume(k >= 0, k < i - i0)
        ctx.prove_eq('points that are compared', lift(c.n), i - i0)
        ctx.prove('points behind the bunch', X.eq(
            X._tb(c.at(k)), X._tb(wof(i0 + k) <= wmin)))
        if not some:
            return (Last(None),)
        ctx.prove('the search reaches the last point', J >= i0)
        return (Last(J - i0),)
    cm.np = NP = KerNP(ctx, where=where, nonzero=where,
                       flatnonzero=lambda c: where(c)[0])
    calc = cm.CSRCalculator()
    calc._estimate_start_index = lambda *a, **k: i0
    w, K = calc._calculate_kernel_long_range(i, traj, wmin, ga)
    ctx.prove('one search', X.boolc(len(log) == 1))
    n = X.norm(i - J)
    p = I('p')
    ctx.assume(p >= 0, p < n)
    ctx.prove_eq('points of the kernel', lift(w.n), n)
    ctx.prove_eq('points of the kernel', lift(K.n), n)
    ctx.prove_eq('retarded distance', w.at(p), wof(J + p))
    ctx.prove('one integral', X.boolc(len(NP.sums) == 1))
    m, f = NP.sums[0]
    ctx.prove_eq('all points are integrated', lift(m), n)
    # sum from the point p to the current position
    ctx.prove_eq('integral from the current position', K.at(p),
                 X.uf('partial_sum0', X.norm(n - 1 - p)))

    def force(j):
        D = dist(j)
        nv = [(tr(k, i) - tr(k, j)) / D for k in (1, 2, 3)]
        tu, to = [[tr(k, x) for k in (4, 5, 6)] for x in (j, i)]
        dot = lambda x, y: sum((a * b for a, b in zip(x, y)), lift(0))
        return (be * (dot(nv, tu) - dot(nv, to)) -
                be**2 * (1 - dot(tu, to)) - 1 / ga**2) / D - (
                    1 - be * dot(nv, tu)) / wof(j) / ga**2
    j = J + p
    last = bool(X.eq(p, n - 1))
    # trapezoids; the force at the current position itself is zero
    tz = (-(tr(0, j) - tr(0, i)) * force(j) if last else
          (tr(0, j + 1) - tr(0, j)) * (force(j) + force(j + 1))) / 2
    ctx.prove_eq('trapezoidal rule', SA.num(f(n - 1 - p)), tz)


def body_start(ctx):
    """points are only skipped if they are too far behind"""
    tw = twin(ctx)
    ctx.generic()
    cm = tw.load(CM)
    SA.alloc(ctx)
    N, i = I('n_traj'), I('i')
    be, wmin = R('beta', positive=True), R('w_min')
    ctx.assume(i >= 1, i < N, wmin < 0, be < 1)
    tr = lambda k, j: X.uf('traj%d' % int(X.const_of(lift(k))), X.norm(j))

    class Tr(SA.FArr2):
        def __getitem__(self, k):
            if isinstance(k, tuple) and isinstance(k[1], SA.FArr):
                g = k[1].f
                return SA.FArr(k[1].n, lambda q: self.at(k[0], g(q)))
            return SA.FArr2.__getitem__(self, k)
    traj = Tr(7, N, tr, 'trajectory', frozen=True)

    def wof(j):
        return tr(0, j) - tr(0, i) + be * T.np_shim.sqrt(sum(
            ((tr(k, i) - tr(k, j))**2 for k in (1, 2, 3)), lift(0)))
    tests = []

    def linspace(lo, hi, n=50, dtype=None, **k):
        if dtype is None or k:
            raise Unsupported('linspace')
        lo, hi, n = lift(lo), lift(hi), lift(n)
        f = lambda q: X.floor(X.norm(lo + (hi - lo) * q / (n - 1)))
        tests.append((n, f))
        return SA.FArr(n, f)

    def where(c):
        if not bool(ctx.choose(2, 'some point is far behind')):
            return (Last(None),)
        k = I('k')
        ctx.assume(k >= 0, k < c.n, X._tb(c.at(k)))
        return (Last(k),)
    cm.np = KerNP(ctx, where=where, nonzero=where, linspace=linspace,
                  flatnonzero=lambda c: where(c)[0])
    calc = cm.CSRCalculator()
    i0 = lift(calc._estimate_start_index(i, traj, wmin, be))
    if X.const_of(i0) == 0:
        ctx.prove('the whole trajectory', X.boolc(True))
        return
    ctx.prove('start is a point of the trajectory', X.and_(i0 >= 0, i0 <= i))
    ctx.prove('points are skipped only behind the bunch', wof(i0) <= wmin)


def body_kernel(ctx):
    """second difference of the integrated force; the part before the
    trajectory continues the part along it"""
    tw = twin(ctx)
    ctx.generic()
    ctx.data['split'] = True
    cm = tw.load(CM)
    SA.alloc(ctx)
    nb, n, i, m = I('n_bins'), I('n'), I('i'), I('m')
    h = R('bin', positive=True)
    ga = R('gamma', positive=True)
    wm = R('w_min')
    c = R('ct_c', positive=True)
    ctx.assume(nb >= 1, n >= 1, i >= 0, wm < 0)
    traj = object()
    w = SA.FArr(n, lambda k: X.uf('w', k), 'w', frozen=True)
    K = SA.FArr(n, lambda k: X.uf('K', k), 'K', frozen=True)
    calc = cm.CSRCalculator()
    log = []

    def long(i_, t_, w_, g_):
        log.append('long')
        ctx.prove('trajectory of the kernel', X.boolc(t_ is traj))
        ctx.prove_eq('position of the kernel', lift(i_), i)
        ctx.prove_eq('range of the kernel', lift(w_), -nb * h)
        ctx.prove_eq('energy of the kernel', lift(g_), ga)
        return w, K
    S = lambda v: X.uf('short', X.norm(v))

    def short(i_, t_, w_, g_):
        log.append('short')
        ctx.prove('trajectory of the kernel', X.boolc(t_ is traj))
        ctx.prove_eq('position of the kernel', lift(i_), i)
        ctx.prove_eq('energy of the kernel', lift(g_), ga)
        return w_.map(S)
    calc._calculate_kernel_long_range = long
    calc._calculate_kernel_short_range = short

    def where(q):
        # last bin below w_min
        ctx.assume(m >= 0, m < nb, (m - nb) * h < wm)
        ctx.assume(X.or_(X.eq(m, nb - 1), (m + 1 - nb) * h >= wm))
        k = I('k')
        ctx.assume(k >= 0, k < nb)
        ctx.prove('bins before the trajectory', X.eq(
            X._tb(q.at(k)), X._tb((k - nb) * h < wm)))
        return (Last(m),)

    def append(a, b):
        f, na = a.f, a.n
        g = b.f if isinstance(b, SA.FArr) else lambda k: lift(b)
        nb_ = b.n if isinstance(b, SA.FArr) else 1
        return SA.FArr(na + nb_, lambda k: SA.ite(
            k < na, SA.num(f(k)), SA.num(g(k - na))))

    def interp(x, xp, fp):
        ctx.prove('table of the kernel', X.boolc(xp is w and fp is K))
        return x.map(lambda v: X.uf('interp', X.norm(v)))

    def amin(x):
        ctx.prove('smallest distance', X.boolc(x is w))
        return wm
    cm.np = KerNP(ctx, where=where, append=append, interp=interp, min=amin,
                  amin=amin)
    o = calc._calculate_kernel(i, traj, nb, h, ga)
    ctx.prove_eq('one value for each bin', lift(o.n), nb)
    k = I('kk')
    ctx.assume(k >= 0, k < nb)

    def F(q):
        if not bool(q < nb):
            return lift(0)
        x = (q - nb) * h
        if bool(X._tb(-nb * h < wm)) and bool(q <= m):
            return S(wm) - S(x) + X.uf('K', lift(0))
        return X.uf('interp', X.norm(x))
    ctx.prove_eq('kernel of the line charge', o.at(k), (
        F(k + 2) - 2 * F(k + 1) + F(k)) / h * c**2 * Fr(1, 10**7))


class KLoop:
    """K1 = sum of the kernels of the points of one step"""
    sym = True

    def __init__(self, it, ker, nb):
        self.r, self.ker, self.nb, self.n = it, ker, nb, 0

    def __call__(self, key, it, names, tgt):
        self.it, self.names = it, [n for n in names]
        return self

    def sums(self, tag):
        return SA.FArr(self.nb, lambda k: X.uf(tag, k))

    def enter(self, loc):
        c = X.ctx()
        self.acc = [n for n in self.names if n in loc and (
            X.const_of(lift(loc[n])) == 0 if not isinstance(
                loc[n], (SA.FArr, type(None), np.ndarray, str)) else
            isinstance(loc[n], SA.FArr))]
        if len(self.acc) != 1:
            raise Unsupported('accumulators of the loop over the kernels')
        v = loc[self.acc[0]]
        if isinstance(v, SA.FArr):
            c.prove_eq('sum of the kernels starts at zero', v.at(I('ks')),
                       lift(0))
        return tuple(loc.get(n, T.Poison(n)) for n in self.names)

    def head(self, loc):
        return tuple(self.sums('before') if n == self.acc[0] else
                     T.Poison(n) for n in self.names)

    def leave(self, loc):
        k = I('ks')
        X.ctx().prove_eq('every point adds its kernel',
                         loc[self.acc[0]].at(k),
                         X.uf('before', k) + self.ker(self.r, k))
        return tuple(self.sums('total') if n == self.acc[0] else T.Poison(n)
                     for n in self.names)

    def __iter__(self):
        c = X.ctx()
        self.n += 1
        c.assume(self.r >= lift(self.it.lo), self.r < lift(self.it.hi))
        yield self.r


class Span:
    """np.arange(lo, hi)"""
    _sym_shape = True

    def __init__(self, lo, hi):
        self.lo, self.hi = lift(lo), lift(hi)
        self.rng = T.SRange(self.lo, self.hi, 1)

    @property
    def shape(self):
        return (self.hi - self.lo,)

    size = property(lambda s: s.hi - s.lo)

    def __add__(self, k):
        return Span(self.lo + k, self.hi + k)
    __radd__ = __add__


class Bunch6:
    def __init__(self):
        self.v = [P(R('m%d' % k), 'm%d' % k, k != 5) for k in range(6)]

    def __getitem__(self, k):
        return self.v[k]

    def __setitem__(self, k, v):
        if k != 5:
            X.ctx().frame_viol('coordinate %r' % k)
        self.v[k] = v


def body_kick(ctx):
    tw = twin(ctx)
    ctx.generic()
    cm = tw.load(CM)
    SA.alloc(ctx)
    nb, N, it = I('n_bins'), I('n_traj'), I('it')
    h, e0, ds = R('h', positive=True), R('e0'), R('ds', positive=True)
    ga, pos = R('gamma'), R('pos')
    ctx.assume(nb >= 2, N >= 2, ga > 1)
    ia, ib = I('ia'), I('ib')
    ctx.assume(ia >= 0, ib > ia, ib < N)
    els = [El(length=R('L%d' % k)) for k in range(3)]
    lat, cur = [([0], 0), ([0, 1], 1), ([0, 1, 2], 2), ([0, 1, 0], 0),
                ([0, 1, 2], 1), ([0, 0], 0)][ctx.choose(6, 'lattice')]
    calc = cm.CSRCalculator()
    calc._n_bins = nb
    calc._lattice_elements = [els[k] for k in lat]
    at = max(j for j, k in enumerate(lat) if k == cur)
    calc._lattice_element_traj_steps = [
        [ds if j == at else R('d%d' % j), R('t%d' % j)]
        for j in range(len(lat))]
    s = sum((els[k].length for k in lat[:at]), lift(0)) + pos
    calc._ref_traj = SA.FArr2(7, N, lambda k, j: X.uf(
        'traj%d' % int(X.const_of(lift(k))), j), 'trajectory', frozen=True)
    log = []

    def argmin(a):
        j = I('j')
        ctx.assume(j >= 0, j < N)
        v, sj = a.at(j), X.uf('traj0', j)
        if X.same(X.norm(v * v), X.norm((sj - s)**2)):
            return ib
        ctx.prove_eq('start of the step', v * v, (sj - s + ds)**2)
        return ia
    ctx.data['argmin'] = argmin
    Q, pdf = R('Q'), lambda k: X.uf('pdf', k)

    def hist(x, bins=None, weights=None):
        log.append('hist')
        ctx.prove_eq('profile along the bunch', x.val, -R('m4'))
        ctx.prove_eq('bins', lift(bins), nb)
        ctx.prove_eq('charge of the profile', weights.val**2, R('q')**2)
        ctx.prove('charge of the profile is positive', weights.val >= 0)
        a = SA.FArr(nb, lambda k: X.uf('hist', k), 'profile')
        a.sum = lambda: Q
        return a, SA.FArr(nb + 1, lambda k: e0 + k * h, 'edges')
    cen = lambda k: e0 + (k + Fr(1, 2)) * h

    def kde(x, bw_method=None, weights=None):
        k = I('kd')
        ctx.assume(k >= 0, k < nb)
        ctx.prove_eq('smoothing at the bins', x.at(k), cen(k))
        ctx.prove_eq('smoothing of the charge', weights.at(k),
                     X.uf('hist', k))

        def ev(y):
            ctx.prove_eq('smooth profile at the bins', y.at(k), cen(k))
            return SA.FArr(nb, pdf)
        return ev
    cm.stats = types.SimpleNamespace(gaussian_kde=kde)
    ker = lambda j, k: X.uf('kernel', j, k)

    def kernel(i, t, n, b, g):
        ctx.prove('kernel of the trajectory', X.boolc(t is calc._ref_traj))
        for a, e in ((n, nb), (b, h), (g, ga)):
            ctx.prove_eq('arguments of the kernel', lift(a), e)
        i = lift(i)
        return SA.FArr(nb, lambda k: ker(i, k))
    calc._calculate_kernel = kernel
    key = CM + ':apply_csr:*'
    rule = KLoop(it, ker, nb)
    ctx.loop_rules[CM + ':CSRCalculator.apply_csr:*'] = rule
    ctx.loop_rules[key] = rule
    ctx.loop_rules[CM + ':*'] = rule

    def conv(a, b, *r):
        if r:
            raise Unsupported('convolve mode')
        log.append('conv')
        k = I('kc')
        ctx.assume(k >= 0, k < nb)
        if X.const_of(X.norm(a.at(k) - pdf(k) * h * Q)) != 0:
            a, b = b, a
        ctx.prove_eq('line charge', a.at(k), pdf(k) * h * Q)
        ctx.prove_eq('mean kernel of the step, head first', b.at(k),
                     X.uf('total', nb - 1 - k) / (ib - ia))
        return SA.FArr(a.n + b.n - 1, lambda q: X.uf('conv', q))

    def interp(x, xp, fp):
        log.append('interp')
        k = I('ki')
        ctx.assume(k >= 0, k < 2 * nb - 1)
        # positions of the values: distance to the first bin in bins
        ctx.prove_eq('position of the particle', x.val - xp.at(k) if
                     isinstance(xp, SA.FArr) else x.val - xp.lo - k,
                     (-R('m4') - cen(lift(0))) / h - k)
        ctx.prove_eq('energy change in one step', fp.at(k),
                     X.uf('conv', k) / h * ds)
        return P(R('dE'), 'dE')

    def arange(*a):
        return Span(*(a if len(a) > 1 else (0, a[0])))
    cm.np = KerNP(ctx, histogram=hist, convolve=conv, interp=interp,
                  arange=arange)
    m = Bunch6()
    calc.apply_csr(m, P(R('q'), 'q', True), ga, els[cur], pos)
    ctx.prove('one kick', X.boolc(log == ['hist', 'conv', 'interp'] and
                                  rule.n == 1))
    ctx.prove_eq('first point of the step', lift(rule.it.lo), ia + 1)
    ctx.prove_eq('last point of the step', lift(rule.it.hi), ib + 1)
    ctx.prove_eq('kick', m.v[5].val, R('m5') + R('dE') * Fr(1, 10**9) / (
        T.np_shim.sqrt(ga**2 - 1) * Fr(511, 10**6)))
    for k in range(5):
        ctx.prove_eq('other coordinates', m.v[k].val, R('m%d' % k))


def Fr(a, b):
    from fractions import Fraction
    return Fraction(a, b)


# ------------------------------------------------------------------ run time
def els(v, rng):
    D, Dp, Q = (real(TE + '.' + k) for k in ('Drift', 'Dipole',
                                             'Quadrupole'))
    o = []
    for k, L, a, n in v['lat']:
        kw = dict(gamma_ref=v['g'], csr_on=True, n_out=n)
        o.append(D(L, **kw) if k == 0 else Dp(L, a, **kw) if k == 1 else
                 Q(L, a * 5, **kw))
    return o


def sample(rng):
    return dict(
        lat=[(rng.choice([0, 1, 1, 2]), rng.choice(
            [.05, .1, .2, .3, .261, .58, .6, round(rng.uniform(.05, .6),
                                                   3)]),
            rng.choice([.1, -.2, .05]), rng.choice([None, None, 1, 2, 7]))
            for _ in range(rng.choice([1, 2, 3]))],
        step=rng.choice([.1, .1, .05, .03, .5]),
        traj=rng.choice([.01, .0037]), nb=rng.choice([20, 33]),
        g=rng.choice([200., 1000.]), seed=rng.randint(0, 10**6),
        old=rng.choice([None, .17, .5, .05]), off=rng.random() < .5)


def mkb(v, rng, n=30):
    B = real('wake_t.particles.particle_bunch.ParticleBunch')
    z = np.zeros(n)
    s = rng.normal(size=(6, n)) * np.array(
        [[1e-5], [1e-5], [2e-5], [1e-2], [1e-2], [v['g'] * 1e-4]])
    s[5] += v['g']
    return B(np.full(n, 1e-11 / 1.6e-19 / n), *[a.copy() for a in s],
             name='b')


def run(calc, lat, v, seed):
    """track a fresh bunch; returns final phase space, kick log, bunch"""
    b = mkb(v, np.random.default_rng(seed))
    log, outs = [], []
    cls = type(calc)
    orig = cls.apply_csr

    def spy(self, m, q, gamma, element, pos):
        m0 = m.copy()
        orig(self, m, q, gamma, element, pos)
        log.append((element, pos, np.abs(m[:5] - m0[:5]).max()))
    cls.apply_csr = spy
    try:
        for e in lat:
            outs.append(e.track(b, show_progress_bar=False))
    finally:
        cls.apply_csr = orig
    return ph(b), log, b, outs


def conc(v):
    calc = real(CM + '.get_csr_calculator')()
    sett = real(CM + '.set_csr_settings')
    reset = real(CM + '.reset_csr_calculator')
    try:
        sett(v['step'], v['traj'], v['nb'])
        reset()
        # a previous, unrelated simulation
        if v['old'] is not None:
            o = real(TE + '.Drift')(v['old'], gamma_ref=v['g'], csr_on=True)
            o.track(mkb(v, np.random.default_rng(1)),
                    show_progress_bar=False)
            if v['off']:
                real(TE + '.Drift')(.1, gamma_ref=v['g']).track(
                    mkb(v, np.random.default_rng(2)),
                    show_progress_bar=False)
            else:
                reset()
        lat = els(v, None)
        s1, log, b, outs = run(calc, lat, v, v['seed'])
        tot = sum(e.length for e in lat)
        approx(b.prop_distance, tot, rtol=1e-9, what='distance tracked')
        for e, o in zip(lat, outs):
            pos = [p for q, p, _ in log if q is e]
            if not pos:
                raise Violation('no CSR kick in an element')
            d = np.diff([0.] + pos)
            approx(d, np.full(len(d), e.length / len(d)), rtol=1e-9,
                   what='CSR steps of an element of length %r' % e.length)
            if d.max() > v['step'] * (1 + 1e-9):
                raise Violation('CSR step %r > %r' % (d.max(), v['step']))
            if len(o) != (e.n_out or 0):
                raise Violation('%d outputs for n_out=%r' % (
                    len(o), e.n_out))
        z0 = 0.
        for e, o in zip(lat, outs):
            for i, q in enumerate(o):
                approx(q.prop_distance, z0 + e.length * (i + 1) / e.n_out,
                       rtol=1e-9, what='position of output %d' % (i + 1))
            z0 += e.length
        if max(x for _, _, x in log) != 0:
            raise Violation('the CSR kick changed more than the energy')
        # trajectory agrees with the path of the bunch
        t = calc._ref_traj
        approx(t[0, -1], tot, rtol=1e-9, what='arc length')
        approx(t[1, -1], b.x_ref, rtol=1e-6, atol=1e-9,
               what='trajectory end')
        approx(np.arctan2(t[4, -1], t[6, -1]), b.theta_ref, rtol=1e-6,
               atol=1e-9, what='trajectory direction')
        approx((t[4:]**2).sum(0), np.ones(t.shape[1]), rtol=1e-9,
               what='tangent length')
        st = np.diff(t[0])
        if (st <= 0).any() or st.max() > v['traj'] * (1 + 1e-9):
            raise Violation('trajectory step %r > %r' % (st.max(),
                                                         v['traj']))
        ch = np.sqrt((np.diff(t[1:4], axis=1)**2).sum(0))
        approx(ch, st, rtol=1e-3, what='distance of trajectory points')
        # the same simulation from a clean state
        reset()
        lat = els(v, None)
        s2 = run(calc, lat, v, v['seed'])[0]
        approx(s1, s2, rtol=1e-12, atol=0, what='result after a previous '
               'simulation')
        # elements used several times behave like separate ones
        if len(lat) > 1:
            reset()
            s3 = run(calc, lat[:1] + lat[1:] + lat[:1], v, v['seed'])[0]
            reset()
            s4 = run(calc, els(v, None) + els(v, None)[:1], v,
                     v['seed'])[0]
            approx(s3, s4, rtol=1e-12, atol=0,
                   what='element appearing twice')
    finally:
        sett()
        reset()


def sample_kick(rng):
    return dict(theta=rng.choice([.3, -.3, .2, .45]), L=1.,
                sig=rng.choice([2e-5, 5e-5, 1e-4]), Q=rng.choice(
                    [1e-11, 1e-10]), g=rng.choice([3000., 6000.]),
                sign=rng.choice([-1, 1]), step=rng.choice([.02, .05, .1]),
                traj=rng.choice([.001, .002, .0008]), nb=rng.choice(
                    [150, 300]),
                shift=rng.choice([1e-4, -3e-3]), pre=rng.choice([.1, 1.5]),
                seed=rng.randint(0, 999))


def steady(z, nb, Q, rho, g):
    """steady-state wake in free space of the smoothed line charge and its
    slope at the particles: -2 N r_e / (3 rho^2)^(1/3) times the integral of
    lambda'(z') (z - z')^(-1/3), over beta gamma"""
    n = len(z)
    hist, ed = np.histogram(z, nb)
    c = (ed[1:] + ed[:-1]) / 2
    bw = n**(-.2) * np.sqrt(np.cov(c, aweights=hist))
    s = np.std(z)
    x = np.linspace(-7 * s, 7 * s, 3001) + z.mean()
    h = x[1] - x[0]
    lam = (hist * np.exp(-(x[:, None] - c)**2 / 2 / bw**2)).sum(1) / (
        hist.sum() * np.sqrt(2 * np.pi) * bw)
    u = np.arange(len(x)) * h
    K = 1.5 * ((u + h)**(2 / 3) - u**(2 / 3))
    W = -2 * Q / 1.602176634e-19 * 2.8179403262e-15 / (
        3 * rho**2)**(1 / 3) * np.convolve(
            np.gradient(lam, h), K)[:len(x)] / np.sqrt(g * g - 1)
    return np.interp(z, x, W), np.interp(z, x, np.gradient(W, h))


def conc_kick(v):
    calc = real(CM + '.get_csr_calculator')()
    sett = real(CM + '.set_csr_settings')
    reset = real(CM + '.reset_csr_calculator')
    Dp, D = real(TE + '.Dipole'), real(TE + '.Drift')
    rng = np.random.default_rng(v['seed'])
    n = 4000
    z = rng.normal(size=n) * v['sig']
    z -= z.mean()
    g = v['g']
    try:
        def mk(theta):
            d = Dp(v['L'], theta, gamma_ref=g, csr_on=True)
            calc.add_lattice_element(d)
            return d

        def kick(theta=v['theta'], f=1., dz=0., pre=None, pos=v['L'],
                 step=v['step'], traj=v['traj']):
            sett(step * (1 + 1e-12), traj, v['nb'])
            reset()
            if pre:
                calc.add_lattice_element(D(pre, gamma_ref=g, csr_on=True))
            d = mk(theta)
            m = rng.normal(size=(6, n))
            m[4] = -(z + dz)
            m0 = m.copy()
            calc.apply_csr(m, f * v['sign'] * np.full(n, v['Q'] / n), g, d,
                           pos)
            approx(m[:5], m0[:5], rtol=0, atol=0,
                   what='coordinates other than the energy')
            return (m[5] - m0[5]) / calc.get_csr_step(d)
        k = kick()
        # steady state: power of coherent radiation of a Gaussian bunch
        rho = v['L'] / abs(v['theta'])
        s = np.std(z)
        loss = -.3505 * v['Q'] / 1.602176634e-19 * 2.8179403262e-15 / (
            rho**(2 / 3) * s**(4 / 3)) / np.sqrt(g * g - 1)
        approx(k.mean(), loss, rtol=.06,
               what='energy loss by coherent radiation')
        sc = np.abs(k).max()
        W, dW = steady(z, v['nb'], v['Q'], rho, g)
        if np.abs(W - k).max() > .03 * sc:
            raise Violation('wake along the bunch differs from the steady '
                            'state by %.3g of its maximum' % (
                                np.abs(W - k).max() / sc))
        approx(k.mean(), W.mean(), rtol=.01, what='mean energy loss')
        sh = ((k - W) * dW).sum() / (dW**2).sum() / (np.ptp(z) / v['nb'])
        if abs(sh) > .6:
            raise Violation('the wake is %.2g bins off the bunch' % sh)
        if k[z > 1.5 * s].mean() < 0:
            raise Violation('the head is not accelerated')
        tol = 1e-6 * sc
        approx(kick(f=2.), 2 * k, rtol=1e-9, atol=tol,
               what='kick for twice the charge')
        approx(kick(theta=-v['theta']), k, rtol=1e-9, atol=tol,
               what='kick in the mirrored bend')
        approx(kick(dz=v['shift']), k, rtol=1e-4, atol=1e-4 * sc,
               what='kick of the shifted bunch')
        # the far past of the trajectory does not matter; skipping it
        # (long trajectories) neither
        approx(kick(pre=v['pre']), k, rtol=.02, atol=.02 * sc,
               what='kick behind a long drift')
        # the straight line before the first element is a drift
        for p in (.1, .3):
            a = kick(pos=p * v['L'], pre=.1)
            approx(kick(pos=p * v['L']), a, rtol=.02,
                   atol=.02 * np.abs(a).max(),
                   what='kick with and without a drift in front')
        # a step is the sum of its halves, also where the kick builds up
        S = calc.get_csr_step(mk(v['theta']))
        nt = int(np.ceil(S / 2 / v['traj']))
        t = S / 2 / nt * (1 + 1e-9)
        for p in (S, 2 * S, min(5 * S, v['L'])):
            if p > v['L'] * (1 + 1e-9):
                continue
            full = kick(pos=p, step=S, traj=t) * S
            h = kick(pos=p, step=S / 2, traj=t) * S / 2 + kick(
                pos=p - S / 2, step=S / 2, traj=t) * S / 2
            approx(h, full, rtol=1e-5, atol=1e-5 * np.abs(full).max() + 2e-15,
                   what='kicks of two half steps')
        # entrance: the interaction builds up
        e = kick(pos=v['L'] * .05)
        if np.abs(e).max() > 1.3 * sc:
            raise Violation('kick at the entrance exceeds the steady state')
        # early discarding only saves time
        est = type(calc)._estimate_start_index
        a = kick(pre=v['pre'])
        type(calc)._estimate_start_index = lambda *q, **w: 0
        try:
            b = kick(pre=v['pre'])
        finally:
            type(calc)._estimate_start_index = est
        approx(a, b, rtol=1e-5, atol=1e-5 * sc,
               what='kick with and without skipping early points')
    finally:
        sett()
        reset()


def sample_ref(rng):
    return dict(lat=[(rng.choice([0, 1, 1]), round(rng.uniform(.03, .5), 5),
                      rng.choice([.3, -.2, .05, -.4]))
                     for _ in range(rng.choice([1, 1, 2, 3]))],
                g=rng.choice([15., 80., 600., 4000.]),
                sig=rng.choice([1e-5, 6e-5, 3e-4, 1e-3]),
                Q=rng.choice([-1e-10, 1e-11]), nb=rng.choice([20, 47, 90]),
                step=round(rng.uniform(.02, .2), 4),
                traj=round(rng.uniform(.0015, .006), 5),
                many=rng.random() < .4, seed=rng.randint(0, 10**6))


def ref_kernel(T_, i, nb, h, g):
    """kernel of the line charge at the trajectory point i by quadrature of
    the retarded force along the trajectory and, before its start, along the
    straight line"""
    be = np.sqrt(1 - 1 / g**2)
    s = T_[0, :i] - T_[0, i]
    d = T_[1:4, i][:, None] - T_[1:4, :i]
    D = np.sqrt((d**2).sum(0))
    w = s + be * D

    def force(s_, d_, t_, w_):
        R_ = np.sqrt((d_**2).sum(0))
        n = d_ / R_
        to = T_[4:, i][:, None]
        return (be * (n * (t_ - to)).sum(0) - be**2 * (
            1 - (t_ * to).sum(0)) - 1 / g**2) / R_ - (
                1 - be * (n * t_).sum(0)) / w_ / g**2
    f = force(s, d, T_[4:, :i], w)
    tz = np.empty(i)
    tz[:-1] = (f[1:] + f[:-1]) / 2 * np.diff(s)
    tz[-1] = -f[-1] * s[-1] / 2
    KS = np.cumsum(tz[::-1])[::-1]
    x = np.arange(-nb, 0) * h
    out = np.interp(x, w, KS)
    j = x < w[0]
    if j.any():
        # straight line before the start, variable q = R + (winf - s)
        e1, r0 = T_[4:, 0], T_[1:4, 0]
        rv = T_[1:4, i] - r0
        b = rv @ e1
        A = np.sqrt(max(((b * e1 - rv)**2).sum(), 0))
        winf = T_[0, 0] - T_[0, i] + b
        s0 = w.min() * 0 + s[0]

        def qof(ww):
            y = ww - winf
            R_ = g**2 * (np.sqrt(y**2 + (A / g)**2) - be * y)
            return R_ + winf - (ww - be * R_)
        edges = np.append(x[j], w[0])
        lq = np.log(qof(edges))
        gx, gw = np.polynomial.legendre.leggauss(24)
        part = np.empty(len(edges) - 1)
        for k in range(len(part)):
            l_ = (lq[k] + lq[k + 1]) / 2 + (lq[k + 1] - lq[k]) / 2 * gx
            q = np.exp(l_)
            yy = (q - A**2 / q) / 2
            R_ = (q + A**2 / q) / 2
            sq = winf - yy
            dd = rv[:, None] - np.outer(e1, sq - s0)
            ff = force(sq, dd, e1[:, None], sq + be * R_)
            # ds = -(q + A^2/q)/2 dlq
            part[k] = (gw * ff * -R_).sum() * (lq[k + 1] - lq[k]) / 2
        out[j] = KS[0] + np.cumsum(part[::-1])[::-1]
    F = np.append(out, [0, 0])
    return np.diff(F, 2) / h * 1e-7 * C**2


def ref_points(lat, v, extra):
    """points of the trajectory; where the length of an element is a multiple
    of the step, rounding may add one point"""
    T_ = [np.array([[0, 0, 0, 0, 0, 0, 1.]]).T]
    th, L0 = 0., 0.
    for (kind, L, a), more in zip(lat, extra):
        dc = L / np.ceil(L / v['step']) if L > v['step'] else L
        dt = dc / np.ceil(dc / v['traj'])
        n = int(np.round(L / dt)) + more
        l = np.arange(1, n + 1) * L / n
        x0, z0 = T_[-1][1, -1], T_[-1][3, -1]
        if kind:
            r = L / a
            x = x0 + r * (np.cos(th) - np.cos(th + l / r))
            z = z0 + r * (np.sin(th + l / r) - np.sin(th))
            an = th + l / r
            th += a
        else:
            x, z, an = x0 + l * np.sin(th), z0 + l * np.cos(th), th + 0 * l
        T_.append(np.array([L0 + l, x, 0 * l, z, np.sin(an), 0 * l,
                            np.cos(an)]))
        L0 += L
    return np.concatenate(T_, axis=1)


def conc_ref(v):
    """kick at a random position of a random beamline"""
    calc = real(CM + '.get_csr_calculator')()
    sett = real(CM + '.set_csr_settings')
    reset = real(CM + '.reset_csr_calculator')
    Dp, D = real(TE + '.Dipole'), real(TE + '.Drift')
    rng = np.random.default_rng(v['seed'])
    g, nb = v['g'], v['nb']
    lat = list(v['lat'])
    if v['many']:
        # more than 1000 points
        lat = [(0, 1000 * v['traj'] + .2, 0)] + lat
    try:
        sett(v['step'], v['traj'], nb)
        reset()
        els_ = []
        for kind, L, a in lat:
            e = Dp(L, a, gamma_ref=g, csr_on=True) if kind else D(
                L, gamma_ref=g, csr_on=True)
            calc.add_lattice_element(e)
            els_.append(e)
        k = int(rng.integers(len(lat)))
        if v['many']:
            k = len(lat) - 1
        L = lat[k][1]
        m = int(np.ceil(L / v['step'])) if L > v['step'] else 1
        dc = L / m
        pos = dc * int(rng.integers(1, m + 1))
        s = sum(l[1] for l in lat[:k]) + pos
        N = 200
        z = rng.normal(size=N) * v['sig']
        q = np.full(N, v['Q'] / N) * rng.uniform(.5, 1.5, N)
        M = rng.normal(size=(6, N))
        M[4] = -z
        M0 = M.copy()
        calc.apply_csr(M, q.copy(), g, els_[k], pos)
    finally:
        sett()
        reset()
    hist, ed = np.histogram(z, nb, weights=np.abs(q))
    h = ed[1] - ed[0]
    c = (ed[1:] + ed[:-1]) / 2
    bw = N**(-.2) * np.sqrt(np.cov(c, aweights=hist))
    lam = (hist * np.exp(-(c[:, None] - c)**2 / 2 / bw**2)).sum(1) / (
        np.sqrt(2 * np.pi) * bw)
    if not np.array_equal(M[:5], M0[:5]):
        raise Violation('coordinates other than the energy')
    got = M[5] - M0[5]
    worst = None
    for tie, *extra in itertools.product((1e-9, -1e-9),
                                         *[(0, 1)] * len(lat)):
        T_ = ref_points(lat, v, extra)
        i1 = int(np.abs(T_[0] - s + tie).argmin())
        i0 = int(np.abs(T_[0] - (s - dc) + tie).argmin())
        K = np.mean([ref_kernel(T_, i, nb, h, g)
                     for i in range(i0 + 1, i1 + 1)], axis=0)
        conv = np.convolve(lam, K[::-1]) * dc
        dE = np.interp((z - c[0]) / h, np.arange(len(conv)), conv)
        unit = 1e-9 / (np.sqrt(g**2 - 1) * .511e-3)
        d, sc = np.abs(got - dE * unit).max(), np.abs(conv).max() * unit
        if d <= 1e-5 * sc + 1e-13:
            return
        if worst is None or d < worst[0]:
            worst = d, sc
    raise Violation('kick differs from the integral of the retarded force '
                    'by %.3g of %.3g' % worst)


def contracts():
    return [
        Contract('CSR steps tile the element', [
            TE + '.TMElement._determine_steps',
            CM + '.CSRCalculator._set_element_steps',
            CM + '.CSRCalculator.get_csr_step'], body_steps, sample, conc,
            n=(40, 500), min_obligations=14),
        Contract('reset', [CM + '.CSRCalculator.clear'], body_clear,
                 min_obligations=6),
        Contract('reference trajectory, any number of points', [
            CM + '.CSRCalculator._calculate_trajectory'], body_traj_any,
            sample, conc, n=(10, 60), min_obligations=30, weak=True),
        Contract('reference trajectory', [
            CM + '.CSRCalculator._calculate_trajectory'], body_traj,
            min_obligations=100,
            bounded='up to 3 new trajectory points'),
        Contract('kernel of the line before the trajectory', [
            CM + '.CSRCalculator._calculate_kernel_short_range'],
            body_short, sample_ref, conc_ref, n=(12, 150), weak=True,
            min_obligations=15),
        Contract('kernel along the trajectory', [
            CM + '.CSRCalculator._calculate_kernel_long_range'],
            body_long, sample_ref, conc_ref, n=(12, 150), weak=True,
            min_obligations=15),
        Contract('early part of the trajectory', [
            CM + '.CSRCalculator._estimate_start_index'],
            body_start, sample_ref, conc_ref, n=(12, 150), weak=True,
            min_obligations=2),
        Contract('kernel of the line charge', [
            CM + '.CSRCalculator._calculate_kernel'],
            body_kernel, sample_ref, conc_ref, n=(12, 150), weak=True,
            min_obligations=10),
        Contract('one CSR kick', [
            CM + '.CSRCalculator.apply_csr'],
            body_kick, sample_ref, conc_ref, n=(12, 150), weak=True,
            min_obligations=10, bounded='beamlines of up to 3 elements; '
            'any bunch, trajectory and kernel'),
        Contract('CSR kick', [
            CM + '.CSRCalculator.apply_csr',
            CM + '.CSRCalculator._calculate_kernel',
            CM + '.CSRCalculator._calculate_kernel_long_range',
            CM + '.CSRCalculator._calculate_kernel_short_range',
            CM + '.CSRCalculator._estimate_start_index'], None,
            sample_kick, conc_kick, n=(12, 150)),
    ]
