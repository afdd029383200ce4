"""Wakefield potential of the plasma column (quasi-static model)."""
import itertools
from fractions import Fraction as Fr
from .push_common import *
from .. import symarr as SA
from ..symarr import FArr, Fold

ASSUMPTIONS = ['0 < r of the plasma particles, all different; idx sorts r '
               '(numpy.argsort)', 'numpy.log',
               'linear interpolation between the mid points to the '
               'neighbours (documented scheme); limits psi >= -0.9 and '
               '|dxi_psi| <= 3 (documented)']
BX = 'wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis.'
PM = BX + 'psi_and_derivatives'


def log(x):
    return X.uf('log', lift(x))


def ion(r, rm, pc):
    """potential of the ion column: integral of (charge inside r) / r"""
    if bool(r <= rm):
        return r * r / 4 + pc * r**4 / 16
    return rm * rm / 4 + pc * rm**4 / 16 + (rm * rm / 2 + pc * rm**4 / 4) * (
        log(r) - log(rm))


def dion(r, rm, pc):
    if bool(r <= rm):
        return r / 2 + pc * r**3 / 4
    return (rm * rm / 2 + pc * rm**4 / 4) / r


def body_eqs(ctx):
    tw = twin(ctx)
    M = tw.load(PM)
    r, s1, s2, rm, pc = R('r'), R('s1'), R('s2'), R('rm'), R('pc')
    ctx.assume(r > 0, rm > 0)
    ctx.prove_eq('potential', M.delta_psi_eq(r, s1, s2, rm, pc),
                 s1 * log(r) - s2 - ion(r, rm, pc))
    ctx.prove_eq('radial derivative of the potential',
                 M.dr_psi_eq(r, s1, rm, pc), s1 / r - dion(r, rm, pc))


CASES = ['only', 'first', 'middle', 'last']


class Column:
    """Sorted column of n plasma particles and an arbitrary particle k of it.
    Loops over the particles in sorted order are executed for k and for the
    last particle, other loops for the indices of these two."""

    def __init__(self, ctx, func, info=None, probe=False, pair=False,
                 on_break=None):
        self.ctx, self.func, self.probe = ctx, func, probe
        self.sorted, self.known = info or (set(), {})
        ctx.opaque = 8
        self.n = n = I('n')
        self.active = None
        if probe:
            self.case = 'middle'
        else:
            self.case = CASES[ctx.choose(4, 'case')]
        self.k = k = {'only': lift(0), 'first': lift(0), 'middle': I('k'),
                      'last': n - 1}[self.case]
        if self.case == 'only':
            ctx.assume(X.eq(n, lift(1)))
            self.n = n = lift(1)
        else:
            ctx.assume(n >= 2)
        if self.case == 'middle':
            ctx.assume(k >= 1, k <= n - 2)
        self.last = lift(n - 1)
        self.reps = [k] if self.case in ('only', 'last') else [k, n - 1]
        if pair and self.case in ('middle', 'last'):
            self.reps = [k - 1] + self.reps
        self.idx = FArr(n, self._idx, 'idx', frozen=True)
        for a, b in itertools.combinations([self.i(v) for v in self.reps],
                                           2):
            ctx.data.setdefault('distinct', []).append((a, b))
            ctx.assume(X.not_(X.eq(a, b)))
        ns = [k]
        if self.case in ('middle', 'last'):
            ns = [k - 1] + ns
        if self.case in ('first', 'middle'):
            ns = ns + [k + 1]
        for j in ns + [self.last] + ([self.last - 1]
                                     if self.case != 'only' else []):
            ctx.assume(self.r(j) > 0)
        for x, y in zip(ns, ns[1:]):
            ctx.assume(self.r(x) < self.r(y))
        if self.case != 'only':
            ctx.assume(self.r(self.last - 1) < self.r(self.last))
        self.fold = ctx.loop_rules[func + ':*'] = Fold(self._reps, {
            kk: 'const' if nm == 'const' else (
                lambda q, nm=nm: self.S(nm, q), lambda q, nm=nm:
                self.sums[nm](q)) for kk, nm in self.known.items()},
            on_break)

    sums = {}

    def S(self, nm, k):
        """prefix sum over the particles before k"""
        k = X.norm(lift(k))
        if X.const_of(k) == 0:
            return lift(0)
        return X.uf(nm, k)

    def total(self, nm):
        return self.S(nm, self.last) + self.sums[nm](self.last)

    def i(self, k):
        if self.case == 'only':
            return lift(0)
        return X.uf('idx', X.norm(lift(k)), sort='Int')

    def _idx(self, k):
        if self.active is not None:
            self.sorted.add(self.active)
        e = self.i(k)
        self.ctx.assume(e >= 0, e < self.n)
        return e

    def arr(self, nm, frozen=True):
        return FArr(self.n, lambda i: X.uf(nm, X.norm(i)), nm, frozen=frozen)

    def of(self, nm, k):
        return X.uf(nm, self.i(k))

    def r(self, k):
        return self.of('r', k)

    def _reps(self, f):
        if self.probe:
            self.active = f.key
            yield self.k if self.probe == 1 or f.key in self.sorted \
                else self.i(self.k)
            self.active = None
            if self.probe == 2 and f.key in self.sorted:
                yield self.n - 1
            return
        for k in self.reps:
            yield k if f.key in self.sorted else self.i(k)


INFO = {}


def column(ctx, func, run, tag, **kw):
    """Column for the verification of `func`; the accumulators of its loops
    are matched with the prefix sums of the specification in a first, arbitrary
    iteration.  run(C) executes the function and sets C.sums."""
    if tag not in INFO:
        from .. import engine as G
        cur = X._Ctx.cur
        found = {}
        srt = set()

        def probe(level):
            def body(c):
                C = Column(c, func, (srt, {}), probe=level, **kw)
                c.quiet += 1
                try:
                    run(C)
                except X.Unsupported:
                    pass
                for key, l in C.fold.found.items():
                    for rr, inc, v0 in l:
                        if not X.rat(inc)[0]:
                            found[key] = 'const'
                            continue
                        if found.get(key) == 'const':
                            del found[key]
                        for nm, g in C.sums.items():
                            if X.same(rr, C.k) and X.const_of(v0) == 0 and \
                                    not X.rat(X.norm(inc - g(rr)))[0]:
                                found[key] = nm
            return body
        try:
            for lv in (1, 2):
                ex = G.Explorer(timeout=500, max_paths=12)
                ex.run(probe(lv))
        finally:
            X.reset()
            X._Ctx.cur = cur
        INFO[tag] = (srt, found)
    return Column(ctx, func, INFO[tag], **kw)


# ---------------------------------------------------- potential at particles
def run_psi(C):
    tw = twin(C.ctx)
    M = tw.load(PM)
    C.rm, C.pc, C.dp = [R(n) for n in ('r_max', 'pc', 'dr_p')]
    # contract of the two helpers (proved in 'potential of rings and ions')
    M.delta_psi_eq = lambda *a: X.uf('D', *[X.norm(lift(v)) for v in a])
    M.dr_psi_eq = lambda *a: X.uf('dD', *[X.norm(lift(v)) for v in a])
    C.M = M
    C.ctx.assume(C.rm > 0, C.dp > 0)
    C.psi, C.drp, C.dxp = [C.arr(n, False) for n in ('o1', 'o2', 'o3')]
    C.sums = {
        'S1': lambda k: C.of('q', k),
        'S2': lambda k: C.of('q', k) * log(C.r(k)),
        'S3': lambda k: C.of('q', k) * C.of('pr', k) / (
            C.r(k) * (1 + C.psi.at(C.i(k))))}
    M.calculate_psi_and_derivatives_at_particles(
        C.arr('r'), C.arr('pr'), C.arr('q'), C.idx, C.rm, C.dp, C.pc,
        C.psi, C.drp, C.dxp)


def clamp(v, lo, hi):
    if hi is not None and bool(v > hi):
        return lift(hi)
    if lo is not None and bool(v < lo):
        return lift(lo)
    return v


def spec_psi(C, k):
    """potential, radial derivative and derivative along the path at the
    k-th particle"""
    rm, pc = C.rm, C.pc
    rk = C.r(k)

    def pot(r, s1, s2):
        return C.M.delta_psi_eq(r, s1, s2, rm, pc)
    s = [C.S(n, k) for n in ('S1', 'S2', 'S3')]
    t = [a + C.sums[n](k) for a, n in zip(s, ('S1', 'S2', 'S3'))]
    if X.const_of(lift(k)) == 0:
        rl = pl = dl = xl = lift(0)
    else:
        rl = (C.r(k - 1) + rk) / 2
        pl = pot(rl, s[0], s[1])
        dl = C.M.dr_psi_eq(rl, s[0], rm, pc)
        xl = -s[2]
    if X.same(k, C.last):
        rr = rk + C.dp / 2
    else:
        rr = (rk + C.r(k + 1)) / 2
    pr_ = pot(rr, t[0], t[1])
    dr_ = C.M.dr_psi_eq(rr, t[0], rm, pc)
    w = (rk - rl) / (rr - rl)
    # zero potential at the edge of the plasma or behind the last particle
    R_ = C.r(C.last) + C.dp / 2
    out = not bool(R_ <= rm)
    if bool(rm > R_):
        R_ = rm
    S1, S2, S3 = [C.total(n) for n in ('S1', 'S2', 'S3')]
    psi = pl + w * (pr_ - pl) - pot(R_, S1, S2)
    dx = xl + w * (-t[2] - xl) + S3
    if out:
        pN = C.psi.at(C.i(C.last))
        dx = dx - (S1 - rm**2 / 2 - pc * rm**4 / 4) / R_ * C.of(
            'pr', C.last) / (1 + pN)
    return psi, dl + w * (dr_ - dl), dx


def body_particles(ctx):
    C = column(ctx, PM + ':calculate_psi_and_derivatives_at_particles',
               run_psi, 'psi')
    run_psi(C)
    i = C.i(C.k)
    psi, dr_, dx = spec_psi(C, C.k)
    ctx.prove_eq('potential at the particle', C.psi.at(i),
                 clamp(psi, Fr(-9, 10), None))
    ctx.prove_eq('radial derivative at the particle', C.drp.at(i), dr_)
    ctx.prove_eq('derivative along the path at the particle', C.dxp.at(i),
                 clamp(dx, -3, 3))


# ------------------------------------------------------------------- mesh
def small_column(ctx, nmax):
    """up to nmax particles in arbitrary storage order"""
    n = 1 + ctx.choose(nmax, 'n_part')
    perms = list(itertools.permutations(range(n)))
    idx = list(perms[ctx.choose(len(perms), 'order')])
    C = type('Small', (), {})()
    C.n, C.idx = n, idx
    for nm in ('r', 'q', 'pr', 'gamma', 'psi', 'drp', 'dxp', 'b0', 'na'):
        a = np.empty(n, dtype=object)
        for j in range(n):
            a[j] = R('%s%d' % (nm, j))
        setattr(C, nm, a)
    prev = 0
    for j in idx:
        ctx.assume(C.r[j] > prev)
        prev = C.r[j]
    return C


def mesh(ctx, nmax):
    m = 1 + ctx.choose(nmax, 'n_points')
    a = np.empty(m, dtype=object)
    prev = 0
    for j in range(m):
        a[j] = R('x%d' % j)
        ctx.assume(a[j] > prev)
        prev = a[j]
    return a


def body_mesh(ctx):
    tw = twin(ctx)
    M = tw.load(PM)
    C = small_column(ctx, 3)
    x = mesh(ctx, 2)
    rm, pc = R('r_max'), R('pc')
    ctx.assume(rm > 0)
    m = len(x)
    row = ctx.choose(2, 'slice')
    psi = np.empty((2 + 4, m + 4), dtype=object)
    psi[:] = lift(0)
    psi[:] = [[R('g%d_%d' % (p, q)) if p != row + 2 else lift(0)
               for q in range(m + 4)] for p in range(6)]
    old = psi.copy()
    r0, q0 = C.r.copy(), C.q.copy()
    M.calculate_psi(x, C.r, C.q, np.array(C.idx), rm, pc, psi, row)
    R_ = C.r[C.idx[-1]]
    if not bool(R_ > rm):
        R_ = rm
    edge = sum(C.q[j] * (log(R_) - log(C.r[j])) for j in C.idx) - ion(
        R_, rm, pc)
    for j in range(m):
        s = lift(0)
        for i in C.idx:
            if bool(C.r[i] < x[j]):
                s = s + C.q[i] * (log(x[j]) - log(C.r[i]))
        ctx.prove_eq('potential on the mesh', lift(psi[row + 2][2 + j]),
                     s - ion(x[j], rm, pc) - edge)
    ctx.prove('other slices unchanged', X.boolc(all(
        X.same(lift(psi[p][q]), old[p][q]) for p in range(6)
        for q in range(m + 4) if p != row + 2)))
    ctx.prove('particles unchanged', X.boolc(all(
        X.same(lift(C.r[i]), r0[i]) and X.same(lift(C.q[i]), q0[i])
        for i in range(C.n))))


# --------------------------------------------- mesh, any number of particles
class MeshColumn:
    """A mesh of m points with increasing radii, an arbitrary point j of it,
    and the particle of the column C before it (its index in sorted order,
    -1 if all the particles lie outside).  Rules for the loops of a function
    that goes through the mesh:
    - over the points: executed for j; a counter that is 0 before the loop
      starts from any value between 0 and that particle (it can only have
      been moved by points closer to the axis), and is proved to end there;
    - inside of it, over the particles: continues at any particle before the
      point (proved), and stops at the next one (proved);
    - other loops over the particles: prefix sums (Fold)."""

    def __init__(self, C):
        self.C, ctx = C, C.ctx
        self.m, self.j = I('m'), I('j')
        ctx.assume(self.j >= 0, self.j < self.m)
        self.x = X.uf('x', self.j)
        self.fld = FArr(self.m, lambda q: X.uf('x', X.norm(q)), 'r_fld',
                        frozen=True)
        ctx.assume(self.x > 0)
        self.kk = lift(C.k)
        self.inside = False
        if not C.probe:
            if ctx.choose(2, 'all particles outside'):
                if C.case in ('middle', 'last'):
                    raise X.PathAbort('same as first')
                self.kk = lift(-1)
                ctx.assume(self.x < C.r(0))
            else:
                ctx.assume(self.x > C.r(C.k))
                if C.case in ('first', 'middle'):
                    ctx.assume(self.x < C.r(C.k + 1))
        self.top = lift(0) if X.const_of(self.kk) == -1 else self.kk
        ctx.loop_rules[C.func + ':*'] = self

    def __call__(self, key, it, names, tgt):
        if self.C.probe and X.same(lift(it.hi), self.m):
            raise Unsupported('probe')
        if X.const_of(lift(it.step)) != 1:
            raise Unsupported('loop step in ' + key)
        if self.inside:
            if not X.same(lift(it.hi), self.C.n):
                raise Unsupported('search over part of the particles')
            return Search(self, key, it, names)
        if X.same(lift(it.hi), self.m) and X.const_of(lift(it.lo)) == 0:
            return Points(self, key, names)
        return self.C.fold(key, it, names, tgt)


class Points:
    sym = True

    def __init__(self, mc, key, names):
        self.mc, self.key, self.names = mc, key, names

    def enter(self, loc):
        self.cnt = [n for n in self.names if not isinstance(
            loc.get(n), (T.Poison, bool)) and n in loc and isinstance(
                loc[n], (int, float, X.E)) and X.const_of(lift(loc[n])) == 0]
        return self.poison()

    def poison(self, *a):
        return tuple(T.Poison(n) for n in self.names)

    def head(self, loc):
        ctx, mc = self.mc.C.ctx, self.mc
        v = {}
        for n in self.cnt:
            v[n] = I('start_' + n) if X.const_of(mc.top) != 0 else lift(0)
            ctx.assume(v[n] >= 0, v[n] <= mc.top)
        return tuple(v.get(n) if n in v else T.Poison(n)
                     for n in self.names)

    def leave(self, loc):
        ctx = self.mc.C.ctx
        if not self.done:
            raise Unsupported('break in loop ' + self.key)
        for n in self.cnt:
            if not isinstance(loc[n], (int, X.E)):
                raise Unsupported('counter of ' + self.key)
            e = lift(loc[n])
            ctx.prove('invariant preserved: %s starts before the next point'
                      % n, X.and_(e >= 0, e <= self.mc.top))
        return self.poison()

    def __iter__(self):
        self.done = False
        self.mc.inside = True
        yield self.mc.j
        self.mc.inside = False
        self.done = True


class Search:
    sym = True

    def __init__(self, mc, key, it, names):
        self.mc, self.key, self.it, self.names = mc, key, it, names

    def enter(self, loc):
        self.init = tuple(loc.get(n, T.Poison(n)) for n in self.names)
        return self.init

    def head(self, loc):
        if self.first:
            return self.init
        if self.prev:
            return tuple(loc[n] for n in self.names)
        return tuple(T.Poison(n) for n in self.names)

    def leave(self, loc):
        ctx = self.mc.C.ctx
        if self.state == 'inside':
            ctx.prove('search does not stop at a particle before the point',
                      X.boolc(False))
            raise X.PathAbort('search closed')
        if self.state == 'before':
            raise X.PathAbort('excluded by the other branch')
        return tuple(loc[n] for n in self.names)

    def __iter__(self):
        mc = self.mc
        C, ctx = mc.C, mc.C.ctx
        lo, k = lift(self.it.lo), mc.kk
        self.first = self.prev = False
        none = X.const_of(k) == -1
        if not none and ctx.choose(2, 'search'):
            q = I('any')
            ctx.assume(q >= lo, q <= k, C.r(q) <= C.r(k))
            self.state = 'inside'
            yield q
            raise X.PathAbort('search closed')
        self.state = 'before'
        if bool(lo <= k):
            yield k
            self.prev = True
        else:
            self.first = True
            ctx.prove('search does not start after the point',
                      X.eq(lo, k + 1))
        if C.case in ('last', 'only') and not none:
            self.state = 'done'
            return
        self.state = 'stop'
        yield k + 1
        ctx.prove('search stops at the first particle after the point',
                  X.boolc(False))
        raise X.PathAbort('search closed')


def run_mesh(C):
    M = twin(C.ctx).load(PM)
    SA.alloc(C.ctx)
    C.rm, C.pc = R('r_max'), R('pc')
    M.delta_psi_eq = lambda *a: X.uf('D', *[X.norm(lift(v)) for v in a])
    C.M = M
    C.ctx.assume(C.rm > 0)
    C.sums = {'S1': lambda k: C.of('q', k),
              'S2': lambda k: C.of('q', k) * log(C.r(k))}
    C.mc = MeshColumn(C)
    C.row, C.nz = I('row'), I('nz')
    C.ctx.assume(C.row >= 0, C.row < C.nz)
    C.psi = SA.FArr2(C.nz + 4, C.mc.m + 4, lambda p, q: X.uf(
        'o', X.norm(p), X.norm(q)), 'psi')
    M.calculate_psi(C.mc.fld, C.arr('r'), C.arr('q'), C.idx, C.rm, C.pc,
                    C.psi, C.row)


def body_mesh_any(ctx):
    C = column(ctx, PM + ':calculate_psi', run_mesh, 'psi_mesh')
    run_mesh(C)
    mc = C.mc
    R_ = C.r(C.last)
    if not bool(R_ > C.rm):
        R_ = C.rm
    edge = C.M.delta_psi_eq(R_, C.total('S1'), C.total('S2'), C.rm, C.pc)
    s1 = s2 = lift(0)
    if X.const_of(mc.kk) != -1:
        s1, s2 = [C.S(n, mc.kk) + C.sums[n](mc.kk) for n in ('S1', 'S2')]
    ctx.prove_eq('potential at the mesh point',
                 C.psi.at(C.row + 2, mc.j + 2),
                 C.M.delta_psi_eq(mc.x, s1, s2, C.rm, C.pc) - edge)
    p, q = I('p'), I('q')
    ctx.assume(p >= 0, p < C.nz + 4, q >= 0, q < mc.m + 4,
               X.not_(X.eq(p, C.row + 2)))
    ctx.prove_eq('other slices unchanged', C.psi.at(p, q), X.uf('o', p, q))


# ---------------------------------------------------------------- run time
def s_col(rng):
    return dict(seed=rng.randrange(10**6), n=rng.choice(
        [1, 2, 3, 5, 12, 40]), out=rng.choice([0, 0, 1, 2]),
        pc=rng.choice([0., 0., .5, -.05, 2.]), m=rng.choice([1, 4, 20]),
        shuffle=rng.random() < .6, cross=rng.random() < .5)


def mk_col(v):
    """plasma column as after some evolution: displaced, possibly reordered
    and possibly partly outside of the original radius"""
    r = np.random.RandomState(v['seed'])
    rm, n, pc = r.uniform(.5, 3), v['n'], v['pc']
    dp = rm / n
    r0 = (np.arange(n) + .5) * dp
    q = dp * r0 + dp * pc * r0**3
    x = r0 * (1 + .2 * r.uniform(-1, 1)) + dp * r.uniform(-.4, .4, n)
    if v['cross']:
        x = r0 + rm * r.uniform(-.3, .3, n)
    if v['out']:
        k = r.randint(1, n + 1)
        x[-k:] += r.uniform(.1, 1.) * v['out'] * rm
    x = np.abs(x) + 1e-3
    pr = r.normal(size=n) * .3
    if v['shuffle']:
        p = r.permutation(n)
        x, q, pr = x[p], q[p], pr[p]
    return dict(r=x, q=q, pr=pr, rm=rm, dp=dp, pc=pc, n=n, rng=r)


def ion_n(r, rm, pc):
    r = np.asarray(r, dtype=float)
    a = np.minimum(r, rm)
    return a**2 / 4 + pc * a**4 / 16 + (rm**2 / 2 + pc * rm**4 / 4) * np.log(
        np.maximum(r, rm) / rm)


def dion_n(r, rm, pc):
    a = np.minimum(r, rm)
    return (a**2 / 2 + pc * a**4 / 4) / r


def enclosed(x, r, q, strict=True):
    """sum of q log(x/r) and q over the particles inside x"""
    m = r < x if strict else r <= x
    return np.sum(q[m] * np.log(x / r[m])), np.sum(q[m])


def psi_ref(d, x, R_):
    return enclosed(x, d['r'], d['q'])[0] - ion_n(x, d['rm'], d['pc']) - (
        enclosed(R_, d['r'], d['q'], False)[0] - ion_n(R_, d['rm'], d['pc']))


def particles_ref(d):
    r, q, pr, rm, pc, dp = [d[k] for k in ('r', 'q', 'pr', 'rm', 'pc', 'dp')]
    o = np.argsort(r)
    rs = r[o]
    n = len(r)
    left = np.concatenate([[0.], (rs[1:] + rs[:-1]) / 2])
    right = np.concatenate([(rs[1:] + rs[:-1]) / 2, [rs[-1] + dp / 2]])
    R_ = max(right[-1], rm)
    edge = enclosed(R_, r, q)[0] - ion_n(R_, rm, pc)

    def f(x):
        if x == 0:
            return 0., 0.
        e = enclosed(x, r, q)
        return e[0] - ion_n(x, rm, pc), e[1] / x - dion_n(x, rm, pc)
    psi, drp, dxp = np.zeros((3, n))
    w = (rs - left) / (right - left)
    for k in range(n):
        a, b = f(left[k]), f(right[k])
        psi[k] = a[0] + w[k] * (b[0] - a[0]) - edge
        drp[k] = a[1] + w[k] * (b[1] - a[1])
    un = psi.copy()
    psi = np.maximum(psi, -.9)
    v = pr[o] / (1 + psi)                  # d r / d(-xi)
    t = q[o] * v / rs
    c = np.concatenate([[0.], np.cumsum(t)])
    # d psi / d(-xi) at fixed radius between the particles
    dx = -(c[:-1] + w * (c[1:] - c[:-1])) + c[-1]
    dx[0] = -(w[0] * c[1]) + c[-1]
    if right[-1] > rm:
        dx -= (q.sum() - rm**2 / 2 - pc * rm**4 / 4) / right[-1] * v[-1]
    dxp = np.clip(dx, -3, 3)
    out = [np.zeros(n) for _ in range(3)]
    for a, b in zip(out, (psi, drp, dxp)):
        a[o] = b
    return out, un[np.argsort(o)], dx[np.argsort(o)]


def close(name, a, b, tol=1e-9, what=''):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    sc = np.max(np.abs(b)) + 1e-3
    if a.shape != b.shape or not np.all(np.abs(a - b) <= tol * sc):
        k = int(np.argmax(~(np.abs(a - b) <= tol * sc))) \
            if a.shape == b.shape else -1
        raise Violation(name, '%s: element %d: %r, expected %r' % (
            what, k, a.ravel()[k], b.ravel()[k]))


def c_psi(v):
    from wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis import \
        psi_and_derivatives as m
    d = mk_col(v)
    n = d['n']
    if np.min(np.diff(np.sort(np.append(d['r'], 0.)))) < 1e-6:
        raise Skip
    o = np.argsort(d['r'])
    a = [np.full(n, np.nan) for _ in range(3)]
    ins = [d['r'].copy(), d['pr'].copy(), d['q'].copy()]
    m.calculate_psi_and_derivatives_at_particles(
        ins[0], ins[1], ins[2], o, d['rm'], d['dp'], d['pc'], *a)
    for nm, x, y in zip('r pr q'.split(), ins, (d['r'], d['pr'], d['q'])):
        if not np.array_equal(x, y):
            raise Violation('particles unchanged', nm)
    ref, un, dx = particles_ref(d)
    if np.any(np.abs(un + .9) < 1e-9) or np.any(np.abs(np.abs(dx) - 3) < 1e-9):
        raise Skip
    for nm, x, y in zip(('potential', 'radial derivative',
                         'longitudinal derivative'), a, ref):
        close(nm + ' at the particles', x, y)
    # mesh
    r = d['rng']
    M = v['m']
    xs = np.sort(r.uniform(.01, 1.6, M)) * d['rm']
    if r.rand() < .5:
        xs = (np.arange(M) + .5) * d['rm'] / M
    g = r.uniform(-1, 1, (5, M + 4))
    k = r.randint(3) if False else int(r.randint(0, 1 + 0) if M == 1
                                       else r.randint(0, 1 + 0))
    g[k + 2] = 0.
    old = g.copy()
    m.calculate_psi(xs, d['r'], d['q'], o, d['rm'], d['pc'], g, k)
    R_ = max(d['r'].max(), d['rm'])
    if np.min(np.abs(d['r'][:, None] - xs[None])) < 1e-9:
        raise Skip
    close('potential on the mesh', g[k + 2, 2:-2],
          [psi_ref(d, x, R_) for x in xs])
    old[k + 2] = g[k + 2]
    if not np.array_equal(old, g):
        raise Violation('other slices unchanged', 'slice %d' % k)


def c_neutral(v):
    """A neutral column: the potential vanishes at and beyond the edge; a
    column at rest and undisturbed has (almost) no field."""
    from wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis import \
        psi_and_derivatives as m
    r = np.random.RandomState(v['seed'])
    n = max(v['n'], 5)
    rm = r.uniform(.5, 4)
    dp = rm / n
    x = (np.arange(n) + .5) * dp
    q = dp * x
    o = np.argsort(x)
    xs = np.concatenate([(np.arange(n)) * dp + dp, rm + dp * np.arange(1, 4)])
    g = np.zeros((5, len(xs) + 4))
    m.calculate_psi(xs, x, q, o, rm, 0., g, 0)
    p = g[2, 2:-2]
    if np.max(np.abs(p)) > .2 * dp**2 + 1e-9:
        raise Violation('undisturbed plasma has no potential',
                        'psi=%r for particle spacing %r' % (
                            np.max(np.abs(p)), dp))
    if np.max(np.abs(p[n - 1:])) > 1e-9:
        raise Violation('potential vanishes beyond the edge', repr(p[n - 1:]))
    a = [np.zeros(n) for _ in range(3)]
    m.calculate_psi_and_derivatives_at_particles(
        x, np.zeros(n), q, o, rm, dp, 0., *a)
    if np.max(np.abs(a[0])) > .5 * dp**2 or np.max(np.abs(a[1])) > \
            .75 * dp or np.max(np.abs(a[2])) > 1e-12:
        raise Violation('undisturbed plasma has no potential',
                        'at the particles: %r' % [np.max(np.abs(b))
                                                  for b in a])


def contracts():
    fp = PM + '.calculate_psi_and_derivatives_at_particles'
    return [
        Contract('potential of rings and ions', [
            PM + '.delta_psi_eq', PM + '.dr_psi_eq'], body_eqs,
            min_obligations=4),
        Contract('potential and derivatives at the particles, any number',
                 [fp], body_particles, s_col, c_psi, n=(250, 4000),
                 min_obligations=30, weak=True, max_paths=3000),
        Contract('potential on the mesh, any number of particles',
                 [PM + '.calculate_psi'], body_mesh_any, s_col, c_psi,
                 n=(100, 1000), min_obligations=30, weak=True,
                 max_paths=3000),
        Contract('potential on the mesh', [PM + '.calculate_psi'], body_mesh,
                 s_col, c_psi, n=(250, 4000), min_obligations=30,
                 bounded='up to 3 particles and 2 mesh points, all positions',
                 max_paths=4000),
        Contract('undisturbed plasma', [PM + '.calculate_psi', fp], None,
                 s_col, c_neutral, n=(60, 500)),
    ]
