"""Azimuthal magnetic field of the plasma column (quasi-static model)."""
from .push_common import *
from .. import symarr as SA
from ..symarr import FArr
from .c16 import (BX, CASES, Column, MeshColumn, clamp, close, column, mk_col, s_col,
                  small_column, mesh, particles_ref)
from fractions import Fraction as Fr

BM = BX + 'b_theta'
ASSUMPTIONS = ['0 < r of the plasma particles, all different; idx sorts r '
               '(numpy.argsort); 1 + psi > 0',
               'linear interpolation between the mid points to the '
               'neighbours and |b_theta| <= 3 (documented)']


def terms(r, q, pr, g, psi, drp, dxp, b0, na):
    """source terms of the jump conditions (Eq. 26 of the paper)"""
    a = 1 + psi
    A = q / (r * a)
    B = q / r * (-g * drp / a**2 + pr**2 * drp / a**3 + pr * dxp / a**2 +
                 pr**2 / (r * a**2) + b0 / a + na / (2 * a**2))
    C = q / r * (pr**2 / a**2 - (g / a - 1))
    return A, B, C


def body_coeff(fn, nmax=None):
    def body(ctx):
        tw = twin(ctx)
        M = tw.load(BM)
        ctx.opaque = 0
        C = small_column(ctx, nmax or (3 if fn.endswith('axis') else 2))
        if C.n == 3:
            for j in range(3):
                C.psi[j] = lift(0)
                for nm in ('pr', 'drp', 'dxp', 'na'):
                    getattr(C, nm)[j] = lift(0)
        for j in range(C.n):
            ctx.assume(C.psi[j] > -1)
        f = getattr(M, fn, None)
        if f is None:
            return
        ctx.max_while = 6
        a, b, a0 = f(C.r, C.pr, C.q, C.gamma, C.psi, C.drp, C.dxp, C.b0,
                     C.na, np.array(C.idx))
        ap, bp = lift(a0), lift(0)
        for j in C.idx:
            A, B, Cj = terms(*[getattr(C, n)[j] for n in (
                'r', 'q', 'pr', 'gamma', 'psi', 'drp', 'dxp', 'b0', 'na')])
            r = C.r[j]
            aj, bj = lift(a[j]), lift(b[j])
            left, right = ap * r + bp / r, aj * r + bj / r
            ctx.prove_eq('jump of the field at a particle', right - left, Cj)
            ctx.prove_eq('jump of the curl at a particle', 2 * (aj - ap),
                         A * (left + right) / 2 + B)
            ap, bp = aj, bj
        ctx.prove_eq('no growing field outside of the plasma', ap, lift(0))
    return body


# ------------------------------------- coefficients, any number of particles
class Coeff:
    """calculate_ai_bi_from_axis for an arbitrary particle k of n.

    The jump conditions at particle k are v_k = M_k v_(k-1) + c_k for
    v = (a, b).  H = (K, U) solves the homogeneous recurrence from (1, 0),
    S = (T, P) the full one from (0, 0); so v_k(a0) = S_k + a0 H_k.
    Invariants:
    first loop     K_im1, U_im1 = H_(k-1) at particle k;
    while          T_im1, P_im1 = v_(s-1)(a_0) for s = i_start; the
                   coefficients of the particles before s are v(a_0);
                   s = 0 and a_0 = 0, or a_0 = -T_n/K_n;
    inner loop 1   T_im1, P_im1 = v_(k-1)(a_0) at particle k;
    inner loop 2   leaves v(a_0 + a_0_diff) in the arrays up to the particle
                   before the one at which it stops; it never stops at s.
    """
    sym = True
    vars = {'K_im1': ('H', 0), 'U_im1': ('H', 1), 'T_im1': ('v', 0),
            'P_im1': ('v', 1)}

    def __init__(self, C):
        self.C, self.ctx, self.nw, self.nf = C, C.ctx, 0, 0
        self.a0 = None
        C.ctx.loop_rules[C.func + ':*'] = self
        C.ctx.loop_rules[C.func + ':while0'] = self
        self.memo = {}

    # -- specification
    def step(self, *a):
        return self.wstep(*a)

    def coeffs(self, k):
        C = self.C
        A, B, D = terms(*[C.of(n, k) for n in (
            'r', 'q', 'pr', 'gamma', 'psi', 'drp', 'dxp', 'b0', 'na')])
        r = C.r(k)
        M = ((1 + A * r / 2, A / (2 * r)), (-A * r**3 / 2, 1 - A * r / 2))
        c = (B / 2 + A * D / 4, r * (D - B * r / 2 - A * D * r / 4))
        return M, c

    def before(self, nm, k):
        """solution before particle k"""
        if X.const_of(X.norm(lift(k))) == 0:
            return (lift(1), lift(0)) if nm == 'H' else (lift(0), lift(0))
        return tuple(X.uf(nm + str(d), X.norm(lift(k))) for d in (0, 1))

    def after(self, nm, k):
        M, c = self.coeffs(k)
        x, y = self.before(nm, k)
        return tuple(M[d][0] * x + M[d][1] * y + (c[d] if nm == 'S' else 0)
                     for d in (0, 1))

    def v(self, when, k, a0):
        h, s = [getattr(self, when)(n, k) for n in ('H', 'S')]
        return tuple(s[d] + a0 * h[d] for d in (0, 1))

    def root(self):
        n = self.C.last
        return -self.after('S', n)[0] / self.after('H', n)[0]

    def value(self, n, when, k):
        kind, d = self.vars[n]
        if kind == 'H':
            return getattr(self, when)('H', k)[d]
        return self.v(when, k, self.a0)[d]

    # -- while loop
    def wstep(self, names, loc):
        C, ctx = self.C, self.ctx
        if set(names) != {'i_start', 'T_im1', 'P_im1', 'a_0'} or not all(
                isinstance(loc.get(n), FArr) for n in 'TPKU'):
            raise Unsupported('state of the while loop')
        s, a0 = lift(loc['i_start']), lift(loc['a_0'])
        self.nw += 1
        if self.nw == 1:
            ctx.prove('invariant on entry: no particle done, a_0 = 0',
                      X.and_(X.eq(s, lift(0)), X.eq(a0, lift(0)),
                             X.eq(lift(loc['T_im1']), lift(0)),
                             X.eq(lift(loc['P_im1']), lift(0))))
            self.T, self.P = loc['T'], loc['P']
            if ctx.choose(2, 'first iteration') == 0:
                self.s, self.a0 = lift(0), lift(0)
                return None
            self.s, self.a0 = I('s'), self.root()
            ctx.assume(self.s >= 1, self.s <= C.n - 1)
            self.k_done = bool(C.k < self.s)
            for d, n in ((0, 'T'), (1, 'P')):
                arr = loc[n]
                arr.f = lambda i, n=n: X.uf('head' + n, X.norm(i))
                if self.k_done:
                    # coefficients that are ready
                    arr[C.i(C.k)] = self.v('after', C.k, self.a0)[d]
            x, y = self.v('before', self.s, self.a0)
            v = dict(i_start=self.s, T_im1=x, P_im1=y, a_0=self.a0)
            return tuple(v[n] for n in names)
        # end of an iteration that stopped at k + 1
        ctx.prove('invariant preserved: next particle', X.and_(
            X.eq(s, C.k + 1), s > self.s))
        self.final(a0, 'invariant preserved: ')
        x, y = self.v('after', C.k, a0)
        ctx.prove_eq('invariant preserved: T_im1', lift(loc['T_im1']), x)
        ctx.prove_eq('invariant preserved: P_im1', lift(loc['P_im1']), y)
        raise X.PathAbort('loop closed')

    def final(self, a0, pre=''):
        C, ctx = self.C, self.ctx
        ctx.prove_eq(pre + 'a_0', a0, self.root())
        for d, arr in ((0, self.T), (1, self.P)):
            ctx.prove_eq(pre + 'coefficients of the particle',
                         arr.at(C.i(C.k)), self.v('after', C.k, a0)[d])

    # -- loops over the particles
    def __call__(self, key, it, names, tgt):
        o = PLoop(self, key, it, names, self.nf)
        if X.const_of(lift(it.step)) != 1 or not X.same(
                lift(it.hi), self.C.n):
            raise Unsupported('loop over part of the particles')
        if self.nf > 2 or (self.nf == 0) != (self.nw == 0):
            raise Unsupported('loop structure')
        self.nf += 1
        return o


class PLoop:
    sym = True

    def __init__(self, co, key, it, names, no):
        self.co, self.key, self.names, self.no = co, key, names, no
        self.lo = lift(it.lo)
        self.cur = None

    def enter(self, loc):
        co = self.co
        self.carried = []
        if self.no < 2:
            self.carried = [n for n in self.names if n in co.vars]
            if len(self.carried) != 2:
                raise Unsupported('accumulators of ' + self.key)
            for n in self.carried:
                co.ctx.prove_eq('invariant on entry: ' + n, lift(loc[n]),
                                co.value(n, 'before', self.lo))
        elif not X.same(self.lo, co.s):
            raise Unsupported('start of ' + self.key)
        self.init = {n: loc[n] for n in self.names if n in loc and
                     n not in self.carried}
        return tuple(loc.get(n, T.Poison(n)) for n in self.names)

    def head(self, loc):
        self.close(loc)
        self.cur = self.r
        v = {n: self.co.value(n, 'before', self.r) for n in self.carried}
        return tuple(v[n] if n in v else T.Poison(n) for n in self.names)

    def close(self, loc):
        r, self.cur = self.cur, None
        if r is None:
            return
        for n in self.carried:
            self.co.ctx.prove_eq('invariant preserved: ' + n, lift(loc[n]),
                                 self.co.value(n, 'after', r))

    def leave(self, loc):
        co = self.co
        if self.no < 2:
            self.close(loc)
            if self.state != 'done':
                raise Unsupported('break in ' + self.key)
            return tuple(loc[n] if n in self.carried else T.Poison(n)
                         for n in self.names)
        if self.state == 'first':
            co.ctx.prove('the particle at the start is always done',
                         X.boolc(False))
            raise X.PathAbort('loop closed')
        if self.state == 'done':
            # only a break changes what is set before the loop
            return tuple(self.init.get(n, T.Poison(n)) for n in self.names)
        if self.state != 'stop':
            raise X.PathAbort('excluded')
        return tuple(loc[n] for n in self.names)

    def __iter__(self):
        co, C, ctx = self.co, self.co.C, self.co.ctx
        self.state = 'run'
        reps = [C.k] + ([C.last] if C.case in ('first', 'middle') else [])
        reps = [r for r in reps if X.const_of(self.lo) == 0 or
                bool(r >= self.lo)]
        if self.no < 2:
            for r in reps:
                self.r = r
                yield r
            self.state = 'done'
            return
        c = ctx.choose(3, 'end of the loop')
        if c == 0:
            self.state, self.r = 'first', self.lo
            yield self.lo
            raise X.PathAbort('loop closed')
        if c == 1:
            # stops at k + 1
            if C.case in ('last', 'only') or not bool(C.k >= self.lo):
                raise X.PathAbort('no such particle')
            self.r = C.k
            yield self.r
            self.state, self.r = 'stop', lift(C.k + 1)
            yield self.r
            raise X.PathAbort('does not stop here')
        for r in reps:
            self.r = r
            yield r
        self.state = 'done'


def body_coeff_any(ctx):
    tw = twin(ctx)
    SA.alloc(ctx)
    M = tw.load(BM)
    C = Column(ctx, BM + ':calculate_ai_bi_from_axis')
    if C.case == 'only':
        ctx.loop_rules.clear()
        return body_coeff('calculate_ai_bi_from_axis', 1)(ctx)
    if C.case in ('first', 'middle'):
        i, j = C.i(C.k + 1), C.i(C.k)
        ctx.data.setdefault('distinct', []).append((i, j))
        ctx.assume(X.not_(X.eq(i, j)))
    # any criterion for the loss of precision
    M.abs = lambda x: X.uf('abs', lift(x))
    co = Coeff(C)
    for k in [C.k, C.last] + [C.k + 1] * (C.case in ('first', 'middle')):
        ctx.assume(C.of('psi', k) > -1, C.r(k) > 0)
    ctx.assume(X.not_(X.eq(co.after('H', C.last)[0], lift(0))))
    a, b, a0 = M.calculate_ai_bi_from_axis(*[C.arr(n) for n in (
        'r', 'pr', 'q', 'gamma', 'psi', 'drp', 'dxp', 'b0', 'na')], C.idx)
    if a is not co.T or b is not co.P:
        raise Unsupported('result')
    co.final(lift(a0))
    ctx.prove_eq('no growing field outside of the plasma',
                 a.at(C.i(C.last)), lift(0))
    # lemma: v_(k-1) -> v_k are the jump conditions
    A, B, D = terms(*[C.of(n, C.k) for n in (
        'r', 'q', 'pr', 'gamma', 'psi', 'drp', 'dxp', 'b0', 'na')])
    z = R('a_any')
    (ap, bp), (an, bn) = co.v('before', C.k, z), co.v('after', C.k, z)
    r = C.r(C.k)
    left, right = ap * r + bp / r, an * r + bn / r
    ctx.prove_eq('jump of the field at a particle', right - left, D)
    ctx.prove_eq('jump of the curl at a particle', 2 * (an - ap),
                 A * (left + right) / 2 + B)


def run_at(C):
    tw = twin(C.ctx)
    M = tw.load(BM)
    C.dp = R('dr_p')
    C.ctx.assume(C.dp > 0)
    C.o = C.arr('o', False)
    C.co = lambda *a: (C.arr('a'), C.arr('b'), R('a0'))
    for n in ('calculate_ai_bi_from_axis', 'calculate_ai_bi_from_edge'):
        setattr(M, n, C.co)
    M.calculate_b_theta_at_particles(
        *[C.arr(n) for n in ('r', 'pr', 'q', 'gamma', 'psi', 'drp', 'dxp',
                             'b0', 'na')], C.idx, C.dp, C.o)


def body_at(ctx):
    """field at an arbitrary particle of arbitrarily many"""
    C = column(ctx, BM + ':calculate_b_theta_at_particles', run_at, 'bt')
    run_at(C)
    k = C.k
    rk = C.r(k)

    def fld(j, x):
        return C.of('a', j) * x + C.of('b', j) / x
    if X.const_of(lift(k)) == 0:
        rl = bl = lift(0)
    else:
        rl = (C.r(k - 1) + rk) / 2
        bl = fld(k - 1, rl)
    if X.same(k, C.last):
        # the code samples the field a quarter of the spacing outside
        rr = rk + C.dp / 4
    else:
        rr = (rk + C.r(k + 1)) / 2
    br = fld(k, rr)
    v = bl + (br - bl) * (rk - rl) / (rr - rl)
    ctx.prove_eq('field at the particle', C.o.at(C.i(k)), clamp(v, -3, 3))


def run_mesh(C):
    M = twin(C.ctx).load(BM)
    SA.alloc(C.ctx)
    C.co = lambda *a: (C.arr('a'), C.arr('b'), R('a0'))
    for n in ('calculate_ai_bi_from_axis', 'calculate_ai_bi_from_edge'):
        setattr(M, n, C.co)
    C.mc = MeshColumn(C)
    C.row, C.nz = I('row'), I('nz')
    C.ctx.assume(C.row >= 0, C.row < C.nz)
    C.o = SA.FArr2(C.nz + 4, C.mc.m + 4, lambda p, q: X.uf(
        'o', X.norm(p), X.norm(q)), 'b_theta')
    M.calculate_b_theta(
        C.mc.fld, *[C.arr(n) for n in ('r', 'pr', 'q', 'gamma', 'psi', 'drp',
                                       'dxp', 'b0', 'na')],
        C.idx, C.o, C.row)


def body_mesh_any(ctx):
    """field at an arbitrary mesh point, arbitrarily many particles"""
    C = column(ctx, BM + ':calculate_b_theta', run_mesh, 'bt_mesh')
    run_mesh(C)
    mc, k = C.mc, C.mc.kk
    v = R('a0') * mc.x if X.const_of(k) == -1 else \
        C.of('a', k) * mc.x + C.of('b', k) / mc.x
    ctx.prove_eq('field at the mesh point', C.o.at(C.row + 2, mc.j + 2), v)
    p, q = I('p'), I('q')
    ctx.assume(p >= 0, p < C.nz + 4, q >= 0, q < mc.m + 4,
               X.not_(X.eq(p, C.row + 2)))
    ctx.prove_eq('other slices unchanged', C.o.at(p, q), X.uf('o', p, q))


def body_mesh(ctx):
    tw = twin(ctx)
    M = tw.load(BM)
    C = small_column(ctx, 3)
    x = mesh(ctx, 2)
    m = len(x)
    a, b = np.empty((2, C.n), dtype=object)
    for j in range(C.n):
        a[j], b[j] = R('a%d' % j), R('b%d' % j)
    a0 = R('a_0')
    for n in ('calculate_ai_bi_from_axis', 'calculate_ai_bi_from_edge'):
        setattr(M, n, lambda *q: (a, b, a0))
    row = ctx.choose(2, 'slice')
    g = np.empty((6, m + 4), dtype=object)
    for p in range(6):
        for q in range(m + 4):
            g[p, q] = R('g%d_%d' % (p, q))
    old = g.copy()
    M.calculate_b_theta(x, C.r, C.pr, C.q, C.gamma, C.psi, C.drp, C.dxp,
                        C.b0, C.na, np.array(C.idx), g, row)
    for j in range(m):
        v = a0 * x[j]
        for i in C.idx:
            if bool(C.r[i] < x[j]):
                v = a[i] * x[j] + b[i] / x[j]
        ctx.prove_eq('field on the mesh', lift(g[row + 2, 2 + j]), v)
    ctx.prove('other slices unchanged', X.boolc(all(
        X.same(lift(g[p, q]), old[p, q]) for p in range(6)
        for q in range(m + 4)
        if p != row + 2 or not 2 <= q < m + 2)))


# ---------------------------------------------------------------- run time
def c_bt(v):
    from wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis import \
        b_theta as m
    d = mk_col(v)
    n, r, q, pr = d['n'], d['r'], d['q'], d['pr']
    if np.min(np.diff(np.sort(np.append(r, 0.)))) < 1e-4:
        raise Skip
    g = d['rng']
    (psi, drp, dxp), _, _ = particles_ref(d)
    psi = np.maximum(psi, -.8)
    a2 = g.uniform(0, 2, n)
    gam = (1 + pr**2 + a2 + (1 + psi)**2) / (2 * (1 + psi))
    b0, na = g.normal(size=(2, n)) * .3
    o = np.argsort(r)
    args = (r, pr, q, gam, psi, drp, dxp, b0, na)
    keep = [x.copy() for x in args]
    A, B, Cj = terms(*[x[o] for x in (r, q, pr, gam, psi, drp, dxp, b0, na)])
    rs = r[o]
    # reference: linear system for a_1..a_N, b_1..b_N, a_0
    N = 2 * n + 1
    L, rhs = np.zeros((N, N)), np.zeros(N)

    def ia(k):
        return k + 1 if k >= 0 else 0

    def ib(k):
        return n + 1 + k
    for k in range(n):
        x = rs[k]
        e = 2 * k
        for s, kk in ((1, k), (-1, k - 1)):
            L[e, ia(kk)] += s * x
            L[e + 1, ia(kk)] += 2 * s - A[k] / 2 * x
            if kk >= 0:
                L[e, ib(kk)] += s / x
                L[e + 1, ib(kk)] += -A[k] / 2 / x
        rhs[e], rhs[e + 1] = Cj[k], B[k]
    L[N - 1, ia(n - 1)] = 1.
    sol = np.linalg.solve(L, rhs)
    cond = np.linalg.cond(L)
    if cond > 1e9:
        raise Skip
    tol = max(1e-8, cond * 1e-13)
    a_r, b_r = sol[1:n + 1], sol[n + 1:]
    for nm in ('calculate_ai_bi_from_axis', 'calculate_ai_bi_from_edge'):
        f = getattr(m, nm, None)
        if f is None:
            continue
        a, b, a0 = f(*args, o)
        x = np.concatenate([rs[1:], [rs[-1] + d['dp']]])
        close('coefficients of the magnetic field (%s)' % nm,
              a[o] * x + b[o] / x, a_r * x + b_r / x, tol)
        close('coefficients of the magnetic field (%s)' % nm,
              a[o] * rs + b[o] / rs, a_r * rs + b_r / rs, tol)
        close('field on axis (%s)' % nm, [a0], [sol[0]], tol * 10)
    out = np.full(n, np.nan)
    m.calculate_b_theta_at_particles(*args, o, d['dp'], out)
    for x, y in zip(args, keep):
        if not np.array_equal(x, y):
            raise Violation('plasma particles unchanged', '')
    ref = np.zeros(n)
    aa, bb = np.append(sol[0], a_r), np.append(0., b_r)
    lim = []
    for k in range(n):
        rl = (rs[k] + rs[k - 1]) / 2 if k else 0.
        rr = (rs[k] + rs[k + 1]) / 2 if k < n - 1 else rs[k] + d['dp'] / 4
        bl = aa[k] * rl + bb[k] / rl if k else 0.
        br = aa[k + 1] * rr + bb[k + 1] / rr
        lim.append(bl + (br - bl) * (rs[k] - rl) / (rr - rl))
        ref[o[k]] = min(max(lim[-1], -3.), 3.)
    sc = np.max(np.abs(lim))
    close('magnetic field at the particles', out, ref,
          tol * max(1., sc))
    M = v['m']
    xs = np.sort(g.uniform(.01, 1.6, M)) * d['rm']
    if np.min(np.abs(r[:, None] - xs[None])) < 1e-9:
        raise Skip
    k = int(g.randint(0, 2))
    G = g.uniform(-1, 1, (6, M + 4))
    old = G.copy()
    m.calculate_b_theta(xs, *args, o, G, k)
    j = np.searchsorted(rs, xs)
    close('magnetic field on the mesh', G[k + 2, 2:-2],
          aa[j] * xs + bb[j] / xs, tol * 10)
    old[k + 2, 2:-2] = G[k + 2, 2:-2]
    if not np.array_equal(old, G):
        raise Violation('other slices unchanged', '')


def c_rest(v):
    """a plasma at rest without sources has no magnetic field"""
    from wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis import \
        b_theta as m
    d = mk_col(v)
    n = d['n']
    z = np.zeros(n)
    out = np.full(n, 9.)
    o = np.argsort(d['r'])
    m.calculate_b_theta_at_particles(d['r'], z, d['q'], z + 1, z, z, z, z, z,
                                     o, d['dp'], out)
    if np.max(np.abs(out)) > 1e-12:
        raise Violation('plasma at rest has no magnetic field', repr(out))


def contracts():
    fs = BM + '.calculate_b_theta_at_particles'
    ax = BM + '.calculate_ai_bi_from_axis'
    return [
        Contract('jump conditions at the particles, any number', [ax],
                 body_coeff_any, s_col, c_bt, n=(60, 600),
                 min_obligations=20, weak=True, max_paths=3000),
        Contract('jump conditions at the particles', [ax],
                 body_coeff('calculate_ai_bi_from_axis'), s_col, c_bt,
                 n=(250, 4000), min_obligations=20, max_paths=3000,
                 bounded='2 particles, all positions and momenta; 3 '
                 'particles at rest, all positions, charges and fields',
                 weak=True),
        Contract('jump conditions at the particles, solved from the edge',
                 [BM + '.calculate_ai_bi_from_edge'],
                 body_coeff('calculate_ai_bi_from_edge'),
                 max_paths=3000, weak=True,
                 bounded='up to 2 particles, all positions and momenta'),
        Contract('field at the particles, any number', [fs], body_at, s_col,
                 c_bt, n=(150, 2000), min_obligations=20, weak=True),
        Contract('field on the mesh, any number of particles',
                 [BM + '.calculate_b_theta'], body_mesh_any, s_col, c_bt,
                 n=(60, 600), min_obligations=30, weak=True,
                 max_paths=3000),
        Contract('field on the mesh', [BM + '.calculate_b_theta'], body_mesh,
                 s_col, c_bt, n=(150, 2000), min_obligations=30,
                 bounded='up to 3 particles and 2 mesh points, all positions',
                 max_paths=4000),
        Contract('plasma at rest', [fs, ax], None, s_col, c_rest,
                 n=(60, 500)),
    ]
