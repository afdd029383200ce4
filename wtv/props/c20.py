"""Cold fluid wakefield model (one-dimensional slices)."""
import types
from .push_common import *
from .. import symarr as SA
from .. import twin as T
from ..symarr import FArr, FArr2
from ..core import Known
from .c16 import close
from .c19 import ge
from fractions import Fraction as Fr

CF = 'wake_t.physics_models.plasma_wakefields.qs_cold_fluid_1x3p'
CL = CF + '.NonLinearColdFluidWakefield'
ASSUMPTIONS = ['1 + psi > 0 (wave breaking is outside the model)',
               'gather and deposition by their contracts (C01, C03)',
               'numpy.gradient, numpy.cumsum as documented']


class Induct:
    """Loop rule for a loop that fills arrays: a first execution of the body
    for an arbitrary iteration k tells which arrays it changes, the second
    one starts from arbitrary values of these arrays.  After the loop they
    hold arbitrary values again; `step` relates the rows."""
    sym = True

    def __init__(self, k, step):
        self.k, self.step, self.ran = k, step, False

    def __call__(self, key, it, names, tgt):
        self.it, self.names = it, names
        return self

    def enter(self, loc):
        self.arrs = []
        for n, v in loc.items():
            if type(v) in (FArr, FArr2) and not any(
                    v is a for a in self.arrs):
                self.arrs.append(v)
        return tuple(T.Poison(n) for n in self.names)

    def leave(self, loc):
        return tuple(T.Poison(n) for n in self.names)

    def __iter__(self):
        c = X.ctx()
        lo, hi = lift(self.it.lo), lift(self.it.hi)
        k = self.k
        if X.const_of(lift(self.it.step)) != 1:
            raise Unsupported('loop step')
        if not bool(X.and_(k >= lo, k < hi)):
            return
        before = [a.f for a in self.arrs]
        yield k
        self.mod = [(a, f) for a, f in zip(self.arrs, before)
                    if a.f is not f]
        for m, (a, f) in enumerate(self.mod):
            a.f = (lambda m: lambda i, j: X.uf('U%d' % m, i, j))(m)
        start = [(a, a.f) for a, f in self.mod]
        yield k
        self.ran = True
        self.step(k, self.mod, [a.f for a, f in self.mod])
        for a, f in start:
            a.f = f


class NP:
    """numpy of the twin with a recording cumsum"""

    def __init__(self, ctx, env, L):
        self.env, self.L, self.sums = env, L, []

    def __getattr__(self, n):
        return getattr(T.np_shim, n)

    def abs(self, x):
        return self.L() if x is self.env else T.np_shim.abs(x)
    absolute = abs

    def cumsum(self, x, axis=None):
        if axis not in (1, -1):
            raise Unsupported('cumsum axis')
        s = types.SimpleNamespace(x=x, v=lift(0), at=[])

        def f(i, j):
            s.at.append((i, j))
            return s.v
        self.sums.append(s)
        return FArr2(x.n, x.m, f)


def rk4(u1, u2, h, rhs):
    """classical Runge-Kutta step of u1' = u2, u2' = rhs(stage, u1)"""
    k = [(u2, rhs(0, u1))]
    k.append((u2 + h / 2 * k[0][1], rhs(1, u1 + h / 2 * k[0][0])))
    k.append((u2 + h / 2 * k[1][1], rhs(2, u1 + h / 2 * k[1][0])))
    k.append((u2 + h * k[2][1], rhs(3, u1 + h * k[2][0])))
    return [u + h / 6 * (k[0][m] + 2 * k[1][m] + 2 * k[2][m] + k[3][m])
            for m, u in enumerate((u1, u2))]


def body_fluid(part):
    return lambda ctx: body(ctx, part)


def body(ctx, part):
    tw = twin(ctx)
    ctx.data['split'] = True
    ctx.generic()
    M = tw.load(CF)
    sdv, E0v = R('s_d', positive=True), R('E_0', positive=True)

    def of(v):
        def f(n):
            ctx.prove_eq('plasma density in 1/cm^3', lift(n), n_p / 10**6)
            return v
        return f
    # wave breaking field m c^2 / (e s_d); the density is uniform in a slice
    M.ge = types.SimpleNamespace(
        plasma_skin_depth=of(sdv),
        plasma_cold_non_relativisct_wave_breaking_field=of(E0v))
    SA.alloc(ctx)
    laser = bool(ctx.choose(2, 'laser'))
    lin = laser and bool(ctx.choose(2, 'linear polarisation'))
    beam = bool(ctx.choose(2, 'beam wakefields'))
    nx, nr = I('n_xi'), I('n_r')
    ctx.assume(nx >= 3, nr >= 3)
    n_p = R('n_p', positive=True)
    x0, dxi, dr0 = R('xi_min'), R('dxi', positive=True), R('dr',
                                                          positive=True)
    sd, E0 = sdv, E0v
    c, e, pi = R('ct_c', positive=True), R('ct_e', positive=True), X.var(
        'pi', positive=True)
    dz, dr = dxi / sd, dr0 / sd
    env = object()
    L = lambda i, j: X.uf('abs_a', i, j)
    M.np = NP(ctx, env, lambda: FArr2(nx, nr, L, 'a_env'))
    s2 = T.np_shim.sqrt(2)
    amp = (lambda i, j: L(i, j) / s2) if lin else L
    if not laser:
        amp = lambda i, j: lift(0)
    bunches = [types.SimpleNamespace(
        q_species=R('qs%d' % k), n=k,
        **{n: P(R('b%d_%s' % (k, n)), n, True)
           for n in ('x', 'y', 'xi', 'w')})
        for k in range(ctx.choose(3 if part == 'sources' else 2, 'bunches'))]
    deps = []

    def dep(z, x, y, w, zm, rm, nz, nr_, dz_, dr_, arr, p_shape='cubic',
            use_ruyten=False, **k):
        m = len(deps)
        deps.append((z.val, x.val, y.val, w.val, zm, rm, nz, nr_, dz_, dr_,
                     p_shape, use_ruyten))
        f = arr.f
        arr.f = lambda i, j: f(i, j) + X.uf('dep%d' % m, i, j)
    M.deposit_3d_distribution = dep

    def gather(fld, zmin, zmax, rmin, rmax, dz_, dr_, x, y, z):
        """exact at the nodes and linear between them (C03)"""
        for n, a, b in (('xi_min', zmin, x0 / sd),
                        ('xi_max', zmax, (x0 + (nx - 1) * dxi) / sd),
                        ('r_min', rmin, dr / 2),
                        ('r_max', rmax, (nr - Fr(1, 2)) * dr),
                        ('dxi', dz_, dz), ('dr', dr_, dr)):
            ctx.prove_eq('gather of the laser: ' + n, lift(a), lift(b))
        j, i = I('gj'), I('gi')
        ctx.assume(j >= 0, j < nr, i >= 0, i < nx)
        ctx.prove_eq('gather of the laser: field', fld.at(i + 2, j + 2),
                     amp(i, j))
        ctx.prove_eq('gather of the laser: position',
                     x.at(j)**2 + y.at(j)**2, ((j + Fr(1, 2)) * dr)**2)
        s = X.norm((z.at(j) - x0 / sd) / dz)
        for m in (0, Fr(1, 2)):
            q = X.norm(s - m - (nx - 1 - ctx_k[0]))
            q = X.const_of(q)
            if q is not None and q.denominator == 1:
                i0 = nx - 1 - ctx_k[0] + int(q)
                # outside the window there is no laser
                if m == 0:
                    return FArr(nr, lambda t: amp(i0, t))
                return FArr(nr, lambda t: (amp(i0, t) + amp(i0 + 1, t)) / 2)
        raise Unsupported('gather position')
    M.gather_field_cyl_linear = gather
    o = M.NonLinearColdFluidWakefield.__new__(M.NonLinearColdFluidWakefield)
    new = lambda n: FArr2(nx + 4, nr + 4, lambda i, j: X.uf('g_' + n, i, j),
                          n)
    flds = {n: new(n) for n in ('rho', 'chi', 'e_r', 'e_z', 'b_t')}
    for n, v in dict(
            flds, n_p=n_p, n_xi=nx, n_r=nr, dxi=dxi, dr=dr0, xi_min=x0,
            xi_max=x0 + (nx - 1) * dxi, beam_wakefields=beam,
            p_shape='shape', r_max=nr * dr0,
            xi_fld=FArr(nx, lambda i: x0 + i * dxi, 'xi_fld', frozen=True),
            r_fld=FArr(nr, lambda i: (i + Fr(1, 2)) * dr0, 'r_fld',
                       frozen=True),
            laser=types.SimpleNamespace(
                polarization='linear' if lin else 'circular',
                get_envelope=lambda: env) if laser else None).items():
        object.__setattr__(o, n, v)
    rho_b = lambda i, j: sum(
        (X.uf('dep%d' % m, i + 2, j + 2) for m in range(len(bunches))),
        lift(0)) / (pi * dr**2 * (1 + 2 * j) * dz * n_p * sd**3)
    k = I('k')
    ctx.assume(k >= 0, k < nx - 1)
    ctx_k = [k]
    j0 = I('j0')
    ctx.assume(j0 >= 0, j0 < nr)

    def step(k, mod, after):
        if part != 'step':
            return
        ctx.prove('two functions of xi and r are integrated',
                  X.boolc(len(mod) == 2))
        if len(mod) != 2:
            raise Unsupported('state of the integration')
        i = nx - 1 - k
        u = [X.uf('U0', i, j0), X.uf('U1', i, j0)]
        ctx.assume(u[0] > -1)
        for m, (a, f0) in enumerate(mod):
            ctx.prove_eq('undisturbed plasma at the head', f0(nx - 1, j0),
                         lift(0))
        as_ = [amp(i, j0), (amp(i, j0) + amp(i - 1, j0)) / 2]
        as_ += [as_[1], amp(i - 1, j0)]

        def rhs(stage, v):
            return (1 + as_[stage]**2) / (2 * (1 + v)**2) - Fr(1, 2) - (
                rho_b(i, j0) if beam else 0)
        exp = rk4(u[0], u[1], dz, rhs)
        for m, f in enumerate(after):
            ctx.prove_eq('Runge-Kutta step to the next slice',
                         f(i - 1, j0), exp[m])
            q = I('q')
            ctx.assume(q >= 0, q < nx, X.not_(X.eq(q, i - 1)))
            ctx.prove_eq('other slices unchanged', f(q, j0),
                         X.uf('U%d' % m, q, j0))
    rule = Induct(k, step)
    ctx.loop_rules[CF + ':NonLinearColdFluidWakefield:*'] = rule
    ctx.loop_rules[CF + ':*'] = rule
    o._calculate_wakefield(bunches)
    if part == 'step':
        ctx.prove('integration over the window', X.boolc(rule.ran))
        return
    ctx.prove('integration over the window', X.boolc(rule.ran))
    if part == 'sources':
        ctx.prove('every bunch is deposited once', X.boolc(
            len(deps) == len(bunches)))
        for l in deps:
            m = [b for b in bunches if X.same(X.norm(l[1] * sd),
                                              X.norm(b.x.val))]
            ctx.prove('every bunch is deposited once', X.boolc(len(m) == 1))
            if len(m) != 1:
                continue
            b = m[0]
            for nm, a, q in (
                    ('xi', l[0], b.xi.val / sd), ('y', l[2], b.y.val / sd),
                    ('number of elementary charges', l[3],
                     b.w.val * b.q_species / e),
                    ('grid', l[4], x0 / sd), ('grid', l[5], dr / 2),
                    ('grid', l[6], nx), ('grid', l[7], nr), ('grid', l[8], dz),
                    ('grid', l[9], dr)):
                ctx.prove_eq('deposition of a bunch: ' + nm, lift(a), lift(q))
            ctx.prove('deposition of a bunch: shape', X.boolc(
                l[10] == 'shape' and l[11] is True))
        p, q = I('p'), I('q1')
        ctx.assume(p >= 0, q >= 0, p < nx + 4, q < nr + 4)
        ctx.assume(X.or_(p < 2, p >= nx + 2, q < 2, q >= nr + 2))
        for n, f in flds.items():
            ctx.prove_eq('guard cells unchanged', f.at(p, q),
                         X.uf('g_' + n, p, q))
        return
    i, j, jj = I('i'), I('j'), I('jj')
    ctx.assume(i >= 0, i < nx, j >= 0, j < nr, jj >= 0, jj < nr)
    U = FArr2(nx, nr, lambda p, q: X.uf('U0', p, q))
    ctx.assume(U.at(i, j) > -1, U.at(i, jj) > -1)
    d0 = T.np_shim.gradient(U, dz, axis=0, edge_order=2)
    d1 = T.np_shim.gradient(U, dr, axis=1, edge_order=2)
    a, u = amp(i, j), U.at(i, j)
    if part == 'fields':
        ctx.prove_eq('electron density', flds['rho'].at(i + 2, j + 2),
                     (1 + a**2 + (1 + u)**2) / (2 * (1 + u)**2))
        ctx.prove_eq('susceptibility', flds['chi'].at(i + 2, j + 2),
                     1 / (1 + u))
        ctx.prove_eq('E_z', flds['e_z'].at(i + 2, j + 2), -d0.at(i, j) * E0)
        return
    sums = M.np.sums
    ctx.prove('magnetic field from one integral', X.boolc(len(sums) == 1))
    if len(sums) == 1:
        s = sums[0]
        B = lambda: flds['b_t'].at(i + 2, j + 2) * c / E0
        s.at = []
        B0 = B()
        s.v = lift(1)
        K = B() - B0
        for p, q in s.at:
            ctx.prove_eq('integral up to the cell', p, i)
            ctx.prove_eq('integral up to the cell', q, j)
        r = lambda t: (t + Fr(1, 2)) * dr
        d00 = T.np_shim.gradient(d0, dz, axis=0, edge_order=2)

        def cur(q, sign):
            a, u = amp(i, q), U.at(i, q)
            # n v_z of the plasma electrons
            nv = (1 + a**2 - (1 + u)**2) / (2 * (1 + u)**2)
            return (rho_b(i, q) - nv - sign * d00.at(i, q)) * r(q)
        # known finding: the displacement current -dE_z/dxi = d2 psi/dxi2 has
        # the wrong sign
        g = s.x.at(i, jj)
        bad = X.same(X.norm(K * r(j) / dr * g), X.norm(cur(jj, 1)))
        sign = 1 if bad else -1
        ctx.prove_eq('current through the disc', K * r(j) / dr * g,
                     cur(jj, sign))
        ctx.prove_eq('half of the own cell', B0,
                     -cur(j, sign) / 2 * dr / r(j))
        s.v = X.uf('sum', i, j)
    ctx.prove_eq('E_r - c B_theta', flds['e_r'].at(i + 2, j + 2) -
                 c * flds['b_t'].at(i + 2, j + 2), -d1.at(i, j) * E0)


# ---------------------------------------------------------------- run time
def s_fl(rng):
    return dict(seed=rng.randrange(10**6), nr=rng.choice([3, 8, 25, 66]),
                nx=rng.choice([4, 9, 40, 70, 130]), laser=rng.random() < .6,
                a0=rng.choice([.01, .3, 1., 1.5, 4., 7.]), nb=rng.choice([0, 1, 2]),
                beam=rng.random() < .6, pol=rng.choice(['linear',
                                                        'circular']),
                shape=rng.choice(['linear', 'cubic']),
                q=rng.choice([.01, .2]))


def c_fl(v):
    g = np.random.RandomState(v['seed'])
    n_p = 10**g.uniform(22, 24.5)
    wp = np.sqrt(n_p * 1.602176634e-19**2 / (
        9.1093837015e-31 * 8.8541878128e-12))
    sd = C / wp
    nx, nr = v['nx'], v['nr']
    x0 = g.uniform(-20, 5)
    x1 = x0 + (nx - 1) * g.uniform(.03, .3)
    rmax = g.uniform(2, 10)
    dz, dr = (x1 - x0) / (nx - 1), rmax / nr
    las = None
    if v['laser']:
        las = real('wake_t.physics_models.laser.laser_pulse.GaussianPulse')(
            g.uniform(x0, x1) * sd, v['a0'], 3 * sd, g.uniform(.5, 3) / wp,
            8e-7, polarization=v['pol'])
    bs = []
    for k in range(v['nb']):
        m = int(g.choice([1, 30]))
        q = np.pi * 4 * dz * sd**3 * n_p * v['q'] / m
        sp = int(g.choice([-1, -1, 1, 2]))
        bs.append(types.SimpleNamespace(
            x=g.normal(size=m) * sd, y=g.normal(size=m) * sd,
            xi=sd * g.uniform(x0 - .1, x1 + .1, m),
            w=q * g.uniform(.5, 1.5, m), q_species=sp * 1.602176634e-19))
    w = real(CL)(lambda z: n_p * (1 + z / .1), rmax * sd, x0 * sd, x1 * sd,
                 nr, nx, dz_fields=1., beam_wakefields=v['beam'],
                 p_shape=v['shape'], laser=las)
    w.t = 0.
    w._initialize_properties(bs)
    with np.errstate(all='ignore'):
        w._calculate_field(bs)
        out = [x.copy() for x in (w.rho, w.chi, w.e_z, w.e_r, w.b_t)]
        w._calculate_field(bs)
    for a, b in zip(out, (w.rho, w.chi, w.e_z, w.e_r, w.b_t)):
        if not np.array_equal(a, b, equal_nan=True):
            raise Violation('the field does not depend on the previous one',
                            '')
    a = np.zeros((nx, nr))
    if las is not None:
        a = np.abs(las.get_envelope()) / (
            np.sqrt(2) if v['pol'] == 'linear' else 1)
    dep = real('wake_t.particles.deposition.deposit_3d_distribution')
    nb = np.zeros((nx + 4, nr + 4))
    for b in bs:
        h = np.zeros_like(nb)
        dep(b.xi / sd, b.x / sd, b.y / sd, b.w * np.round(
            b.q_species / 1.602176634e-19), x0, dr / 2, nx, nr, dz, dr, h,
            p_shape=v['shape'], use_ruyten=True)
        nb += h
    r = dr * (np.arange(nr) + .5)
    nb = nb[2:-2, 2:-2] / (2 * np.pi * r * dr * dz * n_p * sd**3)
    u = np.zeros((2, nx, nr))
    with np.errstate(all='ignore'):
        for i in range(nx - 1, 0, -1):
            aa = [a[i], (a[i] + a[i - 1]) / 2, (a[i] + a[i - 1]) / 2,
                  a[i - 1]]
            u[:, i - 1] = rk4(u[0, i], u[1, i], dz, lambda s, p: (
                1 + aa[s]**2) / (2 * (1 + p)**2) - .5 - v['beam'] * nb[i])
    p = u[0]
    if not np.all(np.isfinite(u)) or np.min(p) < -.985 or np.max(p) > 60:
        raise Skip
    # (rounding grows where the plasma is compressed)
    amp = max(1., .09 / (1 + np.min(p))**2)**3
    E0 = 9.1093837015e-31 * C * wp / 1.602176634e-19
    s = np.s_[2:-2, 2:-2]
    rho, chi, ez, er, bt = [x[s] for x in out]
    # the last gather is at the edge of the window, where rounding decides
    cut = 1
    gx = np.gradient(p, dz, axis=0, edge_order=2)
    gr = np.gradient(p, dr, axis=1, edge_order=2)
    close('electron density', rho[cut:], ((1 + a**2 + (1 + p)**2) / (
        2 * (1 + p)**2))[cut:], 1e-8 * amp)
    close('susceptibility', chi[cut:], (1 / (1 + p))[cut:], 1e-8 * amp)
    close('E_z', ez[2:] / E0, -gx[2:], 1e-7 * amp)
    close('E_r - c B_theta', (er - bt * C)[cut:] / E0, -gr[cut:],
          1e-8 * (1 + np.max(np.abs(bt)) * C / E0) + 1e-7 * amp)
    nv = (1 + a**2 - (1 + p)**2) / (2 * (1 + p)**2)
    gg = np.gradient(gx, dz, axis=0, edge_order=2)
    B = []
    for sign in (1, -1):
        f = (nb - nv + sign * gg) * r
        B.append((np.cumsum(f, axis=1) - f / 2) * dr / r)
    cb = bt * C / E0
    tol = 1e-6 * amp * (1 + np.max(np.abs(B))) / dz
    d = [np.max(np.abs(cb - b)[3:]) if nx > 3 else 0. for b in B]
    if d[0] > tol:
        if d[1] <= tol:
            raise Known('displacement-current', 'B_theta',
                        'displacement current with the wrong sign')
        raise Violation('B_theta', 'difference %r at scale %r' % (
            d[0], np.max(np.abs(B[0]))))


def contracts():
    return [
        Contract('integration of the fluid response',
                 [CL + '._calculate_wakefield'], body_fluid('step'), s_fl, c_fl, n=(150, 2000),
                 min_obligations=20, weak=True),
        Contract('sources and fields',
                 [CL + '._calculate_wakefield'], body_fluid('sources'),
                 min_obligations=40, max_paths=3000, weak=True),
        Contract('longitudinal field, density and susceptibility',
                 [CL + '._calculate_wakefield'], body_fluid('fields'),
                 min_obligations=40, max_paths=3000, weak=True),
        Contract('transverse fields',
                 [CL + '._calculate_wakefield'], body_fluid('transverse'),
                 min_obligations=40, max_paths=3000, weak=True),
    ]
