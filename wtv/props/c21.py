"""Analytic fields and the superposition of fields."""
import types
from .push_common import *
from .c16 import close
from fractions import Fraction as Fr

PW = 'wake_t.physics_models.plasma_wakefields.'
EM = 'wake_t.physics_models.em_fields.'
AF = 'wake_t.fields.analytical_field.AnalyticalField'
ASSUMPTIONS = ['aptools.plasma_frequency(n in cm^-3) is the plasma '
               'frequency', 'group velocity of the laser by its contract '
               '(C14)']
QE, ME, E0_ = 1.602176634e-19, 9.1093837015e-31, 8.8541878128e-12


def setup(ctx):
    tw = twin(ctx)
    ctx.generic()
    pos = {n: R(n) for n in ('x', 'y', 'xi')}
    t, c = R('t'), R('ct_c', positive=True)
    arr = [P(R('old_' + n), n) for n in FN]

    def gather(F):
        F.gather(*[P(pos[n], n, True) for n in ('x', 'y', 'xi')], t, *arr)
        return [a.val - R('old_' + n) for a, n in zip(arr, FN)]

    def density(z):
        if isinstance(z, T.PArray):
            n = X.uf('density', X.norm(lift(z.val)))
            ctx.assume(n > 0)
            return P(n, 'n')
        n = X.uf('density', X.norm(lift(z)))
        ctx.assume(n > 0)
        return n
    las = types.SimpleNamespace(
        xi_c=R('xi_c'), get_group_velocity=lambda n: X.uf(
            'v_g', X.norm(lift(n))))
    return tw, pos, t, c, gather, density, las


def check(ctx, got, exp, what):
    for n, g, k in zip(FN, got, exp):
        ctx.prove_eq('%s: %s added to the field' % (what, n), g, lift(k))


def wp2(n):
    e, m, ep = [R(k, positive=True) for k in ('ct_e', 'ct_m_e',
                                              'ct_epsilon_0')]
    return n * e**2 / (m * ep)


def freq(ctx, M):
    def f(n):
        w = X.sqrt(wp2(lift(n) * 10**6))
        return w
    M.ge = types.SimpleNamespace(
        plasma_frequency=f,
        plasma_skin_depth=lambda n: R('ct_c', positive=True) / f(n))


def body_simple(ctx):
    tw, p, t, c, gather, density, las = setup(ctx)
    M = tw.load(PW + 'simple_blowout')
    freq(ctx, M)
    off = R('offset')
    F = M.SimpleBlowoutWakefield(density, las, off)
    got = gather(F)
    e, m = R('ct_e', positive=True), R('ct_m_e', positive=True)
    n = density(t * c)
    w2 = wp2(n)
    s = m * w2 / (2 * e)
    lam = 2 * X.var('pi', positive=True) * c / X.sqrt(w2)
    v = X.uf('v_g', X.norm(n))
    # zero crossing half a plasma wavelength behind the laser
    xi = p['xi'] - (R('xi_c') - (1 - v) * c * t - lam / 2 + off)
    check(ctx, got, [s * p['x'], s * p['y'], s * xi, 0, 0, 0],
          'ion cavity')


def body_custom(ctx):
    tw, p, t, c, gather, density, las = setup(ctx)
    M = tw.load(PW + 'custom_blowout')
    E, Ep, k, x0 = [R(n) for n in ('lon_field', 'slope', 'foc', 'xi_f')]
    F = M.CustomBlowoutWakefield(density, las, lon_field=E,
                                 lon_field_slope=Ep, foc_strength=k,
                                 xi_fields=x0)
    got = gather(F)
    v = X.uf('v_g', X.norm(density(t * c)))
    xi = p['xi'] - (x0 - (1 - v) * c * t)
    check(ctx, got, [c * k * p['x'], c * k * p['y'], E + Ep * xi, 0, 0, 0],
          'custom blowout')


def body_foc(ctx):
    tw, p, t, c, gather, density, las = setup(ctx)
    M = tw.load(PW + 'focusing_blowout')
    F = M.FocusingBlowoutField(density)
    got = gather(F)
    e, m = R('ct_e', positive=True), R('ct_m_e', positive=True)
    s = m * wp2(density(c * t + p['xi'])) / (2 * e)
    check(ctx, got, [s * p['x'], s * p['y'], 0, 0, 0, 0],
          'focusing by the local ions')


def body_em(ctx):
    tw, p, t, c, gather, density, las = setup(ctx)
    k = R('k')
    if ctx.choose(2, 'field'):
        F = tw.load(EM + 'quadrupole').QuadrupoleField(k)
        exp = [0, 0, 0, -k * p['y'], -k * p['x'], 0]
    else:
        F = tw.load(EM + 'linear_b_theta').LinearBThetaField(k)
        exp = [0, 0, 0, -k * p['y'], k * p['x'], 0]
    check(ctx, gather(F), exp, 'magnetic field')


def body_comp(ctx):
    """any subset of components given by the user"""
    tw, p, t, c, gather, density, las = setup(ctx)
    A = tw.load('wake_t.fields.analytical_field').AnalyticalField
    names = ['e_x', 'e_y', 'e_z', 'b_x', 'b_y', 'b_z']
    log = []

    def comp(n):
        def f(x, y, z, t_, out, k):
            log.append(n)
            out[:] = out.val + X.uf('user_' + n, x.val, y.val, z.val,
                                    lift(t_), *[lift(q) for q in k])
        return f
    kw = {n: comp(n) for n in names if ctx.choose(2, n)}
    k = [R('k0'), R('k1')] if ctx.choose(2, 'constants') else None
    F = A(constants=k, **kw) if k is not None else A(**kw)
    got = gather(F)
    check(ctx, got, [X.uf('user_' + n, p['x'], p['y'], p['xi'], t,
                          *(k or [])) if n in kw else 0 for n in names],
          'user-defined component')


def body_sum(ctx):
    tw, p, t, c, gather, density, las = setup(ctx)
    f = tw.load('wake_t.fields.gather').gather_fields
    n = ctx.choose(5, 'fields')
    Fs = [SymField('F%d' % k) for k in range(n)]
    if n > 2:
        # (the same field may be given twice)
        Fs[-1] = Fs[0]
    arr = [P(R('old_' + q), q) for q in FN]
    f(Fs, *[P(p[q], q, True) for q in ('x', 'y', 'xi')], t, *arr)
    for k, a in enumerate(arr):
        ctx.prove_eq('sum of all fields, nothing else', a.val,
                     sum((F.comp(k, p['x'], p['y'], p['xi'], t)
                          for F in Fs), lift(0)))


def body_el(ctx):
    """fields of the elements: wakefield and external fields, each once"""
    tw, p, t, c, gather, density, las = setup(ctx)
    BE = 'wake_t.beamline_elements.'
    k = R('k')
    x, y = p['x'], p['y']
    kind = ctx.choose(5, 'element')
    E, Ep, s, x0 = [R(n) for n in ('lon_field', 'slope', 'foc', 'xi_f')]
    n = ctx.choose(3, 'external fields')
    Fs = [SymField('F%d' % q) for q in range(n)]
    exp = [0] * 6
    if kind == 0:
        el = tw.load(BE + 'field_quadrupole').FieldQuadrupole(R('L'), k)
        exp = [0, 0, 0, -k * y, -k * x, 0]
        Fs = []
    elif kind == 1:
        el = tw.load(BE + 'active_plasma_lens').ActivePlasmaLens(R('L'), k)
        exp = [0, 0, 0, k * y, -k * x, 0]
        Fs = []
    else:
        ps = tw.load(BE + 'plasma_stage')
        ps.Field = SymField
        kw = {}
        if kind == 2:
            m = None
        elif kind == 3:
            m = SymField('W')
        else:
            m = 'custom_blowout'
            kw = dict(laser=las, lon_field=E, lon_field_slope=Ep,
                      foc_strength=s, xi_fields=x0)
            v = X.uf('v_g', X.norm(density(t * c)))
            exp = [c * s * x, c * s * y,
                   E + Ep * (p['xi'] - (x0 - (1 - v) * c * t)), 0, 0, 0]
        ext = list(Fs)
        el = ps.PlasmaStage(R('L'), density, m, external_fields=ext, **kw)
        ctx.prove('the list of external fields is not modified',
                  X.boolc(len(ext) == n and all(
                      a is b for a, b in zip(ext, Fs))))
        if kind == 3:
            Fs = Fs + [m]
    f = tw.load('wake_t.fields.gather').gather_fields
    arr = [P(R('old_' + q), q) for q in FN]
    f(el.fields, *[P(p[q], q, True) for q in ('x', 'y', 'xi')], t, *arr)
    for q, a in enumerate(arr):
        ctx.prove_eq('field in the element: ' + FN[q], a.val,
                     sum((F.comp(q, x, y, p['xi'], t) for F in Fs),
                         lift(exp[q])))


# ---------------------------------------------------------------- run time
KINDS = ['simple', 'custom', 'focus', 'quad', 'lens', 'user', 'grid']


def s_sum(rng):
    return dict(seed=rng.randrange(10**6), n=rng.choice([0, 1, 2, 7, 40]),
                kinds=[rng.choice(KINDS) for _ in range(rng.choice(
                    [1, 1, 2, 2, 3, 4]))],
                t=rng.choice([0., 3e-12, 1e-10, -1e-11]))


def make(kind, g, v):
    """field and the formula of its components"""
    n0, dn = 10**g.uniform(21, 24.5), g.uniform(-1, 5)
    dens = lambda z: n0 * (1 + dn * (z + .01)**2)
    wp = lambda n: np.sqrt(n * QE**2 / (ME * E0_))
    las = real('wake_t.physics_models.laser.laser_pulse.GaussianPulse')(
        g.uniform(-1, 1) * 1e-4, 1., 2e-5, 3e-14, 8e-7)
    wl = 2 * np.pi * C / 8e-7
    vg = lambda n: 1 / np.sqrt(1 + wp(n)**2 / wl**2)
    z6 = lambda x: [0 * x] * 3
    t = v['t']
    nt = dens(C * t)
    if kind == 'simple':
        off = g.uniform(-1, 1) * 1e-5
        F = real(PW + 'simple_blowout.SimpleBlowoutWakefield')(
            dens, las, off)
        s = ME * wp(nt)**2 / 2 / QE

        def f(x, y, xi):
            z = xi - las.xi_c + np.pi * C / wp(nt) - off + (
                1 - vg(nt)) * C * t
            return [s * x, s * y, s * z] + z6(x)
    elif kind == 'custom':
        E, Ep, k, x0 = g.normal(size=4) * [1e9, 1e14, 1e5, 1e-5]
        F = real(PW + 'custom_blowout.CustomBlowoutWakefield')(
            dens, las, E, Ep, k, x0)

        def f(x, y, xi):
            return [C * k * x, C * k * y, E + Ep * (
                xi - x0 + (1 - vg(nt)) * C * t)] + z6(x)
    elif kind == 'focus':
        F = real(PW + 'focusing_blowout.FocusingBlowoutField')(dens)

        def f(x, y, xi):
            s = ME * wp(dens(xi + C * t))**2 / 2 / QE
            return [s * x, s * y, 0 * x] + z6(x)
    elif kind == 'quad':
        k = g.normal() * 100
        F = real(EM + 'quadrupole.QuadrupoleField')(k)

        def f(x, y, xi):
            return z6(x) + [-k * y, -k * x, 0 * x]
    elif kind == 'lens':
        k = g.normal() * 100
        F = real(EM + 'linear_b_theta.LinearBThetaField')(k)

        def f(x, y, xi):
            return z6(x) + [-k * y, k * x, 0 * x]
    elif kind == 'user':
        k = g.normal(size=2)

        def comp(x, y, z, t, fld, k):
            for i in range(x.shape[0]):
                fld[i] += k[0] * x[i] * 1e9 + k[1] * z[i] + 1e3 * t
        names = ['e_x', 'e_y', 'e_z', 'b_x', 'b_y', 'b_z']
        on = g.rand(6) < .5
        F = real(AF)(constants=list(k), **{
            n: comp for n, q in zip(names, on) if q})

        def f(x, y, xi):
            u = k[0] * x * 1e9 + k[1] * xi + 1e3 * t
            return [u if q else 0 * x for q in on]
    else:
        w = real(PW + 'qs_cold_fluid_1x3p.NonLinearColdFluidWakefield')(
            lambda z: 1e23, 1e-4, -1e-4, 0., 6, 7, dz_fields=1.)
        w.t = 0.
        w._initialize_properties([])
        E, Ep = g.normal(size=2)
        w.e_z[:] = E
        w.e_r[:, 2:-2] = Ep * w.r_fld
        w.e_r[:, 1] = -w.e_r[:, 2]
        w.e_r[:, 0] = -w.e_r[:, 3]
        F = w

        def f(x, y, xi):
            r = np.sqrt(x**2 + y**2)
            i = (r <= w.r_fld[-1]) & (xi >= -1e-4) & (xi <= 0)
            return [np.where(i, Ep * x, 0), np.where(i, Ep * y, 0),
                    np.where(i, E, 0)] + z6(x)
    return F, f


def c_sum(v):
    g = np.random.RandomState(v['seed'])
    n = v['n']
    x, y = g.normal(size=(2, n)) * 3e-5
    xi = g.uniform(-1.2, .2, n) * 1e-4
    Fs, fs = [], []
    for k in v['kinds']:
        F, f = make(k, g, v)
        Fs.append(F)
        fs.append(f)
    if len(Fs) > 2:
        Fs.append(Fs[1])
        fs.append(fs[1])
    gf = real('wake_t.fields.gather.gather_fields')
    keep = [a.copy() for a in (x, y, xi)]
    for rep in range(2):
        out = [g.normal(size=n) for _ in range(6)]
        gf(Fs, x, y, xi, v['t'], *out)
        exp = [np.zeros(n) for _ in range(6)]
        for f in fs:
            for k, q in enumerate(f(x, y, xi)):
                exp[k] = exp[k] + q
        for nm, a, b in zip(FN, out, exp):
            if not n:
                continue
            sc = np.max(np.abs(b)) + 1e-300
            close('sum of the fields: ' + nm, a / sc, b / sc, 1e-6)
        Fs, fs = Fs[::-1], fs[::-1]
    if any(not np.array_equal(a, b) for a, b in zip(keep, (x, y, xi))):
        raise Violation('positions unchanged', '')


def s_el(rng):
    return dict(seed=rng.randrange(10**6), kind=rng.choice(
        ['quad', 'lens', 'stage', 'ramp']), pusher=rng.choice(
        ['boris', 'rk4']), k=rng.choice([100., 2000., -300.]),
        g=rng.choice([100., 1000.]))


def c_el(v):
    """motion in a linear element: an oscillator with the given gradient"""
    g = np.random.RandomState(v['seed'])
    B = real('wake_t.particles.particle_bunch.ParticleBunch')
    k = v['k']
    L = .01
    n0 = 10**g.uniform(20, 21.5)
    El = 'wake_t.beamline_elements.'
    las = real('wake_t.physics_models.laser.laser_pulse.GaussianPulse')(
        0., 1., 2e-5, 3e-14, 8e-7)
    kw = dict(bunch_pusher=v['pusher'], n_out=1)
    ext = real(EM + 'quadrupole.QuadrupoleField')(k)
    if v['kind'] == 'quad':
        el = real(El + 'field_quadrupole.FieldQuadrupole')(L, k, **kw)
        grad = [k, -k]
    elif v['kind'] == 'lens':
        el = real(El + 'active_plasma_lens.ActivePlasmaLens')(L, k, **kw)
        grad = [k, k]
    elif v['kind'] == 'stage':
        # external fields add to the wakefield, in any order
        # (and one list of them may serve several stages)
        Q = real(EM + 'quadrupole.QuadrupoleField')
        exts = g.permutation([3, -2.5, .5])[:]
        exts = [Q(q * k) for q in exts] if v['seed'] % 2 else [ext]
        own = dict(external_fields=exts)
        if v['seed'] % 3 == 0:
            own, k = {}, 0
        for rep in range(2):
            el = real(El + 'plasma_stage.PlasmaStage')(
                L, n0, 'custom_blowout', laser=las, lon_field=0.,
                lon_field_slope=0., foc_strength=500., **own, **kw)
        grad = [500 + k, 500 - k]
    else:
        el = real(El + 'plasma_stage.PlasmaStage')(
            L, n0, ext, external_fields=[
                real(PW + 'focusing_blowout.FocusingBlowoutField')(
                    lambda z: n0 + 0 * z)], **kw)
        w = np.sqrt(n0 * QE**2 / (ME * E0_))
        s = ME * w**2 / (2 * QE * C)
        grad = [s + k, s - k]
    m = 5
    x, y = g.normal(size=(2, m)) * 1e-6
    b = B(np.ones(m) * 1e5, x.copy(), y.copy(), np.zeros(m), np.zeros(m), np.zeros(m),
          np.full(m, v['g']), name='b')
    # at least 30 steps per oscillation
    kk = np.sqrt(np.max(np.abs(grad)) * QE / (ME * C * v['g']))
    el.dt_bunch = .03 / (kk * C)
    out = el.track(b, show_progress_bar=False)
    b = out[-1] if isinstance(out, list) else b
    for nm, q0, q1, q in (('x', x, b.x, grad[0]), ('y', y, b.y, grad[1])):
        om = np.sqrt(complex(q * QE / (ME * C * v['g'])))
        exp = (q0 * np.cos(om * L)).real
        if np.max(np.abs(q1 - exp)) > 2e-3 * np.max(np.abs(q0)) * max(
                1, np.max(np.abs(np.cos(om * L)))):
            raise Violation('focusing of a %s (%s)' % (v['kind'], nm),
                            '%r %r' % (q1, exp))


def contracts():
    return [
        Contract('ion cavity', [PW + 'simple_blowout.SimpleBlowoutWakefield',
                                AF], body_simple, min_obligations=6),
        Contract('custom blowout',
                 [PW + 'custom_blowout.CustomBlowoutWakefield'], body_custom,
                 min_obligations=6),
        Contract('focusing blowout',
                 [PW + 'focusing_blowout.FocusingBlowoutField'], body_foc,
                 min_obligations=6),
        Contract('quadrupole and plasma lens', [
            EM + 'quadrupole.QuadrupoleField',
            EM + 'linear_b_theta.LinearBThetaField'], body_em,
            min_obligations=12),
        Contract('user-defined components', [AF + '.__init__',
                                             AF + '._gather'], body_comp,
                 min_obligations=60),
        Contract('superposition', ['wake_t.fields.gather.gather_fields'],
                 body_sum, s_sum, c_sum, n=(60, 800), min_obligations=12),
        Contract('motion in linear elements', [
            'wake_t.beamline_elements.plasma_stage.PlasmaStage.__init__',
            'wake_t.beamline_elements.field_quadrupole.FieldQuadrupole',
            'wake_t.beamline_elements.active_plasma_lens.ActivePlasmaLens'],
            body_el, s_el, c_el, n=(30, 300), weak=True),
    ]
