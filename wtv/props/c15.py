"""Laser pulse profiles: paraxial beams, sums, polarisation."""
import inspect
from fractions import Fraction as Fr
from .push_common import *
from .. import symarr as SA
from ..expr import SComplex
from .c13 import LM

trapz = getattr(np, 'trapezoid', None) or np.trapz

ASSUMPTIONS = ['w_0, tau, l_0 > 0', 'scipy.special.genlaguerre and binom '
               '(exact Laguerre polynomials up to order 3 in the proof)',
               'OpenPMDPulse needs the lasy package, which is not '
               'installed: not covered']
LP = LM + 'laser_pulse'
LAG = [lambda x: lift(1), lambda x: 1 - x,
       lambda x: 1 - 2 * x + x * x * Fr(1, 2),
       lambda x: 1 - 3 * x + Fr(3, 2) * x * x - x * x * x * Fr(1, 6)]


def lag(p):
    """Laguerre polynomial of the given, or of any, order"""
    return LAG[p] if isinstance(p, int) else (
        lambda x: X.uf('laguerre', p, x))


def sym_par(ctx):
    v = {n: R(n) for n in ('xi_c', 'a_0', 'z_foc', 'cep_phase')}
    for n in ('w_0', 'tau', 'l_0'):
        v[n] = R(n, positive=True)
        ctx.assume(v[n] > 0)
    return v


def spec(ctx, v, p, d, r, z):
    """amplitude and phase of a Laguerre-Gauss beam of order p at the
    distance d from the centre and z Rayleigh lengths behind the focus"""
    c = R('ct_c', positive=True)
    q = 1 + z * z
    w2 = v['w_0']**2 * q
    ln2 = X.uf('log', lift(2))
    amp = v['a_0'] * X.exp(-r * r / w2) * X.exp(
        -2 * ln2 * d * d / (v['tau'] * c)**2) * lag(p)(2 * r * r / w2)
    # Gouy phase: 1/(1 + i z) times exp(-2 i p psi), psi = arg(1 + i z)
    ph = -v['cep_phase'] + z * r * r / w2
    if not isinstance(p, int) or p:
        ph = ph - 2 * p * X.uf('atan2', z, lift(1))
    g = SComplex(X.cos(ph), X.sin(ph)) * SComplex(1 / q, -z / q)
    return g * amp


def ceq(ctx, name, a, b):
    a, b = X.tocomplex(a), X.tocomplex(b)
    ctx.prove_eq(name + ' (real part)', a.re, b.re)
    ctx.prove_eq(name + ' (imaginary part)', a.im, b.im)


def body_profile(kind):
    def body(ctx):
        tw = twin(ctx)
        M = tw.load(LP)

        def genlaguerre(p, m):
            assert m == 0
            return lag(p)
        M.genlaguerre = genlaguerre
        v = sym_par(ctx)
        d, r, z = R('d'), R('r'), R('zeta')
        pi = X.var('pi', positive=True)
        # xi and z_pos are arbitrary: xi = xi_c + d, and z_pos such that the
        # distance to the focus is z Rayleigh lengths
        xi = v['xi_c'] + d
        zp = v['z_foc'] + z * pi * v['w_0']**2 / v['l_0'] - d
        if kind == 'gauss':
            p, o = 0, M.GaussianPulse(**v)
        else:
            if kind == 'lg':
                p = ctx.choose(4, 'p')
            else:
                p = X.var('p', 'Int')
                ctx.assume(p >= 0)
            o = M.LaguerreGaussPulse(p=p, **v)
        ceq(ctx, 'paraxial beam', o.envelope_function(xi, r, zp),
            spec(ctx, v, p, d, r, z))
        ctx.prove('polarisation', X.boolc(o.polarization == 'linear'))
        o = (M.GaussianPulse if kind == 'gauss' else
             (lambda **k: M.LaguerreGaussPulse(p=p, **k)))(
            polarization='circular', **v)
        ctx.prove('polarisation is kept', X.boolc(
            o.polarization == 'circular'))
        ctx.prove_eq('wavelength', lift(o.l_0), v['l_0'])
    return body


def body_sum(ctx):
    tw = twin(ctx)
    M = tw.load(LP)
    l1, l2 = R('l1', positive=True), R('l2', positive=True)
    ctx.assume(l1 > 0, l2 > 0)
    pol = ['linear', 'circular']
    p1, p2 = pol[ctx.choose(2, 'pol1')], pol[ctx.choose(2, 'pol2')]

    def mk(l, pl, nm):
        o = M.LaserPulse(l, pl)
        o._envelope_function = lambda xi, r, z: SComplex(
            X.uf(nm + '_re', xi, r, z), X.uf(nm + '_im', xi, r, z))
        return o
    a, b = mk(l1, p1, 'f'), mk(l2, p2, 'g')
    try:
        s = a + b
    except ValueError:
        ctx.prove('only different wavelengths or polarisations are rejected',
                  X.or_(X.not_(X.eq(l1, l2)), X.boolc(p1 != p2)))
        return
    ctx.prove('different wavelengths are rejected', X.eq(l1, l2))
    ctx.prove('different polarisations are rejected', X.boolc(p1 == p2))
    ctx.prove('polarisation of the sum', X.boolc(s.polarization == p1))
    ctx.prove_eq('wavelength of the sum', lift(s.l_0), l1)
    xi, r, z = R('xi'), R('r'), R('z')
    ceq(ctx, 'sum of the envelopes', s.envelope_function(xi, r, z),
        X.tocomplex(a.envelope_function(xi, r, z)) +
        b.envelope_function(xi, r, z))


def body_flat(ctx):
    """flattened Gaussian: waist, coefficients and phases of the modes"""
    import math
    tw = twin(ctx)
    M = tw.load(LP)
    v = sym_par(ctx)
    N = ctx.choose(5, 'N')
    modes = []

    def mode(**k):
        modes.append(k)
        o = M.LaserPulse(k['l_0'], k['polarization'])
        nm = 'm%d' % k['p']
        o._envelope_function = lambda xi, r, z: SComplex(
            X.uf(nm + '_re', xi, r, z), X.uf(nm + '_im', xi, r, z))
        return o
    sig = inspect.signature(M.LaguerreGaussPulse.__init__)

    def ctor(*a, **k):
        b = sig.bind(None, *a, **k)
        b.apply_defaults()
        d = dict(b.arguments)
        d.pop('self', None)
        return mode(**d)
    M.LaguerreGaussPulse = ctor
    M.binom = lambda m, n: np.array([math.comb(int(q), int(n))
                                     for q in np.ravel(m)], dtype=object)
    f = M.FlattenedGaussianPulse(N=N, polarization='circular', **v)
    ctx.prove('polarisation', X.boolc(f.polarization == 'circular'))
    ctx.prove('one mode of each order', X.boolc(
        sorted(int(m['p']) for m in modes) == list(range(N + 1))))
    tot = lift(0)
    for m in modes:
        n = int(m['p'])
        e = sum(Fr(1, 2**q) * math.comb(q, n)
                for q in range(n, N + 1)) / (N + 1)
        # all modes are in phase at the focus: on axis they add up to a_0
        ph = m['cep_phase'] - v['cep_phase']
        g = lift(m['a_0']) * SComplex(X.cos(ph), -X.sin(ph))
        ceq(ctx, 'amplitude of the mode', g, v['a_0'] * e)
        tot = tot + e
        w = lift(m['w_0'])
        ctx.prove_eq('waist of the modes', w * w, v['w_0']**2 * (N + 1))
        for k in ('xi_c', 'tau', 'z_foc', 'l_0'):
            ctx.prove_eq('%s of the modes' % k, lift(m[k]), v[k])
    ctx.prove_eq('on-axis amplitude at the focus', tot, lift(1))
    xi, r, z = R('xi'), R('r'), R('z')
    s = SComplex(0, 0)
    for n in range(N + 1):
        s = s + SComplex(X.uf('m%d_re' % n, xi, r, z),
                         X.uf('m%d_im' % n, xi, r, z))
    ceq(ctx, 'sum of the modes', f.envelope_function(xi, r, z), s)


# ---------------------------------------------------------------- run time
def s_prof(rng):
    return dict(seed=rng.randrange(10**6),
                kind=rng.choice(['gauss', 'gauss', 'lg', 'lg', 'flat',
                                 'flat', 'sum', 'pol']),
                p=rng.choice([0, 1, 2, 3, 5]),
                N=rng.choice([0, 1, 2, 6, 8, 11, 14]),
                foc=rng.choice(['any', 'any', 'none', 'zero']),
                circ=rng.random() < .5)


def mk_pulse(v, r, **kw):
    import wake_t
    from wake_t.physics_models.laser import laser_pulse as lm
    par = dict(xi_c=r.uniform(-20, 20) * 1e-6, a_0=r.uniform(.2, 4),
               w_0=r.uniform(10, 40) * 1e-6, tau=r.uniform(10, 100) * 1e-15,
               z_foc=r.uniform(-3, 3) * 1e-3,
               l_0=float(r.choice([.4e-6, .8e-6, 1.06e-6])),
               cep_phase=r.uniform(-3, 3),
               polarization='circular' if v['circ'] else 'linear')
    # (position of the focus: any, the default one or the pulse centre)
    if v.get('foc', 'any') == 'zero':
        par['z_foc'] = 0.
    elif v.get('foc') == 'none' and v['kind'] in ('lg', 'flat'):
        par['z_foc'] = None
    par.update(kw)
    if v['kind'] == 'lg':
        return lm.LaguerreGaussPulse(p=v['p'], **par), par
    if v['kind'] == 'flat':
        return lm.FlattenedGaussianPulse(N=v['N'], **par), par
    return lm.GaussianPulse(**par), par


def fresnel(f, r, k, z):
    """paraxial propagation over the distance z, by quadrature"""
    from scipy.special import j0
    rp = f[0]
    q = f[1] * np.exp(.5j * k * rp**2 / z) * rp
    o = [trapz(q * j0(k * a * rp / z), rp) for a in r]
    return k / (1j * z) * np.exp(.5j * k * r**2 / z) * np.array(o)


def c_prof(v):
    from scipy import constants as ct
    from scipy.special import eval_laguerre
    r = np.random.default_rng(v['seed'])
    if v['kind'] == 'pol':
        return c_pol(v, r)
    o, par = mk_pulse(v, r)
    a0, w0, xc, zf = par['a_0'], par['w_0'], par['xi_c'], par['z_foc']
    zf = xc if zf is None else zf
    if o.polarization != par['polarization'] or o.l_0 != par['l_0']:
        raise Violation('polarisation or wavelength of the pulse is lost')
    cep = np.exp(-1j * par['cep_phase'])
    env = lambda xi, rr, z: o.envelope_function(
        np.asarray(xi, float), np.asarray(rr, float), z)
    pk = env([xc], [0.], zf)[0]
    approx(pk, a0 * cep, rtol=1e-9, what='on-axis peak at the focus')
    # duration: FWHM of the intensity
    I_ = np.abs(env([xc, xc + .5 * par['tau'] * ct.c,
                     xc - .5 * par['tau'] * ct.c], [0.] * 3, zf))**2
    k = 2 * np.pi / par['l_0']
    zr = k * w0**2 / 2
    # (the position along the pulse enters the distance to the focus)
    sm = (par['tau'] * ct.c / zr)**2 * 40 * (v['N'] + v['p'] + 1)**2
    if sm < .05:
        approx(I_[1:], I_[0] / 2 * np.ones(2), rtol=1e-3 + sm,
               what='intensity at half the duration')
    if v['kind'] == 'sum':
        o2, par2 = mk_pulse(v, r, l_0=par['l_0'])
        s = o + o2
        if s.polarization != par['polarization']:
            raise Violation('sum of two %s pulses is %s' % (
                par['polarization'], s.polarization))
        X_ = np.linspace(-40e-6, 40e-6, 7)[:, None] + np.zeros(5)
        R_ = np.linspace(0, 60e-6, 5)[None] + np.zeros((7, 1))
        for z in (0., 1e-3):
            approx(s.envelope_function(X_, R_, z), env(X_, R_, z) +
                   o2.envelope_function(X_, R_, z), rtol=1e-10,
                   atol=1e-14, what='envelope of a sum')
        for kw in (dict(l_0=par['l_0'] * 1.01),
                   dict(l_0=par['l_0'], polarization=[
                       'circular', 'linear'][v['circ']])):
            o3, _ = mk_pulse(v, r, **kw)
            try:
                o + o3
            except ValueError:
                continue
            raise Violation('pulses of different wavelength or polarisation '
                            'are summed')
        return
    # focal plane profile
    rr = np.linspace(0, 12 * w0 if v['kind'] != 'flat'
                     else 6 * w0 * np.sqrt(v['N'] + 1), 6000)
    foc = env(np.full_like(rr, xc), rr, zf)
    if v['kind'] == 'flat':
        N = v['N']
        w = w0 * np.sqrt(N + 1)
    else:
        n = v['p'] if v['kind'] == 'lg' else 0
        approx(foc, a0 * cep * np.exp(-rr**2 / w0**2) * eval_laguerre(
            n, 2 * rr**2 / w0**2), rtol=1e-7, atol=1e-9 * a0,
            what='focal plane profile')
    # energy of every plane is that of the Gaussian
    en = trapz(np.abs(foc)**2 * rr, rr)
    if v['kind'] != 'flat':
        approx(en, a0**2 * w0**2 / 4, rtol=1e-4,
               what='energy (the one of a Gaussian pulse)')
    z = r.choice([-1, 1]) * r.uniform(.3, 2.5) * zr
    ps = r.uniform(0, 1.5, 6) * w0 * np.sqrt(1 + (z / zr)**2)
    got = env(np.full_like(ps, xc), ps, zf + z)
    exp = fresnel((rr, foc), ps, k, z)
    approx(got, exp, rtol=2e-3, atol=2e-3 * a0,
           what='profile at %.2f Rayleigh lengths from the focus' % (z / zr))
    # along the pulse: Gaussian shape, at the distance of that position
    sz = par['tau'] * ct.c / (2 * np.sqrt(np.log(2)))
    dx = r.uniform(-1.5, 1.5, 6) * sz
    approx(env(xc + dx, ps, zf + z),
           np.exp(-dx**2 / (2 * sz**2)) * np.array(
               [env([xc], [q], zf + z + x)[0] for q, x in zip(ps, dx)]),
           rtol=1e-7, atol=1e-9 * a0, what='profile along the pulse')
    # moving the position equals moving the focus
    o4, _ = mk_pulse(v, np.random.default_rng(v['seed']), z_foc=zf + 2e-3)
    approx(o4.envelope_function(xc + ps * 0, ps, zf + z + 2e-3), got,
           rtol=1e-8, atol=1e-10 * a0, what='shift of the focal position')
    if v['kind'] == 'flat':
        # flat far from the focus: exp(-x) sum_m x^m/m!, x=(N+1) r^2/w^2
        from math import factorial
        zR = np.pi * w**2 / par['l_0']
        Z = 4e3 * zR
        wz = w * Z / zR
        q = np.linspace(0, 1.6, 9) * np.sqrt(N + 1) 
        x = q**2
        far = np.abs(env(np.full_like(q, xc), q * wz, zf + Z))
        e = np.exp(-x) * sum(x**m / factorial(m) for m in range(N + 1))
        approx(far / far[0], e, rtol=1e-3, atol=2e-3,
               what='profile far from the focus')


def c_pol(v, r):
    """a circularly polarised pulse of amplitude a/sqrt(2) drives the same
    wake as a linearly polarised one of amplitude a"""
    import wake_t
    from wake_t.physics_models.plasma_wakefields import (
        Quasistatic2DWakefield, NonLinearColdFluidWakefield)
    a0 = r.uniform(.5, 2.)
    m = [Quasistatic2DWakefield, NonLinearColdFluidWakefield][v['seed'] % 2]
    out = []
    for a, pol in ((a0, 'linear'), (a0 / np.sqrt(2), 'circular')):
        l = wake_t.GaussianPulse(0., a, 15e-6, 25e-15, polarization=pol)
        if v['circ']:
            l = l + wake_t.GaussianPulse(-15e-6, .5 * a, 20e-6, 25e-15,
                                         polarization=pol)
        f = m(lambda z: 5e23, 60e-6, -40e-6, 25e-6, 20, 60, laser=l,
              laser_evolution=False)
        f.update([])
        out.append([q.copy() for q in (f.e_z, f.e_r, f.b_t, f.rho, f.chi)])
    for a, b, n in zip(out[0], out[1], ('e_z', 'e_r', 'b_t', 'rho', 'chi')):
        if np.max(np.abs(a)) == 0:
            raise Violation(n + ' vanishes behind a laser pulse')
        approx(a, b, rtol=1e-6, atol=1e-6 * np.max(np.abs(a)),
               what='%s driven by linear and circular polarisation' % n)


def contracts():
    return [
        Contract('Gaussian pulse', [LP + '.GaussianPulse'],
                 body_profile('gauss'),
                 lambda g: dict(s_prof(g), kind='gauss'), c_prof,
                 n=(12, 200), min_obligations=5),
        Contract('Laguerre-Gauss pulse', [LP + '.LaguerreGaussPulse'],
                 body_profile('lg'), lambda g: dict(s_prof(g), kind='lg'),
                 c_prof, n=(12, 200), min_obligations=20,
                 bounded='orders 0 to 3; all positions and parameters'),
        Contract('Laguerre-Gauss pulse of any order',
                 [LP + '.LaguerreGaussPulse'], body_profile('any'),
                 lambda g: dict(s_prof(g), kind='lg'), c_prof, n=(12, 200),
                 min_obligations=5, weak=True),
        Contract('sum of pulses', [LP + '.SummedPulse',
                                   LP + '.LaserPulse.__add__'], body_sum,
                 lambda g: dict(s_prof(g), kind='sum'), c_prof, n=(12, 200),
                 min_obligations=12),
        Contract('flattened Gaussian pulse',
                 [LP + '.FlattenedGaussianPulse'], body_flat,
                 lambda g: dict(s_prof(g), kind='flat'), c_prof,
                 n=(12, 200), min_obligations=30,
                 bounded='N = 0 to 4; all other parameters'),
        Contract('polarisation and strength of the driver',
                 ['wake_t.physics_models.plasma_wakefields.'
                  'Quasistatic2DWakefield', 'wake_t.physics_models.'
                  'plasma_wakefields.NonLinearColdFluidWakefield'], None,
                 lambda g: dict(s_prof(g), kind='pol'), c_prof, n=(6, 40)),
    ]
