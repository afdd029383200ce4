"""Laser envelope on the grid: settings, initialisation, time steps, subgrid
interpolation."""
import inspect
from fractions import Fraction as Fr
from .push_common import *
from .. import symarr as SA
from ..symarr import FArr, FArr2, Reps
from ..expr import SComplex
from .c13 import cfn, LM

ASSUMPTIONS = ['grids with at least two points per direction',
               'new grid nodes lie within the longitudinal range of the '
               'source grid and at radii > 0 (both grids cover the same box)',
               'evolution of the envelope itself: C13']
LP = LM + 'laser_pulse'
IM = 'wake_t.fields.interpolation'


# ------------------------------------------------------------ interpolation
def body_interp(ctx):
    tw = twin(ctx)
    f = tw.get(IM + '.interpolate_rz_field')
    nz, nr, mz, mr, i, j = [I(n) for n in ('nz', 'nr', 'mz', 'mr', 'i', 'j')]
    ctx.assume(nz >= 2, nr >= 2, mz >= 1, mr >= 1, i >= 0, i < mz, j >= 0,
               j < mr)
    dz, dr = R('dz', positive=True), R('dr', positive=True)
    ctx.assume(dz > 0, dr > 0)
    z0, r0 = R('z0'), R('r0')
    # position in cells: node number + fraction
    def pos(nm):
        n = I(nm)
        if ctx.choose(2, 'on a node'):
            return n, lift(0)
        u = R(nm + '_f', positive=True)
        X.set_unit(u)
        ctx.assume(u > 0, u < 1)
        return n, u
    l, u = pos('l')
    m, t = pos('m')
    zc, rc = l + u, m + t
    ctx.assume(zc >= 0, zc <= nz - 1, rc > -1, rc < nr)
    F = lambda p, q: X.uf('F', lift(p), lift(q))
    fld = FArr2(nz, nr, F, 'field', True)
    new = FArr2(mz, mr, lambda p, q: X.uf('old', p, q), 'new field')
    zn = FArr(mz, lambda p: z0 + dz * zc if X.same(p, i)
              else X.uf('zn', p), 'z', True)
    rn = FArr(mr, lambda p: r0 + dr * rc if X.same(p, j)
              else X.uf('rn', p), 'r', True)

    def pick(key, it, names, tgt):
        if X.same(lift(it.hi), mz):
            return Reps([i])(key, it, names, tgt)
        if X.same(lift(it.hi), mr):
            return Reps([j])(key, it, names, tgt)
        raise Unsupported('loop over the new grid')
    ctx.loop_rules[IM + ':interpolate_rz_field:*'] = pick
    f(fld, z0, r0, dz, dr, zn, rn, new)
    g = new.at(i, j)

    def along_z(k):
        # at the last node the upper weight is zero
        if X.const_of(u) == 0:
            return F(l, k)
        return F(l, k) * (1 - u) + F(l + 1, k) * u
    if bool(rc < 0):
        # below the first node: straight line through the first two nodes
        e = along_z(lift(0)) * (1 - rc) + along_z(lift(1)) * rc
    elif bool(X.eq(m, nr - 1)):
        # beyond the last node: straight line through the last two
        e = along_z(nr - 1) * (1 + t) - along_z(nr - 2) * t
    else:
        e = along_z(m) * (1 - t) + along_z(m + 1) * t
    ctx.prove('value is the linear interpolation', X.eq(g, e))


def s_interp(rng):
    return dict(nz=rng.choice([2, 3, 7, 20]), nr=rng.choice([2, 3, 7, 20]),
                mz=rng.choice([2, 3, 5, 7, 20, 41]),
                mr=rng.choice([2, 3, 5, 7, 20, 41]),
                seed=rng.randrange(10**6), cx=rng.random() < .5,
                kind=rng.choice(['grid', 'points', 'linear', 'const']))


def interp_ref(fld, zc, rc):
    nz, nr = fld.shape
    zc = np.clip(zc, 0, nz - 1)
    l = np.minimum(np.floor(zc).astype(int), nz - 2)
    u = (zc - l)[:, None]
    fz = fld[l] * (1 - u) + fld[l + 1] * u
    m = np.clip(np.floor(rc).astype(int), 0, nr - 2)
    t = (rc - m)[None]
    return fz[:, m] * (1 - t) + fz[:, m + 1] * t


def c_interp(v):
    f = real(IM + '.interpolate_rz_field')
    r = np.random.default_rng(v['seed'])
    nz, nr = v['nz'], v['nr']
    zmin, zmax = -r.uniform(1, 9) * 1e-5, r.uniform(0, 9) * 1e-5
    rmax = r.uniform(1, 9) * 1e-5
    dz, dr = (zmax - zmin) / (nz - 1), rmax / nr
    cz, cr = np.arange(nz)[:, None], np.arange(nr)[None]
    fld = r.normal(size=(nz, nr))
    if v['cx']:
        fld = fld + 1j * r.normal(size=(nz, nr))
    if v['kind'] == 'linear':
        fld = 1.3 + .2 * cz - .7 * cr + (0j if v['cx'] else 0.)
    elif v['kind'] == 'const':
        fld = 0 * fld + 1.7
    mz, mr = v['mz'], v['mr']
    if v['kind'] == 'points':
        z = zmin + dz * np.clip(np.round(r.uniform(0, nz - 1, mz) * 2) / 2 +
                                r.choice([0, 0, 1e-3], mz), 0, nz - 1.0001)
        rr = dr * r.uniform(.01, nr, mr)
    else:
        z = np.linspace(zmin, zmax, mz)
        q = rmax / mr
        rr = np.linspace(q / 2, rmax - q / 2, mr)
    cp = fld.copy()
    new = np.full((mz, mr), np.nan, dtype=fld.dtype)
    f(fld, zmin, dr / 2, dz, dr, z, rr, new)
    if not np.array_equal(fld, cp):
        raise Violation('interpolation modifies the source field')
    approx(new, interp_ref(fld, (z - zmin) / dz, (rr - dr / 2) / dr),
           rtol=1e-7, atol=1e-7 * np.max(np.abs(fld)),
           what='interpolated field (%s)' % v['kind'])


# ------------------------------------------------------------ laser object
PAR = ['xi_min', 'xi_max', 'r_max', 'nz', 'nr', 'dt', 'nt', 'subgrid_nz',
       'subgrid_nr', 'use_phase']


def settings(ctx, tag, sub):
    v = {n: R(n + tag) for n in ('xi_min', 'xi_max')}
    v['r_max'] = R('r_max' + tag, positive=True)
    v['dt'] = R('dt' + tag, positive=True)
    for n in ('nz', 'nr', 'nt'):
        v[n] = I(n + tag)
    ctx.assume(v['nz'] >= 2, v['nr'] >= 2, v['xi_max'] > v['xi_min'],
               v['r_max'] > 0, v['dt'] > 0)
    v['subgrid_nz'] = v['subgrid_nr'] = None
    if sub & 1:
        v['subgrid_nz'] = I('snz' + tag)
        ctx.assume(v['subgrid_nz'] >= 2)
    if sub & 2:
        v['subgrid_nr'] = I('snr' + tag)
        ctx.assume(v['subgrid_nr'] >= 2)
    v['use_phase'] = tag == '_2' or bool(ctx.choose(2, 'phase' + tag))
    return v


def lg(v):
    """size of the grid the envelope is solved on"""
    return (v['nz'] if v['subgrid_nz'] is None else v['subgrid_nz'],
            v['nr'] if v['subgrid_nr'] is None else v['subgrid_nr'])


def new_pulse(ctx, tw):
    L = tw.get(LP + '.LaserPulse')
    p = L(R('l_0', positive=True), 'linear')
    env = lambda z, r, s: SComplex(X.uf('env_re', z, r, s),
                                   X.uf('env_im', z, r, s))

    def f(xi, r, z_pos):
        g, h = xi.f, r.f
        return FArr2(xi.n, xi.m, lambda a, b: env(
            X.norm(lift(g(a, b))), X.norm(lift(h(a, b))), lift(z_pos)))
    p._envelope_function = f
    return p, env


def body_guard(ctx):
    """settings of a second stage after initialisation"""
    tw = twin(ctx)
    SA.alloc(ctx)
    p, env = new_pulse(ctx, tw)
    tw.load(LP).interpolate_rz_field = lambda f, z0, r0, dz, dr, z, r, new: \
        setattr(new, 'f', cfn('interp'))
    s1, s2 = ctx.choose(4, 'subgrid'), ctx.choose(4, 'subgrid2')
    v1 = settings(ctx, '_1', s1)
    v2 = settings(ctx, '_2', s2)
    ctx.assume(v1['nt'] >= 1)
    p.set_envelope_solver_params(**v1)
    p.initialize_envelope()
    n0 = ctx.choose(2, 'steps')
    p.n_steps = n0
    i, j = I('i'), I('j')
    a0, shape0 = p.a_env.at(i, j), p.a_env.shape
    same = X.and_(*[X.eq(v1[k], v2[k]) for k in (
        'xi_min', 'xi_max', 'r_max', 'nz', 'nr')] + [
        X.eq(a, b) for a, b in zip(lg(v1), lg(v2))])
    bad_nt = v2['nt'] < 1
    try:
        p.set_envelope_solver_params(**v2)
        raised = False
    except ValueError:
        raised = True
    if raised:
        ctx.prove('only an invalid or changed grid is rejected',
                  X.or_(bad_nt, X.not_(same)))
        return
    ctx.prove('a changed grid is rejected', same)
    ctx.prove('number of substeps is at least one', X.not_(bad_nt))
    q = p.solver_params
    ctx.prove_eq('substeps cover the time step', lift(q['dt']) * q['nt'],
                 v2['dt'])
    ctx.prove_eq('number of substeps', lift(q['nt']), v2['nt'])
    ctx.prove('use of the phase', X.boolc(q['use_phase'] is
                                          v2['use_phase']))
    chg = X.not_(X.eq(v1['dt'] * v2['nt'], v2['dt'] * v1['nt']))
    ns = lift(p.n_steps)
    ctx.prove('after a change of the internal time step the first-order '
              'solver is used', X.implies(chg, X.eq(ns, lift(0))))
    ctx.prove('otherwise the step count is kept', X.implies(
        X.not_(chg), X.eq(ns, lift(n0))))
    p.initialize_envelope()
    ctx.prove('the envelope is kept between stages', X.and_(
        X.eq(p.a_env.at(i, j).re, a0.re), X.eq(p.a_env.at(i, j).im, a0.im)))


def bil(nm, a, b):
    return SComplex(X.uf(nm + '_re', X.norm(a), X.norm(b)),
                    X.uf(nm + '_im', X.norm(a), X.norm(b)))


def body_evolve(ctx):
    tw = twin(ctx)
    SA.alloc(ctx)
    p, env = new_pulse(ctx, tw)
    M = tw.load(LP)
    sub = ctx.choose(4, 'subgrid')
    v = settings(ctx, '', sub)
    ctx.assume(v['nt'] >= 1)
    nz, nr = v['nz'], v['nr']
    snz, snr = lg(v)
    if sub:
        # (a subgrid equal to the grid: interpolation or not is the same,
        # see the run-time contract)
        ctx.assume(X.not_(X.and_(X.eq(snz, v['nz']), X.eq(snr, v['nr']))))
    i, j, k, l = I('i'), I('j'), I('k'), I('l')
    ctx.assume(i >= 0, i < nz, j >= 0, j < nr, k >= 0, k < snz, l >= 0,
               l < snr)
    Lz = v['xi_max'] - v['xi_min']
    cur = {'fn': 'A'}

    def ceq(name, a, b):
        a, b = X.tocomplex(a), X.tocomplex(b)
        ctx.prove_eq(name + ' (real part)', a.re, b.re)
        ctx.prove_eq(name + ' (imaginary part)', a.im, b.im)

    def interp(fld, z0, r0, dz, dr, zn, rn, new):
        cx = isinstance(fld.at(k, l), SComplex)
        if cx:
            # envelope on the subgrid to the main grid
            ctx.prove_eq('rows of the source', fld.n, snz)
            ctx.prove_eq('columns of the source', fld.m, snr)
            e = env(X.norm(v['xi_min'] + Lz * k / (snz - 1)),
                    X.norm(v['r_max'] * (l + Fr(1, 2)) / snr), lift(0)) \
                if cur['fn'] == 'A' else cfn('N')(k, l)
            ceq('source is the envelope on the subgrid', fld.at(k, l), e)
        else:
            ctx.prove_eq('rows of the susceptibility', fld.n, nz)
            ctx.prove_eq('columns of the susceptibility', fld.m, nr)
            ctx.prove_eq('source is the susceptibility', fld.at(i, j),
                         X.uf('chi', i, j))
        nm = 'B' + cur['fn'] if cx else 'Bchi'
        f = (lambda a, b: bil(nm, (zn.at(a) - z0) / dz,
                              (rn.at(b) - r0) / dr)) if cx else \
            (lambda a, b: bil(nm, (zn.at(a) - z0) / dz,
                              (rn.at(b) - r0) / dr).re)
        ctx.prove_eq('size of the target', new.n, zn.n)
        ctx.prove_eq('size of the target', new.m, rn.n)
        new.f = f
    M.interpolate_rz_field = interp

    def main_pos(n, m, N, Mr, a, b):
        """position of node (a, b) of the n x m grid on the N x M grid"""
        return a * (N - 1) / (n - 1), (b + Fr(1, 2)) * Mr / m - Fr(1, 2)

    def output(nm):
        g = p.get_envelope()
        ctx.prove_eq('rows of the output', g.n, nz)
        ctx.prove_eq('columns of the output', g.m, nr)
        if sub:
            e = bil('B' + nm, *main_pos(nz, nr, snz, snr, i, j))
        elif nm == 'A':
            e = env(X.norm(v['xi_min'] + Lz * i / (nz - 1)),
                    X.norm(v['r_max'] * (j + Fr(1, 2)) / nr), lift(0))
        else:
            e = cfn('N')(i, j)
        ceq('output envelope', g.at(i, j), e)
    p.set_envelope_solver_params(**v)
    p.initialize_envelope()
    output('A')
    calls = []

    def solver(kind, fn):
        sig = inspect.signature(fn)

        def f(*a, **kw):
            b = sig.bind(*a, **kw)
            b.apply_defaults()
            q = list(b.arguments.values())
            calls.append(kind)
            (a_, o_, chi, k0, kp, z0, z1, n1, rm, n2, dt, nt, ph) = q
            ctx.prove_eq('wave number of the laser', lift(k0),
                         2 * X.var('pi', positive=True) / p.l_0)
            kp = lift(kp)
            ct = {n: R('ct_' + n, positive=True)
                  for n in ('e', 'm_e', 'epsilon_0', 'c')}
            ctx.prove_eq('plasma wave number', kp * kp, ct['e']**2 *
                         n_p / (ct['m_e'] * ct['epsilon_0'] * ct['c']**2))
            ctx.prove('plasma wave number is positive', kp > 0)
            for nm, g, e in (('zmin', z0, v['xi_min']),
                             ('zmax', z1, v['xi_max']),
                             ('nz', n1, snz), ('rmax', rm, v['r_max']),
                             ('nr', n2, snr), ('nt', nt, v['nt'])):
                ctx.prove_eq('solver setting ' + nm, lift(g), lift(e))
            ctx.prove_eq('solver setting dt', lift(dt) * v['nt'], v['dt'])
            ctx.prove('solver setting use_phase', X.boolc(
                ph is v['use_phase']))
            ctx.prove_eq('rows with ghost rows', a_.n, snz + 2)
            ctx.prove_eq('rows with ghost rows', o_.n, snz + 2)
            if len(calls) == 1:
                z = I('ghost')
                ctx.assume(z >= snz, z < snz + 2)
                ceq('no light ahead of the grid', a_.at(z, l), lift(0))
                ceq('initial envelope', a_.at(k, l), env(
                    X.norm(v['xi_min'] + Lz * k / (snz - 1)),
                    X.norm(v['r_max'] * (l + Fr(1, 2)) / snr), lift(0)))
            if sub:
                e = bil('Bchi', *main_pos(snz, snr, nz, nr, k, l)).re
            else:
                e = X.uf('chi', k, l)
            ctx.prove_eq('susceptibility of the envelope grid',
                         X.tocomplex(chi.at(k, l)).re, e)
            cur['fn'] = 'N'
            a_.f = cfn('N')
            o_.f = cfn('N_old')
        return f
    M.evolve_envelope = solver('c', M.evolve_envelope)
    M.evolve_envelope_non_centered = solver(
        'n', M.evolve_envelope_non_centered)
    n_p = R('n_p', positive=True)
    ctx.assume(n_p > 0)
    chi = FArr2(nz, nr, lambda a, b: X.uf('chi', a, b), 'chi', True)
    p.evolve(chi, n_p)
    output('N')
    p.evolve(chi, n_p)
    output('N')
    ctx.prove('first step first order, then time centred',
              X.boolc(calls == ['n', 'c']))


def body_vg(ctx):
    tw = twin(ctx)
    p = tw.get(LP + '.LaserPulse')(R('l_0', positive=True))
    n_p = R('n_p', nonneg=True)
    ctx.assume(n_p >= 0, p.l_0 > 0)
    g = lift(p.get_group_velocity(n_p))
    ct = {n: R('ct_' + n, positive=True)
          for n in ('e', 'm_e', 'epsilon_0', 'c')}
    pi = X.var('pi', positive=True)
    k2c2 = (2 * pi / p.l_0 * ct['c'])**2
    wp2 = n_p * ct['e']**2 / (ct['m_e'] * ct['epsilon_0'])
    ctx.prove_eq('group velocity over c: 1/v^2 = 1 + (w_p/(k c))^2',
                 g * g * (k2c2 + wp2), k2c2)
    ctx.prove('group velocity is positive', g > 0)


# ---------------------------------------------------------------- run time
def s_laser(rng):
    v = dict(nz=rng.choice([8, 13, 20]), nr=rng.choice([6, 9, 16]),
             nt=rng.choice([1, 1, 2, 3]), snz=None, snr=None,
             phase=rng.random() < .6, seed=rng.randrange(10**6),
             test=rng.choice(['run', 'run', 'guard', 'guard', 'keep',
                              'field', 'substeps', 'vg']))
    if rng.random() < .6:
        v['snz'] = rng.choice([None, 8, 11, 16, 30, 40])
        v['snr'] = rng.choice([None, 6, 7, 12, 20])
    return v


def mk_laser(v):
    import wake_t
    r = np.random.default_rng(v['seed'])
    p = wake_t.GaussianPulse(
        xi_c=r.uniform(-10, 10) * 1e-6, a_0=r.uniform(.1, 4), w_0=20e-6,
        tau=r.choice([120e-15, 250e-15]), z_foc=r.uniform(-2, 2) * 1e-3,
        l_0=r.choice([.4e-6, .8e-6, 1e-6]))
    par = dict(xi_min=-r.uniform(20, 40) * 1e-6,
               xi_max=r.uniform(20, 40) * 1e-6,
               r_max=r.uniform(60, 90) * 1e-6, nz=v['nz'], nr=v['nr'],
               dt=10**r.uniform(-14, -12.3), nt=v['nt'],
               subgrid_nz=v['snz'], subgrid_nr=v['snr'],
               use_phase=v['phase'])
    return p, par, r


def grids(par):
    nz, nr = lg(par)
    dr = par['r_max'] / nr
    z = np.linspace(par['xi_min'], par['xi_max'], nz)
    return z, dr * (np.arange(nr) + .5)


def regrid(f, par, to_main):
    a = (par['nz'], par['nr'])
    b = lg(par)
    if par['subgrid_nz'] is None and par['subgrid_nr'] is None:
        return f
    (n, m), (N, Mr) = (a, b) if to_main else (b, a)
    return interp_ref(f, np.arange(n) * (N - 1) / (n - 1),
                      (np.arange(m) + .5) * Mr / m - .5)


def c_laser(v):
    from scipy import constants as ct
    ec = real(LM + 'envelope_solver.evolve_envelope')
    en = real(LM + 'envelope_solver_non_centered.'
              'evolve_envelope_non_centered')
    p, par, r = mk_laser(v)
    n_p = 10**r.uniform(22.5, 24.5)
    kp = np.sqrt(ct.e**2 * n_p / (ct.m_e * ct.epsilon_0)) / ct.c
    nz, nr = lg(par)
    t = v['test']
    if t == 'vg':
        k = 2 * np.pi / p.l_0
        approx(p.get_group_velocity(n_p), 1 / np.sqrt(1 + (kp / k)**2),
               rtol=1e-12, what='group velocity')
        return
    p.set_envelope_solver_params(**par)
    p.initialize_envelope()
    z, rr = grids(par)
    ZZ, RR = np.meshgrid(z, rr, indexing='ij')
    A = np.zeros((nz + 2, nr), complex)
    A[:-2] = p.envelope_function(ZZ, RR, 0.)
    O = np.zeros_like(A)
    sc = np.max(np.abs(A))

    def out(what):
        approx(p.get_envelope(), regrid(A[:-2], par, True), rtol=1e-6,
               atol=1e-6 * np.max(np.abs(A)), what=what)
    out('initial envelope')
    if t == 'guard':
        p2 = mk_laser(v)[0]
        p2.set_envelope_solver_params(**par)
        p2.initialize_envelope()
        zero = np.zeros((par['nz'], par['nr']))
        if v['seed'] % 3:
            p.evolve(zero, n_p)
            p2.evolve(zero, n_p)
        new = dict(par)
        k = ['none', 'xi_min', 'xi_max', 'r_max', 'nz', 'nr', 'subgrid_nz',
             'subgrid_nr', 'two', 'nt'][v['seed'] % 10]
        if k in ('xi_min', 'xi_max', 'r_max'):
            new[k] *= 1.1
        elif k == 'two':
            new['xi_max'] *= 1.2
            new['nz'] += 3
        elif k == 'nt':
            new['nt'] = 0
        elif k != 'none':
            new[k] = (new[k] or {'subgrid_nz': par['nz'], 'subgrid_nr':
                                 par['nr']}.get(k, 0)) + 2
        old = p.get_envelope().copy()
        try:
            p.set_envelope_solver_params(**new)
            p.initialize_envelope()
            raised = False
        except ValueError:
            raised = True
        if raised != (k != 'none'):
            raise Violation(
                'changing %s of an initialised laser was %s' % (
                    k, 'rejected' if raised else 'accepted'))
        approx(p.get_envelope(), old, rtol=1e-12,
               what='envelope after setting up a second stage')
        p.evolve(zero, n_p)
        p2.evolve(zero, n_p)
        if not np.all(np.isfinite(p2.get_envelope())):
            raise Skip()
        approx(p.get_envelope(), p2.get_envelope(), rtol=1e-9,
               atol=1e-9 * sc, what='envelope one step after ' + (
                   'setting the same grid' if k == 'none' else
                   'a rejected change of %s' % k))
        return
    if t == 'field':
        return c_field(v, p, par, r, n_p)
    n1 = r.integers(1, 4)
    first = True
    if t == 'substeps':
        # internal step that is exact in binary arithmetic
        dti = 2.**r.integers(-46, -40)
        par['dt'] = dti * v['nt']
        p.set_envelope_solver_params(**par)
    chis = []
    for s in range(int(n1) + 3):
        if t == 'keep' and s == n1:
            # second stage, other time step
            par['dt'] *= 1.5
            p.set_envelope_solver_params(**par)
            p.initialize_envelope()
            out('envelope at the start of a second stage')
            first = True
        if t == 'substeps' and s >= 1:
            par['nt'] = v['nt'] + s      # same internal step
            par['dt'] = dti * par['nt']
            p.set_envelope_solver_params(**par)
        chi = np.abs(r.normal(size=(par['nz'], par['nr'])))
        c0 = chi.copy()
        p.evolve(chi, n_p)
        if not np.array_equal(chi, c0):
            raise Violation('laser evolution modifies the susceptibility')
        (en if first else ec)(
            A, O, regrid(chi, par, False), 2 * np.pi / p.l_0, kp,
            par['xi_min'], par['xi_max'], nz, par['r_max'], nr,
            par['dt'] / par['nt'], par['nt'], par['use_phase'])
        first = False
        if not np.all(np.isfinite(A)) or np.max(np.abs(A)) > 1e6:
            raise Skip()
        d = np.abs(np.angle(A[1:-2, 0] / A[:-3, 0]))
        if par['use_phase'] and (np.max(d) > 3.1 or np.min(np.abs(
                A[:-2, 0])) < 1e-3 * np.max(np.abs(A))):
            # phase of (nearly) zero amplitude is not well defined
            raise Skip()
        out('envelope after step %d' % (s + 1))


def c_field(v, p, par, r, n_p):
    """laser driven by a wakefield model: settings are handed over"""
    from scipy import constants as ct
    Rz = real('wake_t.fields.rz_wakefield.RZWakefield')
    chis = []

    class W(Rz):
        def _calculate_wakefield(self, bunches):
            c = np.abs(np.random.default_rng(len(chis)).normal(
                size=(self.n_xi, self.n_r)))
            chis.append(c)
            self.chi[2:-2, 2:-2] = c
    dens = lambda z: n_p * (1 + z / .1)
    dzf = par['dt'] * ct.c
    f = W(dens, par['r_max'], par['xi_min'], par['xi_max'], par['nr'],
          par['nz'], dzf, p, v['seed'] % 4 != 0, par['nt'],
          par['subgrid_nz'], par['subgrid_nr'], par['use_phase'])
    p2, par2, _ = mk_laser(v)
    par2['dt'] = dzf / ct.c
    p2.set_envelope_solver_params(**par2)
    p2.initialize_envelope()
    for s in range(4):
        f.update([])
        if s and v['seed'] % 4:
            # density at the position where chi was computed
            p2.evolve(chis[-2], dens((s - 1) * dzf))
        a = p2.get_envelope()
        if not np.all(np.isfinite(a)):
            raise Skip()
        approx(p.get_envelope(), a, rtol=1e-6, atol=1e-7 * np.max(np.abs(a)),
               what='envelope after %d updates of the wakefield' % s)


def contracts():
    fs = [LP + '.LaserPulse.' + n for n in (
        'set_envelope_solver_params', 'initialize_envelope',
        '_create_laser_subgrid', '_update_output_envelope')]
    return [
        Contract('interpolation to another grid',
                 [IM + '.interpolate_rz_field'], body_interp, s_interp,
                 c_interp, n=(80, 800), min_obligations=6, weak=True),
        Contract('settings of an initialised laser', fs, body_guard,
                 s_laser, c_laser, n=(120, 1500), min_obligations=20,
                 max_paths=4000),
        Contract('initialisation, steps and output', fs + [
            LP + '.LaserPulse.evolve',
            LP + '.LaserPulse._interpolate_chi_to_subgrid'], body_evolve,
            s_laser, c_laser, n=(120, 1500), min_obligations=40),
        Contract('group velocity', [LP + '.LaserPulse.get_group_velocity'],
                 body_vg, lambda rng: dict(s_laser(rng), test='vg'), c_laser,
                 n=(10, 50), min_obligations=2),
    ]
