"""Quasi-static wakefield: plasma column, sources and fields on the grid."""
import types
from .push_common import *
from .. import symarr as SA
from ..symarr import FArr, FArr2, Reps
from .c16 import BX, close
from .c18 import End, column_stubs, check_log, column_fields
from fractions import Fraction as Fr

SO = BX + 'solver'
WK = BX + 'wakefield.Quasistatic2DWakefield'
ASSUMPTIONS = ['1 + psi > 0 at every particle (limited to psi >= -0.9)',
               'gather, potential, magnetic field, deposition and pushers by '
               'their contracts (C01-C04, C16-C18)',
               'numpy.gradient, cumsum, argsort, where as documented']


def ge(ctx):
    """aptools.plasma_accel.general_equations (density in cm^-3)"""
    def wp(n):
        w = X.uf('plasma_frequency', X.norm(lift(n)))
        ctx.assume(w > 0)
        return w
    c, e, m = [R(k, positive=True) for k in ('ct_c', 'ct_e', 'ct_m_e')]
    return types.SimpleNamespace(
        plasma_frequency=wp, plasma_skin_depth=lambda n: c / wp(n),
        plasma_cold_non_relativisct_wave_breaking_field=lambda n:
        m * c / e * wp(n))


def body_gamma(ctx):
    tw = twin(ctx)
    ctx.generic()
    f = getattr(tw.load(SO), 'update_gamma_and_pz', None)
    if f is None:
        return
    pr, a2, psi = R('pr'), R('a2'), R('psi')
    ctx.assume(psi > -1, a2 >= 0)
    g, pz = P(R('g'), 'gamma'), P(R('z'), 'pz')
    f(g, pz, P(pr, 'pr', True), P(a2, 'a2', True), P(psi, 'psi', True))
    g, pz = g.val, pz.val
    ctx.prove_eq('mass shell', g**2, 1 + pr**2 + pz**2 + a2)
    ctx.prove_eq('constant of motion', g - pz, 1 + psi)
    ctx.prove('energy of an electron', g > 0)


def body_column(ctx):
    """one slice: fields at the particles, limit of gamma, deposition"""
    tw = twin(ctx)
    ctx.generic()
    M = tw.load(SO)
    log, dep, msh = [], [], []
    column_stubs(ctx, M, log)

    def deposit(i, r, w, z0, r0, nz, nr, dz, dr, arr, p_shape='cubic'):
        dep.append((i, r.val, w.val, z0, r0, nz, nr, dz, dr, arr, p_shape))
    M.deposit_plasma_particles = deposit

    def mpsi(rf, r, q, idx, rm, pc, out, i):
        msh.append(('psi', rf, r.val, q.val, idx.val, rm, pc, out, i))

    def mbt(rf, r, pr, q, g, psi, drp, dxp, b0, na, idx, out, i):
        msh.append(('bt', rf) + tuple(x.val for x in (
            r, pr, q, g, psi, drp, dxp, b0, na, idx)) + (out, i))
    M.calculate_psi, M.calculate_b_theta = mpsi, mbt
    src = [object() for _ in range(3)]
    psi, bt, rho, chi = [object() for _ in range(4)]
    rf, xf = End('r_fld'), End('xi_fld')
    v = {n: R(n) for n in ('xi', 'r', 'pr', 'q', 'rm', 'dp', 'pc', 'dxi',
                           'dr', 'mg')}
    ctx.assume(v['r'] > 0, v['dr'] > 0, v['mg'] > 1)
    i, nx, nr = I('i'), I('n_xi'), I('n_r')
    ar, ap = P(v['r'], 'r', True), P(v['pr'], 'pr')
    az, ag, aq = P(R('pz'), 'pz'), P(R('gamma'), 'gamma'), P(v['q'], 'q',
                                                            True)
    fl = [P(R('f%d' % k), 'field') for k in range(7)]
    r, pr, q, xi = v['r'], v['pr'], v['q'], v['xi']
    a2, na, b0 = [X.uf('G_' + n, xi, r) for n in ('a2', 'nabla_a2', 'b_t_0')]
    ps, dp, dx = [X.uf('C_' + n, r, pr, q)
                  for n in ('psi', 'dr_psi', 'dxi_psi')]
    ctx.assume(ps > -1, a2 >= 0)
    M.calculate_and_deposit_plasma_column(
        i, xi, ar, ap, az, ag, aq, v['rm'], v['dp'], v['pc'], *fl, *src, psi,
        bt, rho, chi, xf, rf, v['dxi'], v['dr'], nx, nr, v['mg'], 'shape')
    g = (1 + pr**2 + a2 + (1 + ps)**2) / (2 * (1 + ps))
    pz = g - 1 - ps
    bp = X.uf('C_bt', r, pr, q, g, ps, dp, dx, b0, na)
    for n, a, b in zip(('a2', 'nabla_a2', 'b_t_0', 'b_t', 'psi', 'dr_psi',
                        'dxi_psi'), fl, (a2, na, b0, bp, ps, dp, dx)):
        ctx.prove_eq('%s at the particles' % n, a.val, b)
    check_log(ctx, log, src, (xf[0], xf[-1], rf[0], rf[-1], v['dxi'],
                              v['dr']), (v['rm'], v['dp'], v['pc']))
    if bool(g >= v['mg']):
        # put at rest
        g, pz, pr = lift(1), lift(0), lift(0)
    ctx.prove_eq('gamma', ag.val, g)
    ctx.prove_eq('longitudinal momentum', az.val, pz)
    ctx.prove_eq('radial momentum', ap.val, pr)
    w = q / (v['dr'] * r * (1 - pz / g))
    ctx.assume(g > 0)
    exp = {id(rho): ('charge density', w), id(chi): ('susceptibility', w / g)}
    ctx.prove('both densities deposited once', X.boolc(
        sorted(id(d[9]) for d in dep) == sorted(exp)))
    for d in dep:
        nm, ww = exp.get(id(d[9]), (None, None))
        if nm is None:
            continue
        ctx.prove_eq(nm + ': weight', d[2], ww)
        ctx.prove_eq(nm + ': position', d[1], r)
        for a, b in zip((d[0],) + d[3:9], (i, xf[0], rf[0], nx, nr,
                                           v['dxi'], v['dr'])):
            ctx.prove_eq(nm + ': grid', lift(a), lift(b))
        ctx.prove(nm + ': particle shape', X.boolc(d[10] == 'shape'))
    for m in msh:
        ctx.prove('mesh of the fields', X.boolc(
            m[1] is rf and m[7 if m[0] == 'psi' else 12] is
            (psi if m[0] == 'psi' else bt)))
        ctx.prove_eq('slice of the fields', lift(m[-1]), i)
        ctx.prove_eq('particles are sorted by radius', m[4 if m[0] == 'psi'
                                                         else 11],
                     X.uf('argsort', r))
        exp = (r, q, None, v['rm'], v['pc']) if m[0] == 'psi' else (
            r, pr, q, g, ps, dp, dx, b0, na)
        for a, b in zip(m[2:], exp):
            if b is not None:
                ctx.prove_eq('plasma column of the fields', lift(a), b)
    ctx.prove('both fields calculated once', X.boolc(
        sorted(m[0] for m in msh) == ['bt', 'psi']))


def body_slices(which):
    """head to tail; the column of every slice is deposited, then evolved to
    the next one, except for the last"""
    def body(ctx):
        tw = twin(ctx)
        ctx.generic()
        M = tw.load(SO)
        n = I('n_xi')
        k = I('k')
        ctx.assume(n >= 1, k >= 0, k < n)
        log = []
        M.calculate_and_deposit_plasma_column = lambda *a: log.append(
            ('col',) + a)
        M.evolve_plasma_ab5 = lambda *a: log.append(('ab5',) + a)
        M.evolve_plasma_rk4 = lambda *a: log.append(('rk4',) + a)
        ctx.loop_rules[SO + ':calculate_with_%s:*' % which] = Reps(
            [k], nth=True)
        xf = FArr(n, lambda i: X.uf('xi_fld', i), 'xi_fld', frozen=True)
        T_ = [types.SimpleNamespace(n='t%d' % j) for j in range(60)]
        it = iter(T_)
        part = [next(it) for _ in range(5)]
        pl = [next(it) for _ in range(3)]
        nf = 7
        src = [next(it) for _ in range(3)]
        out = [next(it) for _ in range(4)]
        rf, dxi, dr, nr, mg, sh = [next(it) for _ in range(6)]
        if which == 'ab5':
            fl = [next(it) for _ in range(7)]
            h = [next(it) for _ in range(10)]
            M.calculate_with_ab5(*part, *pl, *fl, *src, *out, xf, rf, dxi,
                                 dr, n, nr, mg, sh, *h)
        else:
            h = [next(it) for _ in range(8)]
            F = [[next(it) for _ in range(7)] if j < 2 else
                 [types.SimpleNamespace() for _ in range(7)]
                 for j in range(4)]
            fl = F[0]
            M.calculate_with_rk4(*part, *pl, *src, *out, xf, rf, dxi, dr, n,
                                 nr, mg, sh, *h, *F[0], *F[1], *F[2], *F[3])
        s = n - 1 - k
        xi = X.uf('xi_fld', s)
        exp = ['col']
        if bool(s > 0):
            exp.append(which)
        ctx.prove('every slice is calculated, then evolved unless it is the '
                  'last', X.boolc([e[0] for e in log] == exp))

        def same(what, a, b):
            ok = len(a) == len(b)
            for x, y in zip(a, b):
                if isinstance(y, X.E):
                    ctx.prove_eq(what, lift(x), y)
                else:
                    ok = ok and x is y
            ctx.prove(what, X.boolc(ok))
        for e in log:
            if e[0] == 'col':
                same('arguments of the plasma column', e[1:],
                     [s, xi] + part + pl + fl + src + out + [
                         xf, rf, dxi, dr, n, nr, mg, sh])
            elif e[0] == 'ab5':
                same('arguments of the pusher', e[1:],
                     [dxi, part[0], part[1], part[3], fl[1], fl[2], fl[3],
                      fl[4], fl[5]] + h)
            else:
                same('arguments of the pusher', e[1:],
                     [dxi, dr, xi, part[0], part[1], part[3], part[4]] + pl +
                     src + [rf, xf] + h + F[0] + F[1] + F[2] + F[3])
    return body


def body_beam(ctx):
    tw = twin(ctx)
    ctx.generic()
    M = tw.load(SO)
    M.ge = ge(ctx)
    SA.alloc(ctx)
    n_p = R('n_p', positive=True)
    nx, nr = I('n_xi'), I('n_r')
    ctx.assume(nx >= 1, nr >= 1)
    r0, x0, dr, dxi = [R(n) for n in ('r_min', 'xi_min', 'dr', 'dxi')]
    ctx.assume(dr > 0, dxi > 0)
    b = types.SimpleNamespace(**{n: P(R('b_' + n), n, True)
                                 for n in ('x', 'y', 'xi', 'q')})
    log = []

    def dep(z, x, y, q, zm, rm, nz, nr_, dz, dr_, arr, p_shape='cubic',
            use_ruyten=False, **k):
        log.append((z.val, x.val, y.val, q.val, zm, rm, nz, nr_, dz, dr_,
                    p_shape, use_ruyten, k))
        ctx.prove_eq('deposition starts at zero', arr.at(I('u'), I('w')),
                     lift(0))
        arr.f = lambda i, j: X.uf('qd', i, j)
        return True
    M.deposit_3d_distribution = dep
    b_t = FArr2(nx + 4, nr + 4, lambda i, j: X.uf('old', i, j), 'b_t')
    o = M.calculate_beam_source(b, n_p, nr, nx, r0, x0, dr, dxi, 'shape',
                                b_t)
    sd = M.ge.plasma_skin_depth(n_p / 10**6)
    e, pi = R('ct_e', positive=True), X.var('pi', positive=True)
    ctx.prove('deposited once', X.boolc(len(log) == 1))
    for l in log:
        for nm, a, c in (
                ('xi', l[0], R('b_xi') / sd), ('x', l[1], R('b_x') / sd),
                ('y', l[2], R('b_y') / sd),
                ('weight', l[3], R('b_q') / e / (
                    2 * pi * dr * dxi * sd**3 * n_p)),
                ('grid', l[4], x0), ('grid', l[5], r0), ('grid', l[6], nx),
                ('grid', l[7], nr), ('grid', l[8], dxi), ('grid', l[9], dr)):
            ctx.prove_eq('deposition of the beam: ' + nm, lift(a), lift(c))
        ctx.prove('deposition of the beam: particle shape',
                  X.boolc(l[10] == 'shape' and l[11] is True and not l[12]))
    i, j = I('i'), I('j')
    ctx.assume(i >= 0, i < nx, j >= 0, j < nr)
    q = FArr2(nx, nr, lambda p, s: X.uf('qd', p + 2, s + 2))
    S = T.np_shim.cumsum(q, axis=1).at(i, j)
    own = q.at(i, j)
    first = bool(X.eq(j, lift(0)))
    # half of the charge of the own cell, a quarter in the cell at the axis
    part = S - own / 2 - (own / 4 if first else lift(0))
    ctx.prove_eq('field of the charge inside r', b_t.at(i + 2, j + 2),
                 X.uf('old', i + 2, j + 2) + part / (j + Fr(1, 2)))
    # guard cells untouched
    k, l = I('k'), I('l')
    ctx.assume(k >= 0, l >= 0, k < nx + 4, l < nr + 4)
    ctx.assume(X.or_(k < 2, k >= nx + 2, l < 2, l >= nr + 2))
    ctx.prove_eq('guard cells of the field', b_t.at(k, l), X.uf('old', k, l))


def body_fields(ctx):
    """units, sources and derived fields"""
    tw = twin(ctx)
    ctx.generic()
    M = tw.load(SO)
    M.ge = ge(ctx)
    SA.alloc(ctx)
    n_p = R('n_p', positive=True)
    nx, nr = I('n_xi'), I('n_r')
    ctx.assume(nx >= 3, nr >= 3)
    rmax, x0, x1 = R('r_max', positive=True), R('xi_min'), R('xi_max')
    ctx.assume(x1 > x0)
    pc = R('pc')
    sd = M.ge.plasma_skin_depth(n_p / 10**6)
    fin = bool(ctx.choose(2, 'finite plasma'))
    rp = R('r_max_plasma', positive=True) if fin else None
    log = []
    sy = types.SimpleNamespace

    class PP:
        def __init__(self, *a):
            log.append(('pp', a))
            self.done = 0

        def initialize(self):
            self.done += 1
    M.PlasmaParticles = PP
    M.radial_gradient = lambda a, d: FArr2(
        nx, nr, lambda i, j: X.uf('grad', X.norm(lift(d)), i, j))

    def beam(b, np_, nr_, nx_, r0_, x0_, dr_, dx_, sh, b_t):
        log.append(('beam', b, np_, nr_, nx_, r0_, x0_, dr_, dx_, sh))
        b_t += FArr2(nx + 4, nr + 4, lambda i, j: X.uf('bt_' + b.n, i, j))
        return b_t
    M.calculate_beam_source = beam

    def evolve(pp, a2, na, b0, psi, bb, rho, chi, xf, rf, dxi, dr, nx_, nr_,
               mg, sh, push):
        i, j = I('ii'), I('jj')
        ins = X.and_(i >= 2, i < nx + 2, j >= 2, j < nr + 2)
        ctx.assume(i >= 0, j >= 0, i < nx + 4, j < nr + 4)
        z = lift(0)
        ctx.prove_eq('laser source', a2.at(i, j), X.ite(
            ins, X.uf('laser', i - 2, j - 2), z))
        ctx.prove_eq('gradient of the laser source', na.at(i, j), X.ite(
            ins, X.uf('grad', X.norm(rmax / sd / nr), i - 2, j - 2), z))
        ctx.prove_eq('beam source', b0.at(i, j),
                     sum((X.uf('bt_' + b.n, i, j) for b in bunches),
                         lift(0)))
        for n, a in (('potential', psi), ('magnetic field', bb)):
            ctx.prove_eq('%s starts at zero' % n, a.at(i, j), z)
        log.append(('evolve', pp, rho, chi, xf.at(i), rf.at(j), dxi, dr, nx_,
                    nr_, mg, sh, push))
        psi.f = lambda p, q: X.uf('PSI', p, q)
        bb.f = lambda p, q: X.uf('BB', p, q)
    M.evolve_plasma_and_calculate_fields = evolve
    bunches = [sy(n='b%d' % k) for k in range(ctx.choose(3, 'bunches'))]
    new = lambda n: FArr2(nx + 4, nr + 4, lambda i, j: lift(0), n)
    rho, chi, er, ez, bt = [new(n) for n in ('rho', 'chi', 'E_r', 'E_z',
                                             'B_t')]
    xf = FArr(nx, lambda i: X.uf('xf', i), 'xi_fld', frozen=True)
    rf = FArr(nr, lambda i: X.uf('rf', i), 'r_fld', frozen=True)
    la = FArr2(nx, nr, lambda i, j: X.uf('laser', i, j), 'a2', frozen=True)
    M.calculate_wakefields(
        la, bunches, rmax, x0, x1, nr, nx, 'ppc', n_p, r_max_plasma=rp,
        parabolic_coefficient=pc, p_shape='shape', max_gamma='mg',
        plasma_pusher='push', fld_arrays=[rho, chi, er, ez, bt, xf, rf])
    dr, dxi = rmax / nr / sd, (x1 - x0) / (nx - 1) / sd

    def eqs(what, a, b):
        for x, y in zip(a, b):
            if isinstance(y, str):
                ctx.prove(what, X.boolc(x == y))
            else:
                ctx.prove_eq(what, lift(x), lift(y))
    ev = [e for e in log if e[0] == 'evolve']
    pp = [e for e in log if e[0] == 'pp']
    be = [e for e in log if e[0] == 'beam']
    ctx.prove('one evolution of one plasma column', X.boolc(
        len(ev) == 1 and len(pp) == 1 and ev[0][1].done == 1 and
        ev[0][2] is rho and ev[0][3] is chi))
    ctx.prove('every bunch is a source once', X.boolc(
        sorted(b[1].n for b in be) == sorted(b.n for b in bunches)))
    eqs('plasma column', pp[0][1], [rmax / sd, rp / sd if fin else rmax / sd,
                                    pc * sd**2, dr, 'ppc', 'push'])
    for b in be:
        eqs('beam source: grid', b[2:], [n_p, nr, nx, X.uf('rf', 0) / sd,
                                         X.uf('xf', 0) / sd, dr, dxi,
                                         'shape'])
    eqs('evolution: grid', ev[0][4:], [
        X.uf('xf', I('ii')) / sd, X.uf('rf', I('jj')) / sd, dxi, dr, nx, nr,
        'mg', 'shape', 'push'])
    i, j = I('i'), I('j')
    ctx.assume(i >= 0, i < nx, j >= 0, j < nr)
    E0 = M.ge.plasma_cold_non_relativisct_wave_breaking_field(n_p / 10**6)
    c = R('ct_c', positive=True)
    psi = FArr2(nx, nr, lambda p, q: X.uf('PSI', p + 2, q + 2))
    d0, d1 = T.np_shim.gradient(psi, dxi, dr, edge_order=2)
    bb = X.uf('BB', i + 2, j + 2) + sum(
        (X.uf('bt_' + b.n, i + 2, j + 2) for b in bunches), lift(0))
    ctx.prove_eq('E_z', ez.at(i + 2, j + 2), -d0.at(i, j) * E0)
    ctx.prove_eq('B_theta', bt.at(i + 2, j + 2), bb * E0 / c)
    ctx.prove_eq('E_r - c B_theta', er.at(i + 2, j + 2) -
                 c * bt.at(i + 2, j + 2), -d1.at(i, j) * E0)


def body_grad(ctx):
    tw = twin(ctx)
    f = getattr(tw.load('wake_t.utilities.other'), 'radial_gradient', None)
    if f is None:
        return
    n, m, h = I('n'), I('m'), R('dr', positive=True)
    ctx.assume(n >= 1, m >= 2)
    a = FArr2(n, m, lambda i, j: X.uf('f', i, j), 'field', frozen=True)
    o = f(a, h)
    i, j = I('i'), I('j')
    ctx.assume(i >= 0, i < n, j >= 0, j < m)
    u = lambda k: X.uf('f', i, k)
    ctx.prove_eq('size', lift(o.shape[1]), m)
    if bool(X.eq(j, lift(0))):
        v = (u(1) - u(0)) / (2 * h)
    elif bool(X.eq(j, m - 1)):
        v = (u(m - 1) - u(m - 2)) / h
    else:
        v = (u(j + 1) - u(j - 1)) / (2 * h)
    ctx.prove_eq('radial gradient of a field that is even in r',
                 o.at(i, j), v)


def body_init(ctx):
    """the column for any extent, resolution and number of particles"""
    tw = twin(ctx)
    ctx.generic()
    SA.alloc(ctx)
    M = tw.load(BX + 'plasma_particles')
    rm, rp, dr = [R(n, positive=True) for n in ('r_max', 'r_max_plasma',
                                                'dr')]
    pc, ppc = R('pc'), I('ppc')
    ctx.assume(ppc >= 1)
    pusher = ('ab5', 'rk4')[ctx.choose(2, 'pusher')]
    p = M.PlasmaParticles(rm, rp, pc, dr, ppc, pusher)
    n = lift(p.n_part)
    ctx.prove('number of particles is the nearest one', X.and_(
        n * dr - rp * ppc <= dr / 2, rp * ppc - n * dr <= dr / 2))
    ctx.assume(n >= 1)
    p.initialize()
    dp = dr / ppc
    i = I('i')
    ctx.assume(i >= 0, i < n)
    r = (i + Fr(1, 2)) * dp
    for nm, a, b in (('positions', p.r, r),
                     ('charges', p.q, dp * r * (1 + pc * r**2)),
                     ('radial momentum', p.pr, 0), ('momentum', p.pz, 0),
                     ('gamma', p.gamma, 1)):
        ctx.prove_eq('initial column: ' + nm, a.at(i), lift(b))
        ctx.prove_eq('initial column: number', lift(a.shape[0]), n)
    for nm, a, b in (('extent of the plasma', p.r_max_plasma, n * dp),
                     ('distance of the particles', p.dr_p, dp),
                     ('parabolic coefficient', p.parabolic_coefficient, pc)):
        ctx.prove_eq(nm, lift(a), lift(b))
    arrs = list(p.get_field_arrays())
    ok = len(arrs) == 7
    if pusher == 'ab5':
        a, b = p.get_ab5_arrays()
        ok = ok and len(a) == len(b) == 5
        arrs += list(a) + list(b)
    else:
        a, b = p.get_rk4_arrays()
        ok = ok and len(a) == len(b) == 4
        arrs += list(a) + list(b)
        for k in range(4):
            f = list(p.get_rk4_field_arrays(k))
            ok = ok and len(f) == 7
            if k == 0:
                # the fields at the start of the step
                ok = ok and all(x is y for x, y in zip(f, arrs))
            else:
                arrs += f
    own = arrs + [p.r, p.pr, p.pz, p.gamma, p.q]
    base = lambda x: (id(getattr(x, 'base', x)), str(getattr(x, 'r', '')),
                      getattr(x, 'ax', 0))
    ctx.prove('separate work arrays', X.boolc(
        ok and len({base(x) for x in own}) == len(own)))
    for x in arrs:
        ctx.prove_eq('work arrays start at zero', x.at(i), lift(0))
        ctx.prove_eq('work arrays: number', lift(x.shape[0]), n)


def body_pass(ctx):
    """the column goes to the chosen pusher with its own arrays"""
    tw = twin(ctx)
    ctx.generic()
    M = tw.load(SO)
    which = ('ab5', 'rk4', 'rk5')[ctx.choose(3, 'pusher')]
    log = []
    M.calculate_with_ab5 = lambda *a: log.append(('ab5', a))
    M.calculate_with_rk4 = lambda *a: log.append(('rk4', a))
    ob = lambda n: [types.SimpleNamespace(n=n) for n in n.split()]
    col = ob('r pr pz gamma q r_max_plasma dr_p parabolic_coefficient')
    pp = types.SimpleNamespace(**{o.n: o for o in col})
    fl = [ob('a2 na b0 bt psi dr dxi') for _ in range(4)]
    h5 = ob('1 2 3 4 5'), ob('1 2 3 4 5')
    h4 = ob('1 2 3 4'), ob('1 2 3 4')
    pp.get_field_arrays = lambda: fl[0]
    pp.get_rk4_field_arrays = lambda k: fl[k]
    pp.get_ab5_arrays = lambda: h5
    pp.get_rk4_arrays = lambda: h4
    src = ob('a2 na b0 psi bb rho chi')
    grid = ob('xf rf dxi dr nx nr mg sh')
    try:
        M.evolve_plasma_and_calculate_fields(pp, *src, *grid, which)
    except ValueError:
        ctx.prove('a known pusher is accepted', X.boolc(which == 'rk5'))
        ctx.prove('nothing calculated', X.boolc(not log))
        return
    ctx.prove('an unknown pusher is rejected', X.boolc(which != 'rk5'))
    ctx.prove('one pusher, the chosen one', X.boolc(
        [l[0] for l in log] == [which]))
    if len(log) != 1:
        return
    exp = col + fl[0] + src + grid + h5[0] + h5[1] if which == 'ab5' else \
        col + src + grid + h4[0] + h4[1] + sum(fl, [])
    ctx.prove('arguments of the slices', X.boolc(
        len(exp) == len(log[0][1]) and
        all(a is b for a, b in zip(log[0][1], exp))))


def body_obj(ctx):
    """sources and parameters of the wakefield object"""
    tw = twin(ctx)
    ctx.generic()
    ctx.data['split'] = True
    M = tw.load(BX + 'wakefield')
    SA.alloc(ctx)
    nx, nr = I('n_xi'), I('n_r')
    ctx.assume(nx >= 3, nr >= 3)
    o = M.Quasistatic2DWakefield.__new__(M.Quasistatic2DWakefield)
    pol = (None, 'linear', 'circular')[ctx.choose(3, 'laser')]
    re, im = [lambda i, j, n=n: X.uf(n, i, j) for n in ('a_re', 'a_im')]
    env = FArr2(nx, nr, lambda i, j: X.SComplex(re(i, j), im(i, j)),
                'envelope', frozen=True)
    las = None if pol is None else types.SimpleNamespace(
        polarization=pol, get_envelope=lambda: env)
    t, c = R('t'), R('ct_c', positive=True)
    A = {n: R(n) for n in ('r_max', 'xi_min', 'xi_max', 'n_p',
                           'r_max_plasma', 'max_gamma')}
    A.update(n_r=nr, n_xi=nx, ppc=I('ppc'))
    T_ = {n: types.SimpleNamespace(n=n) for n in (
        'p_shape', 'plasma_pusher', 'rho', 'chi', 'e_r', 'e_z', 'b_t',
        'xi_fld', 'r_fld')}
    var = bool(ctx.choose(2, 'parabolic profile'))
    put = lambda n, v: object.__setattr__(o, n, v)
    for n, v in dict(A, t=t, laser=las, laser_evolution=bool(
            ctx.choose(2, 'laser evolution')) if las else True, **T_).items():
        put(n, v)
    if var:
        put('parabolic_coefficient', o._get_parabolic_coefficient_fn(
            lambda z: X.uf('profile', X.norm(lift(z)))))
        pc = X.uf('profile', X.norm(t * c))
    else:
        put('parabolic_coefficient', lambda z: R('pc'))
        pc = R('pc')
    log = []
    names = ('laser_a2', 'bunches', 'r_max', 'xi_min', 'xi_max', 'n_r',
             'n_xi', 'ppc', 'n_p')

    def calc(*a, **k):
        for n, v in zip(names + ('r_max_plasma', 'parabolic_coefficient',
                                 'p_shape', 'max_gamma', 'plasma_pusher',
                                 'fld_arrays'), a):
            k[n] = v
        log.append(k)
    M.calculate_wakefields = calc
    bunches = [object() for _ in range(ctx.choose(3, 'bunches'))]
    given = list(bunches)
    o._calculate_wakefield(bunches)
    ctx.prove('calculated once', X.boolc(len(log) == 1))
    if len(log) != 1:
        return
    k = log[0]
    for n, v in A.items():
        ctx.prove_eq('parameter ' + n, lift(k[n]), v)
    ctx.prove_eq('parabolic coefficient at the position of the plasma',
                 lift(k['parabolic_coefficient']), pc)
    ctx.prove('shape and pusher', X.boolc(
        k['p_shape'] is T_['p_shape'] and
        k['plasma_pusher'] is T_['plasma_pusher']))
    ctx.prove('all bunches', X.boolc(list(k['bunches']) == given))
    ctx.prove('arrays of the fields', X.boolc(
        len(k['fld_arrays']) == 7 and all(a is T_[n] for a, n in zip(
            k['fld_arrays'], ('rho', 'chi', 'e_r', 'e_z', 'b_t', 'xi_fld',
                              'r_fld')))))
    i, j = I('i'), I('j')
    ctx.assume(i >= 0, i < nx, j >= 0, j < nr)
    a2 = re(i, j)**2 + im(i, j)**2
    ctx.prove_eq('square of the laser amplitude, averaged over a cycle',
                 k['laser_a2'].at(i, j), lift(0) if pol is None else
                 a2 / 2 if pol == 'linear' else a2)
    ctx.prove_eq('size of the laser source', lift(k['laser_a2'].shape[0]),
                 nx)
    ctx.prove_eq('size of the laser source', lift(k['laser_a2'].shape[1]),
                 nr)


# ---------------------------------------------------------------- run time
def s_wk(rng):
    return dict(seed=rng.randrange(10**6), nr=rng.choice([4, 9, 20]),
                nx=rng.choice([3, 7, 16]), ppc=rng.choice([1, 2, 3]),
                pusher=rng.choice(['rk4', 'ab5']),
                shape=rng.choice(['linear', 'cubic']),
                pc=rng.choice([0., 0., .3, -.02]),
                rp=rng.choice([None, None, .7, 1.3]),
                nb=rng.choice([0, 1, 1, 2, 3]), drive=rng.choice(
                    [0., .01, .3, 1.5]), laser=rng.random() < .5,
                mg=rng.choice([1.02, 1.1, 3., 10.]), fine=rng.random() < .6)


def s_fine(rng):
    v = s_wk(rng)
    v.update(fine=True, nr=20, nx=rng.choice([7, 16]), mg=10.,
             drive=rng.choice([.01, .1]))
    return v


def world(v):
    g = np.random.RandomState(v['seed'])
    n_p = 10**g.uniform(22, 24.5)
    w = np.sqrt(n_p * 1.602176634e-19**2 / (
        9.1093837015e-31 * 8.8541878128e-12))
    sd = C / w
    jit = v.get('jit', np.zeros(3))
    rmax = g.uniform(2, 6) * (1 + jit[0])
    x0 = g.uniform(-20, 5) + jit[1]
    x1 = x0 + g.uniform(1., 6.) * (1 + jit[2])
    if v['fine']:
        # resolution of a production run
        v['pc'] = float(np.clip(v['pc'], -.02, .02))
        rmax = v['nr'] * v['ppc'] * g.uniform(.02, .07) * (1 + jit[0])
        x1 = x0 + (v['nx'] - 1) * g.uniform(.03, .15) * (
            1 + jit[2])
    dr = rmax / v['nr']
    dxi = (x1 - x0) / (v['nx'] - 1)
    rf = dr * (np.arange(v['nr']) + .5)
    xf = x0 + dxi * np.arange(v['nx'])
    a2 = np.zeros((v['nx'], v['nr']))
    if v['laser']:
        a2 = v['drive'] * np.exp(-rf[None]**2 / 3 - (
            xf[:, None] - (x0 + x1) / 2)**2) * g.uniform(.9, 1.1, a2.shape)
    bs = []
    for k in range(v['nb']):
        m = int(g.choice([1, 3, 30]))
        q = 2 * np.pi * dr * dxi * sd**3 * n_p * 1.602176634e-19 * v[
            'drive'] / m * g.choice([-1, 1, 1]) * dr
        bs.append(types.SimpleNamespace(
            x=g.normal(size=m) * sd * rmax / 4, y=g.normal(size=m) * sd,
            xi=sd * g.uniform(x0 - .1, x1 + .1, m), q=np.full(m, q)))
    return g, n_p, sd, rmax, dr, x0, x1, dxi, rf, xf, a2, bs


def run_wk(v, W, a2=None, bs=None):
    g, n_p, sd, rmax, dr, x0, x1, dxi, rf, xf, a2_, bs_ = W
    f = real(SO + '.calculate_wakefields')
    out = [np.zeros((v['nx'] + 4, v['nr'] + 4)) for _ in range(5)]
    f(a2_ if a2 is None else a2, bs_ if bs is None else bs, rmax * sd,
      x0 * sd, x1 * sd, v['nr'], v['nx'], v['ppc'], n_p,
      r_max_plasma=None if v['rp'] is None else v['rp'] * rmax * sd,
      parabolic_coefficient=v['pc'] / sd**2, p_shape=v['shape'],
      max_gamma=v['mg'], plasma_pusher=v['pusher'],
      fld_arrays=out + [xf * sd, rf * sd])
    return out


def reference(v, W, eps=0.):
    """one slice after the other with the functions of C01-C04 and C16-C18"""
    g, n_p, sd, rmax, dr, x0, x1, dxi, rf, xf, a2_, bs = W
    nx, nr = v['nx'], v['nr']
    a2, na, b0 = np.zeros((3, nx + 4, nr + 4))
    a2[2:-2, 2:-2] = a2_
    mir = np.concatenate([a2_[:, ::-1], a2_], axis=1)
    gr = np.zeros_like(a2_)
    for j in range(nr):
        k = j + nr
        gr[:, j] = (mir[:, k] - mir[:, k - 1]) / dr if j == nr - 1 else (
            mir[:, k + 1] - mir[:, k - 1]) / (2 * dr)
    na[2:-2, 2:-2] = gr
    dep = real('wake_t.particles.deposition.deposit_3d_distribution')
    for b in bs:
        q = np.zeros((nx + 4, nr + 4))
        dep(b.xi / sd, b.x / sd, b.y / sd, b.q / 1.602176634e-19 / (
            2 * np.pi * dr * dxi * sd**3 * n_p), xf[0], rf[0], nx, nr, dxi,
            dr, q, p_shape=v['shape'], use_ruyten=True)
        q = q[2:-2, 2:-2]
        for j in range(nr):
            b0[2:-2, 2 + j] += (q[:, :j].sum(axis=1) + q[:, j] * (
                .25 if j == 0 else .5)) / (j + .5)
    rp = rmax if v['rp'] is None else v['rp'] * rmax
    n = int(np.round(rp / dr * v['ppc']))
    dp = dr / v['ppc']
    r = (np.arange(n) + .5) * dp
    d = dict(q=dp * (r + v['pc'] * r**3), rm=n * dp, dp=dp, pc=v['pc'])
    r = r * (1 + eps * g.uniform(-1, 1, n))
    pr = np.zeros(n)
    psi, bb, rho, chi = np.zeros((4, nx + 4, nr + 4))
    mp = real(BX + 'psi_and_derivatives.calculate_psi')
    mb = real(BX + 'b_theta.calculate_b_theta')
    pd = real(BX + 'deposition.deposit_plasma_particles')
    rk = real(BX + 'plasma_push.rk4.evolve_plasma_rk4')
    ab = real(BX + 'plasma_push.ab5.evolve_plasma_ab5')
    grid = (nx, nr, dr, dxi, rf, xf, (a2, na, b0))
    old = np.zeros((3, n))
    H = [np.zeros(n) for _ in range(10)]
    F = [[np.zeros(n) for _ in range(7)] for _ in range(4)]
    for i in range(nx - 1, -1, -1):
        o, gam = column_fields(d, r, pr, xf[i], grid, old)
        old = np.array(o[:3])
        pz = gam - 1 - o[4]
        x = gam >= v['mg']
        pz[x], gam[x], pr[x] = 0, 1, 0
        idx = np.argsort(r)
        mp(rf, r, d['q'], idx, d['rm'], d['pc'], psi, i)
        mb(rf, r, pr, d['q'], gam, o[4], o[5], o[6], o[2], o[1], idx, bb, i)
        w = d['q'] / (dr * r * (1 - pz / gam))
        pd(i, r, w, xf[0], rf[0], nx, nr, dxi, dr, rho, p_shape=v['shape'])
        pd(i, r, w / gam, xf[0], rf[0], nx, nr, dxi, dr, chi,
           p_shape=v['shape'])
        if i == 0:
            break
        if v['pusher'] == 'ab5':
            ab(dxi, r, pr, gam, o[1], o[2], o[3], o[4], o[5], *H)
        else:
            rk(dxi, dr, xf[i], r, pr, gam, d['q'], d['rm'], dp, v['pc'], a2,
               na, b0, rf, xf, *H[:8], *o, *F[1], *F[2], *F[3])
    E0 = 9.1093837015e-31 * C**2 / 1.602176634e-19 / sd
    p = psi[2:-2, 2:-2]
    gx = np.gradient(p, dxi, axis=0, edge_order=2)
    gp = np.gradient(p, dr, axis=1, edge_order=2)
    return rho, chi, gp, -gx * E0, (bb + b0)[2:-2, 2:-2] * E0, E0


def c_wk(v):
    """the comparison is discontinuous where rounding decides (a particle at
    the edge of the grid or of the plasma, gamma at its limit): a difference
    counts if all the neighbouring states have it"""
    for fine in (False, True):
        found = []
        for k in range(9):
            u = dict(v)
            g = np.random.RandomState(v['seed'] + 1000003 * k)
            if v['rp'] is not None:
                u['rp'] = v['rp'] * (1 + g.uniform(0, .03) * (k > 0))
            # with an odd number a particle lies exactly at the edge of the
            # grid
            u['ppc'] = v['ppc'] + v['ppc'] % 2
            u['mg'] = v['mg'] * (1 + g.uniform(0, .03) * (k > 0))
            u['jit'] = g.uniform(0, .03, 3) * (k > 0)
            if fine:
                u.update(fine=True, drive=min(v['drive'], .1), mg=10.)
            try:
                return c_wk1(u)
            except Skip:
                if k - len(found) > 2:
                    break
            except Violation as e:
                found.append(e)
        if len(found) > 5:
            raise found[0]
    raise Skip


def c_wk1(v):
    W = world(v)
    keep = W[10].copy()
    with np.errstate(all='ignore'):
        rho, chi, er, ez, bt = run_wk(v, W)
        ref = reference(v, W)
        per = [reference(v, W, 3e-14) for _ in range(2)]
    E0 = ref[-1]

    def norm(o):
        o = [o[0][s], o[1][s], o[3] / E0, o[4] / E0, o[4] / E0 - o[2]]
        if v['pusher'] == 'rk4':
            # the last substep of the last step is at the edge of the grid,
            # where rounding decides if sources are gathered
            o = [x[2 if k == 2 else 1:] for k, x in enumerate(o)]
        return o
    s = np.s_[2:-2, 2:-2]
    got = [rho[s], chi[s], ez[s] / E0, bt[s] * C / E0, er[s] / E0]
    if v['pusher'] == 'rk4':
        got = [x[2 if k == 2 else 1:] for k, x in enumerate(got)]
    ref, per = norm(ref), [norm(p) for p in per]
    if not np.array_equal(keep, W[10]):
        raise Violation('laser source unchanged', '')
    for k, n in enumerate(('charge density', 'susceptibility', 'E_z',
                           'c B_theta', 'E_r')):
        # the motion of the plasma may be chaotic: compare to the precision
        # that neighbouring initial states allow
        noise = max(np.max(np.abs(p[k] - ref[k])) for p in per)
        if not noise < 1e-6:
            raise Skip
        sc = np.max(np.abs(ref[k]))
        d = np.max(np.abs(got[k] - ref[k]))
        if not d <= 1e4 * noise + 1e-7 * sc + 1e-12:
            raise Violation(n, 'difference %r at scale %r' % (d, sc))


def c_cause(v):
    """a source has no influence on what is ahead of it; no source, no
    field; the density of the undisturbed plasma is the given one"""
    W = world(v)
    g, n_p, sd, rmax, dr, x0, x1, dxi, rf, xf, a2, bs = W
    k = int(g.randint(0, v['nx']))
    b = types.SimpleNamespace(
        x=np.array([.3 * sd]), y=np.array([.2 * sd]),
        xi=np.array([(xf[k] + g.uniform(-.4, .4) * dxi) * sd]),
        q=np.array([-1e-12]))
    a3 = a2.copy()
    a3[:k + 1] += .05
    with np.errstate(all='ignore'):
        o1 = run_wk(v, W)
        o2 = run_wk(v, W, a3, bs + [b])
    # charge reaches two cells ahead, derivatives another two, substeps of
    # the pusher one
    for n, a, c in zip(('rho', 'chi', 'E_r', 'E_z', 'B_t'), o1, o2):
        d = np.abs(a - c)[2 + k + 5:-2]
        if d.size and not np.max(d) <= 1e-6 * np.max(np.abs(a)):
            raise Violation('no influence on the plasma ahead', n)
    o = run_wk(v, W, 0 * a2, [])
    E0 = 9.1093837015e-31 * C**2 / 1.602176634e-19 / sd
    for n, a in zip(('E_r', 'E_z', 'B_t'), (o[2], o[3], o[4] * C)):
        h = dr / v['ppc']
        if np.max(np.abs(a[2:-2, 2:-2])) > .15 * E0 * h:
            raise Violation('no field without a source', '%s %r' % (
                n, np.max(np.abs(a)) / E0))


def c_obj(v):
    """through the wakefield object"""
    W = world(v)
    g, n_p, sd, rmax, dr, x0, x1, dxi, rf, xf, a2, bs = W
    Wk = real(WK)
    L = real('wake_t.physics_models.laser.laser_pulse.GaussianPulse')
    las = None
    pol = str(g.choice(['linear', 'circular']))
    if v['laser']:
        las = L((x0 + x1) / 2 * sd, g.uniform(.1, 1.5), 2 * sd, 3e-14,
                8e-7, polarization=pol)
    z0 = g.uniform(0, .02)
    var = g.rand() < .6
    par = (lambda z: v['pc'] / sd**2 * (1 + 20 * z)) if var \
        else v['pc'] / sd**2
    w = Wk(lambda z: n_p * (1 + z / .1), rmax * sd, x0 * sd, x1 * sd,
           v['nr'], v['nx'], ppc=v['ppc'], dz_fields=1.,
           r_max_plasma=None if v['rp'] is None else v['rp'] * rmax * sd,
           parabolic_coefficient=par, p_shape=v['shape'], max_gamma=v['mg'],
           plasma_pusher=v['pusher'], laser=las,
           laser_evolution=bool(g.rand() < .5))
    w.t = z0 / C
    z0 = w.t * C
    w._initialize_properties(bs)
    with np.errstate(all='ignore'):
        w._calculate_field(bs)
        first = [x.copy() for x in (w.rho, w.chi, w.e_r, w.e_z, w.b_t)]
        w._calculate_field(bs)
    if las is not None:
        a2 = np.abs(las.get_envelope())**2 / (2 if pol == 'linear' else 1)
    out = [np.zeros((v['nx'] + 4, v['nr'] + 4)) for _ in range(5)]
    with np.errstate(all='ignore'):
        real(SO + '.calculate_wakefields')(
            a2 if las is not None else 0 * a2, bs, rmax * sd, x0 * sd,
            x1 * sd, v['nr'], v['nx'], v['ppc'], n_p * (1 + z0 / .1),
            r_max_plasma=None if v['rp'] is None else v['rp'] * rmax * sd,
            parabolic_coefficient=v['pc'] / sd**2 * (
                1 + 20 * z0 if var else 1), p_shape=v['shape'],
            max_gamma=v['mg'], plasma_pusher=v['pusher'],
            fld_arrays=out + [w.xi_fld, w.r_fld])
    for n, a, b, c in zip(('rho', 'chi', 'e_r', 'e_z', 'b_t'), first, out,
                          (w.rho, w.chi, w.e_r, w.e_z, w.b_t)):
        if not np.all(np.isfinite(b)):
            raise Skip
        close('wakefield ' + n, a / (np.max(np.abs(b)) + 1e-30),
              b / (np.max(np.abs(b)) + 1e-30), 1e-7)
        if not np.array_equal(a, c):
            raise Violation('field does not depend on the previous one', n)
    bad = Wk(lambda z: n_p, rmax * sd, x0 * sd, x1 * sd, 4, 4,
             plasma_pusher='rk5')
    try:
        bad.t = 0.
        bad._initialize_properties([])
        bad._calculate_field([])
    except ValueError:
        return
    raise Violation('unknown pusher is rejected', 'rk5 accepted')


def c_init(v):
    g = np.random.RandomState(v['seed'])
    PP = real(BX + 'plasma_particles.PlasmaParticles')
    dr, ppc = g.uniform(.01, .5), v['ppc']
    rm = dr * v['nr']
    rp = rm * (v['rp'] or 1.)
    p = PP(rm, rp, v['pc'], dr, ppc, v['pusher'])
    p.initialize()
    n = int(np.round(rp / dr * ppc))
    dp = dr / ppc
    r = (np.arange(n) + .5) * dp
    close('positions', p.r, r, 1e-9)
    close('charges', p.q, dp * r * (1 + v['pc'] * r**2), 1e-9)
    if np.any(p.pr != 0) or np.any(p.pz != 0) or np.any(p.gamma != 1):
        raise Violation('plasma at rest', '')
    if p.n_part != n or abs(p.r_max_plasma - n * dp) > 1e-9 or \
            abs(p.dr_p - dp) > 1e-12:
        raise Violation('extent of the plasma', repr(p.r_max_plasma))
    arrs = list(p.get_field_arrays())
    if v['pusher'] == 'ab5':
        for a in p.get_ab5_arrays():
            arrs += list(a)
        m = 7 + 10
    else:
        for a in p.get_rk4_arrays():
            arrs += list(a)
        for k in range(4):
            arrs += list(p.get_rk4_field_arrays(k))
        m = 7 + 8 + 21
    if len({id(a) for a in arrs}) != m or any(
            a.shape != (n,) or np.any(a != 0) for a in arrs):
        raise Violation('separate work arrays', '')


def contracts():
    return [
        Contract('mass shell of the plasma', [SO + '.update_gamma_and_pz'],
                 body_gamma),
        Contract('plasma column of a slice',
                 [SO + '.calculate_and_deposit_plasma_column',
                  SO + '.update_gamma_and_pz'], body_column,
                 min_obligations=40),
        Contract('slices from head to tail (rk4)',
                 [SO + '.calculate_with_rk4'], body_slices('rk4')),
        Contract('slices from head to tail (ab5)',
                 [SO + '.calculate_with_ab5'], body_slices('ab5')),
        Contract('beam source', [SO + '.calculate_beam_source'], body_beam),
        Contract('radial gradient', ['wake_t.utilities.other.'
                                     'radial_gradient'], body_grad),
        Contract('fields and units', [SO + '.calculate_wakefields'],
                 body_fields, s_wk, c_wk, n=(60, 800)),
        Contract('causality and rest', [SO + '.calculate_wakefields'], None,
                 s_fine, c_cause, n=(40, 500)),
        Contract('wakefield object', [WK + '._calculate_wakefield'],
                 body_obj, s_wk, c_obj, n=(40, 400)),
        Contract('pusher of the wakefield object',
                 [SO + '.evolve_plasma_and_calculate_fields'], body_pass,
                 s_wk, c_obj, n=(10, 100)),
        Contract('initial plasma column', [BX + 'plasma_particles.'
                                           'PlasmaParticles'], body_init,
                 s_wk, c_init, n=(60, 500)),
    ]
