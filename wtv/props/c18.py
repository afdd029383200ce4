"""Pushers of the plasma column (quasi-static model)."""
from .push_common import *
from .c16 import BX, mk_col, s_col, close
from fractions import Fraction as Fr

RK = BX + 'plasma_push.rk4'
AB = BX + 'plasma_push.ab5'
SRC = ('a2', 'nabla_a2', 'b_t_0')
ASSUMPTIONS = ['1 + psi > 0 at every particle',
               'numpy.argsort sorts; np.where selects']
AB5 = (1901, -2774, 2616, -1274, 251)


def deriv(pr, g, b0, na, bt, psi, drp):
    a = 1 + psi
    return pr / a, g * drp / a - bt - b0 - na / (2 * a)


def body_deriv(mod):
    def body(ctx):
        tw = twin(ctx)
        ctx.generic()
        f = getattr(tw.load(mod), 'calculate_derivatives', None)
        if f is None:
            return
        nm = ('pr', 'gamma', 'b_t_0', 'nabla_a2', 'b_t', 'psi', 'dr_psi')
        v = [R(n) for n in nm]
        ctx.assume(v[5] > -1)
        o = [P(R('old1'), 'dr'), P(R('old2'), 'dpr')]
        f(*[P(x, n, True) for x, n in zip(v, nm)], *o)
        for n, x, y in zip(('position', 'momentum'), o, deriv(*v)):
            ctx.prove_eq('derivative of the radial ' + n, x.val, y)
    return body


def body_ab5(ctx):
    tw = twin(ctx)
    ctx.generic()
    M = tw.load(AB)
    dxi = R('dxi')
    r, pr = R('r'), R('pr')
    nm = ('gamma', 'nabla_a2', 'b_t_0', 'b_t', 'psi', 'dr_psi')
    v = {n: R(n) for n in nm}
    ctx.assume(v['psi'] > -1, r > 0, dxi > 0)
    ar, ap = P(r, 'r'), P(pr, 'pr')
    h = [[R('%s_%d' % (n, k)) for k in range(1, 6)] for n in ('dr', 'dpr')]
    H = [[P(x, 'history') for x in y] for y in h]
    M.evolve_plasma_ab5(dxi, ar, ap, *[P(v[n], n, True) for n in nm],
                        *H[0], *H[1])
    d = deriv(pr, v['gamma'], v['b_t_0'], v['nabla_a2'], v['b_t'], v['psi'],
              v['dr_psi'])
    new = []
    for x, y, k in ((r, d[0], 0), (pr, d[1], 1)):
        l = [y] + h[k][1:]
        new.append(x + dxi * sum(Fr(c, 720) * q for c, q in zip(AB5, l)))
    s = -1 if bool(new[0] < 0) else 1
    ctx.prove_eq('radial position', ar.val, s * new[0])
    ctx.prove_eq('radial momentum', ap.val, s * new[1])
    ctx.prove('no particle beyond the axis', ar.val >= 0)
    for k, n in enumerate(('position', 'momentum')):
        # the history of the next step
        ctx.prove_eq('latest derivative of the ' + n, H[k][1].val, s * d[k])
        for j in (2, 3, 4):
            ctx.prove_eq('earlier derivatives of the ' + n, H[k][j].val,
                         s * h[k][j - 1])


def column_stubs(ctx, M, log):
    """contracts of the functions of C04, C16 and C17: values that depend on
    the whole column (named by its generic element)"""
    def gather(a2, na, b0, z0, z1, r0, r1, dz, dr, r, z, *out):
        log.append(('gather', (a2, na, b0), z0, z1, r0, r1, dz, dr))
        for n, o in zip(SRC, out):
            o[:] = X.uf('G_' + n, lift(z), r.val)

    def psi(r, pr, q, idx, rm, dp, pc, *out):
        log.append(('psi', idx.val, r.val, rm, dp, pc))
        for n, o in zip(('psi', 'dr_psi', 'dxi_psi'), out):
            o[:] = X.uf('C_' + n, r.val, pr.val, q.val)

    def bt(r, pr, q, g, psi, drp, dxp, b0, na, idx, dp, o):
        log.append(('bt', idx.val, r.val, dp))
        o[:] = X.uf('C_bt', *[x.val for x in (r, pr, q, g, psi, drp, dxp, b0,
                                              na)])
    for n, f in (('gather_sources_qs_baxevanis', gather),
                 ('calculate_psi_and_derivatives_at_particles', psi),
                 ('calculate_b_theta_at_particles', bt)):
        setattr(M, n, f)


def check_log(ctx, log, src, geo, plasma):
    for e in log:
        if e[0] == 'gather':
            ctx.prove('sources are gathered from the source fields',
                      X.boolc(all(a is b for a, b in zip(e[1], src))))
            for a, b in zip(e[2:], geo):
                ctx.prove_eq('grid of the source fields', lift(a), lift(b))
        else:
            ctx.prove_eq('particles are sorted by radius', e[1],
                         X.uf('argsort', e[2]))
            for a, b in zip(e[3:], plasma if e[0] == 'psi' else plasma[1:2]):
                ctx.prove_eq('plasma column', lift(a), lift(b))


class End:
    """grid coordinate array known at its ends"""
    def __init__(self, name):
        self.e = {0: R(name + '_0'), -1: R(name + '_1')}

    def __getitem__(self, i):
        return self.e[i]


def setup(ctx, fn):
    tw = twin(ctx)
    ctx.generic()
    ctx.opaque = 6
    M = tw.load(RK)
    log = []
    column_stubs(ctx, M, log)
    src = [object() for _ in SRC]
    rf, xf = End('r_fld'), End('xi_fld')
    v = {n: R(n) for n in ('dxi', 'dr', 'xi', 'rm', 'dp', 'pc', 'r', 'pr',
                           'q', 'gamma')}
    ctx.assume(v['dxi'] > 0)
    geo = (xf[0], xf[-1], rf[0], rf[-1], v['dxi'], v['dr'])
    return M, log, src, rf, xf, v, geo


def substep(ctx, xi, r, pr, q):
    s = -1 if bool(r < 0) else 1
    r, pr = s * r, s * pr
    a2, na, b0 = [X.uf('G_' + n, lift(xi), r) for n in SRC]
    ps, dp, dx = [X.uf('C_' + n, r, pr, q)
                  for n in ('psi', 'dr_psi', 'dxi_psi')]
    ctx.assume(ps > -1)
    g = (1 + pr**2 + a2 + (1 + ps)**2) / (2 * (1 + ps))
    bt = X.uf('C_bt', r, pr, q, g, ps, dp, dx, b0, na)
    return [s * x for x in deriv(pr, g, b0, na, bt, ps, dp)], r


def body_substep(ctx):
    M, log, src, rf, xf, v, geo = setup(ctx, 'derivatives_substep')
    f = getattr(M, 'derivatives_substep', None)
    if f is None:
        return
    o = [P(R('o%d' % k), 'o') for k in range(9)]
    ar, ap, aq = P(v['r'], 'r'), P(v['pr'], 'pr'), P(v['q'], 'q', True)
    d, _ = substep(ctx, v['xi'], v['r'], v['pr'], v['q'])
    f(v['xi'], ar, ap, aq, v['dxi'], v['dr'], v['rm'], v['dp'], v['pc'],
      *src, rf, xf, *o)
    check_log(ctx, log, src, geo, (v['rm'], v['dp'], v['pc']))
    ctx.prove_eq('derivative of the radial position', o[7].val, d[0])
    ctx.prove_eq('derivative of the radial momentum', o[8].val, d[1])


def body_rk4(ctx):
    """classical fourth order step; the derivatives at a substep are the
    contract of derivatives_substep"""
    M, log, src, rf, xf, v, geo = setup(ctx, 'evolve_plasma_rk4')
    calls = []
    ctx.opaque = None

    def D(xi, r, pr):
        return [X.uf('D_' + n, lift(xi), lift(r), lift(pr))
                for n in ('r', 'pr')]

    def sub(xi, r, pr, q, dxi, dr, rm, dp, pc, *a):
        calls.append((q.val, dxi, dr, rm, dp, pc, a[:5]))
        d = D(xi, r.val, pr.val)
        # frame of the contract: r and pr may be changed, the field arrays
        # are scratch
        r[:], pr[:] = R('m1_%d' % len(calls)), R('m2_%d' % len(calls))
        for k, o in enumerate(a[5:12]):
            o[:] = R('f%d_%d' % (k, len(calls)))
        a[12][:], a[13][:] = d
    if not hasattr(M, 'derivatives_substep'):
        return
    M.derivatives_substep = sub
    f = [[R('f%d_s%d' % (k, j)) for k in range(7)] for j in range(4)]
    ctx.assume(f[0][4] > -1)
    F = [[P(x, 'fields') for x in y] for y in f]
    d = [[P(R('d%d_%d' % (k, j)), 'derivative') for j in range(4)]
         for k in range(2)]
    ar, ap = P(v['r'], 'r'), P(v['pr'], 'pr')
    M.evolve_plasma_rk4(
        v['dxi'], v['dr'], v['xi'], ar, ap, P(v['gamma'], 'gamma', True),
        P(v['q'], 'q', True), v['rm'], v['dp'], v['pc'], *src, rf, xf,
        *d[0], *d[1], *F[0], *F[1], *F[2], *F[3])
    x, y, h, xi = v['r'], v['pr'], v['dxi'], v['xi']
    k1 = deriv(y, v['gamma'], f[0][2], f[0][1], f[0][3], f[0][4], f[0][5])
    k2 = D(xi - h / 2, x + h / 2 * k1[0], y + h / 2 * k1[1])
    k3 = D(xi - h / 2, x + h / 2 * k2[0], y + h / 2 * k2[1])
    k4 = D(xi - h, x + h * k3[0], y + h * k3[1])
    new = [z + h / 6 * (k1[k] + 2 * k2[k] + 2 * k3[k] + k4[k])
           for k, z in ((0, x), (1, y))]
    s = -1 if bool(new[0] < 0) else 1
    ctx.prove_eq('radial position', ar.val, s * new[0])
    ctx.prove_eq('radial momentum', ap.val, s * new[1])
    ctx.prove('no particle beyond the axis', ar.val >= 0)
    ref = (v['q'], h, v['dr'], v['rm'], v['dp'], v['pc'])
    for c in calls:
        for a, b in zip(c[:6], ref):
            ctx.prove_eq('parameters of the substeps', lift(a), b)
        ctx.prove('source fields of the substeps', X.boolc(all(
            a is b for a, b in zip(c[6], src + [rf, xf]))))


# ---------------------------------------------------------------- run time
def grid(g, d):
    nx, nr = int(g.randint(4, 8)), int(g.randint(4, 9))
    rmax = d['rm'] * g.choice([.7, 1., 1.6])
    dr, dxi = rmax / nr, g.uniform(.02, .4)
    rf = dr / 2 + dr * np.arange(nr)
    xf = g.uniform(-9, 9) + dxi * np.arange(nx)
    src = np.zeros((3, nx + 4, nr + 4))
    src[:, 2:-2, 2:-2] = g.normal(size=(3, nx, nr)) * g.choice([0., .1, .6])
    src[0] = src[0]**2
    return nx, nr, dr, dxi, rf, xf, src


def column_fields(d, r, pr, xi, gr, old):
    """fields at the particles, with the functions of C04, C16 and C17"""
    nx, nr, dr, dxi, rf, xf, src = gr
    n = len(r)
    o = [np.zeros(n) for _ in range(7)]
    for k in range(3):
        o[k][:] = old[k]
    real('wake_t.particles.interpolation.gather_sources_qs_baxevanis')(
        *src, xf[0], xf[-1], rf[0], rf[-1], dxi, dr, r, xi, *o[:3])
    idx = np.argsort(r)
    real(BX + 'psi_and_derivatives.'
         'calculate_psi_and_derivatives_at_particles')(
        r, pr, d['q'], idx, d['rm'], d['dp'], d['pc'], *o[4:])
    g = (1 + pr**2 + o[0] + (1 + o[4])**2) / (2 * (1 + o[4]))
    real(BX + 'b_theta.calculate_b_theta_at_particles')(
        r, pr, d['q'], g, o[4], o[5], o[6], o[2], o[1], idx, d['dp'], o[3])
    return o, g


def start(v):
    d = mk_col(v)
    g = d['rng']
    gr = grid(g, d)
    n = d['n']
    r, pr = d['r'].copy(), d['pr'].copy()
    k = int(g.randint(0, n))
    # a particle close to the axis that moves towards it
    r[k] = gr[3] * g.uniform(.01, .5)
    pr[k] = -g.uniform(.5, 3)
    if np.min(np.diff(np.sort(np.append(r, 0.)))) < 1e-4:
        raise Skip
    return d, g, gr, r, pr


def der(pr, g, o):
    return np.array(deriv(pr, g, o[2], o[1], o[3], o[4], o[5]))


def c_rk4(v):
    d, g, gr, r, pr = start(v)
    nx, nr, dr, h, rf, xf, src = gr
    n = d['n']
    f = real(RK + '.evolve_plasma_rk4')
    xi = xf[int(g.randint(1, nx))]
    old = g.uniform(0, .1, (4, 3, n))
    o, gam = column_fields(d, r, pr, xi, gr, old[0])
    F = [[np.zeros(n) for _ in range(7)] for _ in range(4)]
    for a, b in zip(F[0], o):
        a[:] = b
    for j in range(1, 4):
        for k in range(3):
            F[j][k][:] = old[j][k]
    D = [np.zeros(n) for _ in range(8)]

    def at(x, r, pr, j):
        s = np.where(r < 0, -1., 1.)
        if np.min(np.diff(np.sort(np.append(np.abs(r), 0.)))) < 1e-9:
            raise Skip
        o, gm = column_fields(d, s * r, s * pr, x, gr, old[j])
        return s * der(s * pr, gm, o)
    k1 = der(pr, gam, o)
    k2 = at(xi - h / 2, *(np.array([r, pr]) + h / 2 * k1), 1)
    k3 = at(xi - h / 2, *(np.array([r, pr]) + h / 2 * k2), 2)
    k4 = at(xi - h, *(np.array([r, pr]) + h * k3), 3)
    ref = np.array([r, pr]) + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    ref *= np.where(ref[0] < 0, -1., 1.)
    R_, P_ = r.copy(), pr.copy()
    q0, g0, s0 = d['q'].copy(), gam.copy(), src.copy()
    f(h, dr, xi, R_, P_, gam, d['q'], d['rm'], d['dp'], d['pc'], *src, rf, xf,
      *D, *F[0], *F[1], *F[2], *F[3])
    tol = 1e-7 * (1 + np.max(np.abs(np.array([k1, k2, k3, k4]))))
    if np.min(np.abs(ref[0])) < 1e-9 or not np.all(np.isfinite(ref)):
        raise Skip
    close('radial position', R_, ref[0], tol)
    close('radial momentum', P_, ref[1], tol)
    if np.any(R_ < 0):
        raise Violation('no particle beyond the axis', repr(R_.min()))
    if not (np.array_equal(q0, d['q']) and np.array_equal(g0, gam) and
            np.array_equal(s0, src)):
        raise Violation('charge and sources unchanged', '')


def c_ab5(v):
    d, g, gr, r, pr = start(v)
    nx, nr, dr, h, rf, xf, src = gr
    n = d['n']
    f = real(AB + '.evolve_plasma_ab5')
    H = g.normal(size=(2, 5, n))
    ref = np.array([r, pr])
    R_, P_ = r.copy(), pr.copy()
    A = [x.copy() for x in H[0]] + [x.copy() for x in H[1]]
    for step in range(4):
        o = g.normal(size=(7, n)) * .5
        o[4] = np.abs(o[4]) - .5
        gam = 1 + g.uniform(0, 3, n)
        a = [x.copy() for x in o]
        f(h, R_, P_, gam, a[1], a[2], a[3], a[4], a[5], *A)
        H = np.concatenate([der(ref[1], gam, o)[:, None],
                            H[:, 1:] if step == 0 else H[:, :4]], axis=1)
        ref = ref + h * np.einsum('j,kjn->kn', np.array(AB5) / 720., H)
        s = np.where(ref[0] < 0, -1., 1.)
        ref, H = ref * s, H * s
        close('radial position', R_, ref[0], 1e-10 * (1 + np.abs(ref).max()))
        close('radial momentum', P_, ref[1], 1e-10 * (1 + np.abs(ref).max()))
        if np.any(R_ < 0):
            raise Violation('no particle beyond the axis', repr(R_.min()))


def contracts():
    return [
        Contract('derivatives (Runge-Kutta)', [RK + '.calculate_derivatives'],
                 body_deriv(RK)),
        Contract('derivatives (Adams-Bashforth)',
                 [AB + '.calculate_derivatives'], body_deriv(AB)),
        Contract('Adams-Bashforth step', [AB + '.evolve_plasma_ab5',
                                          AB + '.apply_ab5'],
                 body_ab5, s_col, c_ab5, n=(200, 3000), min_obligations=20),
        Contract('Runge-Kutta substep', [RK + '.derivatives_substep'],
                 body_substep, min_obligations=20),
        Contract('Runge-Kutta step', [RK + '.evolve_plasma_rk4',
                                      RK + '.apply_rk4'],
                 body_rk4, s_col, c_rk4, n=(200, 3000), min_obligations=20),
    ]
