from .push_common import *

ASSUMPTIONS = ['gathered fields are arbitrary functions of position and time']
MOD = 'wake_t.particles.push.boris_pusher.'


def spec_boris(s, f, q_mc, dt, c):
    """Reference Boris step. s=(x..pz), f(k,x,y,xi)->field at mid time."""
    x, y, xi, px, py, pz = s
    h = T.xdiv(1, 2)

    def drift(x, y, xi, p):
        g = X.sqrt(1 + p[0]**2 + p[1]**2 + p[2]**2)
        v = [T.xdiv(c * q, g) for q in p]
        return x + h * dt * v[0], y + h * dt * v[1], xi + h * dt * (v[2] - c)
    x, y, xi = drift(x, y, xi, (px, py, pz))
    F = [f(k, x, y, xi) for k in range(6)]
    k = q_mc * dt * h
    pm = [p + k * e for p, e in zip((px, py, pz), F[:3])]
    g = X.sqrt(1 + pm[0]**2 + pm[1]**2 + pm[2]**2)
    t = [T.xdiv(k * c * b, g) for b in F[3:]]
    s_ = [T.xdiv(2 * a, 1 + t[0]**2 + t[1]**2 + t[2]**2) for a in t]
    cr = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
                       a[0] * b[1] - a[1] * b[0]]
    p1 = [a + b for a, b in zip(pm, cr(pm, t))]
    pp = [a + b for a, b in zip(pm, cr(p1, s_))]
    p = [a + k * e for a, e in zip(pp, F[:3])]
    x, y, xi = drift(x, y, xi, p)
    return x, y, xi, p[0], p[1], p[2]


def body_momentum(ctx):
    """push_momentum against the Boris rotation; norm and limits."""
    tw = twin(ctx)
    ctx.generic()
    f = tw.get(MOD + 'push_momentum')
    p = [R(n) for n in BN[3:]]
    F = [R(n) for n in FN]
    dt, qmc, c = R('dt'), R('qmc'), R('ct_c', positive=True)
    case = ctx.choose(4, 'field')
    if case == 0:
        F[3:] = [lift(0)] * 3
    if case == 1:
        F[:3] = [lift(0)] * 3
    if case == 2:
        F = [lift(0)] * 6
    arr = [P(a, n) for a, n in zip(p, BN[3:])]
    fl = [P(a, n, True) for a, n in zip(F, FN)]
    f(*arr, *fl, dt, qmc)
    o = [a.val for a in arr]
    if case == 0:
        for k in range(3):
            ctx.prove_eq('impulse of a pure electric field', o[k],
                         p[k] + qmc * dt * F[k])
    elif case == 1:
        ctx.prove_eq('a magnetic field does not change the energy',
                     o[0]**2 + o[1]**2 + o[2]**2,
                     p[0]**2 + p[1]**2 + p[2]**2)
        ctx.prove_eq('the momentum along the magnetic field is unchanged',
                     sum(a * b for a, b in zip(o, F[3:])),
                     sum(a * b for a, b in zip(p, F[3:])))
    elif case == 2:
        for k in range(3):
            ctx.prove_eq('no field, no momentum change', o[k], p[k])
    else:
        h = T.xdiv(1, 2)
        k = qmc * dt * h
        pm = [a + k * e for a, e in zip(p, F[:3])]
        pp = [a - k * e for a, e in zip(o, F[:3])]
        n = lambda a: a[0]**2 + a[1]**2 + a[2]**2
        ctx.prove_eq('the rotation preserves the half-kicked momentum norm',
                     n(pp), n(pm))
        g = X.sqrt(1 + n(pm))
        t = [T.xdiv(k * c * b, g) for b in F[3:]]
        for i in range(3):
            j, l = (i + 1) % 3, (i + 2) % 3
            # p+ - p- = (p+ + p-) x t : rotation about B, tan(half angle)=|t|
            ctx.prove_eq('rotation about B by 2 atan(|q B| dt / 2 gamma m)',
                         pp[i] - pm[i], (pp[j] + pm[j]) * t[l] -
                         (pp[l] + pm[l]) * t[j])


def body_drift(ctx):
    tw = twin(ctx)
    ctx.generic()
    f = tw.get(MOD + 'apply_half_position_push')
    v = {n: R(n) for n in BN}
    dt, c = R('dt'), R('ct_c', positive=True)
    a = {n: P(v[n], n, n[0] == 'p') for n in BN}
    f(*[a[n] for n in BN], dt)
    g = X.sqrt(1 + v['px']**2 + v['py']**2 + v['pz']**2)
    h = T.xdiv(1, 2) * dt
    ctx.prove_eq('x drift', a['x'].val, v['x'] + h * c * T.xdiv(v['px'], g))
    ctx.prove_eq('y drift', a['y'].val, v['y'] + h * c * T.xdiv(v['py'], g))
    ctx.prove_eq('xi drift', a['xi'].val,
                 v['xi'] + h * c * (T.xdiv(v['pz'], g) - 1))


def body_step(ctx):
    """Whole step through the bunch, against the contracts of the parts."""
    tw = twin(ctx)
    b, v = sym_bunch(ctx, tw)
    t, dt, c = R('t'), R('dt'), R('ct_c', positive=True)
    V = lambda n, p: X.uf('vel_' + n, *p)
    K = lambda n, *a: X.uf('kick_' + n, *a)

    def half(x, y, xi, px, py, pz, dt):
        p = (px.val, py.val, pz.val)
        for a, n in ((x, 'x'), (y, 'y'), (xi, 'xi')):
            a[:] = a.val + T.xdiv(1, 2) * dt * V(n, p)

    def mom(px, py, pz, ex, ey, ez, bx, by, bz, dt, qmc):
        a = [q.val for q in (px, py, pz, ex, ey, ez, bx, by, bz)] + [dt, qmc]
        for o, n in ((px, 'px'), (py, 'py'), (pz, 'pz')):
            o[:] = K(n, *a)
    tw.load(MOD[:-1])
    m = tw.mods[MOD[:-1]]
    if not (hasattr(m, 'apply_half_position_push') and
            hasattr(m, 'push_momentum')):
        raise Unsupported('helpers of the Boris pusher not found')
    m.apply_half_position_push, m.push_momentum = half, mom
    log = []
    fld = SymField('F', log)
    b.evolve([fld], t, dt, 'boris')
    s = state(b)
    h = T.xdiv(1, 2)
    p0 = (v['px'], v['py'], v['pz'])
    mid = [v[n] + h * dt * V(n, p0) for n in BN[:3]]
    F = [fld.comp(k, *mid, t + h * dt) for k in range(6)]
    qmc = T.xdiv(b.q_species, b.m_species * c)
    p1 = [K(n, *p0, *F, dt, qmc) for n in BN[3:]]
    for k in range(3):
        ctx.prove_eq('position after the step', s[k],
                     mid[k] + h * dt * V(BN[k], p1))
        ctx.prove_eq('momentum after the step', s[3 + k], p1[k])
    ctx.prove_eq('propagation distance', lift(b.prop_distance), dt * c)


def sample(rng):
    v = sample_bunch(rng)
    v['kind'] = rng.choice(['any', 'any', 'e', 'b', 'none', 'rev', 'twice'])
    return v


def boris_ref(s, F, q_mc, dt, t):
    x, y, xi, *p = [a.copy() for a in s]
    p = np.array(p)

    def dr(r, p):
        g = np.sqrt(1 + (p**2).sum(0))
        return (r[0] + dt / 2 * C * p[0] / g, r[1] + dt / 2 * C * p[1] / g,
                r[2] - dt / 2 * C * (1 + p[0]**2 + p[1]**2) / (
                    g * (g + p[2])))
    r = dr((x, y, xi), p)
    f = np.zeros((6, len(x)))
    for fl in F:
        f += np.array(fl.ev(*r, t + dt / 2))
    k = q_mc * dt / 2
    pm = p + k * f[:3]
    g = np.sqrt(1 + (pm**2).sum(0))
    th = k * C / g * f[3:]
    p1 = pm + np.cross(pm.T, th.T).T
    p = pm + 2 / (1 + (th**2).sum(0)) * np.cross(p1.T, th.T).T + k * f[:3]
    r = dr(r, p)
    return np.array([*r, *p])


def conc(v):
    rng = np.random.default_rng(v['seed'])
    b = mk_bunch(v, rng)
    kd = v['kind']
    F = [Fld(rng, e=kd not in ('b', 'none'), b=kd not in ('e', 'none'))
         for _ in range(v['nf'])]
    s0 = ph(b)
    w0 = b.w.copy()
    q_mc = b.q_species / b.m_species / C
    RF = real_fields(F)
    b.evolve(RF, v['t'], v['dt'], pusher='boris')
    s1 = ph(b)
    ref = boris_ref(s0, F, q_mc, v['dt'], v['t'])
    cmp(s1, ref, v['dt'], 'Boris step')
    if not np.array_equal(b.w, w0):
        raise Violation('weights changed by the push')
    if kd == 'b':
        approx((s1[3:]**2).sum(0), (s0[3:]**2).sum(0), rtol=1e-11,
               what='energy in a magnetic field')
    approx(b.prop_distance, C * v['dt'], what='propagation distance')
    if kd == 'rev':
        b.evolve(RF, v['t'] + v['dt'], -v['dt'], pusher='boris')
        cmp(ph(b), s0, v['dt'], 'reversed Boris step', rtol=1e-10)
    if kd == 'twice':
        b.evolve(RF, v['t'] + v['dt'], v['dt'], pusher='boris')
        cmp(ph(b), boris_ref(s1, F, q_mc, v['dt'], v['t'] + v['dt']),
            v['dt'], 'second Boris step')


def contracts():
    return [
        Contract('Boris momentum rotation', [MOD + 'push_momentum'],
                 body_momentum, min_obligations=10),
        Contract('Boris half drift', [MOD + 'apply_half_position_push'],
                 body_drift, min_obligations=3),
        Contract('Boris step of a bunch', [
            MOD + 'apply_boris_pusher',
            'wake_t.fields.gather.gather_fields',
            'wake_t.particles.particle_bunch.ParticleBunch.evolve'],
            body_step, sample, conc, n=(120, 1500), min_obligations=7),
    ]
