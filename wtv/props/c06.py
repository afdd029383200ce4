from .push_common import *

ASSUMPTIONS = ['gathered fields are arbitrary functions of position and time']
MOD = 'wake_t.particles.push.runge_kutta_4.'


def body_k(ctx):
    """Right-hand side of the equations of motion."""
    tw = twin(ctx)
    ctx.generic()
    f = tw.get(MOD + 'calculate_k')
    p = [R(n) for n in BN[3:]]
    F = [R(n) for n in FN]
    qmc, c = R('qmc'), R('ct_c', positive=True)
    ks = [P(R('old' + n), 'k' + n) for n in BN]
    f(*ks, qmc, *[P(a, 'p', True) for a in p],
      *[P(a, 'f', True) for a in F])
    k = [a.val for a in ks]
    g = X.sqrt(1 + p[0]**2 + p[1]**2 + p[2]**2)
    v = [T.xdiv(c * a, g) for a in p]
    e, b = F[:3], F[3:]
    ctx.prove_eq('dx/dt = vx', k[0], v[0])
    ctx.prove_eq('dy/dt = vy', k[1], v[1])
    ctx.prove_eq('dxi/dt = vz - c', k[2], v[2] - c)
    for i in range(3):
        j, l = (i + 1) % 3, (i + 2) % 3
        ctx.prove_eq('dp/dt = q/mc (E + v x B)', k[3 + i],
                     qmc * (e[i] + v[j] * b[l] - v[l] * b[j]))


def body_step(ctx):
    """RK4 combination for an arbitrary right-hand side."""
    tw = twin(ctx)
    b, v = sym_bunch(ctx, tw)
    t, dt, c = R('t'), R('dt'), R('ct_c', positive=True)
    qmc = T.xdiv(b.q_species, b.m_species * c)
    tw.load(MOD[:-1])
    m = tw.mods[MOD[:-1]]
    if not hasattr(m, 'calculate_k'):
        raise Unsupported('calculate_k not found')

    def ck(kx, ky, kxi, kpx, kpy, kpz, q, *a):
        a = [z.val for z in a]
        for o, n in zip((kx, ky, kxi, kpx, kpy, kpz), BN):
            o[:] = X.uf('rhs_' + n, lift(q), *a)
    m.calculate_k = ck
    fld = SymField('F')
    b.evolve([fld], t, dt, 'rk4')
    out = state(b)

    def rhs(s, t):
        F = [fld.comp(k, *s[:3], t) for k in range(6)]
        return [X.uf('rhs_' + n, qmc, *s[3:], *F) for n in BN]
    s0 = [v[n] for n in BN]
    h = T.xdiv(1, 2)
    k1 = rhs(s0, t)
    k2 = rhs([a + h * dt * k for a, k in zip(s0, k1)], t + h * dt)
    k3 = rhs([a + h * dt * k for a, k in zip(s0, k2)], t + h * dt)
    k4 = rhs([a + dt * k for a, k in zip(s0, k3)], t + dt)
    for i, n in enumerate(BN):
        ctx.prove_eq('classical fourth-order step of ' + n, out[i],
                     s0[i] + dt * T.xdiv(k1[i] + 2 * k2[i] + 2 * k3[i] +
                                         k4[i], 6))
    ctx.prove_eq('propagation distance', lift(b.prop_distance), dt * c)


def body_free(ctx):
    """Without field: exact straight line, momentum kept."""
    tw = twin(ctx)
    b, v = sym_bunch(ctx, tw)
    t, dt, c = R('t'), R('dt'), R('ct_c', positive=True)
    b.evolve([], t, dt, 'rk4')
    out = state(b)
    g = X.sqrt(1 + v['px']**2 + v['py']**2 + v['pz']**2)
    for i in range(3):
        vel = T.xdiv(c * v[BN[3 + i]], g) - (c if i == 2 else 0)
        ctx.prove_eq('free drift', out[i], v[BN[i]] + dt * vel)
        ctx.prove_eq('momentum of a free particle', out[3 + i],
                     v[BN[3 + i]])


def rk_ref(s0, F, q_mc, dt, t):
    def rhs(s, t):
        f = np.zeros((6, s.shape[1]))
        for fl in F:
            f += np.array(fl.ev(s[0], s[1], s[2], t))
        p = s[3:]
        g = np.sqrt(1 + (p**2).sum(0))
        v = C * p / g
        vz_c = -C * (1 + p[0]**2 + p[1]**2) / (g * (g + p[2]))
        return np.array([v[0], v[1], vz_c,
                         *(q_mc * (f[:3] + np.cross(v.T, f[3:].T).T))])
    k1 = rhs(s0, t)
    k2 = rhs(s0 + dt / 2 * k1, t + dt / 2)
    k3 = rhs(s0 + dt / 2 * k2, t + dt / 2)
    k4 = rhs(s0 + dt * k3, t + dt)
    return s0 + dt * (k1 + 2 * k2 + 2 * k3 + k4) / 6


def sample(rng):
    v = sample_bunch(rng)
    v['kind'] = rng.choice(['any', 'any', 'e', 'b', 'none', 'twice', 'mix'])
    return v


def conc(v):
    rng = np.random.default_rng(v['seed'])
    b = mk_bunch(v, rng)
    kd = v['kind']
    F = [Fld(rng, e=kd not in ('b', 'none'), b=kd not in ('e', 'none'))
         for _ in range(v['nf'])]
    s0 = ph(b)
    w0 = b.w.copy()
    q_mc = b.q_species / b.m_species / C
    RF = real_fields(F)
    t, dt = v['t'], v['dt']
    b.evolve(RF, t, dt, pusher='rk4')
    s1 = ph(b)
    cmp(s1, rk_ref(s0, F, q_mc, dt, t), dt, 'RK4 step')
    if not np.array_equal(b.w, w0):
        raise Violation('weights changed by the push')
    approx(b.prop_distance, C * dt, what='propagation distance')
    if kd == 'twice':
        b.evolve(RF, t + dt, dt, pusher='rk4')
        cmp(ph(b), rk_ref(s1, F, q_mc, dt, t + dt), dt, 'second RK4 step')
    if kd == 'mix':
        # interleaving pushers and a negative step does not leak state
        b.evolve(RF[:1], t + dt, dt / 3, pusher='boris')
        s2 = ph(b)
        b.evolve(RF, t, -dt, pusher='rk4')
        cmp(ph(b), rk_ref(s2, F, q_mc, -dt, t), dt, 'RK4 step after Boris')


def conc_default(v):
    """rk4 is what evolve uses when no pusher is named; others refused."""
    rng = np.random.default_rng(v['seed'])
    b = mk_bunch(v, rng)
    F = [Fld(rng)]
    s0 = ph(b)
    b.evolve(real_fields(F), v['t'], v['dt'])
    cmp(ph(b), rk_ref(s0, F, b.q_species / b.m_species / C, v['dt'],
                      v['t']), v['dt'], 'default pusher')
    s1, pd = ph(b), b.prop_distance
    try:
        b.evolve(real_fields(F), v['t'], v['dt'], pusher='leapfrog')
    except ValueError:
        if not np.array_equal(ph(b), s1) or b.prop_distance != pd:
            raise Violation('refused push modified the bunch')
    else:
        raise Violation('unknown pusher accepted')


def contracts():
    return [
        Contract('equations of motion', [MOD + 'calculate_k'], body_k,
                 min_obligations=6),
        Contract('RK4 step of a bunch', [
            MOD + 'apply_rk4_pusher', MOD + 'update_coord',
            MOD + 'initialize_push', MOD + 'update_push', MOD + 'apply_push',
            'wake_t.fields.gather.gather_fields',
            'wake_t.particles.particle_bunch.ParticleBunch.evolve'],
            body_step, sample, conc, n=(120, 1500), min_obligations=7),
        Contract('RK4 step without field', [
            MOD + 'apply_rk4_pusher', MOD + 'calculate_k'], body_free,
            min_obligations=6),
        Contract('pusher selection', [
            'wake_t.particles.particle_bunch.ParticleBunch.evolve'], None,
            sample, conc_default, n=(20, 100), bounded='sampled bunches'),
    ]
