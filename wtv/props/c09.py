"""Bunch representation: matrices, charge, copies, ballistic injection."""
from .push_common import *

ASSUMPTIONS = ['weighted averages are uninterpreted functions of the values '
               'and the weights']
PBN = 'wake_t.particles.particle_bunch.ParticleBunch'


def val(a):
    return a.val if isinstance(a, T.PArray) else lift(a)


def body_matrices(ctx):
    tw = twin(ctx)
    b, v = sym_bunch(ctx, tw)
    B = tw.get(PBN)
    w, q = val(b.w), val(b.q_species)
    case = ctx.choose(5, 'representation')
    order = ['x', 'px', 'y', 'py', 'xi', 'pz']
    if case == 0:
        m = b.get_6D_matrix()
        for k, n in enumerate(order):
            ctx.prove_eq('row %s of the 6D matrix' % n, val(m[k]), v[n])
        c = B(P(w, 'w', True), bunch_matrix=m, name='c')
        for n in BN:
            ctx.prove_eq('bunch from its matrix: ' + n, val(getattr(c, n)),
                         v[n])
    elif case == 1:
        m = b.get_bunch_matrix()
        c = B(P(R('w2', positive=True), 'w2'), *[P(R('u' + n)) for n in BN],
              name='c', q_species=q, m_species=b.m_species)
        ctx.assume(X.not_(X.eq(q, lift(0))))
        c.set_bunch_matrix(m)
        for n in BN + ['w']:
            ctx.prove_eq('bunch from matrix with charge: ' + n,
                         val(getattr(c, n)), v.get(n, w))
        m2 = b.get_6D_matrix_with_charge()
        for k, n in enumerate(order):
            ctx.prove_eq('row %s of the matrix with charge' % n, val(m2[k]),
                         v[n])
        ctx.prove_eq('charge row', val(m2[6]), w * q)
    elif case == 2:
        ctx.assume(v['pz'] > 0)
        gm = R('g_avg', positive=True)
        ctx.assume(gm > 1)
        m, ga = b.get_alternative_6D_matrix()
        c = B(P(w, 'w', True), bunch_matrix=m, matrix_type='alternative',
              gamma_ref=ga, name='c')
        for n in BN[:-1]:
            ctx.prove_eq('bunch from its alternative matrix: ' + n,
                         val(getattr(c, n)), v[n])
        ctx.prove_eq('bunch from its alternative matrix: pz^2',
                     val(c.pz)**2, v['pz']**2)
        for k, n in ((0, 'x'), (2, 'y'), (4, 'xi')):
            ctx.prove_eq('alternative matrix: ' + n, val(m[k]), v[n])
        p2 = v['px']**2 + v['py']**2 + v['pz']**2
        ctx.prove_eq("alternative matrix: x'", val(m[1])**2 * p2,
                     v['px']**2)
        ctx.prove_eq("alternative matrix: y'", val(m[3])**2 * p2,
                     v['py']**2)
        ctx.prove_eq('alternative matrix: energy deviation',
                     ((val(m[5]) + 1) * lift(ga))**2, 1 + p2)
    elif case == 3:
        ctx.assume(X.not_(X.eq(q, lift(0))))
        ctx.prove_eq('charge', val(b.q), w * q)
        b.q = b.q
        ctx.prove_eq('setting the charge keeps the weights', val(b.w), w)
        s = R('new_charge')
        b.q = P(s)
        ctx.prove('weights are not negative', val(b.w) >= 0)
        ctx.prove_eq('weight times |species charge| is |charge|',
                     (val(b.w) * q)**2, s**2)
    else:
        xc = R('xi_c')
        b.reposition_xi(xc)
        ctx.prove_eq('recentred by the distance to the weighted mean',
                     val(b.xi), v['xi'] + xc - T.agg(
                         'mean', P(v['xi']), P(w)))
        for n in ('x', 'y', 'px', 'py', 'pz'):
            ctx.prove_eq('recentring only changes xi: ' + n,
                         val(getattr(b, n)), v[n])


ATTR = ['prop_distance', 't_flight', 'z_injection', 'name', 'q_species',
        'm_species', 'x_ref', 'theta_ref']


def body_copy(ctx):
    tw = twin(ctx)
    kw = dict(prop_distance=R('prop'), t_flight=R('tof'),
              z_injection=R('z_inj') if ctx.choose(2, 'inj') else None,
              tags=P(R('tag'), 'tags'))
    b, v = sym_bunch(ctx, tw, **kw)
    b.x_ref, b.theta_ref = R('x_ref'), R('th_ref')
    c = b.copy()
    ctx.prove('the copy is another object', X.boolc(c is not b))
    for n in BN + ['w', 'tags']:
        if getattr(c, n) is None:
            ctx.prove('copied ' + n, X.boolc(False))
            continue
        ctx.prove_eq('copied ' + n, val(getattr(c, n)), val(getattr(b, n)))
        ctx.prove('own storage for ' + n, X.boolc(
            getattr(c, n) is not getattr(b, n)))
    for n in ATTR:
        a, o = getattr(c, n), getattr(b, n)
        if isinstance(o, str) or o is None or a is None:
            ctx.prove('copied ' + n, X.boolc(a == o))
        else:
            ctx.prove_eq('copied ' + n, lift(a), lift(o))


def body_openpmd(ctx):
    tw = twin(ctx)
    b, v = sym_bunch(ctx, tw)
    c, t = R('ct_c', positive=True), R('t')
    d = b.get_openpmd_diagnostics_data(t)
    m = lift(b.m_species)
    for k, n in (('x', 'x'), ('y', 'y'), ('z', 'xi')):
        ctx.prove_eq('openPMD ' + k, val(d[k]), v[n])
    for n in ('px', 'py', 'pz'):
        ctx.prove_eq('openPMD momentum is in SI: ' + n, val(d[n]),
                     v[n] * m * c)
    ctx.prove_eq('openPMD weight', val(d['w']), val(b.w))
    ctx.prove_eq('openPMD species charge', lift(d['q']), lift(b.q_species))
    ctx.prove_eq('openPMD species mass', lift(d['m']), m)
    ctx.prove_eq('openPMD offset', lift(d['z_off']), t * c)
    ctx.prove('openPMD name', X.boolc(d['name'] == 'b'))


def body_inject(ctx):
    tw = twin(ctx)
    z = [None, R('z_inj')][ctx.choose(2, 'injection')]
    b, v = sym_bunch(ctx, tw, z_injection=z, prop_distance=R('prop'),
                     t_flight=R('tof'), tags=P(R('tag'), 'tags'))
    b.x_ref, b.theta_ref = R('x_ref'), R('th_ref')
    old = {n: getattr(b, n) for n in ATTR + ['w', 'tags']}
    mod = tw.mods[PBN.rpartition('.')[0]]
    got = []
    for n, k in (('apply_rk4_pusher', 'rk4'), ('apply_boris_pusher',
                                               'boris')):
        if not hasattr(mod, n):
            raise Unsupported('pusher not found')
        setattr(mod, n, lambda bu, f, t, dt, k=k: got.append(
            (k, bu, list(f), t, dt)))
    k = ['rk4', 'boris'][ctx.choose(2, 'pusher')]
    F = [SymField('F')]
    t, dt, c = R('t'), R('dt'), R('ct_c', positive=True)
    b.evolve(list(F), t, dt, k)
    ctx.prove('exactly one push, with the requested pusher',
              X.boolc(len(got) == 1 and got[0][0] == k and got[0][1] is b))
    ctx.prove_eq('push starts at t', lift(got[0][3]), t)
    ctx.prove_eq('push lasts dt', lift(got[0][4]), dt)
    ctx.prove_eq('propagation distance grows by c dt',
                 lift(b.prop_distance), R('prop') + c * dt)
    for n in old:
        a, o = getattr(b, n), old[n]
        if n == 'prop_distance':
            continue
        if isinstance(o, str) or o is None or a is None:
            ctx.prove('evolve keeps ' + n, X.boolc(a == o))
        else:
            ctx.prove_eq('evolve keeps ' + n, val(a), val(o))
    if z is None:
        ctx.prove('fields act on a bunch without injection point',
                  X.boolc(got[0][2] == F))
    else:
        head = T.agg('max', P(v['xi'])) + R('prop')
        ballistic = got[0][2] == []
        ctx.prove('ballistic only if the whole bunch is before z_injection',
                  head < z if ballistic else X.not_(head < z))
        ctx.prove('all fields or none', X.boolc(
            ballistic or got[0][2] == F))


# ------------------------------------------------------------------ run time
def sample(rng):
    v = sample_bunch(rng)
    v['inj'] = rng.choice([None, None, -1e-4, -1e-5, 0., 2e-5, 1e-3])
    v['prop'] = rng.choice([0., 1e-5, .3])
    v['pusher'] = rng.choice(['rk4', 'boris'])
    v['tags'] = rng.random() < .5
    v['other'] = rng.choice([1, 2, 9, 30])
    return v


def conc(v):
    rng = np.random.default_rng(v['seed'])
    B = real(PBN)
    b = mk_bunch(v, rng, z_injection=v['inj'], prop_distance=v['prop'],
                 t_flight=2.5, tags=np.arange(v['n']) if v['tags'] else None)
    b.pz = np.abs(b.pz)
    b.x_ref, b.theta_ref = 1e-3, .02
    s0, w0, q0 = ph(b), b.w.copy(), b.q.copy()
    approx(b.q, w0 * b.q_species, what='charge')
    # matrices
    m = b.get_6D_matrix()
    approx(m, s0[[0, 3, 1, 4, 2, 5]], what='6D matrix')
    c = B(w0.copy(), bunch_matrix=m.copy(), name='c')
    approx(ph(c), s0, what='bunch from 6D matrix')
    m = b.get_bunch_matrix()
    c = B(np.ones(v['n']), *np.ones((6, v['n'])), name='c',
          q_species=b.q_species)
    c.set_bunch_matrix(m.copy())
    approx(ph(c), s0, what='bunch from matrix with charge')
    approx(c.w, w0, what='weights from matrix with charge')
    m = b.get_6D_matrix_with_charge()
    approx(m[6], q0, what='charge row')
    approx(m[:6], s0[[0, 3, 1, 4, 2, 5]], what='6D matrix with charge')
    m, ga = b.get_alternative_6D_matrix()
    c = B(w0.copy(), bunch_matrix=m, matrix_type='alternative',
          gamma_ref=ga, name='c')
    sc = np.abs(s0).max(axis=1, keepdims=True) + 1e-30
    approx(ph(c) / sc, s0 / sc, rtol=1e-6, atol=1e-6,
           what='bunch from alternative matrix')
    gg = np.sqrt(1 + s0[3]**2 + s0[4]**2 + s0[5]**2)
    approx(ga, np.sum(w0 * gg) / np.sum(w0), rtol=1e-10,
           what='reference energy of the alternative matrix')
    approx(m[5], gg / ga - 1, rtol=1e-9, atol=1e-10,
           what='energy deviations of the alternative matrix')
    for m in (m, b.get_6D_matrix(), b.get_6D_matrix_with_charge(),
              b.get_bunch_matrix()):
        m = np.asarray(m)
        if any(np.shares_memory(m, getattr(b, n)) for n in BN + ['w']):
            raise Violation('a matrix of the bunch shares its storage')
    approx(ph(b), s0, what='matrix getters leave the bunch alone')
    # charge setter
    b.q = q0
    approx(b.w, w0, what='weights after setting the charge')
    # copy
    c = b.copy()
    approx(ph(c), s0, what='copied coordinates')
    approx(c.w, w0, what='copied weights')
    approx(c.q, q0, what='copied charge')
    for n in ATTR:
        if getattr(c, n) != getattr(b, n):
            raise Violation('copy has another %s: %r' % (n, getattr(c, n)))
    for n in ('', '0', b.name):
        b.name = n
        if b.copy().name != n:
            raise Violation('copy of %r has the name %r' % (n, b.copy().name))
    if v['tags'] and (c.tags is None or not np.array_equal(c.tags, b.tags)):
        raise Violation('copy lost the tags')
    for n in BN + ['w']:
        getattr(c, n)[:] += 1.
    approx(ph(b), s0, what='original after changing its copy')
    approx(b.w, w0, what='weights after changing a copy')
    c = b.copy()
    # ballistic injection: same evolution for bunch and copy
    f = Fld(rng, uniform=True)
    fl = real_fields([f])
    g = np.sqrt(1 + (s0[3:]**2).sum(0))
    head = s0[2].max() + v['prop']
    ball = v['inj'] is not None and head < v['inj']
    old = {n: getattr(b, n) for n in ATTR if n != 'prop_distance'}
    for o in (b, c):
        n = len(f.times)
        o.evolve(fl, v['t'], v['dt'], v['pusher'])
        if (len(f.times) == n) != ball:
            raise Violation('fields %s applied, head at %r, injection at '
                            '%r' % ('not' if not ball else '', head,
                                    v['inj']))
        approx(o.prop_distance - v['prop'], v['dt'] * C, rtol=1e-6,
               atol=1e-15, what='propagation distance')
        for n in old:
            if getattr(o, n) != old[n]:
                raise Violation('evolve changed %s of the bunch' % n)
        approx(o.w, w0, what='weights after a push')
        if v['tags'] and not np.array_equal(o.tags, np.arange(v['n'])):
            raise Violation('evolve changed the tags')
        if ball:
            x = s0.copy()
            x[:3] += C * v['dt'] * s0[3:] / g
            x[2] -= C * v['dt']
            cmp(ph(o), x, v['dt'], 'ballistic motion', rtol=1e-9)
    if v['inj'] is not None and abs(head - v['inj']) < 1e-12:
        return
    cmp(ph(c), ph(b), v['dt'], 'evolution of a copy')
    # other particles, also another number of them
    k = v['other']
    m = np.vstack([rng.normal(size=(6, k)) * 1e-5, np.full(k, b.q_species)])
    m[5] += 100.
    o = b.copy()
    o.z_injection = None
    o.evolve(fl, 0., 1e-15, v['pusher'])
    o.set_bunch_matrix(m.copy())
    for nm in ('get_field_arrays', 'get_rk4_arrays'):
        # (before the compiled code writes beyond the end of an array)
        if hasattr(o, nm) and min(len(a) for a in getattr(o, nm)()) < k:
            raise Violation('%s: too short for the %d particles of the bunch'
                            % (nm, k))
    c = B(np.ones(k), *m[:6].copy(), name='c', q_species=b.q_species,
          m_species=b.m_species)
    for _ in range(2):
        o.evolve(fl, v['t'], v['dt'], v['pusher'])
        c.evolve(fl, v['t'], v['dt'], v['pusher'])
    cmp(ph(o), ph(c), v['dt'], 'evolution after replacing the particles')
    # recentre
    s1 = ph(b)
    b.reposition_xi(3e-5)
    approx(np.average(b.xi, weights=b.w), 3e-5, rtol=1e-9,
           what='mean xi after recentring')
    approx(ph(b)[[0, 1, 3, 4, 5]], s1[[0, 1, 3, 4, 5]],
           what='other coordinates after recentring')
    approx(np.diff(b.xi), np.diff(s1[2]), rtol=1e-6, atol=1e-16,
           what='shape after recentring')
    d = b.get_openpmd_diagnostics_data(1e-12)
    for n in ('px', 'py', 'pz'):
        approx(d[n], getattr(b, n) * b.m_species * C, what='SI ' + n)
    approx(d['z'], b.xi, what='openPMD z')
    approx(d['w'], b.w, what='openPMD weight')
    try:
        b.evolve(fl, 0., 1e-15, 'euler')
    except ValueError:
        return
    raise Violation('unknown pusher accepted')


def contracts():
    p = PBN + '.'
    return [
        Contract('bunch matrices and charge', [
            p + 'get_6D_matrix', p + 'set_phase_space_from_matrix',
            p + 'get_bunch_matrix', p + 'set_bunch_matrix',
            p + 'get_6D_matrix_with_charge', p + 'get_alternative_6D_matrix',
            p + 'set_phase_space_from_alternative_matrix', p + 'q',
            p + 'reposition_xi', p + '__init__'], body_matrices,
            min_obligations=30),
        Contract('copy of a bunch', [p + 'copy'], body_copy,
                 min_obligations=20),
        Contract('openPMD data of a bunch', [
            p + 'get_openpmd_diagnostics_data'], body_openpmd,
            min_obligations=10),
        Contract('ballistic motion before injection', [p + 'evolve'],
                 body_inject, min_obligations=10),
        Contract('bunch life cycle', [p + 'copy', p + 'evolve'], None,
                 sample, conc, n=(150, 2000), bounded='sampled bunches'),
    ]
