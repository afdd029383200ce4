"""Plasma stages, ramps and lenses: density profile, fields, time step."""
import types
from .push_common import *
from .c16 import close
from fractions import Fraction as Fr

EL = 'wake_t.beamline_elements.'
ST = EL + 'plasma_stage.PlasmaStage'
RP = EL + 'plasma_ramp'
AP = EL + 'active_plasma_lens.ActivePlasmaLens'
QD = EL + 'field_quadrupole.FieldQuadrupole'
ASSUMPTIONS = ['exp(-log(q)) = 1/q, sqrt(q)**2 = q for q > 0',
               'numpy.max over 100 points of the stage stands for the '
               'maximum density']
QE, ME, EP = 1.602176634e-19, 9.1093837015e-31, 8.8541878128e-12


def body_profiles(ctx):
    tw = twin(ctx)
    M = tw.load(RP)
    top, down, pos = [R(n, positive=True) for n in ('top', 'down', 'pos')]
    ctx.assume(top > down)
    dl, z = R('decay', positive=True), R('z')
    ctx.assume(z > -dl)
    k = ('inverse_square', 'exponential', 'gaussian')[ctx.choose(3, 'kind')]
    f = M.ramp_profiles[k]
    if ctx.choose(2, 'decay length given'):
        v = f(z, decay_length=dl, density_top=top, density_down=down,
              position_down=pos)
        e = {'inverse_square': top / (1 + z / dl)**2,
             'exponential': top * X.exp(-z / dl),
             'gaussian': top * X.exp(-z**2 / (2 * dl**2))}[k]
        ctx.prove_eq('profile with the given decay length', lift(v), e)
        return
    kw = dict(decay_length=None, density_top=top, density_down=down,
              position_down=pos)
    ctx.prove_eq('density at the top of the ramp', lift(f(lift(0), **kw)),
                 top)
    v = lift(f(pos, **kw))
    q = top / down
    if k == 'inverse_square':
        # pos / decay = sqrt(q) - 1
        s = X.sqrt(q)
        ctx.prove_eq('density at position_down', v, top / s**2)
        ctx.prove_eq('density at position_down (lemma)', top / q, down)
    else:
        ctx.prove_eq('density at position_down', v,
                     top * X.exp(-T.np_shim.log(q)))


def body_ramp(ctx):
    """ramp of any profile; up-ramps mirrored; the default position"""
    tw = twin(ctx)
    M = tw.load(RP)
    PS = tw.load(EL + 'plasma_stage')
    log = []
    PS.wakefield_models = {'model': lambda dens, **k: log.append(
        (dens, k)) or types.SimpleNamespace(dens=dens)}
    L = R('length', positive=True)
    up = bool(ctx.choose(2, 'upramp'))
    pos = R('pos', positive=True) if ctx.choose(2, 'position') else None
    dl = R('decay', positive=True) if ctx.choose(2, 'decay') else None
    top, down = R('top', positive=True), R('down', positive=True)

    def profile(z, decay_length, density_top, density_down, position_down):
        return X.uf('profile', X.norm(lift(z)), *[
            lift(0) if q is None else lift(q) for q in (
                decay_length, density_top, density_down, position_down)])
    call = bool(ctx.choose(2, 'callable'))
    if not call:
        M.ramp_profiles = {'a_profile': profile}
    el = M.PlasmaRamp(L, profile if call else 'a_profile',
                      'upramp' if up else 'downramp', 'model',
                      decay_length=dl, plasma_dens_top=top,
                      plasma_dens_down=down, position_down=pos, extra=7)
    z = R('z')
    exp = X.uf('profile', X.norm(L - z if up else z),
               lift(0) if dl is None else dl, top, down,
               L if pos is None else pos)
    ctx.prove_eq('density of the ramp', lift(el.density(z)), exp)
    ctx.prove('one wakefield of the given model', X.boolc(
        len(log) == 1 and log[0][1] == dict(extra=7) and
        el.fields == [el.wakefield]))
    ctx.prove_eq('density of the wakefield', lift(log[0][0](z)), exp)
    ctx.prove_eq('length', lift(el.length), L)


def body_stage(ctx):
    tw = twin(ctx)
    ctx.generic()
    M = tw.load(EL + 'plasma_stage')
    F = tw.load('wake_t.fields.base').Field

    class Fl(F):
        def __init__(self, n):
            self.n = n
    log = []
    M.wakefield_models = {'a': lambda dens, **k: log.append(
        (dens, k)) or Fl('a'), 'b': lambda dens, **k: Fl('b')}
    n_ = R('density', positive=True)
    uni = bool(ctx.choose(2, 'uniform'))
    L = R('length', positive=True)
    kind = ctx.choose(3, 'model')
    own = Fl('own')
    ext = [Fl('e%d' % k) for k in range(ctx.choose(3, 'external'))]
    user = lambda z: P(X.uf('n', z.val), 'n') if isinstance(z, T.PArray) \
        else X.uf('n', X.norm(lift(z)))
    keep = list(ext)
    kw = dict(external_fields=ext) if ext else {}
    el = M.PlasmaStage(L, n_ if uni else user,
                       ('a', own, None)[kind], **kw,
                       **(dict(par=3) if kind == 0 else {}))
    z = R('z')
    v = el.density(P(z, 'z'))
    if isinstance(v, T.PArray):
        ctx.prove_eq('density at any position', v.val,
                     n_ if uni else X.uf('n', z))
    ctx.prove_eq('density at any position', lift(el.density(z)),
                 n_ if uni else X.uf('n', z))
    names = [f.n for f in el.fields]
    exp = {0: ['a'], 1: ['own'], 2: []}[kind] + [e.n for e in ext]
    ctx.prove('wakefield and every external field, once', X.boolc(
        sorted(names) == sorted(exp)))
    ctx.prove('list of the user unchanged', X.boolc(ext == keep))
    if kind == 0:
        ctx.prove('model parameters', X.boolc(
            len(log) == 1 and log[0][1] == dict(par=3)))
        ctx.prove_eq('density of the wakefield', lift(log[0][0](z)),
                     n_ if uni else X.uf('n', z))
    el2 = M.PlasmaStage(L, n_, 'b')
    ctx.prove('stages do not share fields', X.boolc(
        [f.n for f in el2.fields] == ['b']))
    for bad in ('no such model',):
        try:
            M.PlasmaStage(L, n_, bad)
            ok = False
        except ValueError:
            ok = True
        ctx.prove('unknown model is rejected', X.boolc(ok))


def body_dt(ctx):
    """automatic time step: a tenth of the inverse betatron frequency"""
    tw = twin(ctx)
    ctx.generic()
    L = R('length', positive=True)
    q, m, pz = R('q'), R('m', positive=True), R('pz')
    ctx.assume(X.not_(X.eq(q, lift(0))))
    b = types.SimpleNamespace(pz=P(pz, 'pz', True), q_species=q,
                              m_species=m)
    c, e, me, ep = [R(k, positive=True) for k in (
        'ct_c', 'ct_e', 'ct_m_e', 'ct_epsilon_0')]
    g = X.sqrt(1 + T.agg('min', P(pz, 'pz'))**2)
    kind = ctx.choose(4, 'element')
    ab = X.ite(q >= 0, q, -q) if bool(q >= 0) else -q
    if bool(q >= 0):
        ab = q
    if kind in (0, 3):
        zs = []

        def linspace_(lo, hi, n, *a, **k):
            ctx.prove_eq('from the start of the stage', lift(lo), lift(0))
            ctx.prove_eq('to the end of the stage', lift(hi), L)
            z = P(R('z_any'), 'z')
            zs.append(int(n))
            return z
        class NP:
            linspace = staticmethod(linspace_)

            def __getattr__(self, n):
                return getattr(T.np_shim, n)
        tw.load(EL + 'plasma_stage').np = NP()

        def dens(z):
            n = X.uf('n', z.val)
            ctx.assume(n > 0)
            return P(n, 'n')
        nmax = T.agg('max', dens(P(R('z_any'), 'z')))
        ctx.assume(nmax > 0)
        if kind == 0:
            el = tw.load(EL + 'plasma_stage').PlasmaStage(L, dens, None)
        else:
            PS = tw.load(EL + 'plasma_stage')
            PS.wakefield_models = {'quasistatic_2d': lambda d, **k:
                                   types.SimpleNamespace()}
            el = tw.load(EL + 'active_plasma_lens').ActivePlasmaLens(
                L, R('k'), wakefields=True, density=dens)
        w2 = ab * nmax * e / (2 * ep * m * g)
    else:
        k = R('k')
        ctx.assume(X.not_(X.eq(k, lift(0))))
        if kind == 1:
            el = tw.load(EL + 'field_quadrupole').FieldQuadrupole(L, k)
        else:
            el = tw.load(EL + 'active_plasma_lens').ActivePlasmaLens(L, k)
        ak = k if bool(k >= 0) else -k
        w2 = ab * c * ak / (m * g)
    dt = lift(el._get_optimized_dt(b))
    ctx.prove('automatic time step is the one of the element', X.boolc(
        el.auto_dt_bunch == el._get_optimized_dt))
    ctx.prove_eq('(dt w)^2 = 1/100', dt**2 * w2, lift(Fr(1, 100)))
    ctx.prove('time step > 0', dt > 0)
    if kind in (0, 3):
        ctx.prove('density sampled along the stage', X.boolc(
            bool(zs) and min(zs) >= 50))


def body_lens(ctx):
    tw = twin(ctx)
    M = tw.load(EL + 'active_plasma_lens')
    PS = tw.load(EL + 'plasma_stage')
    log = []
    PS.wakefield_models = {'quasistatic_2d': lambda d, **k: log.append(
        (d, k)) or types.SimpleNamespace(n='wake')}
    M.LinearBThetaField = lambda k: types.SimpleNamespace(n='lens', k=k)
    L, k, n_ = R('length', positive=True), R('k'), R('n', positive=True)
    wk = bool(ctx.choose(2, 'wakefields'))
    dn = bool(ctx.choose(2, 'density'))
    try:
        el = M.ActivePlasmaLens(L, k, wakefields=wk,
                                density=n_ if dn else None)
    except ValueError:
        ctx.prove('density needed only for wakefields', X.boolc(
            wk and not dn))
        return
    ctx.prove('density needed for wakefields', X.boolc(not wk or dn))
    fs = {f.n: f for f in el.fields}
    ctx.prove('lens and, if requested, plasma wakefields', X.boolc(
        sorted(fs) == (['lens', 'wake'] if wk else ['lens']) and
        len(el.fields) == len(fs) and len(log) == int(wk)))
    ctx.prove_eq('gradient of the lens', lift(fs['lens'].k), -k)
    if wk:
        ctx.prove_eq('density of the lens', lift(log[0][0](R('z'))), n_)


def make(kind, get, L, dens, k, kw):
    if kind == 'stage':
        return get(ST)(L, dens, 'focusing_blowout', **kw)
    if kind == 'ramp':
        return get(RP + '.PlasmaRamp')(
            L, 'exponential', 'downramp', 'focusing_blowout',
            plasma_dens_top=dens, decay_length=L, **kw)
    if kind == 'lens':
        return get(AP)(L, k, **kw)
    return get(QD)(L, k, **{a: b for a, b in kw.items()
                            if a != 'push_bunches_before_diags'})


def settings(kind, kw, k, L, bs, c, eq, ok):
    """what the tracker is given"""
    eq('length of the tracking', lift(k['t_final']) * c
       if not isinstance(L, float) else k['t_final'] * c, L)
    dt = kw['dt_bunch']
    ok('time step', len(k['dt_bunches']) == len(bs) and all(
        a is (dt[i] if isinstance(dt, list) else dt) or
        a == (dt[i] if isinstance(dt, list) else dt)
        for i, a in enumerate(k['dt_bunches'])))
    ok('bunches', list(k['bunches']) == list(bs))
    ok('number of outputs', k.get('n_diags') == kw['n_out'])
    ok('pusher', k.get('bunch_pusher') == kw['bunch_pusher'])
    ok('name', k.get('section_name') == kw['name'])
    if kind != 'quadrupole':
        ok('push before outputs', k.get('push_bunches_before_diags') is
           kw['push_bunches_before_diags'])


KINDS = ('stage', 'ramp', 'lens', 'quadrupole')


def body_settings(ctx):
    tw = twin(ctx)
    M = tw.load(EL + 'field_element')
    log = []

    class Tr:
        def __init__(self, **k):
            log.append(k)

        def do_tracking(self):
            return [[]]
    M.Tracker = Tr
    tw.load(EL + 'plasma_stage').wakefield_models = {
        'focusing_blowout': lambda d, **k: types.SimpleNamespace()}
    L, c = R('length', positive=True), R('ct_c', positive=True)
    kind = KINDS[ctx.choose(4, 'element')]
    kw = dict(bunch_pusher=('boris', 'rk4')[ctx.choose(2, 'pusher')],
              dt_bunch=(R('dt'), [R('dt0'), R('dt1')])[ctx.choose(2, 'dt')],
              push_bunches_before_diags=bool(ctx.choose(2, 'push')),
              n_out=3, name='a name')
    el = make(kind, tw.get, L, R('dens', positive=True), R('k'), kw)
    bs = [object(), object()]
    el.track(list(bs))
    ctx.prove('one tracking', X.boolc(len(log) == 1))
    settings(kind, kw, log[0], L, bs, c,
             lambda n, a, b: ctx.prove_eq(n, lift(a), lift(b)),
             lambda n, a: ctx.prove(n, X.boolc(bool(a))))


def s_set(rng):
    return dict(kind=rng.choice(KINDS), pusher=rng.choice(['boris', 'rk4']),
                lst=rng.random() < .5, push=rng.random() < .5,
                n_out=rng.choice([1, 2, 7]), seed=rng.randrange(10**6),
                n=rng.choice([1, 3, 20]), species=rng.choice(
                    ['e', 'p', 'x']), wake=rng.random() < .5)


def c_set(v):
    rng = np.random.default_rng(v['seed'])
    L, dens, k = rng.uniform(.001, .1), 10**rng.uniform(21, 24), \
        rng.uniform(1, 1e3)
    dt = [float(x) for x in L / C / rng.uniform(3, 9, 2)]
    kw = dict(bunch_pusher=v['pusher'], dt_bunch=dt if v['lst'] else dt[0],
              push_bunches_before_diags=v['push'], n_out=v['n_out'],
              name='a name')
    el = make(v['kind'], real, L, dens, k, kw)
    mod = sys.modules[real(EL + 'field_element.FieldElement').__module__]
    if not hasattr(mod, 'Tracker'):
        raise Skip('no tracker in the field element')
    log, old = [], mod.Tracker

    class Tr:
        def __init__(self, **k):
            log.append(k)

        def do_tracking(self):
            return [[]]

    def eq(n, a, b):
        close(n, a / b, 1., 1e-9)

    def ok(n, a):
        if not a:
            raise Violation('%s of the tracking of a %s' % (n, v['kind']),
                            'differs from the one requested')
    bs = [mk_bunch(dict(n=v['n'], species=v['species'], g=100.), rng)
          for _ in range(2)]
    mod.Tracker = Tr
    try:
        el.track(list(bs), show_progress_bar=False)
    finally:
        mod.Tracker = old
    ok('number', len(log) == 1)
    settings(v['kind'], kw, log[0], L, bs, C, eq, ok)
    # automatic time step of lens and quadrupole
    b = bs[0]
    for _ in range(2):
        g = np.sqrt(1 + np.min(b.pz)**2)
        qm = abs(b.q_species) / b.m_species
        w = np.sqrt(qm * C * k / g)
        for e in (real(AP)(L, k), real(QD)(L, k), real(QD)(L, -k)):
            if abs(e.auto_dt_bunch(b) * w - .1) > 1e-6:
                raise Violation('automatic time step of %s' % type(
                    e).__name__, '%r' % (e.auto_dt_bunch(b) * w))
        w = np.sqrt(qm * dens * QE / (2 * EP * g))
        e = real(AP)(L, k, wakefields=True, density=dens,
                     wakefield_model='focusing_blowout')
        if abs(e.auto_dt_bunch(b) * w - .1) > 2e-4:
            raise Violation('automatic time step of a lens with wakefields',
                            '%r' % (e.auto_dt_bunch(b) * w))
        b = bs[1]


# ---------------------------------------------------------------- run time
def s_st(rng):
    return dict(seed=rng.randrange(10**6), n=rng.choice([1, 3, 20]),
                prof=rng.choice(['inverse_square', 'exponential',
                                 'gaussian', 'own']),
                up=rng.random() < .5, dl=rng.random() < .4,
                pos=rng.random() < .5, dens=rng.choice(
                    ['float', 'fun', 'scalar']),
                species=rng.choice(['e', 'p', 'x']),
                model=rng.choice(['focusing_blowout', 'custom_blowout']))


def c_st(v):
    g = np.random.RandomState(v['seed'])
    rng = np.random.default_rng(v['seed'])
    L = 10**g.uniform(-3, -1)
    top = 10**g.uniform(22, 24.)
    down = top * 10**-g.uniform(.1, 3)
    pos = L * g.uniform(.2, 2) if v['pos'] else None
    dl = L * g.uniform(.1, 3) if v['dl'] else None
    p = pos if pos else L
    own = lambda z, decay_length, density_top, density_down, \
        position_down: density_top * (1 - z / (2 * position_down))
    ks = {}
    las = real('wake_t.physics_models.laser.laser_pulse.GaussianPulse')(
        0., 1., 2e-5, 3e-14, 8e-7)
    if v['model'] == 'custom_blowout':
        ks = dict(laser=las, lon_field=1e9, lon_field_slope=0.,
                  foc_strength=10.)
    el = real(RP + '.PlasmaRamp')(
        L, own if v['prof'] == 'own' else v['prof'],
        'upramp' if v['up'] else 'downramp', wakefield_model=v['model'],
        decay_length=dl, plasma_dens_top=top, plasma_dens_down=down,
        position_down=pos, **ks)
    z = np.linspace(0, L, 23)
    s = L - z if v['up'] else z
    if v['prof'] == 'inverse_square':
        d = dl or p / (np.sqrt(top / down) - 1)
        exp = top / (1 + s / d)**2
    elif v['prof'] == 'exponential':
        d = dl or p / np.log(top / down)
        exp = top * np.exp(-s / d)
    elif v['prof'] == 'gaussian':
        d = dl or p / np.sqrt(2 * np.log(top / down))
        exp = top * np.exp(-s**2 / (2 * d**2))
    else:
        exp = top * (1 - s / (2 * p))
    close('density of the ramp', el.density(z) / top, exp / top)
    close('density of the ramp', [el.density(q) / top for q in z],
          exp / top)
    if dl is None and v['prof'] != 'own':
        a = L - p if v['up'] else p
        close('density at position_down', el.density(a) / down, 1.)
    b = mk_bunch(dict(n=v['n'], species=v['species'], g=100.), rng)
    # stage
    dens = {'float': top, 'fun': lambda z: top * (1 + np.sin(9 * z / L)),
            'scalar': lambda z: top}[v['dens']]
    st = real(ST)(L, dens, v['model'], **ks)
    zs = np.linspace(0, L, 100)
    val = {'float': top + 0 * z, 'fun': top * (1 + np.sin(9 * z / L)),
           'scalar': top + 0 * z}[v['dens']]
    close('density of the stage', [st.density(q) / top for q in z],
          val / top)
    if v['dens'] != 'scalar':
        # (a position may also be an integer)
        close('density at the entrance', [st.density(0) / top, st.density(
            np.array([0, 0]))[1] / top], [1., 1.])
    for e, nm in ((st, np.max(dens(zs)) if v['dens'] == 'fun' else top),
                  (el, np.max(el.density(zs)))):
        w = np.sqrt(abs(b.q_species) * nm * QE / (
            2 * EP * b.m_species * np.sqrt(1 + np.min(b.pz)**2)))
        dt = e.auto_dt_bunch(b)
        if abs(dt * w - .1) > 2e-4:
            raise Violation('automatic time step', '%r' % (dt * w))
    # the fields of the stage
    q = [np.zeros(3) for _ in range(6)]
    for f in st.fields:
        f.gather(np.ones(3) * 1e-6, np.zeros(3), np.zeros(3), L / C / 2, *q)
    k = dens(L / 2 if v['dens'] == 'fun' else 0.) if callable(
        dens) else top
    e = C * 10. * 1e-6 if ks else k * QE / (2 * EP) * 1e-6
    close('focusing field of the stage', q[0] / e, np.ones(3), 1e-6)
    lin = real('wake_t.physics_models.em_fields.linear_b_theta.'
               'LinearBThetaField')
    gs = [float(x) for x in g.uniform(1, 1e3, 3)][:v['n'] % 4]
    for mdl in (None, v['model']):
        s2 = real(ST)(L, dens, mdl, external_fields=[lin(x) for x in gs],
                      **(ks if mdl else {}))
        q = [np.zeros(3) for _ in range(6)]
        q0 = [np.zeros(3) for _ in range(6)]
        for f in s2.fields:
            f.gather(np.ones(3) * 1e-6, np.zeros(3), np.zeros(3),
                     L / C / 2, *q)
        for x in gs:
            lin(x).gather(np.ones(3) * 1e-6, np.zeros(3), np.zeros(3),
                          L / C / 2, *q0)
        sc = 1e-6 * sum(gs) + 1e-30
        close('external fields of the stage', q[4] / sc, q0[4] / sc, 1e-6)
        close('focusing field of the stage', q[0] / e,
              np.ones(3) * (mdl is not None), 1e-6)
    try:
        real(ST)(L, 'abc', None)
    except ValueError:
        pass
    else:
        raise Violation('density of a wrong type is rejected', '')
    try:
        real(RP + '.PlasmaRamp')(L, 'no such profile')
    except ValueError:
        pass
    else:
        raise Violation('unknown profile is rejected', '')
    try:
        real(AP)(L, 5., wakefields=True)
    except ValueError:
        return
    raise Violation('lens with wakefields needs a density', '')


def contracts():
    return [
        Contract('ramp profiles', [RP + '.inverse_square_profile',
                                   RP + '.exponential_profile',
                                   RP + '.gaussian_profile'], body_profiles,
                 s_st, c_st, n=(60, 800), min_obligations=6),
        Contract('ramp density', [RP + '.PlasmaRamp.__init__',
                                  RP + '.PlasmaRamp.ramp_profile'],
                 body_ramp, min_obligations=30),
        Contract('density and fields of a stage', [
            ST + '.__init__', ST + '._get_density_profile',
            ST + '._get_wakefield'], body_stage, min_obligations=30),
        Contract('automatic time step', [
            ST + '._get_optimized_dt', AP + '._get_optimized_dt',
            QD + '._get_optimized_dt'], body_dt, min_obligations=10),
        Contract('settings of the tracking', [
            ST + '.__init__', RP + '.PlasmaRamp.__init__', AP + '.__init__',
            QD + '.__init__'], body_settings, s_set, c_set, n=(60, 600),
            min_obligations=60),
        Contract('plasma lens', [AP + '.__init__'], body_lens,
                 min_obligations=6),
    ]
