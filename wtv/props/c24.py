"""Generation of bunches, files with bunches."""
import shutil
import tempfile
import types
from .push_common import *
from .c16 import close
from fractions import Fraction as Fr

BG = 'wake_t.utilities.bunch_generation'
BS = 'wake_t.utilities.bunch_saving'
ASSUMPTIONS = ['numpy.random and scipy.stats.truncnorm draw independent '
               'samples of the documented distributions',
               'aptools.matched_plasma_beta_function (electrons), '
               'read_distribution and save_distribution as documented']


class Draws:
    """numpy.random: each draw is the value of one standard normal variable
    (one particle), given by `val`"""

    def __init__(self, val):
        self.val, self.n, self.sizes = val, 0, []

    def _one(self, size):
        self.sizes.append(size)
        self.n += 1
        return self.val(self.n - 1)

    def standard_normal(self, size=None):
        return P(self._one(size), 'u')

    randn = standard_normal

    def normal(self, loc=0, scale=1, size=None):
        return P(lift(loc) + lift(scale) * self._one(size), 'u')

    def __getattr__(self, n):
        raise Unsupported('numpy.random.' + n)


class NP:
    def __init__(self, rnd):
        self.random = rnd

    def __getattr__(self, n):
        return getattr(T.np_shim, n)

    def ones(self, n, *a, **k):
        self.random.sizes.append(n)
        return P(lift(1), 'one')

    def full(self, n, v, *a, **k):
        self.random.sizes.append(n)
        return P(lift(v), 'full')


def s_get(b, n):
    v = getattr(b, n)
    return v.val if isinstance(v, T.PArray) else lift(v)


def body_gen(ctx):
    tw = twin(ctx)
    ctx.generic()
    M = tw.load(BG)
    pos = lambda n: R(n, positive=True)
    n = I('n_part')
    ctx.assume(n >= 1)
    M.int = lambda v: v
    en = [pos('en_x'), pos('en_y')]
    ene, sp, st = pos('ene'), R('ene_sp'), pos('s_t')
    xic, qt = R('xi_c'), R('q_tot')
    ctx.assume(sp >= 0, X.not_(X.eq(qt, lift(0))))
    off, th = [R('x_off'), R('y_off')], [R('theta_x'), R('theta_y')]
    q, m = R('q_s'), pos('m_s')
    ctx.assume(X.not_(X.eq(q, lift(0))))
    c = pos('ct_c')
    kind = ctx.choose(4, 'function')
    kw = dict(x_off=off[0], y_off=off[1], theta_x=th[0], theta_y=th[1],
              name='a name', q_species=q, m_species=m)
    al, be = [lift(0)] * 2, None
    bm = pos('beta_matched')
    asked = []

    def matched(ene, n_p=None, k_x=None, *a, **k):
        if a or k:
            raise Unsupported('matched_plasma_beta_function')
        asked.append((ene, n_p, k_x))
        return bm
    M.ge = types.SimpleNamespace(matched_plasma_beta_function=matched)
    tail = (ene, sp, st, xic, qt, n)
    if kind == 0:
        al = [R('a_x'), R('a_y')]
        be = [pos('b_x'), pos('b_y')]
        f = lambda: M.get_gaussian_bunch_from_twiss(*en, *al, *be, *tail,
                                                    **kw)
    elif kind == 1:
        s = [pos('s_x'), pos('s_y')]
        be = [s[k]**2 * ene / en[k] for k in (0, 1)]
        f = lambda: M.get_gaussian_bunch_from_size(*en, *s, *tail, **kw)
    else:
        be = [bm, bm]
        v = R('plasma', positive=True)
        f = lambda: M.get_matched_bunch(
            *en, *tail, **dict(kw, **{'n_p' if kind == 2 else 'k_x': v}))
    tn = []

    def rvs(a, b, loc=0, scale=1, size=None, **k):
        tn.append((a, b, loc, scale, size))
        return P(R('xi_drawn'), 'xi')
    M.truncnorm = types.SimpleNamespace(rvs=rvs)

    def run(val):
        d = Draws(val)
        M.np = NP(d)
        return f(), d
    U = lambda k: R('u%d' % k)
    b, d = run(U)
    for size in d.sizes:
        ctx.prove_eq('number of particles', lift(size), n)
    nd = d.n
    zero = run(lambda k: lift(0))[0]
    bas = [run(lambda k, j=j: lift(1 if k == j else 0))[0]
           for j in range(nd)]
    ctx.prove('name', X.boolc(b.name == 'a name'))
    ctx.prove_eq('charge of the species', lift(b.q_species), q)
    ctx.prove_eq('mass of the species', lift(b.m_species), m)
    w = s_get(b, 'w')
    ctx.prove('weights are positive', w > 0)
    ctx.prove_eq('total charge', (w * n * q * 10**12)**2, qt**2)
    # longitudinal momentum: mean and spread
    cp = [s_get(o, 'pz') - s_get(zero, 'pz') for o in bas]
    ctx.prove_eq('mean momentum', s_get(zero, 'pz'), ene)
    ctx.prove_eq('momentum spread', sum(k**2 for k in cp),
                 (ene * sp / 100)**2)
    pz = s_get(b, 'pz')
    ctx.prove_eq('Gaussian momentum', pz, ene + sum(
        k * U(j) for j, k in enumerate(cp)))
    pzs = [j for j, k in enumerate(cp) if not X.same(X.norm(k), lift(0))]
    used = set(pzs)
    for i, (x, p) in enumerate((('x', 'px'), ('y', 'py'))):
        em = en[i] / ene
        cx = [s_get(o, x) - s_get(zero, x) for o in bas]
        ctx.prove_eq('centroid ' + x, s_get(zero, x), off[i])
        ctx.prove_eq('Gaussian ' + x, s_get(b, x), off[i] + sum(
            k * U(j) for j, k in enumerate(cx)))
        # slope relative to the pointing
        sl = lambda o: (s_get(o, p) - th[i] * ene) / s_get(o, 'pz')
        cs = [sl(o) for o in bas]
        ctx.prove_eq('pointing ' + x, s_get(zero, p), th[i] * ene)
        ctx.prove_eq('Gaussian slope ' + x, s_get(b, p) - th[i] * ene,
                     pz * sum(k * U(j) for j, k in enumerate(cs)))
        ctx.prove_eq('size ' + x, sum(k**2 for k in cx), em * be[i])
        ctx.prove_eq('divergence ' + x, sum(k**2 for k in cs),
                     em * (1 + al[i]**2) / be[i])
        ctx.prove_eq('correlation ' + x, sum(
            k * l for k, l in zip(cx, cs)), -al[i] * em)
        mine = {j for j in range(nd) if not X.same(X.norm(cx[j]), lift(0))
                or not X.same(X.norm(cs[j]), lift(0))}
        ctx.prove('planes are independent', X.boolc(not mine & used))
        used |= mine
    for a, bb, loc, scale, size in tn:
        ctx.prove_eq('xi: centre', lift(loc), xic)
        ctx.prove_eq('xi: length', lift(scale), st * c / 10**15)
        ctx.prove_eq('xi: truncated at -3 sigma', lift(a), lift(-3))
        ctx.prove_eq('xi: truncated at 3 sigma', lift(bb), lift(3))
        ctx.prove_eq('number of particles', lift(size), n)
    ctx.prove('xi is drawn', X.boolc(bool(tn)))
    ctx.prove_eq('xi', s_get(b, 'xi'), R('xi_drawn'))
    if kind >= 2:
        for e, n_p, k_x in asked:
            ctx.prove_eq('matched beta: energy', lift(e), ene)
            if kind == 2:
                ctx.prove('matched beta: no gradient', X.boolc(k_x is None))
                ctx.prove_eq('matched beta: density in 1/cm^3', lift(n_p),
                             v / 10**6)
            else:
                ctx.prove('matched beta: no density', X.boolc(n_p is None))
                ctx.prove_eq('matched beta: gradient', lift(k_x), v)
        ctx.prove('matched beta', X.boolc(bool(asked)))


def body_read(ctx):
    tw = twin(ctx)
    ctx.generic()
    M = tw.load(BG)
    fmt = ('openpmd', 'astra', 'csrtrack')[ctx.choose(3, 'format')]
    ns = ctx.choose(3, 'species in the file')
    avail = ['s0', 's1'][:ns]
    want = [None, 's1'][ctx.choose(2, 'species given')]
    name = [None, 'nm', 's1'][ctx.choose(3, 'name given')]
    keep = bool(ctx.choose(2, 'preserve distance'))
    d = types.SimpleNamespace(
        q_species=R('q'), m_species=R('m'),
        **{k: P(R('d_' + k), k, True) for k in (
            'x', 'y', 'z', 'px', 'py', 'pz')},
        w=P(R('d_w', positive=True), 'w', True))
    calls = []
    M.get_available_species = lambda f: list(avail)

    def read(f, df, **k):
        calls.append((f, df, k))
        return d
    M.read_distribution = read
    B = tw.load('wake_t.particles.particle_bunch').ParticleBunch
    B._n_unnamed = 4
    kw = dict(species_name=want) if want else {}
    try:
        b = M.get_from_file('file', fmt, preserve_prop_dist=keep, name=name,
                            other=3, **kw)
    except ValueError:
        ctx.prove('only an ambiguous or missing species is rejected',
                  X.boolc(fmt == 'openpmd' and want is None and ns != 1))
        return
    ctx.prove('ambiguous or missing species is rejected', X.boolc(
        not (fmt == 'openpmd' and want is None and ns != 1)))
    sp = want or (avail[0] if avail else None)
    ek = dict(other=3)
    if fmt == 'openpmd':
        ek['species_name'] = sp
    if len(calls) != 1:
        ctx.prove('file is read', X.boolc(False))
        return
    ctx.prove('file is read with the given options', X.boolc(
        calls[0] == ('file', fmt, ek)))
    ctx.prove('name', X.boolc(b.name == (
        name or (sp if fmt == 'openpmd' else 'elec_bunch_4'))))
    za = T.agg('mean', P(R('d_z')), P(R('d_w', positive=True)))
    for k in ('x', 'y', 'px', 'py', 'pz', 'w'):
        ctx.prove_eq('read ' + k, s_get(b, k), lift(getattr(d, k).val))
    ctx.prove_eq('centred xi', s_get(b, 'xi'), R('d_z') - za)
    ctx.prove_eq('charge of the species', lift(b.q_species), R('q'))
    ctx.prove_eq('mass of the species', lift(b.m_species), R('m'))
    ctx.prove_eq('propagation distance', lift(b.prop_distance),
                 za if keep else lift(0))


def body_save(ctx):
    tw = twin(ctx)
    M = tw.load(BS)
    b, v = sym_bunch(ctx, tw)
    fmt = ('openpmd', 'astra', 'csrtrack')[ctx.choose(3, 'format')]
    sp = [None, 'sp'][ctx.choose(2, 'species')]
    log = []
    M.ParticleDistribution = lambda x, y, z, px, py, pz, w, q_species=None, \
        m_species=None: types.SimpleNamespace(
            x=x, y=y, z=z, px=px, py=py, pz=pz, w=w, q=q_species,
            m=m_species)
    M.save_distribution = lambda *a, **k: log.append((a, k))
    M.save_bunch_to_file(b, fmt, 'path', **(
        dict(species_name=sp) if sp else {}))
    ctx.prove('saved once', X.boolc(len(log) == 1))
    (d, path, f), k = log[0]
    ctx.prove('file and format', X.boolc(path == 'path' and f == fmt))
    ctx.prove('species', X.boolc(k == (dict(
        species_name=sp or 'b') if fmt == 'openpmd' else {})))
    for a, n in (('x', 'x'), ('y', 'y'), ('z', 'xi'), ('px', 'px'),
                 ('py', 'py'), ('pz', 'pz')):
        ctx.prove_eq('saved ' + n, lift(getattr(d, a).val), v[n])
    ctx.prove_eq('saved weights', lift(d.w.val), s_get(b, 'w'))
    ctx.prove_eq('saved charge', lift(d.q), lift(b.q_species))
    ctx.prove_eq('saved mass', lift(d.m), lift(b.m_species))


# ---------------------------------------------------------------- run time
def s_gen(rng):
    return dict(seed=rng.randrange(10**6), n=rng.choice([20000, 30000.]),
                kind=rng.choice(['twiss', 'twiss', 'size', 'n_p', 'k_x']),
                species=rng.choice(['e', 'p', 'x']),
                off=rng.random() < .6, q=rng.choice([-30., 1., 100.]),
                sp=rng.choice([0., .1, 2., 12.]))


def c_gen(v):
    g = np.random.RandomState(v['seed'])
    np.random.seed(v['seed'])
    en = 10**g.uniform(-7, -5, 2)
    ene = 10**g.uniform(1, 4)
    al, be = g.uniform(-3, 3, 2), 10**g.uniform(-3, 0, 2)
    st, xic = 10**g.uniform(0, 2), g.uniform(-1, 1) * 1e-4
    off = g.normal(size=2) * 1e-5 if v['off'] else np.zeros(2)
    th = g.normal(size=2) * 1e-3 if v['off'] else np.zeros(2)
    q, m = QM[v['species']]
    kw = dict(x_off=off[0], y_off=off[1], theta_x=th[0], theta_y=th[1],
              name='nm', q_species=q, m_species=m)
    tail = (ene, v['sp'], st, xic, v['q'], v['n'])
    if v['kind'] == 'twiss':
        b = real(BG + '.get_gaussian_bunch_from_twiss')(*en, *al, *be, *tail,
                                                        **kw)
    elif v['kind'] == 'size':
        al = np.zeros(2)
        b = real(BG + '.get_gaussian_bunch_from_size')(
            *en, *np.sqrt(en / ene * be), *tail, **kw)
    else:
        al = np.zeros(2)
        if v['kind'] == 'n_p':
            n_p = 10**g.uniform(21, 25)
            kw['n_p'] = n_p
            k = n_p * 1.602176634e-19 / (2 * 8.8541878128e-12 * C)
        else:
            k = 10**g.uniform(2, 6)
            kw['k_x'] = k
        be = np.ones(2) * np.sqrt(
            C * 9.1093837015e-31 * ene / (1.602176634e-19 * k))
        b = real(BG + '.get_matched_bunch')(*en, *tail, **kw)
    n = int(v['n'])
    for a in BN + ['w']:
        if np.shape(getattr(b, a)) != (n,):
            raise Violation('number of particles', a)
    if b.name != 'nm' or b.q_species != q or b.m_species != m:
        raise Violation('species and name', repr((b.name, b.q_species)))
    close('total charge', np.sum(b.w) * abs(q) / abs(v['q'] * 1e-12), 1.,
          1e-9)
    if np.ptp(b.w) > 1e-9 * b.w[0] or np.min(b.w) <= 0:
        raise Violation('equal positive weights', '')
    tol = 7 / np.sqrt(n)

    def stat(nm, val, ref, sc):
        if abs(val - ref) > tol * sc:
            raise Violation(nm, '%r, requested %r' % (val, ref))
    stat('mean momentum', b.pz.mean() / ene, 1, v['sp'] / 100 + 1e-12)
    stat('momentum spread', b.pz.std() / ene, v['sp'] / 100,
         v['sp'] / 100 + 1e-12)
    sz = st * 1e-15 * C
    u = (b.xi - xic) / sz
    if np.max(np.abs(u)) > 3 + 1e-9:
        raise Violation('xi within 3 sigma', '%r' % np.max(np.abs(u)))
    stat('centre in xi', u.mean(), 0, 1)
    stat('length', u.std(), .98658, 1)
    if np.max(np.abs(u)) < 2.7:
        raise Violation('xi up to 3 sigma', '%r' % np.max(np.abs(u)))
    dev = []
    for k, (x, p) in enumerate(((b.x, b.px), (b.y, b.py))):
        em = en[k] / ene
        s, sp = np.sqrt(em * be[k]), np.sqrt(em * (1 + al[k]**2) / be[k])
        xx = (x - off[k]) / s
        xp = (p - th[k] * ene) / b.pz / sp
        nm = 'xy'[k]
        stat('centroid ' + nm, xx.mean(), 0, 1)
        stat('pointing ' + nm, xp.mean(), 0, 1)
        stat('size ' + nm, xx.var(), 1, 1.5)
        stat('divergence ' + nm, xp.var(), 1, 1.5)
        stat('correlation ' + nm, np.mean(xx * xp), -al[k] / np.sqrt(
            1 + al[k]**2), 1.5)
        if v['sp'] > 5:
            # the slope does not depend on the energy
            stat('slope and energy ' + nm, np.mean(
                xp**2 * (b.pz / ene - 1) / (v['sp'] / 100)), 0, 2)
        dev += [xx, xp]
    dev += [u] + ([(b.pz / ene - 1) / (v['sp'] / 100)] if v['sp'] else [])
    for i in range(len(dev)):
        for j in range(i):
            if (j, i) not in ((0, 1), (2, 3)):
                stat('independent coordinates', np.mean(dev[i] * dev[j]), 0,
                     1.)


def s_file(rng):
    return dict(seed=rng.randrange(10**6), n=rng.choice([2, 5, 40]),
                fmt=rng.choice(['openpmd', 'openpmd', 'astra', 'csrtrack']),
                species=rng.choice(['e', 'p', 'x']), g=rng.choice([5., 500.]),
                keep=rng.random() < .5, name=rng.random() < .5,
                sp=rng.random() < .5)


def c_file(v):
    import os
    rng = np.random.default_rng(v['seed'])
    txt = v['fmt'] != 'openpmd'
    b = mk_bunch(dict(v, species='e') if txt else v, rng)
    b.xi += rng.uniform(-1, 1) * 1e-3
    tmp = tempfile.mkdtemp(prefix='wtv_c24_')
    try:
        save = real(BS + '.save_bunch_to_file')
        load = real(BG + '.get_from_file')
        s0, w0 = ph(b).copy(), b.w.copy()
        f = os.path.join(tmp, 'bunch' + {
            'openpmd': '.h5', 'astra': '.txt', 'csrtrack': '.fmt1'}[v['fmt']])
        kw = dict(species_name='spec') if v['sp'] and not txt else {}
        save(b, v['fmt'], f, **kw)
        if not np.array_equal(ph(b), s0) or not np.array_equal(b.w, w0):
            raise Violation('saving changes the bunch', v['fmt'])
        kn = dict(name='nm') if v['name'] else {}
        if v['seed'] % 2:
            kn.update(kw)
        c = load(f, v['fmt'], preserve_prop_dist=v['keep'], **kn)
        k = 1 if txt else 0
        z = np.average(s0[2], weights=w0)
        e = s0.copy()
        e[2] -= z
        sc = np.max(np.abs(s0), axis=1)
        tol = 1e-7 if txt else 1e-10
        if len(c.x) != v['n'] + k:
            raise Violation('number of particles', repr(len(c.x)))
        for i, nm in enumerate(BN):
            close('read ' + nm, getattr(c, nm)[k:] / sc[i], e[i] / sc[i],
                  tol)
        close('read weights', c.w[k:] / w0, np.ones(v['n']), 1e-7)
        close('charge of the species', c.q_species / b.q_species, 1., 1e-7)
        close('mass of the species', c.m_species / b.m_species, 1., 1e-7)
        close('propagation distance', c.prop_distance / 1e-3,
              z / 1e-3 if v['keep'] else 0., 1e-7)
        if not txt:
            n = 'nm' if v['name'] else ('spec' if kw else 'b')
            if c.name != n:
                raise Violation('name', '%r for %r' % (c.name, n))
        elif v['name'] and c.name != 'nm':
            raise Violation('name', c.name)
        if not txt:
            ambiguous(v, rng, load, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def ambiguous(v, rng, load, tmp):
    """a file with two species"""
    import os
    import glob
    D = real('wake_t.diagnostics.openpmd_diag.OpenPMDDiagnostics')
    bs = [mk_bunch(dict(v, species=s), rng) for s in 'ep']
    for b, n in zip(bs, ('one', 'two')):
        b.name = n
    D(os.path.join(tmp, 'd')).write_diagnostics(0., 1e-12, bs)
    f, = glob.glob(os.path.join(tmp, 'd', '**', '*.h5'), recursive=True)
    for n in (None, 'one', 'two', 'nm'):
        try:
            load(f, 'openpmd', name=n)
        except ValueError:
            pass
        else:
            raise Violation('ambiguous species is rejected', 'name %r' % n)
        for b in bs:
            c = load(f, 'openpmd', name=n, species_name=b.name)
            close('species of the file', [c.px[0] / b.px[0], c.q_species /
                                          b.q_species], [1., 1.], 1e-9)
            if c.name != (n or b.name):
                raise Violation('name', '%r for %r' % (c.name, n or b.name))


def contracts():
    return [
        Contract('generation of Gaussian bunches', [
            BG + '.get_gaussian_bunch_from_twiss',
            BG + '.get_gaussian_bunch_from_size', BG + '.get_matched_bunch'],
            body_gen, s_gen, c_gen, n=(40, 600), min_obligations=60),
        Contract('bunch from a file', [BG + '.get_from_file'], body_read,
                 s_file, c_file, n=(60, 600), min_obligations=60),
        Contract('bunch to a file', [BS + '.save_bunch_to_file'], body_save,
                 min_obligations=40),
    ]
