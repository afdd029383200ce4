"""Tracking schedule: the loop of the tracker under an inductive invariant."""
from ..util import *
import numpy as np

ASSUMPTIONS = [
    'times are exact reals (float32 rounding of times is the identity)',
    'adaptive time steps are positive',
    'number of tracked objects enumerated up to 2 bunches and 2 fields']
TM = 'wake_t.tracking.tracker'


class GList:
    """list of symbolic length: records the last item appended"""

    def __init__(self, n):
        self.n, self.last = n, None

    def append(self, x):
        self.n = self.n + 1
        self.last = x

    def __len__(self):
        raise Unsupported('len')


def configs():
    """(bunches, fields, push before output, openPMD output, adaptive)"""
    if os.environ.get('VERIF_TIER') != 'thorough':
        return [(0, 1, True, True, ()), (1, 1, True, True, (False,)),
                (1, 1, False, False, (True,)), (1, 0, True, False, (True,)),
                (2, 0, True, False, (False, True)),
                (2, 1, False, True, (True, False)),
                (1, 2, False, False, (False,))]
    out = []
    for nb in range(3):
        for nf in range(3):
            for k in range(4):
                for a in range(2**nb):
                    out.append((nb, nf, k % 2 == 0, k // 2 == 0, tuple(
                        bool(a >> i & 1) for i in range(nb))))
    return out


def body_loop(ctx):
    cf = configs()
    nb, nf, before, opmd, auto = cf[ctx.choose(len(cf), 'configuration')]
    tw = twin(ctx)
    c = R('ct_c', positive=True)
    tf = R('t_final', positive=True)
    nd = I('n_diags', positive=True)
    ctx.assume(nd >= 1)
    PB = tw.get('wake_t.particles.particle_bunch.ParticleBunch')
    NF = tw.get('wake_t.fields.numerical_field.NumericalField')
    mod = tw.load(TM)
    now = {'pushes': [], 'diag': [], 'wrote': [], 'z': [], 'upd': []}
    tracker_box = []

    class Bunch(PB):
        def __init__(self, k):
            self.k, self.gt, self.name = k, lift(0), 'b%d' % k
            self.tok = 0

        def req(self):
            """step requested for the current state of this bunch"""
            if not auto[self.k]:
                return dts[self.k]
            v = R('auto%d_%s' % (self.k, self.tok), positive=True)
            ctx.assume(v > 0)
            return v

        def evolve(self, fields, t, dt, pusher='rk4'):
            ctx.prove_eq('a push starts at the time the bunch has reached',
                         lift(t), self.gt)
            ctx.prove('a push never goes back in time', lift(dt) >= 0)
            ctx.prove('a push is no longer than requested for the bunch',
                      lift(dt) <= self.req())
            self.tok = '%s+' % self.tok
            ctx.prove('the requested pusher is used',
                      X.boolc(pusher == 'the-pusher'))
            ctx.prove('the bunch is pushed in all fields',
                      X.boolc(list(fields) == flist))
            for f in fs:
                ctx.prove('no field is used past its update time',
                          X.and_(lift(f.t) <= self.gt + dt,
                                 self.gt + dt <= f.t + f.dt_update))
            self.gt = self.gt + dt

        def copy(self):
            return (self.k, self.gt)

    class Fld(NF):
        def __init__(self, k):
            super().__init__(R('dtf%d' % k, positive=True))
            self.k, self.count = k, lift(0)

        def _calculate_field(self, bunches):
            self.count = self.count + 1

    class Bar:
        n = 0

        def update(self, *_a):
            pass

        def close(self):
            pass

    class Diag:
        def write_diagnostics(self, t, dt, bunches, fields):
            ctx.prove_eq('diagnostics carry the current time', lift(t),
                         lift(tracker_box[0].t_tracking))
            now['wrote'].append(t)

        def increase_z_pos(self, d):
            now['z'].append(d)
    bs = [Bunch(k) for k in range(nb)]
    fs = [Fld(k) for k in range(nf)]
    dts = ['auto' if a else R('dtb%d' % k, positive=True)
           for k, a in enumerate(auto)]

    def autof(b):
        return b.req()
    mod.get_progress_bar = lambda **k: Bar()
    flist = list(fs)
    tr = mod.Tracker(tf, bs, dts, flist, nd, Diag() if opmd else None, autof,
                     'the-pusher', before, False, 's')
    flist = tr.fields
    tracker_box.append(tr)
    ndiag = {'n': lift(0)}
    gen = tr.generate_diagnostics

    def gd():
        t = lift(tr.t_tracking)
        ctx.prove_eq('outputs are evenly spaced', t,
                     ndiag['n'] * T.xdiv(tf, nd))
        if before:
            for b in bs:
                ctx.prove_eq('bunches are at the time of the output',
                             b.gt, t)
        gen()
        ndiag['n'] = ndiag['n'] + 1
        for k, l in enumerate(tr.bunch_list):
            last = l.last if isinstance(l, GList) else l[-1]
            ctx.prove('the copy stored is of the right bunch',
                      X.boolc(last[0] == k))
            ctx.prove_eq('the copy stored is the current bunch', last[1],
                         bs[k].gt)
    tr.generate_diagnostics = gd

    def inv(loc):
        t, d = loc['t_objects'], loc['dt_objects']
        if len(t) != nb + nf + 1 or len(d) != nb + nf + 1:
            raise Unsupported('unexpected object list')
        now_ = lift(tr.t_tracking)
        yield 'tracking time in range', X.and_(now_ >= 0, now_ <= tf)
        for k in range(nb):
            ti, di = lift(t[k]), lift(d[k])
            yield 'bunch time is the time it was pushed to', \
                X.eq(ti, bs[k].gt)
            yield 'bunch time in range', X.and_(ti >= 0, ti <= tf)
            yield 'positive bunch step', di > 0
            yield 'bunch step no longer than requested', di <= bs[k].req()
            yield 'bunch not ahead of the tracking time', ti <= now_
            yield 'bunch next time not behind', X.or_(
                X.eq(ti, tf), now_ <= ti + di)
            yield 'the next push does not pass the end', X.or_(
                X.eq(ti, tf), ti + di <= tf)
        for j, f in enumerate(fs):
            ti, di = lift(t[nb + j]), lift(d[nb + j])
            yield 'field step kept', X.eq(di, lift(f.dt_update))
            yield 'field time', X.and_(
                X.eq(ti, lift(f.t)), X.eq(ti, (f.count - 1) * f.dt_update),
                f.count >= 1)
            yield 'field not ahead', X.and_(ti <= now_, now_ <= ti + di)
        ti, di = lift(t[nb + nf]), lift(d[nb + nf])
        yield 'diagnostics step kept', X.eq(di, T.xdiv(tf, nd))
        yield 'diagnostics time', X.and_(
            X.eq(ti, (ndiag['n'] - 1) * T.xdiv(tf, nd)), ndiag['n'] >= 1)
        yield 'diagnostics not ahead', X.and_(ti <= now_, now_ <= ti + di)
        for k, l in enumerate(tr.bunch_list):
            n = l.n if isinstance(l, GList) else lift(len(l))
            yield 'one stored copy per output', X.eq(n, ndiag['n'])

    def havoc(loc):
        t, d = loc['t_objects'], loc['dt_objects']
        for k in range(nb):
            t[k] = bs[k].gt = R('T%d' % k)
            d[k] = R('D%d' % k, positive=True)
            bs[k].tok = 'h'
        for j, f in enumerate(fs):
            f.count = I('cntf%d' % j)
            t[nb + j] = f.t = R('Tf%d' % j)
            d[nb + j] = f.dt_update
        ndiag['n'] = I('cntd')
        t[nb + nf] = R('Td')
        tr.t_tracking = R('now')
        tr.bunch_list = [GList(ndiag['n']) for _ in bs]
        now['z'].clear()

    ctx.loop_rules[TM + ':Tracker.do_tracking:while0'] = T.WhileInvariant(
        inv, havoc, ('t_objects', 'dt_objects'))
    out = tr.do_tracking()
    # ---- after the loop
    for b in bs:
        ctx.prove_eq('every bunch is tracked to exactly the end', b.gt, tf)
    for f in fs:
        n = f.count - 1
        ctx.prove('each field is updated for the whole duration',
                  X.and_(n * f.dt_update <= tf, tf < (n + 1) * f.dt_update))
    ctx.prove('number of outputs', X.eq(ndiag['n'], nd + 1))
    ctx.prove('the stored copies are returned',
              X.boolc(out is tr.bunch_list and len(out) == nb))
    if opmd:
        ctx.prove('the diagnostics position advances by the length',
                  X.and_(X.boolc(len(now['z']) == 1),
                         X.eq(lift(now['z'][0]), tf * c)))


# ------------------------------------------------------------------ run time
def sample(rng):
    return dict(
        tf=rng.choice([1.e-12, 3.3e-11, 1 / 3, rng.uniform(.01, 5) * 1e-11]),
        n=rng.choice([0, 1, 1, 2, 3, 5, rng.randint(4, 50)]),
        before=rng.random() < .6,
        opmd=rng.random() < .4,
        dts=[rng.choice([.1, .05, .3, 1 / 7, 1.3, .5, 1., 'auto',
                         rng.uniform(.02, 1.2)])
             for _ in range(rng.choice([0, 1, 1, 2, 3]))],
        dtf=[rng.choice([.1, .2, 1 / 3, 1 / 7, .9, 1., 2.,
                         rng.uniform(.03, 1.5)])
             for _ in range(rng.choice([0, 1, 1, 2]))],
        even=rng.random() < .4,
        pusher=rng.choice(['boris', 'rk4']),
        auto=[rng.uniform(.01, .4) for _ in range(5)])


def conc(v):
    PB = real('wake_t.particles.particle_bunch.ParticleBunch')
    NF = real('wake_t.fields.numerical_field.NumericalField')
    Tk = real(TM + '.Tracker')
    if not (v['n'] or v['dts'] or v['dtf']):
        raise Skip('nothing to track')
    tf = v['tf']
    eps = 3e-6 * tf
    log = []

    class Bunch(PB):
        def evolve(self, fields, t, dt, pusher='rk4'):
            log.append(('b', self.k, t, dt, pusher, list(fields),
                        req(self)))
            self.gt += dt
            self.np += 1

        def copy(self):
            b = PB(self.w.copy(), name=self.name)
            b.gt, b.k = self.gt, self.k
            return b

    class Fld(NF):
        def _calculate_field(self, bunches):
            log.append(('f', self.k, self.t, list(bunches)))

    class Diag:
        def write_diagnostics(self, t, dt, bunches, fields):
            log.append(('w', t, dt, list(bunches), list(fields)))

        def increase_z_pos(self, d):
            log.append(('z', d))
    bs, fs = [], []
    for k, _ in enumerate(v['dts']):
        # (the name of a bunch does not matter here)
        b = Bunch(np.ones(1), name='b%d' % (k * (v['n'] % 3 != 1)))
        b.k, b.gt, b.np = k, 0., 0
        bs.append(b)
    for k, d in enumerate(v['dtf']):
        f = Fld(d * tf, force_even_updates=v['even'])
        f.k = k
        fs.append(f)

    def auto(b):
        return v['auto'][(2 * b.k + b.np) % 5] * tf

    def req(b):
        return auto(b) if dts[b.k] == 'auto' else dts[b.k]
    dts = [d if d == 'auto' else d * tf for d in v['dts']]
    tr = Tk(tf, bs, dts, fs, v['n'], Diag() if v['opmd'] else None, auto,
            v['pusher'], v['before'], False)
    out = tr.do_tracking()
    V = Violation
    # bunches
    for k, b in enumerate(bs):
        t = 0.
        for r in log:
            if r[0] == 'b' and r[1] == k:
                if abs(r[2] - t) > eps:
                    raise V('bunch %d pushed from %r while at %r' % (
                        k, r[2], t))
                if r[3] < -eps:
                    raise V('negative push')
                if r[4] != v['pusher']:
                    raise V('wrong pusher')
                if r[3] > r[6] * (1 + 1e-6) + 1e-7 * tf:
                    raise V('step of %r is larger than requested' % r[3])
                if not set(map(id, fs)) <= set(map(id, r[5])):
                    raise V('push without all fields')
                t += r[3]
        if abs(t - tf) > eps:
            raise V('bunch %d tracked for %r of %r' % (k, t, tf))
    # fields and order of events
    ft = [None] * len(fs)
    cur = 0.
    bt = [0.] * len(bs)
    for r in log:
        if r[0] == 'f':
            k, dt = r[1], fs[r[1]].dt_update
            exp = 0. if ft[k] is None else ft[k] + dt
            if abs(r[2] - exp) > eps:
                raise V('field %d updated at %r, expected %r' % (
                    k, r[2], exp))
            for i, t in enumerate(bt):
                if t > exp + eps and exp > 0:
                    raise V('field updated with a bunch from the future')
            if r[3] != bs:
                raise V('field updated without the bunches')
            ft[k] = r[2]
            cur = max(cur, exp)
        elif r[0] == 'b':
            bt[r[1]] += r[3]
            for k, f in enumerate(fs):
                if ft[k] is None or bt[r[1]] > ft[k] + f.dt_update + eps:
                    raise V('bunch pushed past the update time of a field')
                if bt[r[1]] < ft[k] - eps:
                    raise V('bunch pushed with a field from the future')
    for k, f in enumerate(fs):
        n = sum(r[0] == 'f' and r[1] == k for r in log) - 1
        if not (n * f.dt_update <= tf + eps and
                (n + 1) * f.dt_update > tf - eps):
            raise V('field updated %d times' % n)
        if v['even'] and abs(n * f.dt_update - tf) > eps:
            raise V('field not updated at the end')
        if f.dt_update > v['dtf'][k] * tf * (1 + 1e-9):
            raise V('update period was increased')
    # outputs
    if v['n'] == 0:
        if any(r[0] == 'w' for r in log):
            raise V('diagnostics written although none were requested')
        return
    if len(out) != len(bs):
        raise V('%d output lists' % len(out))
    for k, l in enumerate(out):
        if len(l) != v['n'] + 1:
            raise V('%d outputs instead of %d' % (len(l), v['n'] + 1))
        for j, b in enumerate(l):
            te = j * tf / v['n']
            if b.k != k:
                raise V('output of another bunch')
            if v['before'] and abs(b.gt - te) > eps:
                raise V('output %d at %r instead of %r' % (j, b.gt, te))
            if not v['before'] and b.gt > te + eps:
                raise V('output ahead of its time')
    w = [r for r in log if r[0] == 'w']
    if v['opmd']:
        if len(w) != v['n'] + 1:
            raise V('%d diagnostics files' % len(w))
        for j, r in enumerate(w):
            if abs(r[1] - j * tf / v['n']) > eps:
                raise V('diagnostics time %r' % r[1])
            if r[3] != bs:
                raise V('diagnostics without the bunches')
        z = [r for r in log if r[0] == 'z']
        if len(z) != 1 or abs(z[0][1] / (299792458. * tf) - 1) > 1e-9:
            raise V('diagnostics position advanced by %r' % (z,))


def sample_el(rng):
    return dict(L=rng.choice([1e-3, .02]), nout=rng.choice([0, 1, 2, 4]),
                nb=rng.choice([0, 1, 2, 3]),
                lst=rng.random() < .5, mism=rng.random() < .2,
                rel=[rng.choice([.1, .3, .07, 2.]) for _ in range(3)],
                before=rng.random() < .7,
                pusher=rng.choice(['boris', 'rk4']))


def conc_el(v):
    """Field element in free space: every bunch arrives exactly."""
    FE = real('wake_t.beamline_elements.field_element.FieldElement')
    PB = real('wake_t.particles.particle_bunch.ParticleBunch')
    if not v['nout'] and not v['nb']:
        raise Skip('nothing to track')
    rng = np.random.default_rng(1)
    C = 299792458.
    bs = []
    for k in range(v['nb']):
        p = rng.normal(size=(3, 4))
        p[2] += 20
        bs.append(PB(np.ones(4), *rng.normal(size=(3, 4)) * 1e-5, *p,
                     prop_distance=float(k), name='b%d' % k))
    s0 = [np.array([b.x, b.y, b.xi, b.px, b.py, b.pz]) for b in bs]
    dt = [r * v['L'] / C for r in v['rel'][:v['nb']]]
    if not v['lst']:
        dt = v['rel'][0] * v['L'] / C
    elif v['mism']:
        dt = dt + [1e-12]
    el = FE(v['L'], dt, v['pusher'], v['nout'], fields=[],
            push_bunches_before_diags=v['before'])
    arg = bs[0] if v['nb'] == 1 and not v['lst'] else list(bs)
    try:
        out = el.track(arg, show_progress_bar=False)
    except ValueError:
        if v['lst'] and v['mism']:
            return
        raise
    if v['lst'] and v['mism']:
        raise Violation('wrong number of time steps accepted')
    if v['nb'] == 1:
        out = [out]
    if len(out) != v['nb']:
        raise Violation('number of output lists')
    for k, (b, s, o) in enumerate(zip(bs, s0, out)):
        approx(b.prop_distance - k, v['L'], what='propagation distance')
        g = np.sqrt(1 + (s[3:]**2).sum(0))
        x = s[:3] + v['L'] * s[3:] / g
        x[2] -= v['L']
        approx(np.array([b.x, b.y, b.xi]), x, rtol=1e-9, atol=1e-11 * v['L'],
               what='position after drift')
        approx(np.array([b.px, b.py, b.pz]), s[3:], what='momentum')
        if v['nout'] == 0:
            continue
        if len(o) != v['nout'] + 1:
            raise Violation('number of outputs')
        if v['before']:
            for j, c in enumerate(o):
                approx(c.prop_distance - k, j * v['L'] / v['nout'],
                       atol=1e-9 * v['L'], what='output position')


def contracts():
    return [
        Contract('tracking loop', [
            TM + '.Tracker.do_tracking', TM + '.Tracker.evolve_bunch',
            TM + '.Tracker.generate_diagnostics', TM + '.Tracker.__init__',
            'wake_t.fields.numerical_field.NumericalField.update'],
            body_loop, sample, conc, n=(300, 4000), max_paths=40000, deadline=None if os.environ.get('VERIF_TIER') != 'thorough' else 2400,
            min_obligations=200),
        Contract('tracking through a field element', [
            'wake_t.beamline_elements.field_element.FieldElement.track'],
            None, sample_el, conc_el, n=(40, 400),
            bounded='sampled bunches, lengths and steps'),
    ]
