"""Time bookkeeping of numerically computed fields."""
from ..util import *
import numpy as np

ASSUMPTIONS = ['times are exact reals in the proof']
NF = 'wake_t.fields.numerical_field.NumericalField'
RZ = 'wake_t.fields.rz_wakefield.RZWakefield'
C = 299792458.


def body_adjust(ctx):
    tw = twin(ctx)
    N = tw.get(NF)
    dt, tf = R('dt', positive=True), R('tf', positive=True)
    even = ctx.choose(2) == 0
    f = N(dt, force_even_updates=even)
    if ctx.choose(2) == 0:
        # used before, for another (or the same) duration
        f.adjust_dt(R('tf_before', positive=True))
    f.adjust_dt(tf)
    new = lift(f.dt_update)
    if not even:
        ctx.prove_eq('period is kept', new, dt)
        return
    ctx.prove('period is never increased', new <= dt)
    ctx.prove('period stays positive', new > 0)
    n = X.ceil(T.xdiv(tf, dt))
    ctx.prove('the duration is a whole number of periods',
              X.and_(X.eq(new * n, tf), n >= 1))
    ctx.prove('no more updates than needed', X.or_(
        X.eq(n, lift(1)), tf > (n - 1) * dt))


def sample_adjust(rng):
    L = rng.choice([1e-3, 2e-2, .03, .1, rng.uniform(1e-3, .2)])
    n = rng.choice([1, 2, 7, 13, 14, 27, rng.randint(1, 400)])
    return dict(L=L, dz=rng.choice([L / n, L * rng.uniform(.003, 2)]),
                before=rng.choice([[], [L], [L, L], [L * rng.uniform(.1, 3)]]))


def conc_adjust(v):
    N = real(NF)
    tf, dt = v['L'] / C, v['dz'] / C
    f = N(dt, force_even_updates=True)
    for l in v['before']:
        f.adjust_dt(l / C)
    f.adjust_dt(tf)
    if f.dt_update > dt * (1 + 1e-12):
        raise Violation('period increased')
    n = tf / f.dt_update
    if abs(n - round(n)) > 1e-9 * n:
        raise Violation('the duration is not a whole number of periods')
    if round(n) - 1 > tf / dt * (1 + 1e-9):
        raise Violation('%d updates instead of %g' % (n, np.ceil(tf / dt)))
    g = N(dt, force_even_updates=True)
    g.adjust_dt(tf)
    if abs(g.dt_update - f.dt_update) > 1e-9 * f.dt_update:
        raise Violation('the period depends on earlier uses of the field: '
                        '%d instead of %d updates' % (
                            round(n), round(tf / g.dt_update)))


def body_update(ctx):
    tw = twin(ctx)
    N = tw.get(NF)
    log = []

    class F(N):
        def _initialize_properties(self, b):
            log.append(('i', self.t, b))

        def _evolve_properties(self, b):
            log.append(('e', self.t, b))

        def _calculate_field(self, b):
            log.append(('c', self.t, b))
    dt = R('dt', positive=True)
    f = F(dt)
    bs = [object()]
    f.update(bs)
    ctx.prove('first update initialises at t=0, then computes',
              X.boolc([a[0] for a in log] == ['i', 'c']))
    ctx.prove_eq('starts at 0', lift(log[0][1]), lift(0))
    ctx.prove_eq('computed at 0', lift(log[1][1]), lift(0))
    # arbitrary later time
    f.t = R('t')
    del log[:]
    f.update(bs)
    ctx.prove('later updates evolve once, then compute',
              X.boolc([a[0] for a in log] == ['e', 'c']))
    for a in log:
        ctx.prove_eq('time advances by one period', lift(a[1]), R('t') + dt)
        ctx.prove('the bunches are passed on', X.boolc(a[2] is bs))


def body_rz(ctx):
    """A wakefield period is the requested distance over c; the density is
    that of the position reached; a laser makes the updates even."""
    tw = twin(ctx)
    W = tw.get(RZ)
    c = R('ct_c', positive=True)
    xmin, xmax, rmax = R('xi_min'), R('xi_max'), R('r_max', positive=True)
    ctx.assume(xmin < xmax)
    given = ctx.choose(2) == 0
    laser = ctx.choose(2) == 0
    dz = R('dz', positive=True)
    kw = dict(dz_fields=dz) if given else {}
    L = object()
    w = W(lambda z: X.uf('density', z), rmax, xmin, xmax, 8, 9,
          laser=L if laser else None, laser_evolution=ctx.choose(2) == 0,
          **kw)
    ctx.prove_eq('update period', lift(w.dt_update) * c,
                 dz if given else xmax - xmin)
    ctx.prove('even updates iff there is a laser',
              X.boolc(bool(w.force_even_updates) == laser))
    if laser:
        return
    log = []
    w._calculate_wakefield = lambda b: log.append(w.n_p)
    w.update([])
    ctx.prove_eq('initial density', lift(log[0]), X.uf('density', lift(0)))
    w.t = R('t')
    for a in (w.rho, w.chi, w.e_z, w.e_r, w.b_t):
        a[...] = R('old')
    w.update([])
    ctx.prove_eq('density at the current position', lift(log[1]),
                 X.uf('density', (R('t') + w.dt_update) * c))
    ctx.prove('the fields are recomputed from zero', X.boolc(all(
        lift(a[i, j]).isconst and lift(a[i, j]).val == 0
        for a in (w.rho, w.chi, w.e_z, w.e_r, w.b_t)
        for i in range(a.shape[0]) for j in range(a.shape[1]))))


def sample(rng):
    return dict(L=rng.choice([1e-3, 3e-3]), rel=[rng.choice(
        [.11, .25, 1 / 3, .5, .9, 1.7, rng.uniform(.05, 2)])
        for _ in range(2)], nout=rng.choice([1, 2, 3]),
        even=rng.random() < .5, twice=rng.random() < .5,
        slope=rng.uniform(.1, 5), L2=rng.choice([1., .4, 2.3]))


def conc(v):
    """Through tracking: each run starts its fields at the entrance and the
    density always is the one of the position of the update."""
    W = real(RZ)
    FE = real('wake_t.beamline_elements.field_element.FieldElement')
    PB = real('wake_t.particles.particle_bunch.ParticleBunch')
    log = []

    class F(W):
        def _calculate_wakefield(self, b):
            log.append((self.k, self.t, float(self.n_p)))
            for a in (self.rho, self.chi, self.e_z, self.e_r, self.b_t):
                if np.any(a):
                    raise Violation('field not recomputed from zero')
                a += 1.
    dens = lambda z: 1e23 * (1 + v['slope'] * z)
    fs = []
    for k, r in enumerate(v['rel']):
        f = F(dens, 1e-4, -1e-4, 0., 4, 5, dz_fields=r * v['L'])
        f.k = k
        f.force_even_updates = v['even']
        fs.append(f)
    el = [FE(v['L'], v['L'] / C / 7, n_out=v['nout'], fields=fs)] * 2
    if v['L2'] != 1.:
        # the same fields, then used in another element
        el[1] = FE(v['L'] * v['L2'], v['L'] / C / 7, n_out=v['nout'],
                   fields=fs)
    for run in range(2 if v['twice'] else 1):
        del log[:]
        b = PB(np.ones(1), np.array([1e-6]), np.zeros(1), np.zeros(1),
               np.zeros(1), np.zeros(1), np.array([100.]), name='b')
        el[run].track(b, show_progress_bar=False)
        for k, f in enumerate(fs):
            dt = f.dt_update
            if dt * C > v['rel'][k] * v['L'] * (1 + 1e-9):
                raise Violation('period increased')
            t = [a[1] for a in log if a[0] == k]
            n = len(t) - 1
            tf = el[run].length / C
            if v['even'] and abs(n * dt - tf) > 1e-6 * tf:
                raise Violation('no update at the end (run %d)' % run)
            if not (n * dt <= tf * (1 + 1e-6) < (n + 1) * dt * (1 + 1e-5)):
                raise Violation('%d updates (run %d)' % (n, run))
            approx(np.array(t), np.arange(n + 1) * dt, atol=1e-6 * tf,
                   what='update times of run %d' % run)
            for a in log:
                if a[0] == k:
                    approx(a[2], dens(a[1] * C), rtol=1e-9,
                           what='density of run %d' % run)


def contracts():
    return [
        Contract('even update period', [NF + '.adjust_dt'], body_adjust,
                 sample_adjust, conc_adjust, n=(120, 2000), min_obligations=4),
        Contract('one update', [NF + '.update', NF + '.initialize_properties',
                                NF + '.evolve_properties'], body_update,
                 min_obligations=6),
        Contract('wakefield update', [
            RZ + '.__init__', RZ + '._initialize_properties',
            RZ + '._evolve_properties', RZ + '._calculate_field'], body_rz,
            min_obligations=8),
        Contract('updates during tracking', [
            NF + '.update', 'wake_t.tracking.tracker.Tracker'], None, sample,
            conc, n=(80, 800), bounded='sampled stages'),
    ]
