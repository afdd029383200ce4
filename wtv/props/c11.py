"""Tracking through transfer-matrix elements: steps, outputs, reference."""
from .push_common import *

ASSUMPTIONS = ['element length > 0, n_out >= 1 or None, forward tracking '
               '(backtracking is documented as unfinished)']
TE = 'wake_t.beamline_elements.tm_elements'
MAT = ['x', 'px', 'y', 'py', 'xi', 'pz']


class Steps(T.SRange):
    """np.arange(lo, hi) of symbolic length"""

    def __init__(self, lo, hi):
        T.SRange.__init__(self, lo, hi, 1)

    @property
    def n(self):
        return lift(self.hi) - self.lo

    def __getitem__(self, s):
        if isinstance(s, slice) and s.start is None and s.stop is None:
            k = lift(s.step)
            if X.const_of(k) == -1:
                return Sub(self, lambda i: X.boolc(True))
            return Sub(self, lambda i: X.eq(
                T.s_mod(lift(self.hi) - 1 - i, -k), lift(0)))
        raise Unsupported('slice of steps')

    def __contains__(self, i):
        return bool(X.and_(lift(i) >= self.lo, lift(i) < self.hi))


class Sub:
    def __init__(self, st, f):
        self.st, self.f = st, f

    def __contains__(self, i):
        return bool(self.f(lift(i)))


class Fold:
    """Rule for the tracking loop: an arbitrary iteration i, entered with the
    bunch matrix M(i) (arbitrary), must leave the map of M(i); only the last
    iteration continues behind the loop."""
    sym = True

    def __init__(self, ctx, data):
        self.ctx, self.d = ctx, data

    def __call__(self, key, it, names, tgt):
        self.it, self.names = it, names
        if not isinstance(it, Steps):
            raise Unsupported('tracking loop is not over the steps')
        return self

    def mat(self, loc):
        m = [k for k in self.names if isinstance(loc.get(k), T.PRows)]
        if len(m) != 1:
            raise Unsupported('tracked matrix not found')
        return m[0]

    def enter(self, loc):
        c, d = self.ctx, self.d
        c.prove_eq('tracking starts with the first step', lift(self.it.lo),
                   lift(0))
        c.prove_eq('number of steps', self.it.n, d['n'])
        self.name = self.mat(loc)
        for k, (g, e) in enumerate(zip(loc[self.name].rows, d['start'])):
            c.prove_eq('entry coordinates in the frame of the element %d' %
                       (k + 1), g.val, e)
        self.i = I('i')
        c.assume(self.i >= 0, self.i < d['n'])
        self.last = bool(X.eq(self.i, d['n'] - 1))
        if self.last:
            self.i = d['n'] - 1
        self.M = [R('M%d' % k) for k in range(6)]
        self.n0 = len(d['maps'])
        self.lists = [v for v in loc.values() if isinstance(v, list)]
        self.len0 = [len(v) for v in self.lists]
        return tuple(T.PRows([P(v) for v in self.M]) if n == self.name
                     else loc[n] if n in loc and not isinstance(
                         loc[n], (T.PArray, E_)) else T.Poison(n)
                     for n in self.names)

    def __iter__(self):
        self.d['iter'] = self
        yield self.i

    def leave(self, loc):
        c, d = self.ctx, self.d
        maps = d['maps'][self.n0:]
        c.prove('one map per step', X.boolc(len(maps) == 1))
        rows, args, out = maps[0]
        for k in range(6):
            c.prove_eq('the map acts on the current coordinates',
                       rows[k], self.M[k])
            c.prove_eq('the mapped coordinates are carried on',
                       loc[self.name].rows[k].val, out[k])
        for nm, g in args.items():
            c.prove_eq('map of this element: ' + nm, g, d['args'][nm])
        new = [len(v) - k for v, k in zip(self.lists, self.len0)]
        c.prove('outputs per step', X.boolc(
            sum(new) == (1 if d['n_out'] is not None else 0)))
        for v, k in zip(self.lists, self.len0):
            if len(v) > k:
                check_out(c, d, v[-1], out, self.i + 1)
        if not self.last:
            raise X.PathAbort('iteration checked')
        return tuple(loc.get(n) for n in self.names)


E_ = X.E


def check_out(c, d, b, m, i):
    """bunch b holds the coordinates m of step i in the laboratory"""
    dist = d['L'] * T.xdiv(i, d['n'])
    th, x0, g = d['th0'], d['x0'], d['g']
    c.prove_eq('distance travelled', lift(b.prop_distance),
               R('prop') + dist)
    bend = d['theta']
    if X.const_of(bend) == 0:
        th1, x1 = th, x0 + dist * X.sin(th)
    else:
        th1 = th + bend * T.xdiv(i, d['n'])
        x1 = x0 + T.xdiv(d['L'], bend) * (X.cos(th) - X.cos(th1))
    c.prove_eq('reference angle', lift(b.theta_ref), th1)
    c.prove_eq('reference displacement follows the bend', lift(b.x_ref), x1)
    pk = X.sqrt(g * g - 1)
    br = X.sqrt(1 - T.xdiv(1, g * g))
    ga = g + m[5] * g * br
    px, py = m[1] * pk, m[3] * pk
    pz = X.sqrt(ga * ga - px * px - py * py - 1)
    x, xi = m[0], -m[4]
    cs, sn = X.cos(th1), X.sin(th1)
    if bool(X.eq(th1, lift(0))):
        cs, sn = lift(1), lift(0)
    exp = dict(x=cs * x + sn * xi + x1, xi=-sn * x + cs * xi,
               px=cs * px + sn * pz, pz=-sn * px + cs * pz, y=m[2], py=py)
    for n in BN:
        c.prove_eq('output ' + n, getattr(b, n).val, exp[n])
    for n in ('w', 'tags'):
        a = getattr(b, n)
        c.prove('output %s' % n, X.boolc(a is not None) if a is None else
                X.eq(a.val, d[n]))
    for n in ('q_species', 'm_species', 't_flight', 'z_injection'):
        if getattr(b, n) is None:
            c.prove('output ' + n, X.boolc(False))
        else:
            c.prove_eq('output ' + n, lift(getattr(b, n)), d[n])
    c.prove('output name', X.boolc(b.name == 'b'))


def mk_track(case):
    def body(ctx):
        tw = twin(ctx)
        mod = tw.load(TE)
        ctx.data['arange'] = lambda *a: Steps(*(a if len(a) > 1
                                                else (0, a[0])))
        gref = ctx.choose(2, 'reference energy given')
        bend = ctx.choose(3, 'bend')
        th0 = [lift(0), R('th0')][ctx.choose(2, 'reference angle')]
        nout = [None, I('n_out')][ctx.choose(2, 'n_out')]
        init = bool(ctx.choose(2, 'out_initial'))
        b, v = sym_bunch(ctx, tw, prop_distance=R('prop'),
                         tags=P(R('tag'), 'tags', True), t_flight=R('tof'),
                         z_injection=R('z_inj'))
        ctx.assume(X.not_(X.eq(th0, lift(0))) if X.const_of(th0) is None
                   else X.boolc(True))
        L = R('L', positive=True)
        ctx.assume(L > 0)
        th = [lift(0), R('theta', positive=True),
              -R('theta', positive=True)][bend]
        if bend:
            ctx.assume(R('theta', positive=True) > 0)
        if nout is not None:
            ctx.assume(nout >= 1)
        b.theta_ref, b.x_ref = th0, R('x_ref')
        n = nout if nout is not None else lift(1)
        k1, k2, order = R('k1'), R('k2'), I('order')
        g = R('gref', positive=True)
        gam = X.sqrt(1 + v['px']**2 + v['py']**2 + v['pz']**2)
        if not gref:
            # rotation keeps the energy, so does the average over particles
            g = None
        el = mod.TMElement(L, th, k1, k2, g, False, nout, order)
        d = dict(n=n, L=L, th0=th0, x0=R('x_ref'), theta=th, maps=[],
                 n_out=nout, w=R('w', positive=True), tag=None,
                 tags=R('tag'), q_species=R('q'),
                 m_species=R('m', positive=True), t_flight=R('tof'),
                 z_injection=R('z_inj'))
        if g is None:
            cs, sn = X.cos(th0), X.sin(th0)
            g = T.agg('mean', P(X.sqrt(
                1 + (cs * v['px'] - sn * v['pz'])**2 + v['py']**2 +
                (sn * v['px'] + cs * v['pz'])**2)),
                P(R('w', positive=True)))
        ctx.assume(g > 1)
        d['g'] = g
        cs, sn = X.cos(th0), X.sin(th0)
        x, xi = v['x'] - R('x_ref'), v['xi']
        px, pz = v['px'], v['pz']
        pk = X.sqrt(g * g - 1)
        ctx.root_hints.append(T.xdiv(pk, g))
        br = X.sqrt(1 - T.xdiv(1, g * g))
        d['start'] = [cs * x - sn * xi, T.xdiv(cs * px - sn * pz, pk),
                      v['y'], T.xdiv(v['py'], pk), -(sn * x + cs * xi),
                      T.xdiv(gam - g, g * br)]
        d['args'] = dict(z=T.xdiv(L, n), L=L, theta=-th, k1=k1, k2=k2,
                         gamma_ref=g, order=order)

        def tm(bm, z, L, theta, k1, k2, gamma_ref, order=2):
            rows = [r.val for r in bm.rows]
            a = dict(z=z, L=L, theta=theta, k1=k1, k2=k2,
                     gamma_ref=gamma_ref, order=order)
            out = [R('N%d' % k) for k in range(6)]
            d['maps'].append((rows, {k: lift(q) for k, q in a.items()}, out))
            return T.PRows([P(o) for o in out])
        if not hasattr(mod, 'track_with_transfer_map'):
            raise Unsupported('map not found')
        mod.track_with_transfer_map = tm
        fold = Fold(ctx, d)
        ctx.loop_rules[TE + ':TMElement.track:*'] = fold
        c0 = state(b)
        out = el.track(b, out_initial=init, show_progress_bar=False)
        ctx.prove('outputs in the returned list', X.boolc(
            len(out) == init + (nout is not None)))
        if init:
            for n_, e in zip(BN, c0):
                ctx.prove_eq('initial output ' + n_,
                             getattr(out[0], n_).val, e)
        # the tracked bunch ends at the exit of the element
        if nout is None and len(d['maps']) == 1 and 'iter' not in d:
            rows, args, o = d['maps'][0]
            for k in range(6):
                ctx.prove_eq('the map acts on the entry coordinates',
                             rows[k], d['start'][k])
            for nm, q in args.items():
                ctx.prove_eq('map of this element: ' + nm, q, d['args'][nm])
        ctx.prove('map applied', X.boolc(len(d['maps']) == 1))
        check_out(ctx, d, b, d['maps'][0][2], n)
        if nout is not None:
            ctx.prove('the returned list holds its own storage', X.boolc(
                out[-1] is not b and all(getattr(out[-1], q) is not
                                         getattr(b, q) for q in BN)))
        ctx.prove_eq('the element keeps its length', lift(el.length), L)
        ctx.prove('the element keeps its reference energy setting',
                  X.boolc(el.gamma_ref is None) if not gref else
                  X.eq(lift(el.gamma_ref), g))
    return body


# ------------------------------------------------------------------ run time
def sample(rng):
    return dict(
        n=rng.choice([1, 2, 7]), seed=rng.randint(0, 10**6),
        kind=rng.choice(['tm', 'drift', 'dipole', 'quad', 'sext']),
        L=rng.choice([.05, .3, 1., 2.61]),
        theta=rng.choice([.1, -.3, .02]), k1=rng.choice([2., -3.]),
        k2=rng.choice([5., -40.]), g=rng.choice([20., 500.]),
        dg=rng.choice([1.02, .97]), gref=rng.random() < .5,
        n_out=rng.choice([None, None, 1, 2, 3, 5]),
        init=rng.random() < .4, order=rng.choice([1, 2]),
        th0=rng.choice([0., 0., .2, -.1]), x0=rng.choice([0., 1e-2]),
        diag=rng.random() < .5, bar=rng.random() < .3)


def mk(v, g):
    a = dict(gamma_ref=g, n_out=v['n_out'], order=v['order'])
    k = v['kind']
    if k == 'tm':
        e = real(TE + '.TMElement')(v['L'], v['theta'], v['k1'], v['k2'],
                                    **a)
        return e, (v['theta'], v['k1'], v['k2'])
    if k == 'drift':
        return real(TE + '.Drift')(v['L'], **a), (0, 0, 0)
    if k == 'dipole':
        return real(TE + '.Dipole')(v['L'], v['theta'], **a), \
            (v['theta'], 0, 0)
    if k == 'quad':
        return real(TE + '.Quadrupole')(v['L'], v['k1'], **a), \
            (0, v['k1'], 0)
    return real(TE + '.Sextupole')(v['L'], v['k2'], **a), (0, 0, v['k2'])


def mkb(v, rng, f=1.):
    B = real('wake_t.particles.particle_bunch.ParticleBunch')
    n = v['n']
    s = rng.normal(size=(6, n)) * np.array(
        [[1e-5], [1e-5], [2e-6], [1e-2], [1e-2], [v['g'] * 1e-3]])
    s[5] += v['g'] * f
    # laboratory frame of a bunch on the reference path
    c, sn = np.cos(v['th0']), np.sin(v['th0'])
    s[0], s[2] = c * s[0] + sn * s[2] + v['x0'], -sn * s[0] + c * s[2]
    s[3], s[5] = c * s[3] + sn * s[5], -sn * s[3] + c * s[5]
    b = B(rng.uniform(1, 9, n), *[a.copy() for a in s], name='b',
          prop_distance=.7, tags=np.arange(n), t_flight=.3e-9,
          z_injection=rng.choice([None, .4]), q_species=2 * 1.6e-19,
          m_species=3e-30)
    b.theta_ref, b.x_ref = v['th0'], v['x0']
    return b


def rot(s, t):
    c, sn = np.cos(t), np.sin(t)
    o = s.copy()
    o[0], o[2] = c * s[0] + sn * s[2], -sn * s[0] + c * s[2]
    o[3], o[5] = c * s[3] + sn * s[5], -sn * s[3] + c * s[5]
    return o


def expect(v, s, w, el, g):
    """phase space, reference angle and displacement after each step"""
    tm = real('wake_t.particles.push.transfer_matrix.'
              'track_with_transfer_map')
    th, k1, k2 = el
    n = v['n_out'] or 1
    s = s.copy()
    s[0] -= v['x0']
    s = rot(s, -v['th0'])
    ga = np.sqrt(1 + (s[3:]**2).sum(0))
    if g is None:
        g = np.average(ga, weights=w)
    pk = np.sqrt(g * g - 1)
    be = pk / g
    m = np.array([s[0], s[3] / pk, s[1], s[4] / pk, -s[2],
                  (ga - g) / (g * be)])
    res = []
    for i in range(1, n + 1):
        m = tm(m, v['L'] / n, v['L'], -th, k1, k2, g, order=v['order'])
        ga = g + m[5] * g * be
        px, py = m[1] * pk, m[3] * pk
        o = np.array([m[0], m[2], -m[4], px, py,
                      np.sqrt(ga**2 - 1 - px**2 - py**2)])
        d = v['L'] * i / n
        t1 = v['th0'] + th * i / n
        x1 = v['x0'] + (d * np.sin(v['th0']) if th == 0 else v['L'] / th * (
            np.cos(v['th0']) - np.cos(t1)))
        o = rot(o, t1)
        o[0] += x1
        res.append((o, t1, x1, d))
    return res


SC = np.array([[1e-4], [1e-4], [1e-4]])


def same_bunch(b, e, what):
    o, t1, x1, d = e
    s = ph(b)
    approx(s[:3] / 1e-4, o[:3] / 1e-4, rtol=1e-6, atol=1e-6,
           what=what + ' positions')
    approx(s[3:], o[3:], rtol=1e-9, atol=1e-7, what=what + ' momenta')
    approx([b.theta_ref, b.x_ref, b.prop_distance], [t1, x1, .7 + d],
           rtol=1e-9, atol=1e-12, what=what + ' reference')


def conc(v):
    import contextlib
    import io
    rng = np.random.default_rng(v['seed'])
    g0 = v['g'] * 1.001 if v['gref'] else None
    el, par = mk(v, g0)
    D = real('wake_t.diagnostics.OpenPMDDiagnostics')
    for k, f in enumerate((1., v['dg'])):
        b = mkb(v, rng, f)
        s0, w0 = ph(b), b.w.copy()
        exp = expect(v, s0, w0, par, g0)
        if not all(np.isfinite(o[0]).all() for o in exp):
            raise Skip('beyond the range of the map')
        rec, dg = [], False
        if v['diag']:
            dg = D.__new__(D)
            dg.write_diagnostics = lambda t, dt, sp, wf=[]: rec.append(
                (t, dt, [ph(q).copy() for q in sp]))
            dg.increase_z_pos = lambda z: rec.append(('z', z))
        with contextlib.redirect_stdout(io.StringIO()):
            out = el.track(b, out_initial=v['init'], opmd_diag=dg,
                           show_progress_bar=v['bar'])
        what = 'bunch %d' % (k + 1)
        same_bunch(b, exp[-1], what + ' after the element')
        n = v['n_out'] or 0
        if len(out) != n + v['init']:
            raise Violation('%d outputs for n_out=%r, out_initial=%r' % (
                len(out), v['n_out'], v['init']))
        if v['init']:
            approx(ph(out[0]), s0, what=what + ' initial output')
            approx(out[0].prop_distance, .7, what='initial distance')
        for i in range(n):
            q = out[i + v['init']]
            same_bunch(q, exp[i], what + ' output %d' % (i + 1))
            approx(q.w, w0, what='weights of an output')
            for nm in ('q_species', 'm_species', 't_flight', 'z_injection',
                       'name'):
                if getattr(q, nm) != getattr(b, nm):
                    raise Violation('%s of an output: %r, expected %r' % (
                        nm, getattr(q, nm), getattr(b, nm)))
            if q.tags is None or not np.array_equal(q.tags, b.tags):
                raise Violation('outputs lost the tags')
        approx(b.w, w0, what='weights after the element')
        old = [ph(q).copy() for q in out]
        t0 = b.tags.copy()
        b.x += 1.
        b.pz *= 2.
        b.w *= 3.
        b.tags += 1
        for q, o in zip(out, old):
            approx(q.w, w0, what='weights of an output after changing those '
                   'of the bunch')
            if not np.array_equal(q.tags, t0):
                raise Violation('tags of an output changed with the bunch')
            approx(ph(q), o, what='stored output after changing the bunch')
        if v['diag']:
            if len(rec) != len(out) + 1 or rec[-1] != ('z', v['L']):
                raise Violation('diagnostics: %r' % ([r[:2] for r in rec],))
            for i, (r, o) in enumerate(zip(rec, old)):
                j = i + 1 - v['init']
                approx(r[0], v['L'] * j / max(n, 1) / C, rtol=1e-9,
                       atol=1e-25, what='time of diagnostics')
                approx(r[2][0], o, what='written particles')
    # the reference particle follows the reference path
    if g0 is not None:
        B = real('wake_t.particles.particle_bunch.ParticleBunch')
        p = np.sqrt(g0**2 - 1)
        one = np.ones(1)
        b = B(one, v['x0'] * one, 0 * one, 0 * one,
              p * np.sin(v['th0']) * one, 0 * one,
              p * np.cos(v['th0']) * one, name='b')
        b.theta_ref, b.x_ref = v['th0'], v['x0']
        el.track(b, show_progress_bar=False)
        t1 = v['th0'] + par[0]
        approx([b.x[0] - b.x_ref, b.y[0], b.xi[0]], np.zeros(3), atol=1e-12,
               what='reference particle')
        approx([b.px[0], b.py[0], b.pz[0]],
               [p * np.sin(t1), 0, p * np.cos(t1)], rtol=1e-9, atol=1e-9,
               what='momentum of the reference particle')
        approx(b.theta_ref, t1, atol=1e-12, what='reference angle')


def contracts():
    return [Contract('tracking through an element', [
        TE + '.TMElement.track', TE + '.TMElement._determine_steps',
        TE + '.TMElement._create_new_bunch',
        TE + '.TMElement._update_input_bunch',
        TE + '.TMElement._get_beam_matrix_for_tracking',
        'wake_t.utilities.bunch_manipulation.convert_to_ocelot_matrix',
        'wake_t.utilities.bunch_manipulation.convert_from_ocelot_matrix',
        'wake_t.utilities.bunch_manipulation.rotation_matrix_xz'],
        mk_track(0), sample, conc, n=(150, 2500), min_obligations=300)]
