"""Laser envelope solver: tridiagonal solver, discretised envelope equation,
time stepping and storage of the envelope."""
from .push_common import *
from .. import symarr as SA
from ..symarr import FArr, FArr2, SArr, Reps
from fractions import Fraction as Fr
from ..expr import SComplex

ASSUMPTIONS = ['pivots of the tridiagonal elimination are non-zero (the '
               'matrix of the envelope equation is diagonally dominant for '
               'physical parameters)',
               'a, a_old have nz+2 rows, chi nz rows; nz >= 2, nr >= 2; '
               'arrays do not alias',
               'complex phase of the on-axis envelope: numpy.angle']
LM = 'wake_t.physics_models.laser.'
ES, EN = LM + 'envelope_solver', LM + 'envelope_solver_non_centered'


# ------------------------------------------------------------------- TDMA
def body_tdma(ctx):
    tw = twin(ctx)
    f = tw.get(LM + 'tdma.TDMA')
    n = I('n')
    ctx.assume(n >= 3)
    row = ctx.choose(3, 'row')
    if row == 0:
        r = lift(1)
    elif row == 1:
        r = I('r')
        ctx.assume(r >= 1, r <= n - 2)
    else:
        r = n - 2
    arr = {}

    def hook(shape, fill, dtype):
        nm = 'tmp%d' % len(arr)
        arr[nm] = SArr(shape, nm)
        return arr[nm]
    ctx.data['alloc'] = hook
    ctx.loop_rules[LM + 'tdma:TDMA:*'] = Reps([r, r + 1])
    A = {q: (lambda q: FArr(n - 1 if q in 'ac' else n, lambda k: X.uf(
        q, k), q, frozen=True))(q) for q in 'abcd'}
    p = SArr(n, 'p')
    f(A['a'], A['b'], A['c'], A['d'], p)
    a, b, c, d = [lambda k, q=q: A[q].at(k) for q in 'abcd']
    P_ = p.at
    if row == 0:
        g = b(0) * P_(0) + c(0) * P_(1) - d(0)
    elif row == 1:
        g = a(r - 1) * P_(r - 1) + b(r) * P_(r) + c(r) * P_(r + 1) - d(r)
    else:
        g = a(n - 2) * P_(n - 2) + b(n - 1) * P_(n - 1) - d(n - 1)
    ctx.prove_eq('solution satisfies the row of the system', g, lift(0))


def body_tdma_small(ctx):
    tw = twin(ctx)
    f = tw.get(LM + 'tdma.TDMA')
    n = 2 + ctx.choose(3, 'n')
    v = {}
    for q in 'abcd':
        v[q] = np.empty(n - 1 if q in 'ac' else n, dtype=object)
        for k in range(v[q].size):
            v[q][k] = R('%s%d' % (q, k))
    cp = {q: v[q].copy() for q in v}
    p = np.empty(n, dtype=object)
    p[:] = [R('p%d' % k) for k in range(n)]
    f(v['a'], v['b'], v['c'], v['d'], p)
    for q in v:
        for k in range(v[q].size):
            ctx.prove('coefficients are not modified',
                      X.boolc(X.same(lift(v[q][k]), cp[q][k])))
    for i in range(n):
        g = cp['b'][i] * p[i] - cp['d'][i]
        if i:
            g = g + cp['a'][i - 1] * p[i - 1]
        if i < n - 1:
            g = g + cp['c'][i] * p[i + 1]
        ctx.prove_eq('solution satisfies every row', g, lift(0))


# ------------------------------------------------- discretised equation
def residual(cent, k, nr, kappa, dt, dz, dr, D, t1, t2, chi, N, A, O):
    """Discretised envelope equation at row j, column k (0 for a solution);
    N, A, O: functions (row offset, column) of the new, current and old
    envelope."""
    i = SComplex(0, 1)
    prev = O if cent else A
    f = 1 if cent else 2
    h = dr * dr
    # L+- = 1 +- 1/(2(k+1/2)): cell-centred radial Laplacian
    q = T.xdiv(lift(1), 2 * (lift(k) + Fr(1, 2)))

    def lap(F):
        r = -2 * X.tocomplex(F(0, k))
        if k is not None and not isinstance(k, int) or k:
            r = r + (1 - q) * X.tocomplex(F(0, k - 1))
        if not X.same(lift(k), lift(nr) - 1):
            r = r + (1 + q) * X.tocomplex(F(0, k + 1))
        return r / h
    e1 = X.exp(SComplex(0, -t1))
    e2 = X.exp(SComplex(0, -(t1 + t2)))
    dif = [X.tocomplex(N(m, k)) - prev(m, k) for m in range(3)]
    g = (lap(N) + lap(prev)) * Fr(1, 2)
    g = g + i * kappa / dt * dif[0] * f
    g = g + (Fr(-3, 2) * dif[0] + 2 * e1 * dif[1] - Fr(1, 2) * e2 * dif[2]
             ) / (dz * dt) * f
    g = g + i * D / dt * dif[0] * f
    if cent:
        g = g - (X.tocomplex(N(0, k)) - 2 * X.tocomplex(A(0, k)) + O(0, k)
                 ) / (dt * dt)
    return g - chi * (X.tocomplex(N(0, k)) + prev(0, k)) * Fr(1, 2)


def cfn(nm):
    return lambda q, k: SComplex(X.uf(nm + '_re', lift(q), lift(k)),
                                 X.uf(nm + '_im', lift(q), lift(k)))


def consts(ctx):
    v = {n: R(n, positive=True) for n in ('k0', 'kp', 'rmax', 'dt')}
    v['zmin'] = R('zmin')
    v['lz'] = R('lz', positive=True)
    for n in v:
        if n != 'zmin':
            ctx.assume(v[n] > 0)
    v['zmax'] = v['zmin'] + v['lz']
    return v


class JInv:
    """Induction over the rows, from the head to the tail.  State at the
    start of row j: the two working rows hold N(j+1), N(j+2); the envelope is
    N in rows > j+2 and unchanged in the others; likewise for a_old."""
    sym = True

    def __init__(self, ctx, d, phase):
        self.ctx, self.d, self.phase = ctx, d, phase

    def __call__(self, key, it, names, tgt):
        self.it, self.names = it, names
        return self

    def setup(self, j):
        d = self.d
        N, A, O = d['N'], d['A'], d['O']
        self.w1.f = lambda k: N(j + 1, k)
        self.w2.f = lambda k: N(j + 2, k)
        d['a'].f = lambda q, k: SA.ite(q >= j + 3, N(q, k), A(q, k))
        d['a_old'].f = lambda q, k: SA.ite(q >= j + 3, A(q, k), O(q, k))

    def keep(self, loc, n):
        v = loc.get(n)
        return not self.phase and isinstance(v, (int, X.E)) or \
            isinstance(v, (FArr, FArr2))

    def enter(self, loc):
        c, d = self.ctx, self.d
        if X.const_of(lift(self.it.step)) != -1:
            raise Unsupported('row loop')
        c.prove_eq('rows are swept from the head', lift(self.it.lo),
                   d['nz'] - 1)
        c.prove_eq('down to the tail', lift(self.it.hi), lift(-1))
        self.w1, self.w2 = loc.get('a_new_jp1'), loc.get('a_new_jp2')
        if not isinstance(self.w1, FArr) or not isinstance(self.w2, FArr):
            raise Unsupported('working rows not found')
        kk = I('kk')
        c.assume(kk >= 0, kk < d['nr'])
        for w in (self.w1, self.w2):
            c.prove_eq('no light ahead of the domain', w.at(kk), lift(0))
        j = d['j']
        c.assume(j >= 0, j < d['nz'])
        self.setup(j)
        self.loc0 = {n: loc[n] for n in self.names if self.keep(loc, n)}
        return tuple(self.loc0[n] if n in self.loc0 else T.Poison(n)
                     for n in self.names)

    def __iter__(self):
        yield self.d['j']

    def leave(self, loc):
        c, d = self.ctx, self.d
        for n, v in self.loc0.items():
            if not (loc[n] is v or isinstance(v, (int, X.E)) and X.same(
                    lift(v), lift(loc[n]))):
                raise Unsupported('loop-carried local ' + n)
        j, N, A, O = d['j'], d['N'], d['A'], d['O']
        kk, q = I('kk'), I('q')
        c.assume(q >= 0, q < d['nz'] + 2)
        c.prove_eq('working row j', self.w1.at(kk), N(j, kk))
        c.prove_eq('working row j+1', self.w2.at(kk), N(j + 1, kk))
        c.prove('stored envelope', X.eq(d['a'].at(q, kk), SA.ite(
            q >= j + 2, N(q, kk), A(q, kk))))
        c.prove('stored previous envelope', X.eq(
            d['a_old'].at(q, kk), SA.ite(q >= j + 2, A(q, kk), O(q, kk))))
        self.setup(lift(-1))
        return tuple(self.loc0[n] if n in self.loc0 else T.Poison(n)
                     for n in self.names)


def sym_env(cent):
    mod = ES if cent else EN
    fn = 'evolve_envelope' if cent else 'evolve_envelope_non_centered'

    def body(ctx):
        tw = twin(ctx)
        f = tw.get(mod + '.' + fn)
        SA.alloc(ctx)
        nz, nr, j = I('nz'), I('nr'), I('j')
        ctx.assume(nz >= 3, nr >= 3)
        phase = bool(ctx.choose(2, 'use_phase'))
        kind = ctx.choose(3, 'column')
        k = [0, I('k'), nr - 1][kind]
        if kind == 1:
            ctx.assume(k >= 1, k <= nr - 2)
        N, A, O = cfn('N'), cfn('A'), cfn('O')
        chi = FArr2(nz, nr, lambda q, c: X.uf('chi', q, c), 'chi', True)
        a = FArr2(nz + 2, nr, A, 'a')
        ao = FArr2(nz + 2, nr, O, 'a_old')
        v = consts(ctx)
        ph = lambda q: X.uf('ph', lift(q))

        def unwrap(x):
            q = I('q')
            ctx.assume(q >= 0, q < nz + 2)
            ctx.prove_eq('phase of the envelope on axis', x.at(q), X.uf(
                'atan2', A(q, 0).im, A(q, 0).re))
            return FArr(nz + 2, lambda q: ph(q), 'phases', True)
        n_solved = [0]

        def tdma(lo, mid, up, rhs, out):
            n_solved[0] += 1
            ctx.prove_eq('size of the lower diagonal', lo.n, nr - 1)
            ctx.prove_eq('size of the upper diagonal', up.n, nr - 1)
            dz = v['lz'] * v['kp'] / (nz - 1)
            dr = v['rmax'] * v['kp'] / nr
            dt = v['dt'] * R('ct_c', positive=True) * v['kp']
            t1 = ph(j + 1) - ph(j) if phase else lift(0)
            t2 = ph(j + 2) - ph(j + 1) if phase else lift(0)
            D = (Fr(3, 2) * t1 - Fr(1, 2) * t2) / dz
            sh = lambda F: (lambda m, c: F(j + m, lift(c)))
            g = residual(cent, k, nr, v['k0'] / v['kp'], dt, dz, dr, D, t1,
                         t2, chi.at(j, k), sh(N), sh(A), sh(O))
            m = X.tocomplex(mid.at(k)) * N(j, k) - rhs.at(k)
            if kind:
                m = m + X.tocomplex(lo.at(lift(k) - 1)) * N(j, k - 1)
            if kind < 2:
                m = m + X.tocomplex(up.at(k)) * N(j, k + 1)
            e = m - g
            ctx.prove_eq('system of the row is the discretised equation '
                         '(real part)', e.re, lift(0))
            ctx.prove_eq('system of the row is the discretised equation '
                         '(imaginary part)', e.im, lift(0))
            out[:] = FArr(nr, lambda c: N(j, c))
        M = tw.load(mod)
        M.TDMA, M.unwrap = tdma, unwrap
        rule = JInv(ctx, dict(N=N, A=A, O=O, a=a, a_old=ao, nz=nz, nr=nr,
                              j=j), phase)
        rr = Reps([k])

        def pick(key, it, names, tgt):
            st = X.const_of(lift(it.step))
            return (rule if st == -1 else rr)(key, it, names, tgt)
        ctx.loop_rules['%s:%s:*' % (mod, fn)] = pick
        f(a, ao, chi, v['k0'], v['kp'], v['zmin'], v['zmax'], nz, v['rmax'],
          nr, v['dt'], 1, phase)
        if not n_solved[0]:
            raise Unsupported('no system solved')
        q, kk = I('q'), I('kk')
        ctx.prove_eq('the new envelope is stored', a.at(q, kk), N(q, kk))
        ctx.prove_eq('the current envelope becomes the old one',
                     ao.at(q, kk), A(q, kk))
    return body


def small_env(cent):
    """bounded: nz = 2..3, nr = 2..3, one step; every row and column"""
    mod = ES if cent else EN
    fn = 'evolve_envelope' if cent else 'evolve_envelope_non_centered'

    def body(ctx):
        tw = twin(ctx)
        f = tw.get(mod + '.' + fn)
        nz, nr = [(2, 3), (3, 2)][ctx.choose(2, 'grid')]
        phase = bool(ctx.choose(2, 'use_phase'))

        def mk(nm, n):
            o = np.empty((n, nr), dtype=object)
            for p in range(n):
                for q in range(nr):
                    o[p, q] = R('%s_%d_%d' % (nm, p, q)) if nm == 'chi' \
                        else SComplex(R('%s_%d_%d_r' % (nm, p, q)),
                                      R('%s_%d_%d_i' % (nm, p, q)))
            return o
        A, O, chi = mk('A', nz + 2), mk('O', nz + 2), mk('chi', nz)
        N = np.empty((nz + 2, nr), dtype=object)
        N[...] = lift(0)
        a, ao, ch = A.copy(), O.copy(), chi.copy()
        v = consts(ctx)
        ph = np.empty(nz + 2, dtype=object)
        ph[:] = [R('ph%d' % q) for q in range(nz + 2)]
        st = {'j': nz}

        def unwrap(x):
            for q in range(nz + 2):
                ctx.prove_eq('phase of the envelope on axis', lift(x[q]),
                             X.uf('atan2', A[q, 0].im, A[q, 0].re))
            return ph.copy()

        def tdma(lo, mid, up, rhs, out):
            st['j'] -= 1
            j = st['j']
            if j < 0:
                raise Unsupported('more systems than rows')
            for c in range(nr):
                N[j, c] = SComplex(R('N_%d_%d_r' % (j, c)),
                                   R('N_%d_%d_i' % (j, c)))
            dz = v['lz'] * v['kp'] / (nz - 1)
            dr = v['rmax'] * v['kp'] / nr
            dt = v['dt'] * R('ct_c', positive=True) * v['kp']
            t1 = ph[j + 1] - ph[j] if phase else lift(0)
            t2 = ph[j + 2] - ph[j + 1] if phase else lift(0)
            D = (Fr(3, 2) * t1 - Fr(1, 2) * t2) / dz
            sh = lambda F: (lambda m, c: F[j + m, c])
            for k in range(nr):
                g = residual(cent, k, nr, v['k0'] / v['kp'], dt, dz, dr, D,
                             t1, t2, chi[j, k], sh(N), sh(A), sh(O))
                m = X.tocomplex(mid[k]) * N[j, k] - rhs[k]
                if k:
                    m = m + X.tocomplex(lo[k - 1]) * N[j, k - 1]
                if k < nr - 1:
                    m = m + X.tocomplex(up[k]) * N[j, k + 1]
                e = m - g
                ctx.prove_eq('discretised equation (real part)', e.re,
                             lift(0))
                ctx.prove_eq('discretised equation (imaginary part)', e.im,
                             lift(0))
            out[:] = N[j]
        M = tw.load(mod)
        M.TDMA, M.unwrap = tdma, unwrap
        f(a, ao, ch, v['k0'], v['kp'], v['zmin'], v['zmax'], nz, v['rmax'],
          nr, v['dt'], 1, phase)
        if st['j'] != 0:
            raise Unsupported('one system per row')

        def sme(p, q):
            p, q = X.tocomplex(p), X.tocomplex(q)
            return X.and_(X.eq(p.re, q.re), X.eq(p.im, q.im))
        for p in range(nz + 2):
            for q in range(nr):
                ctx.prove('the new envelope is stored', sme(a[p, q],
                                                           N[p, q]))
                ctx.prove('the current envelope becomes the old one',
                          sme(ao[p, q], A[p, q]))
                if p < nz:
                    ctx.prove('susceptibility is not modified',
                              sme(ch[p, q], chi[p, q]))
    return body


# --------------------------------------------------------------- run time
def s_tdma(rng):
    return dict(n=rng.choice([2, 2, 3, 3, 4, 5, 8, 30, 100]),
                seed=rng.randrange(10**6), real=rng.random() < .5)


def c_tdma(v):
    f = real(LM + 'tdma.TDMA')
    r = np.random.default_rng(v['seed'])
    n = v['n']
    cx = lambda m: r.normal(size=m) + 1j * r.normal(size=m)
    a, c, d = cx(n - 1), cx(n - 1), cx(n)
    if v['real']:
        a, c = a.real.copy(), c.real.copy()
    b = (2. + np.abs(np.append(0, a)) + np.abs(np.append(c, 0))) * np.exp(
        1j * r.uniform(0, 6.28, n))
    cp = [q.copy() for q in (a, b, c, d)]
    p = np.full(n, np.nan + 0j)
    f(a, b, c, d, p)
    for q, o, nm in zip((a, b, c, d), cp, 'abcd'):
        if not np.array_equal(q, o):
            raise Violation('TDMA modifies its input ' + nm)
    res = b * p
    res[1:] += a * p[:-1]
    res[:-1] += c * p[1:]
    approx(res, d, rtol=1e-9, atol=1e-10, what='matrix times solution')


def s_env(rng):
    return dict(nz=rng.choice([2, 3, 4, 7, 12, 25]),
                nr=rng.choice([2, 3, 5, 9, 16]),
                nt=rng.choice([1, 1, 2, 3, 5]),
                seed=rng.randrange(10**6), phase=rng.random() < .5,
                cent=rng.random() < .6, chi=rng.random() < .8,
                test=rng.choice(['eq', 'eq', 'eq', 'zero', 'causal',
                                 'linear', 'split', 'smooth']))


def np_residual(cent, N, A, O, chi, k0, kp, zmin, zmax, nz, rmax, nr, dt,
                phase):
    """direct evaluation of the discretised equation, and its scale"""
    dz = (zmax - zmin) * kp / (nz - 1)
    dr = rmax * kp / nr
    t = dt * 299792458. * kp
    ph = np.unwrap(np.angle(A[:, 0])) if phase else np.zeros(nz + 2)
    t1 = (ph[1:] - ph[:-1])[:nz, None]
    t2 = (ph[2:] - ph[1:-1])[:nz, None]
    Pv = O if cent else A
    f = 1. if cent else 2.
    k = np.arange(nr)

    def lap(F):
        F = F[:nz]
        lo = np.zeros_like(F)
        up = np.zeros_like(F)
        lo[:, 1:] = F[:, :-1]
        up[:, :-1] = F[:, 1:]
        q = 1. / (2 * k + 1)
        return ((1 - q) * lo - 2 * F + (1 + q) * up) / dr**2
    d0, d1, d2 = [N[m:m + nz] - Pv[m:m + nz] for m in range(3)]
    terms = [.5 * lap(N), .5 * lap(Pv), 1j * k0 / kp / t * f * d0,
             -1.5 * d0 / dz / t * f, 2 * np.exp(-1j * t1) * d1 / dz / t * f,
             -.5 * np.exp(-1j * (t1 + t2)) * d2 / dz / t * f,
             1j * (1.5 * t1 - .5 * t2) / dz * d0 / t * f,
             -.5 * chi * (N[:nz] + Pv[:nz])]
    if cent:
        terms.append(-(N[:nz] - 2 * A[:nz] + O[:nz]) / t**2)
    return sum(terms), sum(np.abs(q) for q in terms) + np.abs(
        1. / dr**2 * np.max(np.abs(N)))


def mk_env(v):
    r = np.random.default_rng(v['seed'])
    nz, nr = v['nz'], v['nr']
    cx = lambda: r.normal(size=(nz + 2, nr)) + 1j * r.normal(
        size=(nz + 2, nr))
    if v['test'] == 'smooth':
        z = np.linspace(-2, 2, nz + 2)[:, None]
        rr = (np.arange(nr) + .5)[None]
        A = (np.exp(-z**2 - rr**2 / nr**2) * np.exp(
            1j * (r.uniform(-3, 3) * z * 3 + r.uniform(-1, 1))))
        O = A * np.exp(.01j) * .99
        A, O = A + 0j, O + 0j
    else:
        A, O = cx(), cx()
    A[nz:], O[nz:] = 0, 0
    chi = r.normal(size=(nz, nr)) if v['chi'] else np.zeros((nz, nr))
    kp = 10**r.uniform(4, 5.5)
    par = [2 * np.pi / 0.8e-6, kp, -r.uniform(1, 9) / kp,
           r.uniform(0, 9) / kp, nz, r.uniform(1, 20) / kp, nr,
           10**r.uniform(-1, 1.5) / kp / 299792458.]
    return A, O, chi, par


def c_env(v):
    cent = v['cent']
    f = real((ES if cent else EN) + '.' + (
        'evolve_envelope' if cent else 'evolve_envelope_non_centered'))
    A, O, chi, par = mk_env(v)
    nz = v['nz']
    t = v['test']
    ph = v['phase']
    chi0 = chi.copy()

    def run(a, o, nt):
        a, o = a.copy(), o.copy()
        f(a, o, chi, *par, nt, ph)
        return a, o
    if t in ('eq', 'smooth'):
        a, o = A, O
        for k in range(v['nt']):
            a1, o1 = run(a, o, 1)
            if not np.all(np.isfinite(a1)):
                raise Skip()
            approx(o1, a, rtol=1e-12, what='old envelope after a step is '
                   'the envelope before it')
            approx(a1[nz:], 0 * a1[nz:], what='rows ahead of the domain')
            res, sc = np_residual(cent, a1, a, o, chi, *par, ph)
            if np.any(np.abs(res) > 1e-7 * np.max(sc)):
                q = np.unravel_index(np.argmax(np.abs(res) / sc), sc.shape)
                raise Violation(
                    'new envelope does not satisfy the discretised envelope '
                    'equation: residual %.3g of %.3g at (row, column) %s' % (
                        abs(res[q]), sc[q], tuple(int(x) for x in q)))
            a, o = a1, o1
    elif t == 'split':
        a, o = A, O
        for k in range(v['nt']):
            a, o = run(a, o, 1)
        b, ob = run(A, O, v['nt'])
        sc = np.max(np.abs(b))
        if not np.isfinite(sc):
            raise Skip()
        approx(b, a, rtol=1e-8, atol=1e-8 * sc,
               what='%d steps in one call or one by one' % v['nt'])
        approx(ob, o, rtol=1e-8, atol=1e-8 * sc,
               what='old envelope, %d steps in one call or one by one' %
               v['nt'])
    elif t == 'zero':
        a, o = run(0 * A, 0 * O, v['nt'])
        approx(a, 0 * a, what='no laser stays no laser')
        approx(o, 0 * o, what='no laser stays no laser')
    elif t == 'causal':
        # what lies behind row j does not influence rows j.. (without phase
        # unwrapping, which is exact up to multiples of 2 pi with it)
        j = nz // 2
        A2, O2, c2 = A.copy(), O.copy(), chi.copy()
        A2[:j], O2[:j] = .7 * A2[:j][:, ::-1], -.3 * O2[:j]
        a, _ = run(A, O, v['nt'])
        chi[:j] += 1.
        b, _ = run(A2, O2, v['nt'])
        chi[:j] -= 1.
        sc = np.max(np.abs(a[j:]))
        if not np.isfinite(sc):
            raise Skip()
        approx(b[j:], a[j:], rtol=1e-6, atol=1e-6 * sc,
               what='light ahead is influenced by what is behind it')
        chi = chi0
        return
    elif t == 'linear':
        ph = False
        B, Ob, _, _ = mk_env(dict(v, seed=v['seed'] + 1, test='eq'))
        s = 0.7 - 1.3j
        a = run(A, O, v['nt'])[0]
        b = run(B, Ob, v['nt'])[0]
        c = run(A + s * B, O + s * Ob, v['nt'])[0]
        sc = np.max(np.abs(c)) + np.max(np.abs(a)) + np.max(np.abs(b))
        if not np.isfinite(sc):
            raise Skip()
        approx(c, a + s * b, rtol=1e-7, atol=1e-7 * sc,
               what='without phase factor the equation is linear')
    if not np.array_equal(chi, chi0):
        raise Violation('solver modifies the susceptibility')


def s_unwrap(rng):
    return dict(n=rng.choice([1, 2, 3, 10, 60]), seed=rng.randrange(10**6),
                sc=rng.choice([.5, 2., 4., 10., 40.]))


def c_unwrap(v):
    f = real(LM + 'utils.unwrap')
    r = np.random.default_rng(v['seed'])
    p = r.uniform(-1, 1, v['n']) * v['sc']
    q = p.copy()
    u = f(p)
    if not np.array_equal(p, q):
        raise Violation('unwrap modifies its input')
    approx(u, np.unwrap(p), rtol=1e-9, atol=1e-9, what='unwrapped phase')


def body_unwrap(ctx):
    tw = twin(ctx)
    f = tw.get(LM + 'utils.unwrap')
    n = 1 + ctx.choose(3, 'n')
    p = np.empty(n, dtype=object)
    p[:] = [R('p%d' % k) for k in range(n)]
    cp = p.copy()
    u = f(p)
    P_ = lift(6.283185307179586)
    ctx.prove('shape', X.boolc(np.shape(u) == (n,)))
    for k in range(n):
        ctx.prove('input is not modified', X.boolc(X.same(lift(p[k]), cp[k])))
        if k:
            d = lift(u[k]) - u[k - 1]
            ctx.prove('no jump above half a turn', d <= P_ / 2, d >= -P_ / 2)
            o = cp[k] - cp[k - 1]
            # witness of the number of turns: floor is an integer
            t = X.floor((o + P_ / 2) / P_)
            ctx.prove('steps differ by whole turns', X.or_(
                *[X.eq(d - o, -P_ * m) for m in (lift(0), t, t - 1)]))
            ctx.prove('small steps are kept',
                      X.implies(X.and_(o < P_ / 2, o > -P_ / 2),
                                X.eq(d, o)))
    ctx.prove('first phase is kept', X.eq(lift(u[0]), cp[0]))


def contracts():
    return [
        Contract('tdma: every row of the system, any size',
                 [LM + 'tdma.TDMA'], body_tdma, s_tdma, c_tdma, n=(60, 600),
                 min_obligations=3, weak=True),
        Contract('tdma: sizes 2 to 4', [LM + 'tdma.TDMA'], body_tdma_small,
                 s_tdma, c_tdma, n=(60, 600), min_obligations=9,
                 bounded='n = 2, 3, 4; all coefficient values'),
        Contract('time-centred solver: discretised equation, induction over '
                 'the rows', [ES + '.evolve_envelope'], sym_env(True),
                 min_obligations=20, weak=True),
        Contract('first-order solver: discretised equation, induction over '
                 'the rows', [EN + '.evolve_envelope_non_centered'],
                 sym_env(False), min_obligations=20, weak=True),
        Contract('time-centred solver: small grids',
                 [ES + '.evolve_envelope'], small_env(True),
                 s_env, c_env, n=(150, 3000), min_obligations=30,
                 bounded='nz x nr = 2x3, 3x2; one step'),
        Contract('first-order solver: small grids',
                 [EN + '.evolve_envelope_non_centered'], small_env(False),
                 s_env, c_env, n=(150, 3000), min_obligations=30,
                 bounded='nz x nr = 2x3, 3x2; one step'),
        Contract('phase unwrapping', [LM + 'utils.unwrap'],
                 body_unwrap, s_unwrap, c_unwrap, n=(40, 400),
                 bounded='1 to 3 slices, any phases', weak=True),
    ]
