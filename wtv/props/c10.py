"""Transfer maps: symplectic, composing, exact limits."""
from ..util import *
import numpy as np
from fractions import Fraction

ASSUMPTIONS = ['reference gamma > 1',
               'second order maps: at the resonance k1 = -h^2/5 or at a '
               'relative distance above 1e-8 of it']
MOD = 'wake_t.physics_models.beam_optics.transfer_matrices.'


def form():
    S = np.zeros((6, 6), dtype=object)
    for i, s in ((0, 1), (2, 1), (4, -1)):
        S[i, i + 1], S[i + 1, i] = s, -s
    return S


CASES = ['drift', 'dipole', 'x focusing', 'y focusing', 'strong dipole, k1<0',
         'k1 = -h^2', 'k1 = -h^2/5']


def motion(h, k1, k2, b, ig2):
    """Linear and quadratic part (A, B) of the equations of motion
    z' = A z + B z z of the element, from its Hamiltonian
    H = pt/b - (1 + h x) (sqrt(1 + 2 pt/b + pt^2 - px^2 - py^2) + A_s)
    expanded to third order; b: velocity, ig2: 1/gamma^2 of the reference.
    d/ds is (+dH/dp, -dH/dq) in x and y, (-dH/dpt, 0) in the last plane.
    Works for numbers and for expressions."""
    f = Fraction
    ib = 1 / b
    H = {}

    def t(c, *v):
        k = tuple(sorted(v))
        H[k] = H.get(k, 0) + c
    x, px, y, py, _, pt = range(6)
    # second order
    t((k1 + h * h) * f(1, 2), x, x)
    t(-k1 * f(1, 2), y, y)
    t(f(1, 2), px, px)
    t(f(1, 2), py, py)
    t(ig2 * ib * ib * f(1, 2), pt, pt)
    t(-h * ib, x, pt)
    # third order: expansion of the root
    for p in (px, py):
        t(-ib * f(1, 2), pt, p, p)
        t(h * f(1, 2), x, p, p)
    t(ib * f(1, 2) - ib**3 * f(1, 2), pt, pt, pt)
    t(h * ig2 * ib * ib * f(1, 2), x, pt, pt)
    # field expansion in the curved frame
    t((k2 + 2 * h * k1) * f(1, 6), x, x, x)
    t(-(k2 + h * k1) * f(1, 2), x, y, y)
    A = np.zeros((6, 6), dtype=object)
    B = np.zeros((6, 6, 6), dtype=object)
    for row, q, s in ((0, 1, 1), (1, 0, -1), (2, 3, 1), (3, 2, -1),
                      (4, 5, -1)):
        for k, c in H.items():
            n = k.count(q)
            if not n:
                continue
            r = list(k)
            r.remove(q)
            if len(r) == 1:
                A[row, r[0]] = A[row, r[0]] + s * n * c
            else:
                i, j = r
                B[row, i, j] = B[row, i, j] + s * n * c * f(1, 2)
                B[row, j, i] = B[row, j, i] + s * n * c * f(1, 2)
    return A, B


def setup(ctx, case):
    """element parameters of one sign class of (kx^2, ky^2)"""
    L, g = R('L', positive=True), R('gamma', positive=True)
    ctx.assume(L > 0, g > 1)
    h = R('h')
    if case == 0:
        h, k1 = lift(0), lift(0)
    elif case == 1:
        h, k1 = R('h', positive=True), lift(0)
        ctx.assume(h > 0)
        h = [h, -h][ctx.choose(2, 'bending direction')]
    elif case == 2:
        k1 = R('k1', positive=True)
        ctx.assume(k1 > 0)
    elif case == 3:
        k1 = -R('mk1', positive=True)
        ctx.assume(k1 + h * h < 0, k1 < 0)
    elif case == 4:
        k1 = -R('mk1', positive=True)
        ctx.assume(k1 + h * h > 0, k1 < 0)
    elif case == 5:
        h = R('h', positive=True)
        k1 = -h * h
        ctx.assume(h > 0)
        h = [h, -h][ctx.choose(2, 'bending direction')]
    else:
        # kx = 2 ky
        q = R('q', positive=True)
        ctx.assume(q > 0)
        k1 = -q * q
        h = X.sqrt(lift(5)) * q
        h = [h, -h][ctx.choose(2, 'bending direction')]
    return L, g, h, k1


def trig(k2, z):
    """C and S of x'' = -k2 x (independent of the code under test)"""
    s = ctxsign(k2)
    if s == 0:
        return lift(1), z
    if s > 0:
        k = X.sqrt(k2)
        return X.cos(k * z), T.xdiv(X.sin(k * z), k)
    k = X.sqrt(-k2)
    return X.cosh(k * z), T.xdiv(X.sinh(k * z), k)


def ctxsign(k2):
    k2 = lift(k2)
    if X.const_of(X.norm(k2)) == 0:
        return 0
    if bool(k2 > 0):
        return 1
    if bool(k2 < 0):
        return -1
    return 0


def prove_mat(ctx, name, A, B):
    for i in range(A.shape[0]):
        for j in range(A.shape[1]):
            ctx.prove_eq('%s [%d,%d]' % (name, i + 1, j + 1), lift(A[i, j]),
                         lift(B[i, j]))


def body_first(ctx):
    tw = twin(ctx)
    f = tw.get(MOD + 'first_order_matrix')
    case = ctx.choose(len(CASES), 'element')
    L, g, h, k1 = setup(ctx, case)
    z1, z2 = R('z1', positive=True), R('z2', positive=True)
    M = lambda z: np.array(f(z, L, h * L, k1, g), dtype=object)
    M1, M2 = M(z1), M(z2)
    prove_mat(ctx, 'the map is symplectic', M1.T.dot(form()).dot(M1), form())
    prove_mat(ctx, 'maps compose', M2.dot(M1), M(z1 + z2))
    prove_mat(ctx, 'zero length is the identity', M(lift(0)),
              np.eye(6, dtype=int).astype(object))
    Cx, Sx = trig(k1 + h * h, z1)
    Cy, Sy = trig(-k1, z1)
    b = X.sqrt(1 - T.xdiv(1, g * g))
    kx2 = k1 + h * h
    for nm, got, exp in (
            ('x|x', M1[0, 0], Cx), ("x|x'", M1[0, 1], Sx),
            ("x'|x", M1[1, 0], -kx2 * Sx), ('y|y', M1[2, 2], Cy),
            ("y|y'", M1[2, 3], Sy), ("y'|y", M1[3, 2], k1 * Sy),
            ('angular dispersion', M1[1, 5], T.xdiv(h * Sx, b))):
        ctx.prove_eq('equation of motion: ' + nm, lift(got), lift(exp))
    if ctxsign(kx2) != 0:
        ctx.prove_eq('dispersion', lift(M1[0, 5]) * b * kx2, h * (1 - Cx))
        ctx.prove_eq('longitudinal dispersion', lift(M1[4, 5]) * b * b,
                     T.xdiv(h * h * (z1 - Sx), kx2) - T.xdiv(z1, g * g))
    else:
        ctx.prove_eq('dispersion', lift(M1[0, 5]) * b * 2, h * z1 * z1)
        ctx.prove_eq('longitudinal dispersion', lift(M1[4, 5]) * b * b,
                     T.xdiv(h * h * z1**3, 6) - T.xdiv(z1, g * g))


def symT(Tm):
    o = np.zeros((6, 6, 6), dtype=object)
    for i in range(6):
        for j in range(6):
            for k in range(6):
                o[i, j, k] = (lift(Tm[i, j, k]) + lift(Tm[i, k, j])) * \
                    Fraction(1, 2)
    return o


def mk_second(case, part):
    def body(ctx):
        tw = twin(ctx)
        f1 = tw.get(MOD + 'first_order_matrix')
        f2 = tw.get(MOD + 'second_order_matrix')
        L, g, h, k1 = setup(ctx, case)
        k2 = R('k2')
        if case not in (0, 6):
            d, e = 5 * k1 + h * h, Fraction(1, 10**7)
            ctx.assume(d * d > e * e * (k1 + h * h)**2)
        M = lambda z: np.array(f1(z, L, h * L, k1, g), dtype=object)
        TT = lambda z: symT(np.array(f2(z, L, h * L, k1, k2, g),
                                     dtype=object))
        z1 = R('z1', positive=True)
        if part == 0:
            R1, T1 = M(z1), TT(z1)
            S = form()
            for k in range(6):
                A = R1.T.dot(S).dot(T1[:, :, k])
                for i in range(6):
                    for j in range(i + 1, 6):
                        ctx.prove_eq('second order symplectic [%d%d%d]' % (
                            i + 1, j + 1, k + 1), lift(A[i, j]),
                            lift(A[j, i]))
            T0 = TT(lift(0))
            for i in range(6):
                for j in range(6):
                    for k in range(j, 6):
                        ctx.prove_eq('no second order term at zero length',
                                     lift(T0[i, j, k]), lift(0))
            return
        if part == 2:
            ig2 = T.xdiv(1, g * g)
            A, B = motion(h, k1, k2, X.sqrt(1 - ig2), ig2)
            R1, T1 = M(z1), TT(z1)
            memo = {}
            for i in range(6):
                for j in range(6):
                    ctx.prove_eq('equation of motion [%d%d]' % (
                        i + 1, j + 1), X.diff(R1[i, j], z1, memo),
                        sum((A[i, l] * R1[l, j] for l in range(6)), lift(0)))
                    for k in range(j, 6):
                        s = lift(0)
                        for l in range(6):
                            s = s + A[i, l] * T1[l, j, k]
                            for m in range(6):
                                if isinstance(B[i, l, m], int):
                                    continue
                                s = s + B[i, l, m] * R1[l, j] * R1[m, k]
                        ctx.prove_eq('equation of motion [%d%d%d]' % (
                            i + 1, j + 1, k + 1),
                            X.diff(T1[i, j, k], z1, memo), s)
            return
        z2 = R('z2', positive=True)
        R1, R2, T1, T2, T12 = M(z1), M(z2), TT(z1), TT(z2), TT(z1 + z2)
        for i in range(6):
            for j in range(6):
                for k in range(j, 6):
                    s = lift(0)
                    for l in range(6):
                        s = s + R2[i, l] * T1[l, j, k]
                        for m in range(6):
                            if X.const_of(lift(T2[i, l, m])) == 0:
                                continue
                            s = s + T2[i, l, m] * R1[l, j] * R1[m, k]
                    ctx.prove_eq('second order maps compose [%d%d%d]' % (
                        i + 1, j + 1, k + 1), s, lift(T12[i, j, k]))
    return body


def body_track(ctx):
    """the map applied to a bunch is R x + T x x"""
    tw = twin(ctx)
    mod = tw.load('wake_t.particles.push.transfer_matrix')
    ctx.generic()
    A = np.array([[R('R%d%d' % (i, j)) for j in range(6)]
                  for i in range(6)], dtype=object)
    # the matrix holds both orders of a product of coordinates in one entry
    Q = np.array([[[R('T%d%d%d' % (i, j, k)) if j <= k else lift(0)
                    for k in range(6)] for j in range(6)]
                  for i in range(6)], dtype=object)
    args = [R(n) for n in ('z', 'L', 'theta', 'k1', 'gamma')]
    seen = []

    def fo(z, L, theta, k1, gamma_ref):
        seen.append((z, L, theta, k1, gamma_ref))
        return A

    def so(z, L, theta, k1, k2, gamma_ref):
        seen.append((z, L, theta, k1, gamma_ref))
        ctx.prove_eq('sextupole strength passed', lift(k2), R('k2'))
        return Q
    if not hasattr(mod, 'first_order_matrix') or \
            not hasattr(mod, 'second_order_matrix'):
        raise Unsupported('matrix functions not found')
    mod.first_order_matrix, mod.second_order_matrix = fo, so
    x = [R('b%d' % i) for i in range(6)]
    bm = T.PRows([P(v, 'row', True) for v in x])
    order = [1, 2][ctx.choose(2, 'order')]
    o = mod.track_with_transfer_map(bm, args[0], args[1], args[2], args[3],
                                    R('k2'), args[4], order=order)
    for s in seen:
        for a, b in zip(s, args):
            ctx.prove_eq('matrices of the requested element', lift(a), b)
    for i in range(6):
        e = sum((A[i, j] * x[j] for j in range(6)), lift(0))
        if order == 2:
            e = e + sum((Q[i, j, k] * x[j] * x[k] for j in range(6)
                         for k in range(6)), lift(0))
        ctx.prove_eq('mapped coordinate %d' % (i + 1), o[i].val, e)


# ------------------------------------------------------------------ run time
def sample(rng):
    return dict(L=rng.choice([.1, .5, 1., 2.]),
                theta=rng.choice([0., 0., .1, -.3, .8, rng.uniform(-1, 1)]),
                k1=rng.choice([0., 0., 1., -1., 4., -.3,
                               rng.uniform(-6, 6)]),
                k1h=rng.random() < .1, k1r=rng.random() < .1,
                k2=rng.choice([0., 0., 3., -20., rng.uniform(-9, 9)]),
                g=rng.choice([1.05, 2., 10., 500.]),
                f=rng.uniform(.1, .9), seed=rng.randint(0, 9999))


def conc(v):
    F1, F2 = real(MOD + 'first_order_matrix'), \
        real(MOD + 'second_order_matrix')
    L, th, k1, k2, g = (v[k] for k in ('L', 'theta', 'k1', 'k2', 'g'))
    if v.get('k1h'):
        # exact in floating point, however h**2 is written
        L, th = max(L, .5), round(th * 8) / 8
    h = th / L
    if v.get('k1h'):
        k1 = -h * h
    if v.get('k1r'):
        k1 = -h * h / 5
    elif abs(5 * k1 + h * h) < 1e-2 and abs(h) > 1e-6:
        raise Skip('cancellation near the resonance')
    kx2 = k1 + h * h
    if 0 < abs(kx2) < 1e-2 or 0 < abs(k1) < 1e-3:
        raise Skip('cancellation')
    S = form().astype(float)
    z1 = v['f'] * L
    z2 = L - z1
    M = lambda z: np.array(F1(z, L, th, k1, g), dtype=float)

    def TT(z):
        t = np.array(F2(z, L, th, k1, k2, g), dtype=float)
        return (t + t.transpose(0, 2, 1)) / 2
    R1, R2, R12 = M(z1), M(z2), M(L)
    T1, T2, T12 = TT(z1), TT(z2), TT(L)
    sc = max(1., np.abs(R12).max(), np.abs(R1).max())**2
    tl = 1e-9 * sc
    approx(R1.T @ S @ R1, S, atol=tl, what='symplectic map')
    approx(R2 @ R1, R12, atol=tl, what='composition of maps')
    approx(M(0.), np.eye(6), atol=1e-14, what='map of zero length')
    kx, ky = np.sqrt(kx2 + 0j), np.sqrt(-k1 + 0j)
    b = np.sqrt(1 - 1 / g**2)
    Sx = (np.sin(kx * z1) / kx).real if kx2 else z1
    Sy = (np.sin(ky * z1) / ky).real if k1 else z1
    Dx = h * (1 - np.cos(kx * z1).real) / kx2 if kx2 else h * z1**2 / 2
    I = h * h * (z1 - Sx) / kx2 if kx2 else h * h * z1**3 / 6
    E = np.zeros((6, 6))
    E[0, :2] = np.cos(kx * z1).real, Sx
    E[1, :2] = -kx2 * Sx, np.cos(kx * z1).real
    E[2, 2:4] = np.cos(ky * z1).real, Sy
    E[3, 2:4] = k1 * Sy, np.cos(ky * z1).real
    E[0, 5] = E[4, 1] = Dx / b
    E[1, 5] = E[4, 0] = h * Sx / b
    E[4, 4] = E[5, 5] = 1
    E[4, 5] = I / b**2 - z1 / (b * g)**2
    approx(R1, E, rtol=1e-9, atol=tl, what='first order map')
    ts = max(1., np.abs(T12).max(), np.abs(T1).max(), np.abs(T2).max()) * sc
    tt = 1e-7 * ts
    for k in range(6):
        A = R1.T @ S @ T1[:, :, k]
        approx(A, A.T, atol=tt, what='second order symplecticity')
    c = np.einsum('il,ljk->ijk', R2, T1) + np.einsum(
        'ilm,lj,mk->ijk', T2, R1, R1)
    approx(c, T12, atol=tt, what='composition of second order maps')
    A, B = (np.array(a, dtype=float) for a in motion(
        h, k1, k2, b, 1 / g**2))
    W, Q = np.eye(6), np.zeros((6, 6, 6))

    def rhs(W, Q):
        return A @ W, np.einsum('il,ljk->ijk', A, Q) + np.einsum(
            'ilm,lj,mk->ijk', B, W, W)
    n = 150
    d = z1 / n
    for _ in range(n):
        a1, b1 = rhs(W, Q)
        a2, b2 = rhs(W + d / 2 * a1, Q + d / 2 * b1)
        a3, b3 = rhs(W + d / 2 * a2, Q + d / 2 * b2)
        a4, b4 = rhs(W + d * a3, Q + d * b3)
        W = W + d / 6 * (a1 + 2 * a2 + 2 * a3 + a4)
        Q = Q + d / 6 * (b1 + 2 * b2 + 2 * b3 + b4)
    approx(R1, W, atol=1e-6 * sc, what='first order equation of motion')
    approx(T1, Q, atol=1e-6 * ts, what='second order equation of motion')
    approx(TT(0.), np.zeros((6, 6, 6)), atol=1e-14,
           what='second order map of zero length')
    tm = real('wake_t.particles.push.transfer_matrix.'
              'track_with_transfer_map')
    rng = np.random.default_rng(v['seed'])
    x = rng.normal(size=(6, 5)) * 1e-2
    x0 = x.copy()
    o = tm(x, z1, L, th, k1, k2, g, order=2)
    approx(o, R1 @ x + np.einsum('ijk,jn,kn->in', T1, x, x), rtol=1e-9,
           atol=1e-12, what='map applied to particles')
    approx(tm(x, z1, L, th, k1, k2, g, order=1), R1 @ x, rtol=1e-9,
           atol=1e-13, what='first order map applied to particles')
    approx(x, x0, what='input of the map')


def contracts():
    c = [Contract('first order map', [MOD + 'first_order_matrix'],
                  body_first, sample, conc, n=(150, 3000),
                  min_obligations=500)]
    for k, n in enumerate(CASES):
        c.append(Contract('second order symplectic, ' + n,
                          [MOD + 'second_order_matrix'], mk_second(k, 0), sample, conc, n=(20, 200),
                          min_obligations=90))
        c.append(Contract('second order composition, ' + n,
                          [MOD + 'second_order_matrix'], mk_second(k, 1), sample, conc, n=(20, 200),
                          min_obligations=100))
        c.append(Contract('second order equation of motion, ' + n,
                          [MOD + 'first_order_matrix',
                           MOD + 'second_order_matrix'], mk_second(k, 2),
                          sample, conc, n=(20, 200), min_obligations=100))
    c.append(Contract('map applied to a bunch', [
        'wake_t.particles.push.transfer_matrix.track_with_transfer_map'],
        body_track, min_obligations=12))
    return c
