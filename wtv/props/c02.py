from fractions import Fraction
from .deposit_common import *

ASSUMPTIONS = ['grid has at least 3 cells along each direction',
               'the first radial grid point is half a cell off axis']
FN = ['wake_t.particles.deposition.deposit_3d_distribution',
      'wake_t.particles.deposition.deposit_3d_distribution_%s']


def mk(p_shape, ruyten):
    supp = 1 if p_shape == 'linear' else 2
    half = supp - 1      # cells next to an edge where weights are folded

    def body(ctx):
        d = setup_beam(ctx, p_shape, ruyten)
        if not bool(d['inside']):
            return
        log = d['arr'].log
        rc, zc, w, nz, nr = d['rc'], d['zc'], d['w'], d['nz'], d['nr']
        for (i, j), v in log:
            if X.const_of(v) == 0:
                continue
            # support: |cell - position| <= supp
            near = X.and_(X.le(i - 2 - zc, lift(supp)),
                          X.le(zc - (i - 2), lift(supp)),
                          X.le(j - 2 - rc, lift(supp)),
                          X.le(rc - (j - 2), lift(supp)))
            ctx.prove('weight only in cells within the shape width',
                      X.or_(near, X.eq(v, lift(0))))
        mz = sum(((i - 2) * v for (i, j), v in log), lift(0))
        mr = sum(((j - 2) * v for (i, j), v in log), lift(0))
        zin = (zc >= half) & (zc <= nz - 1 - half)
        if bool(zin):
            ctx.prove_eq('longitudinal centroid is kept', mz, w * zc)
        rin = (rc >= half) & (rc <= nr - 1 - half)
        if not ruyten and bool(rin):
            ctx.prove_eq('radial centroid is kept', mr, w * rc)
        if p_shape == 'linear' and not ruyten:
            for (i, j), v in log:
                ctx.prove('weights have the sign of the particle weight',
                          X.implies(w >= 0, v >= 0))

    def concrete(v):
        for k in range(len(v['zc'])):
            u = dict(v)
            for q in ('zc', 'rc', 'th', 'w'):
                u[q] = [v[q][k]]
            g, inside, w, zc, rc = run_beam(u)
            nz, nr = u['nz'], u['nr']
            if not inside[0]:
                continue
            sc = abs(w[0]) + 1e-30
            iz, ir = np.meshgrid(np.arange(nz + 4) - 2, np.arange(nr + 4) - 2,
                                 indexing='ij')
            far = (np.abs(iz - zc[0]) > supp + 1e-6) | (
                np.abs(ir - rc[0]) > supp + 1e-6)
            approx(np.abs(g[far]).sum(), 0., atol=1e-7 * sc,
                   what='weight outside the shape width')
            if half <= zc[0] <= nz - 1 - half:
                approx((g * iz).sum(), w[0] * zc[0], rtol=1e-6,
                       atol=1e-6 * sc, what='longitudinal centroid')
            if not u['ruyten'] and half <= rc[0] <= nr - 1 - half:
                approx((g * ir).sum(), w[0] * rc[0], rtol=1e-6,
                       atol=1e-6 * sc, what='radial centroid')

    return Contract(
        'beam deposition is local, keeps the centroid (%s%s)' % (
            p_shape, ', Ruyten' if ruyten else ''),
        [f % p_shape if '%' in f else f for f in FN], body,
        lambda rng: sample_beam(rng, p_shape, ruyten), concrete,
        n=(120, 2000), from_model=model_beam(p_shape, ruyten), timeout=10000)


def contracts():
    return [mk(s, r) for s in ('linear', 'cubic') for r in (False, True)]


# ---------------------------------------------------- uniform distribution
def integrate(e, u, lo, hi):
    """exact integral of a polynomial in the variable u"""
    n, den = X.rat(X.norm(e))
    a = X.atom(u)
    for f, _p in den:
        if any(a == q for m in dict(f) for q, _ in m):
            raise Unsupported('integrand is not a polynomial')
    tot = lift(0)
    for m, c in n.items():
        d = dict(m)
        p = d.pop(a, 0)
        k = T.xdiv(T.xpow(lift(hi), p + 1) - T.xpow(lift(lo), p + 1), p + 1)
        tot = tot + X.from_poly({tuple(sorted(d.items())): c}) * k
    return X.norm(tot * X.from_rat((X.p_const(Fraction(1)), den)))


def mk_uniform(p_shape):
    supp = 1 if p_shape == 'linear' else 2

    def body(ctx):
        tw = twin(ctx)
        ctx.generic()
        dr, dz = R('dr', positive=True), R('dz', positive=True)
        zmin = R('z_min')
        nz, nr = I('nz', positive=True), I('nr', positive=True)
        case = ctx.choose(4, 'cell')
        if case < 3:
            j = lift(case)
            ctx.assume(nr >= 8)
        else:
            j = I('j')
            ctx.assume(j >= 3, j <= nr - (1 if p_shape == 'linear' else 3))
        ctx.assume(nz >= 8)
        u = R('u')
        ctx.assume(u > 0, u < 1)
        X.set_unit(u)
        f = tw.get('wake_t.particles.deposition.deposit_3d_distribution')
        half = T.xdiv(1, 2)
        tot = lift(0)
        for d in range(-supp, supp):
            b = j + d
            lo, hi = lift(0), lift(1)
            k = X.const_of(b)
            if k is not None and k < -1:
                continue
            if k == -1:
                lo = half
                ctx.assume(u > half)
            elif case == 3 and bool(b >= nr - 1):
                if bool(b > nr - 1):
                    continue
                hi = half
                ctx.assume(u < half)
            rc = b + u
            rad = dr * (rc + half)
            ctx.root_hints.append(rad)
            arr = T.GridAccum('grid', (nz + 4, nr + 4))
            f(P(zmin + dz * 4, 'z', True), P(rad, 'x', True),
              P(lift(0), 'y', True), P(rc + half, 'w', True), zmin,
              T.xdiv(dr, 2), nz, nr, dz, dr, arr, p_shape=p_shape,
              use_ruyten=True)
            v = lift(0)
            for (iz, ir), q in arr.log:
                dlt = X.const_of(ir - 2 - j)
                if dlt is None:
                    raise Unsupported('cell index')
                if dlt == 0:
                    v = v + q
            tot = tot + integrate(v, u, lo, hi)
            # the next interval starts from a fresh u
            u = R('u%d' % (d + supp))
            ctx.assume(u > 0, u < 1)
            X.set_unit(u)
        ctx.prove_eq('a uniform distribution fills the ring cell with its '
                     'exact charge', tot, j + half)

    def sample(rng):
        return dict(nr=rng.choice([4, 6, 9, 14]), dr=rng.choice([.5, 1., .3]),
                    nz=6, n=400)

    def conc(v):
        f = real('wake_t.particles.deposition.deposit_3d_distribution')
        nr, dr, nz = v['nr'], v['dr'], v['nz']
        # Gauss-Legendre positions per half cell: exact for these shapes
        x, w = np.polynomial.legendre.leggauss(6)
        rc = np.concatenate([(k + (x + 1) / 2) * .5 - .5
                             for k in range(2 * nr)])
        wt = np.tile(w / 4, 2 * nr) * (rc + .5)
        g = np.zeros((nz + 4, nr + 4))
        f(np.full(rc.size, .5 * 3), (rc + .5) * dr, np.zeros(rc.size),
          wt.copy(), 0., dr / 2, nz, nr, .5, dr, g, p_shape=p_shape,
          use_ruyten=True)
        s = g.sum(0)[2:-2]
        last = None if p_shape == 'linear' else -2
        approx(s[:last], (np.arange(nr) + .5)[:last], rtol=1e-6,
               what='charge of the ring cells')
    return Contract('corrected shape is exact for a uniform beam (%s)' %
                    p_shape, [f % p_shape if '%' in f else f for f in FN],
                    body, sample, conc, n=(6, 20))


_base = contracts


def contracts():
    return _base() + [mk_uniform('linear'), mk_uniform('cubic')]
