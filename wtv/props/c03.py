from .deposit_common import *

ASSUMPTIONS = ['grid has at least 3 cells along each direction',
               'the first radial grid point is half a cell off axis',
               'plasma particle radii are non-negative']
MOD = 'wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis.deposition.'


def mk(p_shape):
    supp = 1 if p_shape == 'linear' else 2
    half = supp - 1

    def body(ctx):
        tw = twin(ctx)
        ctx.generic()
        dr, dz = R('dr', positive=True), R('dz', positive=True)
        zmin = R('z_min')
        nz, nr, sl = I('nz', positive=True), I('nr', positive=True), \
            I('slice', nonneg=True)
        ctx.assume(nz >= 3, nr >= 3, sl >= 0, sl <= nz - 1)
        rc, w = R('rc'), R('w')
        ctx.assume(rc >= T.xdiv(-1, 2))
        r = P(dr * (rc + T.xdiv(1, 2)), 'r', True)
        q = P(w, 'w', True)
        arr = T.GridAccum('grid', (nz + 4, nr + 4))
        f = tw.get(MOD + 'deposit_plasma_particles')
        f(sl, r, q, zmin, T.xdiv(dr, 2), nz, nr, dz, dr, arr,
          p_shape=p_shape)
        log = arr.log
        tot = sum((v for _, v in log), lift(0))
        for (i, j), v in log:
            if X.const_of(v) == 0:
                continue
            ok = X.and_(X.le(lift(2), i), X.lt(i, nz + 2),
                        X.le(lift(2), j), X.lt(j, nr + 2),
                        X.le(i - 2 - sl, lift(half)),
                        X.le(sl - (i - 2), lift(half)),
                        X.le(j - 2 - rc, lift(supp)),
                        X.le(rc - (j - 2), lift(supp)))
            ctx.prove('weight only in physical cells near the particle',
                      X.or_(ok, X.eq(v, lift(0))))
        if bool(rc + T.xdiv(1, 2) <= nr):
            ctx.prove_eq('particle inside deposits its full weight', tot, w)
            mr = sum(((j - 2) * v for (i, j), v in log), lift(0))
            if bool((rc >= half) & (rc <= nr - 1 - half)):
                ctx.prove_eq('radial centroid is kept', mr, w * rc)
            mz = sum(((i - 2) * v for (i, j), v in log), lift(0))
            if bool((sl >= half) & (sl <= nz - 1 - half)):
                ctx.prove_eq('longitudinal centroid is kept', mz, w * sl)
        else:
            ctx.prove('particle outside deposits nothing', X.boolc(
                all(X.const_of(v) == 0 for _, v in log)))
        no_race(ctx, tw)

    def sample(rng):
        nz, nr = rng.choice([3, 4, 7]), rng.choice([3, 4, 6, 11])
        n = rng.choice([1, 3])
        ex = rng.random() < .5
        return dict(nz=nz, nr=nr, slice=rng.choice(
            [0, 1, nz // 2, nz - 2, nz - 1]),
            dr=rng.choice([.25, .5, 1.]) if ex else rng.uniform(.2, 2),
            dz=rng.uniform(.2, 2), z_min=rng.uniform(-2, 2),
            rc=[max(-.5, edge_uniform(rng, -.5, nr - .5, nr))
                for _ in range(n)], w=[rng.uniform(-1, 2) for _ in range(n)])

    def from_model(env, rng):
        v = sample(rng)
        v['nz'] = max(3, min(300, int(env.get('nz', v['nz']))))
        v['nr'] = max(3, min(300, int(env.get('nr', v['nr']))))
        v['slice'] = max(0, min(v['nz'] - 1,
                                int(env.get('slice', v['slice']))))
        v['rc'], v['w'] = [float(env.get('rc', 1.))], [1.]
        v['dr'] = .5
        return v

    def concrete(v):
        f = real(MOD + 'deposit_plasma_particles')
        nz, nr, dr = v['nz'], v['nr'], v['dr']
        for k in range(len(v['rc']) + 1):
            s = slice(None) if k == len(v['rc']) else slice(k, k + 1)
            rc = np.array(v['rc'])[s]
            if not (dr * 4).is_integer():
                rc = np.where(np.abs(rc - (nr - .5)) < 1e-9,
                              nr - .5 - 1e-9, rc)
            w = np.array(v['w'])[s]
            r = (rc + .5) * dr
            g = np.zeros((nz + 4, nr + 4))
            f(v['slice'], r.copy(), w.copy(), v['z_min'], dr / 2, nz, nr,
              v['dz'], dr, g, p_shape=p_shape)
            ins = rc <= nr - .5
            sc = np.abs(w).sum() + 1e-30
            approx(g[2:-2, 2:-2].sum(), w[ins].sum(), atol=1e-7 * sc,
                   what='deposited weight')
            h = g.copy()
            h[2:-2, 2:-2] = 0
            approx(np.abs(h).sum(), 0, atol=1e-7 * sc, what='guard cells')
            if k < len(v['rc']) and ins[0]:
                iz, ir = np.meshgrid(np.arange(nz + 4) - 2,
                                     np.arange(nr + 4) - 2, indexing='ij')
                far = (np.abs(iz - v['slice']) > half + 1e-6) | (
                    np.abs(ir - rc[0]) > supp + 1e-6)
                approx(np.abs(g[far]).sum(), 0., atol=1e-7 * sc,
                       what='weight far from the particle')
                if half <= rc[0] <= nr - 1 - half:
                    approx((g * ir).sum(), w[0] * rc[0], atol=1e-6 * sc,
                           what='radial centroid')

    return Contract('plasma column deposition conserves weight (%s)' %
                    p_shape,
                    [MOD + 'deposit_plasma_particles',
                     MOD + 'deposit_plasma_particles_' + p_shape], body,
                    sample, concrete, n=(150, 2000), from_model=from_model)


def contracts():
    return [mk('linear'), mk('cubic')]
