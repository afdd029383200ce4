from .deposit_common import *

ASSUMPTIONS = ['grid has at least 3 cells along each direction',
               'the first radial grid point is half a cell off axis']
FN = ['wake_t.particles.deposition.deposit_3d_distribution',
      'wake_t.particles.deposition.deposit_3d_distribution_%s']


def mk(p_shape, ruyten):
    def body(ctx):
        d = setup_beam(ctx, p_shape, ruyten)
        tot = lift(0)
        for (i, j), v in d['arr'].log:
            tot = tot + v
            c = X.const_of(v)
            if c == 0:
                continue
            ok = X.and_(X.le(lift(2), i), X.lt(i, d['nz'] + 2),
                        X.le(lift(2), j), X.lt(j, d['nr'] + 2))
            ctx.prove('weight only in physical cells',
                      X.or_(ok, X.eq(v, lift(0))))
        if bool(d['inside']):
            ctx.prove_eq('particle inside the grid deposits its full weight',
                         tot, d['w'])
        else:
            ctx.prove_eq('particle outside the grid deposits nothing',
                         tot, lift(0))
            ctx.prove('no store for a particle outside',
                      X.boolc(all(X.const_of(v) == 0
                                  for _, v in d['arr'].log)))
        no_race(ctx, d['tw'])

    def concrete(v):
        g, inside, w, zc, rc = run_beam(v)
        tot = float(w[inside].sum())
        sc = np.abs(w).sum() + 1e-30
        approx(g[2:-2, 2:-2].sum(), tot, atol=1e-7 * sc,
               what='deposited weight')
        h = g.copy()
        h[2:-2, 2:-2] = 0
        approx(np.abs(h).sum(), 0., atol=1e-7 * sc, what='guard cells')
        if v['pre'] and not inside.any():
            approx(np.abs(g).sum(), 0., atol=1e-12, what='grid change')

    return Contract(
        'beam deposition conserves weight (%s%s)' % (
            p_shape, ', Ruyten' if ruyten else ''),
        [f % p_shape if '%' in f else f for f in FN], body,
        lambda rng: sample_beam(rng, p_shape, ruyten), concrete,
        n=(120, 2000), from_model=model_beam(p_shape, ruyten), timeout=10000)


def contracts():
    return [mk(s, r) for s in ('linear', 'cubic') for r in (False, True)]
