from ..util import *
import numpy as np


def setup_beam(ctx, p_shape, ruyten):
    tw = twin(ctx)
    ctx.generic()
    dr, dz = R('dr', positive=True), R('dz', positive=True)
    zmin = R('z_min')
    nz, nr = I('nz', positive=True), I('nr', positive=True)
    lo = 3
    ctx.assume(nz >= lo, nr >= lo)
    rc, zc, w = R('rc'), R('zc'), R('w')
    ux, uy = R('ux'), R('uy')
    X.set_square(uy, 1 - ux * ux)
    ctx.assume(rc >= T.xdiv(-1, 2))
    rad = dr * (rc + T.xdiv(1, 2))
    ctx.root_hints.append(rad)
    x, y, z = P(rad * ux, 'x', True), P(rad * uy, 'y', True), \
        P(zmin + dz * zc, 'z', True)
    q = P(w, 'w', True)
    arr = T.GridAccum('grid', (nz + 4, nr + 4))
    f = tw.get('wake_t.particles.deposition.deposit_3d_distribution')
    f(z, x, y, q, zmin, T.xdiv(dr, 2), nz, nr, dz, dr, arr,
      p_shape=p_shape, use_ruyten=ruyten)
    inside = (zc >= 0) & (zc <= nz - 1) & (rc + T.xdiv(1, 2) <= nr)
    return dict(tw=tw, arr=arr, w=w, rc=rc, zc=zc, nz=nz, nr=nr,
                inside=inside, dr=dr, dz=dz)


def sample_beam(rng, p_shape, ruyten):
    nz = rng.choice([3, 4, 5, 8, 13])
    nr = rng.choice([3, 4, 6, 9, 15])
    n = rng.choice([1, 1, 2, 5])
    ex = rng.random() < .5
    return dict(p_shape=p_shape, ruyten=ruyten, nz=nz, nr=nr,
                dz=rng.choice([.25, .5, 1., 2.]) if ex
                else rng.uniform(.2, 3),
                dr=rng.choice([.25, .5, 1., 2.]) if ex
                else rng.uniform(.2, 3),
                z_min=float(rng.randint(-5, 5)) if ex
                else rng.uniform(-5, 5),
                zc=[edge_uniform(rng, 0, nz - 1, nz) for _ in range(n)],
                rc=[max(-.5, edge_uniform(rng, -.5, nr - .5, nr))
                    for _ in range(n)],
                th=[rng.uniform(0, 6.283) for _ in range(n)],
                w=[rng.uniform(-2, 3) for _ in range(n)],
                pre=rng.random() < .4)


def model_beam(p_shape, ruyten):
    def f(env, rng):
        v = sample_beam(rng, p_shape, ruyten)
        v['nz'] = max(3, min(int(env.get('nz', v['nz'])), 400))
        v['nr'] = max(3, min(int(env.get('nr', v['nr'])), 400))
        v['zc'] = [float(env.get('zc', v['zc'][0]))]
        v['rc'] = [float(env.get('rc', v['rc'][0]))]
        v['w'] = [1.0]
        v['dz'], v['dr'], v['z_min'] = .5, .5, -3.
        v['th'] = v['th'][:1]
        return v
    return f


def run_beam(v):
    """-> (grid after - grid before, inside flags). Positions within
    rounding distance of the domain edge are nudged inwards/outwards."""
    f = real('wake_t.particles.deposition.deposit_3d_distribution')
    nz, nr, dz, dr = v['nz'], v['nr'], v['dz'], v['dr']
    zc, rc = np.array(v['zc']), np.array(v['rc'])
    rc = np.maximum(rc, -.5)
    eps = 1e-9
    if not (v['dz'] * 4).is_integer() or not (v['dr'] * 4).is_integer():
        # rounding decides on which side of the edge these fall: move off it
        zc = np.where(np.abs(zc) < eps, eps, zc)
        zc = np.where(np.abs(zc - (nz - 1)) < eps, nz - 1 - eps, zc)
        rc = np.where(np.abs(rc - (nr - .5)) < eps, nr - .5 - eps, rc)
        rad = (rc + .5) * dr
        x, y = rad * np.cos(v['th']), rad * np.sin(v['th'])
    else:
        rad = (rc + .5) * dr
        x = np.where(np.array(v['th']) < 3, rad, 0)
        y = np.where(np.array(v['th']) < 3, 0, -rad)
    z = v['z_min'] + zc * dz
    w = np.array(v['w'], dtype=float)
    inside = (zc >= 0) & (zc <= nz - 1) & (rc <= nr - .5)
    g = np.zeros((nz + 4, nr + 4))
    if v['pre']:
        g[2:-2, 2:-2] = 0.25
    g0 = g.copy()
    args = [z.copy(), x.copy(), y.copy(), w.copy()]
    f(args[0], args[1], args[2], args[3], v['z_min'], dr / 2, nz, nr, dz, dr,
      g, p_shape=v['p_shape'], use_ruyten=v['ruyten'])
    for a, b, nm in zip(args, (z, x, y, w), 'zxyw'):
        if not np.array_equal(a, b):
            raise Violation('input array %s was modified' % nm)
    return g - g0, inside, w, zc, rc
