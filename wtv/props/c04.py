from ..util import *
import numpy as np

ASSUMPTIONS = ['grid arrays carry two guard cells on every side',
               'the first radial grid point is half a cell off axis',
               'z_max and r_max are the positions of the last grid points']
MOD = 'wake_t.particles.interpolation.'
HALF = None


def grid_setup(ctx, rc_lo=True):
    tw = twin(ctx)
    ctx.generic()
    dr, dz = R('dr', positive=True), R('dz', positive=True)
    zmin = R('z_min')
    nz, nr = I('nz', positive=True), I('nr', positive=True)
    ctx.assume(nz >= 2, nr >= 2)
    rc, zc = R('rc'), R('zc')
    ctx.assume(rc >= T.xdiv(-1, 2))
    g = dict(tw=tw, dr=dr, dz=dz, zmin=zmin, nz=nz, nr=nr, rc=rc, zc=zc)
    g['rmin'] = T.xdiv(dr, 2)
    g['rmax'] = T.xdiv(dr, 2) + (nr - 1) * dr
    g['zmax'] = zmin + (nz - 1) * dz
    g['rad'] = dr * (rc + T.xdiv(1, 2))
    g['inside'] = (zc >= 0) & (zc <= nz - 1) & (rc <= nr - 1)
    g['shape'] = (nz + 4, nr + 4)
    return g


def bilin(ctx, name, zc, rc, sign):
    """Specification: bilinear interpolation of the grid `name` mirrored
    about the axis with the given parity (value at -r is sign*value(r))."""
    ctx.quiet += 1
    jz = X.floor(zc)
    jr = X.floor(rc)
    fz, fr = zc - jz, rc - jr
    A = lambda i, j: X.uf('A_' + name, i + 2, j + 2)
    if bool(jr < 0):
        lo = lambda i: sign * A(i, lift(0))
    else:
        lo = lambda i: A(i, jr)
    up = lambda i: A(i, jr + 1)
    v = (1 - fr) * ((1 - fz) * lo(jz) + fz * lo(jz + 1)) + \
        fr * ((1 - fz) * up(jz) + fz * up(jz + 1))
    ctx.quiet -= 1
    return v


def body_main(ctx):
    g = grid_setup(ctx)
    ux, uy = R('ux'), R('uy')
    X.set_square(uy, 1 - ux * ux)
    ctx.root_hints.append(g['rad'])
    x, y = P(g['rad'] * ux, 'x', True), P(g['rad'] * uy, 'y', True)
    z = P(g['zmin'] + g['dz'] * g['zc'], 'z', True)
    er, ez, bt = [T.GridIn(n, g['shape']) for n in ('er', 'ez', 'bt')]
    names = ['ex', 'ey', 'ez_p', 'bx', 'by', 'bz']
    old = [R(n + '0') for n in names]
    outs = [P(o, n) for o, n in zip(old, names)]
    f = g['tw'].get(MOD + 'gather_main_fields_cyl_linear')
    onaxis = bool(X.eq(g['rc'], lift(T.xdiv(-1, 2))))
    f(er, ez, bt, g['zmin'], g['zmax'], g['rmin'], g['rmax'], g['dz'],
      g['dr'], x, y, z, *outs)
    d = [o.val - v for o, v in zip(outs, old)]
    if bool(g['inside']):
        Er = bilin(ctx, 'er', g['zc'], g['rc'], -1)
        Bt = bilin(ctx, 'bt', g['zc'], g['rc'], -1)
        Ez = bilin(ctx, 'ez', g['zc'], g['rc'], 1)
        ctx.prove_eq('Ez is the bilinear interpolation', d[2], Ez)
        if onaxis:
            for k in (0, 1, 3, 4):
                ctx.prove_eq('no transverse force on axis', d[k], lift(0))
        else:
            ctx.prove_eq('Ex = Er x/r', d[0], Er * ux)
            ctx.prove_eq('Ey = Er y/r', d[1], Er * uy)
            ctx.prove_eq('Bx = -Bt y/r', d[3], -Bt * uy)
            ctx.prove_eq('By = Bt x/r', d[4], Bt * ux)
        ctx.prove_eq('Bz is not changed', d[5], lift(0))
    else:
        for k in range(6):
            ctx.prove_eq('fields vanish outside the grid', d[k], lift(0))


def body_scalar(ctx):
    g = grid_setup(ctx)
    ux, uy = R('ux'), R('uy')
    X.set_square(uy, 1 - ux * ux)
    ctx.root_hints.append(g['rad'])
    x, y = P(g['rad'] * ux, 'x', True), P(g['rad'] * uy, 'y', True)
    z = P(g['zmin'] + g['dz'] * g['zc'], 'z', True)
    fld = T.GridIn('fld', g['shape'])
    f = g['tw'].get(MOD + 'gather_field_cyl_linear')
    out = f(fld, g['zmin'], g['zmax'], g['rmin'], g['rmax'], g['dz'],
            g['dr'], x, y, z)
    if bool(g['inside']):
        ctx.prove_eq('value is the bilinear interpolation', out.val,
                     bilin(ctx, 'fld', g['zc'], g['rc'], 1))
    else:
        ctx.prove_eq('zero outside the grid', out.val, lift(0))


def body_sources(ctx):
    g = grid_setup(ctx)
    r = P(g['rad'], 'r', True)
    z = g['zmin'] + g['dz'] * g['zc']
    fl = [T.GridIn(n, g['shape']) for n in ('a2', 'nabla', 'b0')]
    old = [R('o%d' % i) for i in range(3)]
    outs = [P(o, 'out') for o in old]
    f = g['tw'].get(MOD + 'gather_sources_qs_baxevanis')
    f(*fl, g['zmin'], g['zmax'], g['rmin'], g['rmax'], g['dz'], g['dr'],
      r, z, *outs)
    if bool(g['inside']):
        for n, s, o in zip(('a2', 'nabla', 'b0'), (1, -1, -1), outs):
            ctx.prove_eq('%s source is the bilinear interpolation' % n,
                         o.val, bilin(ctx, n, g['zc'], g['rc'], s))
    else:
        # known finding (see KNOWN_FINDINGS.txt): the values of the previous
        # position are kept
        for n, o, v in zip(('a2', 'nabla', 'b0'), outs, old):
            if not X.same(o.val, v):
                ctx.prove_eq('no %s source outside of the grid' % n, o.val,
                             lift(0))


# ------------------------------------------------------------ run time
def sample(rng):
    nz, nr = rng.choice([2, 3, 5, 9]), rng.choice([2, 3, 6, 8])
    n = rng.choice([1, 2, 4])
    ex = rng.random() < .5
    return dict(
        nz=nz, nr=nr, dz=rng.choice([.25, 1.]) if ex else rng.uniform(.1, 2),
        dr=rng.choice([.25, 1.]) if ex else rng.uniform(.1, 2),
        z_min=float(rng.randint(-3, 3)) if ex else rng.uniform(-3, 3),
        zc=[edge_uniform(rng, 0, nz - 1, nz) for _ in range(n)],
        rc=[max(-.5, edge_uniform(rng, -.5, nr - 1, nr)) for _ in range(n)],
        th=[rng.uniform(0, 6.28) for _ in range(n)],
        seed=rng.randint(0, 10**6))


def from_model(env, rng):
    v = sample(rng)
    v['nz'] = max(2, min(200, int(env.get('nz', v['nz']))))
    v['nr'] = max(2, min(200, int(env.get('nr', v['nr']))))
    v['zc'] = [float(env.get('zc', v['zc'][0]))]
    v['rc'] = [max(-.5, float(env.get('rc', v['rc'][0])))]
    v['th'] = v['th'][:1]
    v['dz'], v['dr'], v['z_min'] = .25, .5, -1.
    if 'ux' in env and abs(env['ux']) <= 1:
        v['th'] = [math.acos(env['ux'])]
    return v


def prep(v):
    nz, nr, dz, dr = v['nz'], v['nr'], v['dz'], v['dr']
    zc, rc = np.array(v['zc'], float), np.maximum(np.array(v['rc']), -.5)
    if not ((dz * 4).is_integer() and (dr * 4).is_integer()
            and float(v['z_min']).is_integer()):
        zc = np.where(np.abs(zc) < 1e-9, 1e-9, zc)
        zc = np.where(np.abs(zc - nz + 1) < 1e-9, nz - 1 - 1e-9, zc)
        rc = np.where(np.abs(rc - nr + 1) < 1e-9, nr - 1 - 1e-9, rc)
        rad = (rc + .5) * dr
        ux, uy = np.cos(v['th']), np.sin(v['th'])
    else:
        rad = (rc + .5) * dr
        th = np.array(v['th'])
        ux = np.where(th < 1.5, 1., np.where(th < 3, 0., np.where(
            th < 4.5, -1., 0.)))
        uy = np.where(th < 1.5, 0., np.where(th < 3, 1., np.where(
            th < 4.5, 0., -1.)))
    x, y = rad * ux, rad * uy
    z = v['z_min'] + zc * dz
    inside = (zc >= 0) & (zc <= nz - 1) & (rc <= nr - 1)
    rng = np.random.default_rng(v['seed'])
    return nz, nr, dz, dr, zc, rc, ux, uy, x, y, z, inside, rng


def ref(fld, zc, rc, sign):
    """bilinear interpolation of fld (with guards), parity sign"""
    out = []
    for a, b in zip(zc, rc):
        i, j = int(np.floor(a)), int(np.floor(b))
        fz, fr = a - i, b - j

        def val(ii, jj):
            return sign * fld[ii + 2, 2] if jj < 0 else fld[ii + 2, jj + 2]
        out.append((1 - fr) * ((1 - fz) * val(i, j) + fz * val(i + 1, j)) +
                   fr * ((1 - fz) * val(i, j + 1) + fz * val(i + 1, j + 1)))
    return np.array(out)


def phys(rng, nz, nr):
    g = np.zeros((nz + 4, nr + 4))
    g[2:-2, 2:-2] = rng.normal(size=(nz, nr))
    return g


def conc_main(v):
    nz, nr, dz, dr, zc, rc, ux, uy, x, y, z, ins, rng = prep(v)
    er, ez, bt = [phys(rng, nz, nr) for _ in range(3)]
    n = len(x)
    old = [rng.normal(size=n) for _ in range(6)]
    out = [o.copy() for o in old]
    f = real(MOD + 'gather_main_fields_cyl_linear')
    f(er.copy(), ez.copy(), bt.copy(), v['z_min'], v['z_min'] + (nz - 1) * dz,
      dr / 2, dr / 2 + (nr - 1) * dr, dz, dr, x.copy(), y.copy(), z.copy(),
      *out)
    d = [a - b for a, b in zip(out, old)]
    zz, rr = np.where(ins, zc, 0), np.where(ins, rc, 0)
    Er, Bt = ref(er, zz, rr, -1), ref(bt, zz, rr, -1)
    Ez = ref(ez, zz, rr, 1)
    ax = rc == -.5
    ux, uy = np.where(ax, 0, ux), np.where(ax, 0, uy)
    exp = [Er * ux, Er * uy, Ez, -Bt * uy, Bt * ux, 0 * Ez]
    for a, b, nm in zip(d, exp, ('Ex', 'Ey', 'Ez', 'Bx', 'By', 'Bz')):
        approx(a, np.where(ins, b, 0), rtol=1e-6, atol=2e-6,
               what='gathered %s' % nm)


def conc_scalar(v):
    nz, nr, dz, dr, zc, rc, ux, uy, x, y, z, ins, rng = prep(v)
    fld = phys(rng, nz, nr)
    f = real(MOD + 'gather_field_cyl_linear')
    o = f(fld, v['z_min'], v['z_min'] + (nz - 1) * dz, dr / 2,
          dr / 2 + (nr - 1) * dr, dz, dr, x, y, z)
    e = np.where(ins, ref(fld, np.where(ins, zc, 0), np.where(ins, rc, 0),
                          1), 0)
    approx(o, e, atol=2e-6, what='gathered field')


def conc_sources(v):
    nz, nr, dz, dr, zc, rc, ux, uy, x, y, z, ins, rng = prep(v)
    fl = [phys(rng, nz, nr) for _ in range(3)]
    f = real(MOD + 'gather_sources_qs_baxevanis')
    zz = z[0]
    rad = (rc + .5) * dr
    ok = (0 <= zc[0] <= nz - 1) & (rc <= nr - 1)
    out = [np.full(len(rc), 7.25) for _ in range(3)]
    f(*fl, v['z_min'], v['z_min'] + (nz - 1) * dz, dr / 2,
      dr / 2 + (nr - 1) * dr, dz, dr, rad, zz, *out)
    for g, s, o, nm in zip(fl, (1, -1, -1), out, ('a2', 'nabla_a2', 'b0')):
        if ok.any():
            e = ref(g, np.full(ok.sum(), zc[0]), rc[ok], s)
            approx(o[ok], e, atol=2e-6, what='gathered ' + nm)
    stale = False
    for o, nm in zip(out, ('a2', 'nabla_a2', 'b0')):
        for x in o[~np.broadcast_to(ok, o.shape)]:
            if x == 7.25:
                stale = True
            elif x != 0:
                raise Violation('no %s source outside of the grid' % nm,
                                repr(x))
    if stale:
        raise Known('stale-sources', 'no source outside of the grid',
                    'the value gathered at a previous position is kept')


def conc_wakefield(v):
    """The same through a wakefield object: field values on the grid nodes
    are reproduced at the node positions; zero outside."""
    W = real('wake_t.fields.rz_wakefield.RZWakefield')
    nz, nr = v['nz'] + 1, v['nr'] + 1

    class Fld(W):
        def _calculate_wakefield(self, bunches):
            r = np.random.default_rng(v['seed'])
            for a in (self.e_r, self.e_z, self.b_t):
                a[2:-2, 2:-2] = r.normal(size=(self.n_xi, self.n_r))
    rmax, ximin = v['dr'] * nr, v['z_min']
    ximax = ximin + v['dz'] * (nz - 1)
    w = Fld(lambda z: 1e23, rmax, ximin, ximax, nr, nz)
    w.update([])
    rng = np.random.default_rng(v['seed'] + 1)
    n = 12
    zc = rng.uniform(-1, nz, n)
    rc = rng.uniform(-.5, nr + 1, n)
    th = rng.uniform(0, 6.28, n)
    rad = (rc + .5) * w.dr
    ins = (zc >= 0) & (zc <= nz - 1) & (rc <= nr - 1)
    out = [np.zeros(n) for _ in range(6)]
    w.gather(rad * np.cos(th), rad * np.sin(th), ximin + zc * w.dxi, 0.,
             *out)
    zz, rr = np.where(ins, zc, 0), np.where(ins, rc, 0)
    Er, Bt = ref(w.e_r, zz, rr, -1), ref(w.b_t, zz, rr, -1)
    Ez = ref(w.e_z, zz, rr, 1)
    c, s = np.cos(th), np.sin(th)
    for a, b, nm in zip(out, (Er * c, Er * s, Ez, -Bt * s, Bt * c, 0 * Ez),
                        ('Ex', 'Ey', 'Ez', 'Bx', 'By', 'Bz')):
        approx(a, np.where(ins, b, 0), atol=1e-6, what='wakefield ' + nm)


def contracts():
    return [
        Contract('gather of the main fields', [
            MOD + 'gather_main_fields_cyl_linear'], body_main, sample,
            conc_main, n=(150, 2000), from_model=from_model, check_div=True),
        Contract('gather of a scalar field', [
            MOD + 'gather_field_cyl_linear'], body_scalar, sample,
            conc_scalar, n=(150, 2000), from_model=from_model,
            check_div=True),
        Contract('gather of plasma source terms', [
            MOD + 'gather_sources_qs_baxevanis'], body_sources, sample,
            conc_sources, n=(150, 2000), from_model=from_model,
            check_div=True),
        Contract('gather through a wakefield object', [
            'wake_t.fields.rz_wakefield.RZWakefield._gather',
            'wake_t.fields.numerical_field.NumericalField.gather'], None,
            sample, conc_wakefield, n=(20, 200),
            bounded='sampled grids and positions'),
    ]
