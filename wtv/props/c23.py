"""openPMD diagnostics: what is written is the state of the simulation."""
import shutil
import tempfile
import types
from .push_common import *
from .. import symarr as SA
from .c16 import close

OD = 'wake_t.diagnostics.openpmd_diag'
OC = OD + '.OpenPMDDiagnostics'
RZ = 'wake_t.fields.rz_wakefield.RZWakefield'
PBN = 'wake_t.particles.particle_bunch.ParticleBunch'
ASSUMPTIONS = ['openPMD-api stores the chunks, constants and attributes it '
               'is given (checked by the run-time contract, which reads the '
               'files back)']


# ------------------------------------------------------- recording back end
class Rec:
    """node of a recorded openPMD tree"""

    def __init__(self):
        o = object.__setattr__
        o(self, 'kids', {})
        o(self, 'attr', {})
        o(self, 'data', [])

    def __getitem__(self, k):
        return self.kids.setdefault(k, Rec())

    def set_attribute(self, k, v):
        self.attr[k] = v

    def __setattr__(self, k, v):
        self.attr[k] = v

    def __getattr__(self, k):
        if k in self.attr:
            return self.attr[k]
        if k in ('particles', 'meshes'):
            return self['/' + k]
        if k.startswith('set_'):
            return lambda *a: self.attr.__setitem__(k[4:], a)
        raise AttributeError(k)

    def reset_dataset(self, d):
        self.data.append(('dataset', d))

    def store_chunk(self, a, *r):
        if r:
            raise Unsupported('partial chunk')
        self.data.append(('chunk', a))

    def make_constant(self, v):
        self.data.append(('const', v))

    def value(self):
        v = [d for d in self.data if d[0] != 'dataset']
        return v[0] if len(v) == 1 else (None, v)


class G2:
    """two-dimensional array given by a function of the indices"""
    dtype = 'float64'

    def __init__(self, n, m, f, cplx=False):
        self.n, self.m, self.f = n, m, f
        self.shape = (n, m)

    @property
    def T(self):
        return G2(self.m, self.n, lambda i, j: self.f(j, i))

    def __getitem__(self, k):
        if not (isinstance(k, tuple) and len(k) == 2 and all(
                isinstance(s, slice) and s.step is None for s in k)):
            raise Unsupported('index of a field')
        o = []
        for s, n in zip(k, self.shape):
            a = 0 if s.start is None else s.start
            b = n if s.stop is None else s.stop
            if isinstance(b, int) and b < 0:
                b = n + b
            if not (isinstance(a, int) and a >= 0):
                raise Unsupported('index of a field')
            o.append((a, b - a))
        (a, n), (b, m) = o
        return G2(n, m, lambda i, j: self.f(i + a, j + b))

    def __mul__(self, c):
        return G2(self.n, self.m, lambda i, j: self.f(i, j) * c)
    __rmul__ = __mul__

    def __neg__(self):
        return self * -1


class NP:
    uint32 = staticmethod(lambda v: v)

    def __getattr__(self, n):
        return getattr(T.np_shim, n)

    def ascontiguousarray(self, a, *r, **k):
        return a

    def array(self, a, *r, **k):
        if isinstance(a, (G2, T.PArray)):
            return a
        return T.np_shim.array(a, *r, **k)
    asarray = array

    def dtype(self, n):
        return n

    def expand_dims(self, a, axis):
        if axis != 0 or not isinstance(a, G2):
            raise Unsupported('expand_dims')
        b = G2(a.n, a.m, a.f)
        b.shape, b.three = (1,) + a.shape, True
        return b

    def abs(self, a):
        if isinstance(a, G2):
            return G2(a.n, a.m, lambda i, j: X.uf('mod', a.f(i, j)))
        return T.np_shim.abs(a)
    absolute = abs

    def angle(self, a):
        return G2(a.n, a.m, lambda i, j: X.uf('arg', a.f(i, j)))


def fake_os():
    made = []
    p = types.SimpleNamespace(
        join=lambda *a: '/'.join(a), exists=lambda a: a in made,
        isdir=lambda a: a in made, abspath=lambda a: a)
    return types.SimpleNamespace(path=p, getcwd=lambda: '/cwd', makedirs=(
        lambda a, *r, **k: made.append(a))), made


def api(M):
    """replace openPMD-api by the recorder"""
    out = []

    class Series(Rec):
        def __init__(self, path, *a, **k):
            Rec.__init__(self)
            o = object.__setattr__
            o(self, 'path', path)
            o(self, 'its', {})
            o(self, 'flushed', [0])
            out.append(self)

        @property
        def iterations(self):
            s = self

            class It:
                def __getitem__(_, k):
                    return s.its.setdefault(k, Rec())
            return It()

        def write_iterations(self):
            return self.iterations

        def flush(self):
            self.flushed[0] += 1

        def close(self):
            self.flushed[0] += 1
    M.Series = Series
    M.Access = types.SimpleNamespace(create='c', create_linear='c')
    M.Dataset = lambda dtype, extent: (dtype, extent)
    M.Unit_Dimension = types.SimpleNamespace(
        L='L', M='M', T='T', I='I', theta='th', N='N', J='J')
    M.Geometry = types.SimpleNamespace(thetaMode='thetaMode',
                                       cylindrical='cyl')
    M.SCALAR = 'SCALAR'
    M.__version__ = '0'
    M.np = NP()
    return out


SP = {'position': dict(x='x', y='y', z='z'),
      'momentum': dict(x='px', y='py', z='pz')}


def body_write(ctx):
    tw = twin(ctx)
    ctx.generic()
    M = tw.load(OD)
    out = api(M)
    M.os, made = fake_os()
    c = R('ct_c', positive=True)
    d = M.OpenPMDDiagnostics('/dir')
    nb = ctx.choose(4, 'bunches')
    dup = nb >= 2 and bool(ctx.choose(2, 'same names'))
    bs, asked = [], []

    def mk(k):
        v = {n: P(R('b%d_%s' % (k, n)), n, True) for n in (
            'x', 'y', 'z', 'px', 'py', 'pz', 'w')}
        v.update(q=R('q%d' % k), m=R('m%d' % k), z_off=R('zoff%d' % k),
                 name='b0' if dup and k == nb - 1 else 'b%d' % k)
        b = types.SimpleNamespace(name=v['name'], v=v)

        def get(t):
            asked.append((b, t))
            return dict(v)
        b.get_openpmd_diagnostics_data = get
        return b
    bs = [mk(k) for k in range(nb)]
    nf = ctx.choose(2, 'fields')
    n, m = I('n_r', positive=True), I('n_z', positive=True)
    grid = dict(spacing=[R('dr'), R('dz')], labels=['r', 'z'],
                global_offset=[R('o_r'), R('o_z')])
    fd = dict(field_solver='fs', field_solver_params='p', field_boundary=1,
              field_boundary_params=2, particle_boundary=3,
              particle_boundary_params=4, current_smoothing=5,
              charge_correction=6, fields=['E', 'rho'],
              E=dict(comps={q: dict(array=G2(n, m, lambda i, j, q=q: X.uf(
                  'E' + q, i, j)), position=[7, 8]) for q in ('r', 'z')},
                  attributes=dict(own=11), grid=grid),
              rho=dict(array=G2(n, m, lambda i, j: X.uf('rho', i, j)),
                       position=[9, 10], attributes={}, grid=grid))
    flds = [types.SimpleNamespace(get_openpmd_diagnostics_data=lambda t: (
        asked.append(('f', t)), fd)[1])] * nf + [types.SimpleNamespace(
            get_openpmd_diagnostics_data=lambda t: None)]
    times = [(R('t0'), R('dt0', positive=True)),
             (R('t1'), R('dt1', positive=True))]
    dist = R('dist')
    z = lift(0)
    for k, (t, dt) in enumerate(times):
        asked[:] = []
        try:
            d.write_diagnostics(t, dt, species_list=list(bs),
                                fields=list(flds))
        except ValueError:
            ctx.prove('only bunches with the same name are rejected',
                      X.boolc(dup))
            ctx.prove('nothing is written for bunches with the same name',
                      X.boolc(not out))
            return
        ctx.prove('bunches with the same name are rejected',
                  X.boolc(not dup))
        ctx.prove('one output per call', X.boolc(len(out) == k + 1))
        s = out[k]
        ctx.prove('output in the given folder', X.boolc(
            s.path.startswith('/dir/')))
        ctx.prove('output is flushed', X.boolc(s.flushed[0] > 0))
        ctx.prove('outputs are numbered from 0', X.boolc(list(s.its) == [k]))
        if list(s.its) != [k]:
            return
        it = s.its[k]
        tg = t + z / c
        ctx.prove_eq('time since the start of the beamline',
                     lift(it.attr['time']), tg)
        ctx.prove_eq('time step', lift(it.attr['dt']), dt)
        for who, ta in asked:
            ctx.prove_eq('data of the time of the output', lift(ta), tg)
        ctx.prove('every bunch and field is asked once', X.boolc(
            len(asked) == nb + nf))
        sp = it['/particles'].kids
        ctx.prove('exactly the bunches are written', X.boolc(
            sorted(sp) == sorted(b.name for b in bs)))
        for b in bs:
            r = sp[b.name]
            for rec, comps in SP.items():
                for cn, key in comps.items():
                    kind, val = r[rec][cn].value()
                    ctx.prove('array of ' + rec, X.boolc(kind == 'chunk'))
                    if kind == 'chunk':
                        ctx.prove_eq('%s %s' % (rec, cn), lift(val.val),
                                     lift(b.v[key].val))
            kind, val = r['weighting']['SCALAR'].value()
            ctx.prove('array of weights', X.boolc(kind == 'chunk'))
            if kind == 'chunk':
                ctx.prove_eq('weights', lift(val.val), lift(b.v['w'].val))
            for rec, key in (('charge', 'q'), ('mass', 'm')):
                kind, val = r[rec]['SCALAR'].value()
                if kind == 'const':
                    ctx.prove_eq(rec, lift(val), b.v[key])
                else:
                    ctx.prove(rec, X.boolc(False))
            for cn, e in (('x', lift(0)), ('y', lift(0)),
                          ('z', b.v['z_off'])):
                kind, val = r['positionOffset'][cn].value()
                if kind == 'const':
                    ctx.prove_eq('offset ' + cn, lift(val), e)
                else:
                    ctx.prove('offset ' + cn, X.boolc(False))
        me = it['/meshes']
        ctx.prove('exactly the meshes are written', X.boolc(
            sorted(me.kids) == (['E', 'rho'] if nf else [])))
        if nf:
            i, j = I('i'), I('j')
            for name, cn, e, pos in (
                    ('E', 'r', X.uf('Er', i, j), [7, 8]),
                    ('E', 'z', X.uf('Ez', i, j), [7, 8]),
                    ('rho', 'SCALAR', X.uf('rho', i, j), [9, 10])):
                kind, val = me[name][cn].value()
                ctx.prove('mesh of mode 0 ' + name, X.boolc(
                    kind == 'chunk' and getattr(val, 'three', False)))
                if kind == 'chunk':
                    ctx.prove_eq('mesh ' + name + cn, val.f(i, j), e)
                    ctx.prove_eq('shape', val.shape[1], n)
                    ctx.prove_eq('shape', val.shape[2], m)
                ctx.prove('position in the cell', X.boolc(
                    me[name][cn].attr.get('position') == pos))
            for name in ('E', 'rho'):
                a = me[name].attr
                for q in range(2):
                    ctx.prove_eq('spacing of the grid',
                                 lift(a['grid_spacing'][q]),
                                 grid['spacing'][q])
                    ctx.prove_eq('offset of the grid',
                                 lift(a['grid_global_offset'][q]),
                                 grid['global_offset'][q])
                ctx.prove('axes', X.boolc(a['axis_labels'] == ['r', 'z'] and
                                          a['geometry'] == 'thetaMode'))
            ctx.prove('own attributes', X.boolc(
                me['E'].attr.get('own') == 11))
            ctx.prove('units of E', X.boolc(
                me['E'].attr['unit_dimension'] == dict(L=1, M=1, T=-3, I=-1)))
            ctx.prove('units of rho', X.boolc(
                me['rho'].attr['unit_dimension'] == dict(L=-3, T=1, I=1)))
        d.increase_z_pos(dist)
        z = z + dist


def body_rz(ctx):
    tw = twin(ctx)
    ctx.generic()
    M = tw.load('wake_t.fields.rz_wakefield')
    M.np = NP()
    o = M.RZWakefield.__new__(M.RZWakefield)
    nx, nr = I('n_xi'), I('n_r')
    ctx.assume(nx >= 2, nr >= 2)
    dr, dxi = R('dr', positive=True), R('dxi', positive=True)
    x0, n_p, l0 = R('xi_min'), R('n_p', positive=True), R('l_0',
                                                        positive=True)
    c, e = R('ct_c', positive=True), R('ct_e', positive=True)
    pi = X.var('pi', positive=True)
    fl = ('e_r', 'e_t', 'e_z', 'b_r', 'b_t', 'b_z', 'rho', 'chi')
    las = bool(ctx.choose(2, 'laser'))
    env = G2(nx, nr, lambda i, j: X.uf('a', i, j))
    laser = types.SimpleNamespace(
        get_envelope=lambda: env, polarization='linear',
        l_0=l0) if las else None
    for n, v in dict(
            {n: G2(nx + 4, nr + 4, lambda i, j, n=n: X.uf(n, i, j))
             for n in fl}, model_name='model', xi_min=x0, n_p=n_p, t=R('t_field'),
            density_function=lambda z: X.uf('density', z),
            xi_max=x0 + (nx - 1) * dxi, r_max=nr * dr, n_xi=nx, n_r=nr,
            dr=dr, dxi=dxi, laser=laser,
            xi_fld=SA.FArr(nx, lambda i: x0 + i * dxi, 'xi', frozen=True),
            r_fld=SA.FArr(nr, lambda i: (i + X.lift(1) / 2) * dr, 'r',
                          frozen=True)).items():
        object.__setattr__(o, n, v)
    t = R('t')
    d = o._get_openpmd_diagnostics_data(t)
    i, j = I('i'), I('j')
    ctx.assume(i >= 0, i < nx, j >= 0, j < nr)
    exp = {('E', q): X.uf('e_' + q, i + 2, j + 2) for q in 'rtz'}
    exp.update({('B', q): X.uf('b_' + q, i + 2, j + 2) for q in 'rtz'})
    exp['rho', None] = -e * n_p * X.uf('rho', i + 2, j + 2)
    if las:
        a = X.uf('a', i, j)
        exp.update({('a', None): a, ('a_mod', None): X.uf('mod', a),
                    ('a_phase', None): X.uf('arg', a)})
    ctx.prove('fields of the output', X.boolc(
        sorted(d['fields']) == sorted({k[0] for k in exp})))
    for (f, q), v in exp.items():
        g = d[f]['comps'][q] if q else d[f]
        ctx.prove_eq('field %s%s at the cell (r, xi)' % (f, q or ''),
                     g['array'].f(j, i), v)
        ctx.prove_eq('radial cells', g['array'].shape[0], nr)
        ctx.prove_eq('longitudinal cells', g['array'].shape[1], nx)
        p = g['position']
        ctx.prove_eq('position in the cell', lift(p[0]), lift(1) / 2)
        ctx.prove_eq('position in the cell', lift(p[1]), lift(0))
        gr = d[f]['grid']
        ctx.prove('axes', X.boolc(list(gr['labels']) == ['r', 'z']))
        for nm, u, w in (('radial spacing', gr['spacing'][0], dr),
                         ('longitudinal spacing', gr['spacing'][1], dxi),
                         ('offset in r', gr['global_offset'][0], 0),
                         ('offset in z', gr['global_offset'][1],
                          t * c + x0)):
            ctx.prove_eq(nm, lift(u), lift(w))
    if las:
        ctx.prove('polarisation', X.boolc(
            d['a_mod']['attributes'].get('polarization') == 'linear'))
        ctx.prove_eq('laser frequency',
                     lift(d['a']['attributes']['angularFrequency']),
                     2 * pi * c / l0)


# ---------------------------------------------------------------- run time
def s_wr(rng):
    return dict(seed=rng.randrange(10**6), later=rng.random() < .5,
                earlier=rng.choice([0, 0, 1, 4]), n=rng.choice([1, 4, 30]),
                nb=rng.choice([1, 1, 2, 3]), g=rng.choice([3., 500.]),
                species=rng.choice(['e', 'p', 'x']), laser=rng.random() < .5,
                nxi=rng.choice([5, 12, 30]), nr=rng.choice([4, 9]),
                steps=rng.choice([1, 2, 3]),
                sub=rng.random() < .3)


def read(f):
    """all datasets, constants and attributes of an HDF5 file"""
    import h5py
    out, at = {}, {}
    with h5py.File(f, 'r') as h:
        def go(n, o):
            at[n] = dict(o.attrs)
            if isinstance(o, h5py.Dataset):
                out[n] = o[()]
            elif 'value' in o.attrs and 'shape' in o.attrs:
                out[n] = o.attrs['value']
        h.visititems(go)
        at[''] = dict(h.attrs)
    return out, at


def c_wr(v):
    tmp = tempfile.mkdtemp(prefix='wtv_c23_')
    try:
        wr(v, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def wr(v, tmp):
    import glob
    import os
    rng = np.random.default_rng(v['seed'])
    diag = real(OC)(os.path.join(tmp, 'd'))
    CFW = real('wake_t.physics_models.plasma_wakefields.qs_cold_fluid_1x3p.'
               'NonLinearColdFluidWakefield')
    L = real('wake_t.physics_models.laser.laser_pulse.GaussianPulse')
    las = L(0., 1., 2e-5, 3e-14, 8e-7) if v['laser'] else None
    d0 = 10**rng.uniform(22, 24)
    slope = rng.uniform(0, 1e4)
    prof = lambda z: d0 * (1 + slope * z)
    x0, x1, rm = -7e-5, 3e-5, 6e-5
    kw = {}
    if v['laser'] and v['sub']:
        kw = dict(laser_envelope_nxi=17)
    w = CFW(prof, rm, x0, x1, v['nr'], v['nxi'], laser=las, **kw)
    bs = []
    for k in range(v['nb']):
        b = mk_bunch(dict(v, species='epx'[(k + 'epx'.index(v['species'])) %
                                           3]), rng)
        b.name = 'bunch %d' % k if k == 1 else 'b%d' % k
        bs.append(b)
    w.update(bs[:1])
    dens = d0
    if v['later']:
        # the plasma of a later position
        w.update(bs[:1])
        dens = prof(w.dt_update * C)
    for a in (w.e_r, w.e_t, w.e_z, w.b_r, w.b_t, w.b_z, w.rho):
        a[:] = rng.normal(size=a.shape)
    other = real('wake_t.fields.analytical_field.AnalyticalField')()
    for k in range(v['earlier']):
        # outputs of an earlier simulation in the same folder
        if not k:
            d = real(OC)(os.path.join(tmp, 'd'))
        d.write_diagnostics(1e-9 * k, 1e-12, [bs[0]], [])
    z = 0.
    log = []
    for k in range(v['steps']):
        t, dt = rng.uniform(0, 1e-10), rng.uniform(1e-15, 1e-12)
        save = [ph(b).copy() for b in bs]
        fs = [other, w] if v['seed'] % 2 else [w, other]
        diag.write_diagnostics(t, dt, bs, fs)
        for b, s in zip(bs, save):
            if not np.array_equal(ph(b), s):
                raise Violation('output changes a bunch', b.name)
        log.append((t, dt, z, save, [a.copy() for a in (
            w.e_r, w.e_t, w.e_z, w.b_r, w.b_t, w.b_z, w.rho)],
            None if las is None else las.get_envelope().copy()))
        for b in bs:
            b.x[:] += 1e-6
            b.pz[:] *= 1.1
        w.e_z *= 2
        d = rng.uniform(0, .1)
        diag.increase_z_pos(d)
        z += d
    files = sorted(glob.glob(os.path.join(tmp, 'd', '**', '*.h5'),
                             recursive=True))
    if len(files) != max(v['steps'], v['earlier']):
        raise Violation('one file per output', '%d files for %d outputs' % (
            len(files), v['steps']))
    for k, (f, (t, dt, z, save, arr, env)) in enumerate(zip(files, log)):
        o, at = read(f)
        base = 'data/%d' % k
        if base not in at:
            raise Violation('outputs are numbered from 0', f)
        tg = t + z / C
        close('time of the output', at[base]['time'] / tg, 1.)
        close('time step', at[base]['dt'] / dt, 1.)
        if at[''].get('meshesPath') != b'fields/':
            pass
        names = {n.split('/')[3] for n in at if n.startswith(
            base + '/particles/')}
        if names != {b.name for b in bs}:
            raise Violation('bunches of the output', repr(names))
        for b, s in zip(bs, save):
            p = base + '/particles/' + b.name + '/'
            mc = b.m_species * C
            for n, e in (('position/x', s[0]), ('position/y', s[1]),
                         ('position/z', s[2]), ('momentum/x', s[3] * mc),
                         ('momentum/y', s[4] * mc),
                         ('momentum/z', s[5] * mc), ('weighting', b.w)):
                g = np.asarray(o[p + n])
                if g.shape != e.shape:
                    raise Violation('size of the bunch', n)
                sc = np.max(np.abs(e))
                close('bunch: ' + n, g / sc, e / sc)
            close('charge of the species', o[p + 'charge'] / b.q_species, 1.)
            close('mass of the species', o[p + 'mass'] / b.m_species, 1.)
            close('offset x', o[p + 'positionOffset/x'], 0.)
            close('offset y', o[p + 'positionOffset/y'], 0.)
            close('offset z', o[p + 'positionOffset/z'] / (tg * C), 1.)
            u = at[p + 'momentum']['unitDimension']
            if list(u) != [1, 1, -1, 0, 0, 0, 0]:
                raise Violation('unit of the momentum', repr(u))
            if list(at[p + 'position']['unitDimension'])[:2] != [1, 0]:
                raise Violation('unit of the position', '')
        q = base + '/fields/'
        dr, dxi = rm / v['nr'], (x1 - x0) / (v['nxi'] - 1)
        exp = dict(zip(('E/r', 'E/t', 'E/z', 'B/r', 'B/t', 'B/z'), [
            a[2:-2, 2:-2].T for a in arr]))
        exp['rho'] = -QM['e'][0] * -1 * dens * arr[6][2:-2, 2:-2].T
        if las is not None:
            exp['a_mod'], exp['a_phase'] = np.abs(env.T), np.angle(env.T)
            exp['a'] = env.T
        for n, e in exp.items():
            if q + n not in o:
                raise Violation('field is missing', n)
            g = o[q + n]
            if g.dtype.names:
                g = g[g.dtype.names[0]] + 1j * g[g.dtype.names[1]]
            if g.shape != (1,) + e.shape:
                raise Violation('shape of the field', n)
            sc = np.max(np.abs(e)) + 1e-30
            for f in (np.real, np.imag):
                close('field ' + n, f(g[0] / sc), f(e / sc))
            m = at[q + n.split('/')[0]]
            close('spacing', np.array(m['gridSpacing']) / [dr, dxi], [1, 1])
            off = np.array(m['gridGlobalOffset'])
            close('offset of the grid', (off - [0, tg * C + x0]) / dxi,
                  [0, 0], 1e-9)
            close('position in the cell', at[q + n]['position'], [.5, 0])
        for n, u in (('E', [1, 1, -3, -1]), ('B', [0, 1, -2, -1]),
                     ('rho', [-3, 0, 1, 1])):
            if list(at[q + n]['unitDimension'])[:4] != u:
                raise Violation('unit of ' + n, repr(
                    at[q + n]['unitDimension']))
        if las is not None:
            close('laser frequency', at[q + 'a']['angularFrequency'] * 8e-7 /
                  (2 * np.pi * C), 1.)
    if len(bs) > 1:
        if v['seed'] % 2:
            bs[1].name = bs[0].name
        else:
            bs.append(bs[0].copy())
        n = len(files)
        try:
            diag.write_diagnostics(0., 1e-12, bs, [])
        except ValueError:
            pass
        else:
            raise Violation('bunches with the same name are rejected', '')
        if len(glob.glob(os.path.join(tmp, 'd', '**', '*.h5'),
                         recursive=True)) != n:
            raise Violation('nothing is written for bunches with the same '
                            'name', '')


def contracts():
    return [
        Contract('output of bunches and fields', [
            OC + '.write_diagnostics', OC + '._write_species',
            OC + '._write_fields', OC + '.increase_z_pos',
            OC + '.check_species_names'], body_write, s_wr, c_wr,
            n=(40, 600), min_obligations=100),
        Contract('data of a wakefield', [
            RZ + '._get_openpmd_diagnostics_data',
            'wake_t.utilities.other.generate_field_diag_dictionary'],
            body_rz, min_obligations=40),
    ]
