"""Analysis of bunches."""
import shutil
import tempfile
import types
from .push_common import *
from .c16 import close

BA = 'wake_t.diagnostics.bunch_analysis'
ASSUMPTIONS = ['aptools.data_analysis.beam_diagnostics computes the '
               'statistics it documents (compared with independent formulas '
               'by the run-time contract)']
KEYS = ['prop_dist', 'theta_x', 'theta_y', 'x_avg', 'y_avg', 'sigma_x',
        'sigma_y', 'sigma_z', 'alpha_x', 'alpha_y', 'beta_x', 'beta_y',
        'gamma_x', 'gamma_y', 'emitt_x', 'emitt_y', 'avg_slice_emitt_x',
        'avg_slice_emitt_y', 'avg_ene', 'rel_ene_spread',
        'avg_slice_rel_ene_spread', 'i_peak', 'q_tot']


def val(a):
    return lift(a.val if isinstance(a, T.PArray) else a)


def bd_stub(opts):
    """aptools.beam_diagnostics: uninterpreted functions of the quantities
    that its functions use; arguments bound by name"""
    def u(n, *a):
        return X.uf('bd_' + n, *[X.norm(val(q)) for q in a])

    def e2(*p):
        return sum((val(a)**2 for a in p), lift(0))

    def wt(w):
        # averages do not depend on the scale of the weights
        w = X.norm(val(w))
        return R('w', positive=True) if X.same(
            w, X.norm(R('w', positive=True) * R('q'))) else w

    def sl(n_slices, len_slice):
        opts.append((n_slices, len_slice))

    def twiss_parameters(x, px, pz, py=None, w=None):
        return tuple(u('twiss%d' % k, x, px, pz, wt(w)) for k in range(3))

    def mean_energy(px, py, pz, w=None):
        return u('ene', e2(px, py, pz), wt(w))

    def relative_rms_energy_spread(px, py, pz, w=None):
        return u('spread', e2(px, py, pz), wt(w))

    def relative_rms_slice_energy_spread(z, px, py, pz, w=None, n_slices=10,
                                         len_slice=None):
        sl(n_slices, len_slice)
        return [None] * 3 + [u('sl_spread', z, e2(px, py, pz), wt(w))]

    def normalized_transverse_rms_emittance(x, px, py=None, pz=None, w=None):
        return u('emitt', x, px, wt(w))

    def normalized_transverse_rms_slice_emittance(
            z, x, px, py=None, pz=None, w=None, n_slices=10, len_slice=None):
        sl(n_slices, len_slice)
        return [None] * 3 + [u('sl_emitt', z, x, px, wt(w))]

    def rms_length(z, w=None):
        return u('rms', z, wt(w))

    def rms_size(x, w=None):
        return u('rms', x, wt(w))

    def peak_current(z, q, n_slices=10, len_slice=None):
        sl(n_slices, len_slice)
        return u('peak', z, q)
    return types.SimpleNamespace(**{k: f for k, f in locals().items()
                                    if callable(f) and k not in ('u', 'sl', 'e2', 'wt')})


def body(ctx):
    tw = twin(ctx)
    M = tw.load(BA)
    opts = []
    M.bd = B = bd_stub(opts)
    b, v = sym_bunch(ctx, tw, prop_distance=R('prop'))
    ns, ls = R('n_slices'), R('len_slice')
    given = ctx.choose(2, 'options')
    d = M.analyze_bunch(b, **(dict(n_slices=ns, len_slice=ls) if given
                              else {}))
    for a, l in opts:
        if given:
            ctx.prove_eq('number of slices', lift(a), ns)
            ctx.prove('length of the slices', X.boolc(l is ls))
        else:
            ctx.prove_eq('number of slices', lift(a), lift(50))
            ctx.prove('length of the slices', X.boolc(l is None))
    q = val(b.w) * lift(b.q_species)
    x, y, z, px, py, pz = [v[n] for n in BN]
    mean = lambda a: T.agg('mean', P(a), P(q))
    e = B.mean_energy(px, py, pz, q)
    em = B.normalized_transverse_rms_emittance
    sle = B.normalized_transverse_rms_slice_emittance
    exp = dict(
        prop_dist=R('prop'), theta_x=mean(px) / e, theta_y=mean(py) / e,
        x_avg=mean(x), y_avg=mean(y), sigma_x=B.rms_size(x, q),
        sigma_y=B.rms_size(y, q), sigma_z=B.rms_length(z, q), avg_ene=e,
        emitt_x=em(x, px, py, pz, q), emitt_y=em(y, py, px, pz, q),
        avg_slice_emitt_x=sle(z, x, px, py, pz, q)[3],
        avg_slice_emitt_y=sle(z, y, py, px, pz, q)[3],
        rel_ene_spread=B.relative_rms_energy_spread(px, py, pz, q),
        avg_slice_rel_ene_spread=B.relative_rms_slice_energy_spread(
            z, px, py, pz, q)[3],
        i_peak=B.peak_current(z, q), q_tot=T.agg('sum', P(q)))
    tx = B.twiss_parameters(x, px, pz, py, q)
    ty = B.twiss_parameters(y, py, pz, px, q)
    for k, n in enumerate(('alpha', 'beta', 'gamma')):
        exp[n + '_x'], exp[n + '_y'] = tx[k], ty[k]
    ctx.prove('parameters', X.boolc(sorted(d) == sorted(KEYS)))
    for k, w in exp.items():
        if k in d:
            ctx.prove_eq('parameter ' + k, val(d[k]), w)


# ---------------------------------------------------------------- run time
def sample(rng):
    return dict(seed=rng.randrange(10**6), n=rng.choice([200, 500]),
                g=rng.choice([50., 1000.]), nb=rng.choice([1, 2, 4]),
                species=rng.choice(['e', 'p', 'x']),
                ns=rng.choice([None, 1, 4, 20]))


def stats(b, ns):
    w = b.w / b.w.sum()
    av = lambda a: np.sum(w * a)
    sd = lambda a: np.sqrt(av((a - av(a))**2))
    g = np.sqrt(1 + b.px**2 + b.py**2 + b.pz**2)
    o = dict(prop_dist=b.prop_distance, x_avg=av(b.x), y_avg=av(b.y),
             sigma_x=sd(b.x), sigma_y=sd(b.y), sigma_z=sd(b.xi),
             avg_ene=av(g), rel_ene_spread=sd(g) / av(g),
             theta_x=av(b.px) / av(g), theta_y=av(b.py) / av(g),
             q_tot=np.sum(b.w) * b.q_species)
    for n, x, p in (('x', b.x, b.px), ('y', b.y, b.py)):
        c = np.cov(x, p, aweights=b.w)
        o['emitt_' + n] = np.sqrt(c[0, 0] * c[1, 1] - c[0, 1]**2)
        s = p / b.pz
        c = np.cov(x, s, aweights=b.w)
        e = np.sqrt(c[0, 0] * c[1, 1] - c[0, 1]**2)
        bias = av((x - av(x))**2) / c[0, 0]
        o['beta_' + n] = bias * c[0, 0] / e
        o['alpha_' + n] = -bias * c[0, 1] / e
        o['gamma_' + n] = (1 + o['alpha_' + n]**2) / o['beta_' + n]
    h, ed = np.histogram(b.xi, bins=ns, weights=b.w * b.q_species)
    o['i_peak'] = np.max(np.abs(h)) / (ed[1] - ed[0]) * C
    return o


def conc(v):
    import os
    rng = np.random.default_rng(v['seed'])
    bs = []
    for k in range(v['nb']):
        b = mk_bunch(v, rng, prop_distance=rng.uniform(0, 1))
        # different planes, correlated, off axis
        b.y = b.y * 3 + 2e-5
        b.px = b.px + rng.uniform(-1, 1) + b.x * 1e5
        b.py = b.py * 1.7 - 2 - b.y * 5e4
        b.pz = np.abs(b.pz) + 5
        bs.append(b)
    kw = {} if v['ns'] is None else dict(n_slices=v['ns'])
    ns = v['ns'] or 50
    save = [ph(b).copy() for b in bs]
    one = [real(BA + '.analyze_bunch')(b, **kw) for b in bs]
    lst = real(BA + '.analyze_bunch_list')(bs, **kw)
    for b, s in zip(bs, save):
        if not np.array_equal(ph(b), s):
            raise Violation('analysis changes the bunch', '')
    for k, (b, d) in enumerate(zip(bs, one)):
        if sorted(d) != sorted(KEYS):
            raise Violation('parameters', repr(sorted(d)))
        e = stats(b, ns)
        for n, x in e.items():
            tol = 2e-3 if n[:5] in ('emitt', 'alpha', 'beta_', 'gamma') \
                else 1e-6
            if not np.isfinite(d[n]) or not np.isfinite(x):
                continue
            sc = abs(x) + 1e-9 * (abs(x) > 1) + (
                1. if n.startswith('alpha') else 0) + 1e-300
            if n.endswith('_avg'):
                sc += 1e-6
            if n.startswith('theta'):
                sc += 1.
            close('parameter ' + n, d[n] / sc, x / sc, tol)
        for n in KEYS:
            a, c = lst[n][k], d[n]
            if not (a == c or (np.isnan(a) and np.isnan(c))):
                raise Violation('list and single bunch agree on ' + n,
                                '%r %r' % (a, c))
    tmp = tempfile.mkdtemp(prefix='wtv_c25_')
    try:
        for n, d in (('one', one[0]), ('lst', lst), ('one', lst),
                     ('lst', {k: lst[k] for k in KEYS[:3]})):
            real(BA + '.save_parameters_to_file')(
                d, os.path.join(tmp, 'sub'), n)
            r = real(BA + '.read_parameters_from_file')(
                os.path.join(tmp, 'sub', n + '.h5'))
            if sorted(r) != sorted(d):
                raise Violation('parameters of the file', repr(sorted(r)))
            for k in d:
                if not np.array_equal(np.asarray(d[k]), np.asarray(r[k]),
                                      equal_nan=True):
                    raise Violation('parameter of the file: ' + k, '')
        import h5py
        b = bs[0]
        real(BA + '.save_bunch_to_file')(b, os.path.join(tmp, 's2'), 'b')
        with h5py.File(os.path.join(tmp, 's2', 'b.h5'), 'r') as h:
            for n in BN + ['q']:
                if not np.array_equal(h[n][()], getattr(b, n)):
                    raise Violation('saved ' + n, '')
            if h.attrs['prop_dist'] != b.prop_distance:
                raise Violation('saved propagation distance', '')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def contracts():
    return [
        Contract('parameters of a bunch', [
            BA + '.analyze_bunch', BA + '._get_distribution_parameters',
            BA + '._store_bunch_parameters_into_dict'], body, sample, conc,
            n=(60, 800), min_obligations=40),
    ]
