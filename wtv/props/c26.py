"""Beamlines and field elements: composition of elements."""
import contextlib
import io
import shutil
import tempfile
import types
from .push_common import *
from .c16 import close
from .c23 import read

BL = 'wake_t.beamline_elements.beamline.Beamline'
FE = 'wake_t.beamline_elements.field_element.FieldElement'
TM = 'wake_t.beamline_elements.tm_elements.'
OC = 'wake_t.diagnostics.openpmd_diag.OpenPMDDiagnostics'
ASSUMPTIONS = ['the elements by their contracts (C07, C11, C22)']


def body_line(ctx):
    tw = twin(ctx)
    M = tw.load('wake_t.beamline_elements.beamline')
    made = []

    class Diag:
        def __init__(self, write_dir=None):
            self.dir = write_dir
            made.append(self)
    M.OpenPMDDiagnostics = Diag
    log = []

    class El:
        def __init__(self, k, n):
            self.k, self.n = k, n

        def track(self, bunches=[], opmd_diag=False, diag_dir=None,
                  show_progress_bar=True):
            log.append((self.k, bunches, opmd_diag, show_progress_bar))
            return ['%s_%d' % (self.k, i) for i in range(self.n)]
    n = ctx.choose(4, 'elements')
    els = [El('e%d' % k, ctx.choose(3, 'outputs')) for k in range(n)]
    if n > 1 and ctx.choose(2, 'element twice'):
        els[-1] = els[0]
    line = M.Beamline(list(els))
    kind = ctx.choose(3, 'diagnostics')
    own = Diag('own')
    made[:] = []
    bun = object()
    bar = bool(ctx.choose(2, 'bar'))
    out = line.track(bun, opmd_diag=(False, True, own)[kind],
                     diag_dir='folder', show_progress_bar=bar)
    ctx.prove('every element is tracked once, in order', X.boolc(
        [l[0] for l in log] == [e.k for e in els]))
    ctx.prove('the same bunches go through all elements', X.boolc(
        all(l[1] is bun for l in log)))
    ctx.prove('progress bar as requested', X.boolc(
        all(l[3] is bar for l in log)))
    ctx.prove('outputs of all elements in order', X.boolc(
        list(out) == ['%s_%d' % (e.k, i) for e in els for i in range(e.n)]))
    if kind == 0:
        ctx.prove('no diagnostics', X.boolc(
            not made and all(not l[2] for l in log)))
    elif kind == 1:
        ctx.prove('one set of diagnostics for the beamline', X.boolc(
            not n or (len(made) == 1 and made[0].dir == 'folder' and all(
                l[2] is made[0] for l in log))))
    else:
        ctx.prove('the given diagnostics are used', X.boolc(
            not made and all(l[2] is own for l in log)))
    ctx.prove('elements unchanged', X.boolc(line.elements == els))


def body_element(ctx):
    tw = twin(ctx)
    M = tw.load('wake_t.beamline_elements.field_element')
    L, c = R('length', positive=True), R('ct_c', positive=True)
    made, log = [], []

    class Diag:
        def __init__(self, write_dir=None):
            self.dir = write_dir
            made.append(self)
    M.OpenPMDDiagnostics = Diag

    class Tr:
        def __init__(self, **k):
            log.append(k)
            self.k = k

        def do_tracking(self):
            return [[('out', b, i) for i in range(3)]
                    for b in self.k['bunches']]
    M.Tracker = Tr
    nb = ctx.choose(4, 'bunches')
    bs = [object() for _ in range(nb)]
    single = nb == 1 and bool(ctx.choose(2, 'not a list'))
    nd = ctx.choose(5, 'time steps')
    dts = R('dt') if nd == 0 else ('auto' if nd == 1 else [
        R('dt%d' % k) for k in range(nd)])
    flds = [object(), object()]
    auto = object()
    el = M.FieldElement(L, dts, bunch_pusher='pusher', n_out=5, name='nm',
                        fields=flds, auto_dt_bunch=auto,
                        push_bunches_before_diags='p')
    kind = ctx.choose(3, 'diagnostics')
    own = Diag('own')
    made[:] = []
    bad = isinstance(dts, list) and len(dts) != nb
    for rep in range(2):
        log[:] = []
        made[:] = []
        try:
            out = el.track(bs[0] if single else list(bs), opmd_diag=(
                False, True, own)[kind], diag_dir='folder',
                show_progress_bar='b')
        except ValueError:
            ctx.prove('only a wrong number of time steps is rejected',
                      X.boolc(bad))
            return
        ctx.prove('a wrong number of time steps is rejected',
                  X.boolc(not bad))
        k = log[0]
        ctx.prove('one tracking', X.boolc(len(log) == 1))
        ctx.prove_eq('the bunch travels the length of the element',
                     lift(k['t_final']) * c, L)
        ctx.prove('bunches', X.boolc(list(k['bunches']) == bs))
        ctx.prove('one time step per bunch', X.boolc(
            len(k['dt_bunches']) == nb and all(
                a is (dts[i] if isinstance(dts, list) else dts)
                for i, a in enumerate(k['dt_bunches']))))
        ctx.prove('fields, outputs, pusher and step of the element',
                  X.boolc(list(k['fields']) == flds and k['n_diags'] == 5 and
                          k.get('bunch_pusher') == 'pusher' and
                          k.get('auto_dt_bunch_f') is auto and
                          k.get('push_bunches_before_diags') == 'p' and
                          k.get('show_progress_bar') == 'b'))
        d = k.get('opmd_diags')
        ctx.prove('diagnostics', X.boolc(
            (kind == 0 and d is None and not made) or
            (kind == 1 and len(made) == 1 and d is made[0] and
             d.dir == 'folder') or
            (kind == 2 and d is own and not made)))
        exp = [[('out', b, i) for i in range(3)] for b in bs]
        ctx.prove('outputs per bunch; a plain list for one bunch', X.boolc(
            out == (exp[0] if nb == 1 else exp)))


# ---------------------------------------------------------------- run time
def sample(rng):
    ne = rng.choice([1, 2, 3, 4])
    return dict(seed=rng.randrange(10**6), n=rng.choice([1, 5]),
                g=rng.choice([50., 500.]), species=rng.choice(['e', 'e', 'x']),
                els=[rng.choice(['drift', 'quad', 'field', 'fquad', 'lens',
                                 'plasma']) for _ in range(ne)],
                n_out=[rng.choice([1, 2, 3]) for _ in range(ne)],
                diag=rng.choice([None, 'new', 'own', 'own', 'default']),
                dup=rng.random() < .2)


def element(kind, n_out, rng):
    L = rng.uniform(.01, .05)
    if kind == 'drift':
        return real(TM + 'Drift')(length=L, n_out=n_out)
    if kind == 'quad':
        return real(TM + 'Quadrupole')(length=L, k1=rng.normal() * 50,
                                       n_out=n_out)
    if kind == 'fquad':
        return real('wake_t.beamline_elements.field_quadrupole.'
                    'FieldQuadrupole')(L, rng.normal() * 100, n_out=n_out)
    if kind == 'lens':
        return real('wake_t.beamline_elements.active_plasma_lens.'
                    'ActivePlasmaLens')(L, rng.uniform(10, 1000),
                                        n_out=n_out)
    if kind == 'plasma':
        return real('wake_t.beamline_elements.plasma_stage.PlasmaStage')(
            L, 10**rng.uniform(19, 21), 'focusing_blowout', n_out=n_out)
    f = real_fields([Fld(rng, uniform=True, scale=1e-3)])
    return real(FE)(L, L / C / 7.3, fields=f, n_out=n_out,
                    bunch_pusher='rk4')


def conc(v):
    tmp = tempfile.mkdtemp(prefix='wtv_c26_')
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        with contextlib.redirect_stdout(io.StringIO()):
            line(v, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def line(v, tmp):
    import glob
    import os
    rng = np.random.default_rng(v['seed'])
    els = [element(k, n, rng) for k, n in zip(v['els'], v['n_out'])]
    if v['dup']:
        els.append(els[0])
    b = mk_bunch(v, rng)
    b.px *= .01
    b.py *= .01
    ref, one = b.copy(), b.copy()
    d = {None: False, 'new': True, 'default': True, 'own': None}[v['diag']]
    folder = os.path.join(tmp, 'd')
    if d is None:
        d = real(OC)(folder)
    dd = folder
    if v['diag'] == 'default':
        dd, folder = None, os.path.join(tmp, 'diags')
    bl = real(BL)(els)
    out = bl.track(b, opmd_diag=d, diag_dir=dd, show_progress_bar=False)
    exp, times, z = [], [], 0.
    for e in els:
        o = e.track(ref, show_progress_bar=False)
        n0 = len(o)
        exp += list(o)
        tm = isinstance(e, real(TM + 'TMElement'))
        k = e.n_out
        ts = [(i + 1) / k for i in range(k)] if tm else [
            i / k for i in range(k + 1)]
        if len(ts) != n0:
            raise Violation('number of outputs of the element',
                            '%d for n_out=%d' % (n0, k))
        times += [z + s * e.length for s in ts]
        z += e.length
    if not np.all(np.isfinite(ph(ref))):
        raise Skip('particle turned around')
    if len(out) != len(exp):
        raise Violation('outputs of all elements', '%d for %d' % (
            len(out), len(exp)))
    for a, c in zip(out + [b], exp + [ref]):
        if not np.array_equal(ph(a), ph(c)) or not np.array_equal(
                a.w, c.w) or a.prop_distance != c.prop_distance:
            raise Violation('beamline is the sequence of its elements', '')
    close('propagation distance', b.prop_distance / z, 1., 1e-6)
    for a, t in zip(out, times):
        close('distance of the outputs', a.prop_distance / z, t / z, 1e-6)
    # the same beamline again, with another bunch
    keep = [ph(a).copy() for a in out]
    out2 = bl.track(one, show_progress_bar=False)
    if len(out) != len(exp) or len(out2) != len(exp):
        raise Violation('outputs of a second use', '%d and %d for %d' % (
            len(out), len(out2), len(exp)))
    for a, c, k in zip(out, out2, keep):
        if not np.array_equal(ph(a), k) or not np.array_equal(ph(c), k):
            raise Violation('a second use gives the same', '')
    files = sorted(glob.glob(os.path.join(tmp, '**', '*.h5'),
                             recursive=True))
    if v['diag'] is None:
        if files:
            raise Violation('no diagnostics requested', repr(files[0]))
        return
    if len(files) != len(times) or any(
            not f.startswith(folder) for f in files):
        raise Violation('one file per output in the given folder',
                        '%d files, %d outputs' % (len(files), len(times)))
    for k, (f, t, a) in enumerate(zip(files, times, out)):
        o, at = read(f)
        base = 'data/%d' % k
        if base not in at:
            raise Violation('files are numbered along the beamline', f)
        close('time along the beamline', at[base]['time'] * C / z, t / z,
              1e-6)
        p = base + '/particles/' + b.name + '/'
        for n, x in (('position/x', a.x), ('position/y', a.y),
                     ('position/z', a.xi), ('momentum/z',
                                            a.pz * a.m_species * C)):
            sc = np.max(np.abs(x))
            close('bunch of the file: ' + n, np.asarray(o[p + n]) / sc,
                  x / sc)
        close('position along the beamline', o[p + 'positionOffset/z'] / z,
              t / z, 1e-6)


def s_el(rng):
    return dict(seed=rng.randrange(10**6), nb=rng.choice([0, 1, 2, 2, 3]),
                n=rng.choice([1, 5]), g=rng.choice([50., 500.]),
                species=rng.choice(['e', 'x']), plain=rng.random() < .5,
                dts=rng.choice(['one', 'list', 'auto']),
                push=rng.choice(['boris', 'rk4']), n_out=rng.choice(
                    [1, 2, 3]), before=rng.random() < .5,
                diag=rng.random() < .4)


def c_el(v):
    tmp = tempfile.mkdtemp(prefix='wtv_c26_')
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        with contextlib.redirect_stdout(io.StringIO()):
            several(v, tmp)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def several(v, tmp):
    """several bunches in one element; the element used again"""
    import glob
    rng = np.random.default_rng(v['seed'])
    L = rng.uniform(.01, .05)
    f = real_fields([Fld(rng, uniform=True, scale=1e-3)])
    nb = v['nb']
    dt = L / C / rng.uniform(3, 9, max(nb, 3))
    auto = lambda b: dt[0] * (1 + len(b.x) % 3)
    dts = {'one': dt[0], 'list': list(dt[:nb]), 'auto': 'auto'}[v['dts']]
    kw = dict(bunch_pusher=v['push'], fields=f, n_out=v['n_out'],
              push_bunches_before_diags=v['before'])
    el = real(FE)(L, dts, auto_dt_bunch=auto, **kw)
    bs = []
    for k in range(nb):
        b = mk_bunch(dict(v, n=v['n'] + k), rng)
        b.px *= .01
        b.py *= .01
        b.name = 'b%d' % k
        bs.append(b)
    ref = [b.copy() for b in bs]
    ref2 = [b.copy() for b in bs]
    arg = bs[0] if nb == 1 and v['plain'] else bs
    out = el.track(arg, opmd_diag=v['diag'], show_progress_bar=False)
    if v['diag']:
        files = glob.glob(os.path.join(tmp, '**', '*.h5'), recursive=True)
        if len(files) != v['n_out'] + 1 or not all(
                x.startswith(os.path.join(tmp, 'diags')) for x in files):
            raise Violation('diagnostics in the default folder', repr(
                files[:1]))
    if nb == 1:
        out = [out]
    if len(out) != nb:
        raise Violation('one list of outputs per bunch', '%d for %d' % (
            len(out), nb))
    for k in range(nb):
        d = auto(ref[k]) if v['dts'] == 'auto' else dt[
            k if v['dts'] == 'list' else 0]
        o = real(FE)(L, d, **kw).track(ref[k], show_progress_bar=False)
        if len(o) != len(out[k]) or len(o) != v['n_out'] + 1:
            raise Violation('number of outputs', '%d %d' % (
                len(o), len(out[k])))
        for i, (a, c) in enumerate(zip(out[k] + [bs[k]], o + [ref[k]])):
            if not np.array_equal(ph(a), ph(c)) or \
                    a.prop_distance != c.prop_distance:
                raise Violation('bunches do not depend on the others',
                                'bunch %d output %d' % (k, i))
            at = L * min(i, v['n_out']) / v['n_out']
            if v['before'] or i >= v['n_out']:
                close('position of the output', a.prop_distance / L, at / L,
                      1e-9)
            else:
                m = a.prop_distance / (C * d)
                if abs(m - round(m)) > 1e-6 or \
                        a.prop_distance > at * (1 + 1e-9) + 1e-12:
                    raise Violation('output without an extra push',
                                    '%r steps' % m)
    for k in (nb - 1, nb + 1, nb + 2):
        if k < 0:
            continue
        try:
            real(FE)(L, [float(dt[0])] * k, **kw).track(
                [b.copy() for b in ref2], show_progress_bar=False)
        except ValueError:
            continue
        raise Violation('a wrong number of time steps is rejected',
                        '%d for %d bunches' % (k, nb))
    # the same element for the first bunch alone
    if nb and v['dts'] != 'list':
        el.track([ref2[0]], show_progress_bar=False)
        if not np.array_equal(ph(ref2[0]), ph(bs[0])):
            raise Violation('element used a second time', '')


def contracts():
    return [
        Contract('beamline', [BL + '.__init__', BL + '.track'], body_line,
                 sample, conc, n=(60, 800), min_obligations=60,
                 max_paths=4000),
        Contract('field element', [FE + '.__init__', FE + '.track'],
                 body_element, s_el, c_el, n=(60, 600),
                 min_obligations=60),
    ]
