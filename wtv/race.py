"""Execution of the real code under an arbitrary schedule of its parallel loops.

Run as a program before wake_t is imported.  `numba.njit(parallel=True)` (and
`jit`, however the decorator is reached) is replaced by a wrapper that marks
the function as parallel; `numba.prange` inside such a function runs the
iterations in the order of the chosen schedule and every access to an array is
logged under the iteration it belongs to.  Two iterations conflict when one
writes an element that the other reads or writes (two writes of equal values
without a read are harmless).  Nested parallel loops are serial, as in numba.
"""
import functools
import itertools
import json
import os
import random
import sys

import numba
import numpy as np

ORDER = 'forward'
RNG = random.Random(0)
PAR = [0]            # depth of parallel functions (0: serial code)
LOOP = [None]        # the running parallel loop
CONFLICT = []
COUNT = {'loops': 0, 'iterations': 0, 'functions': set()}


class Loop:
    def __init__(self, name):
        self.name, self.it = name, None
        self.r, self.w = {}, {}
        self.keep = []

    def log(self, addr, write, val):
        if self.it is None:
            return
        d = self.w if write else self.r
        if write:
            v = np.broadcast_to(np.asarray(val), addr.shape).ravel()
            for a, x in zip(addr.ravel().tolist(), v.tolist()):
                d.setdefault(a, {})[self.it] = x
        else:
            for a in addr.ravel().tolist():
                d.setdefault(a, set()).add(self.it)

    def close(self):
        for a, w in self.w.items():
            if len(w) > 1:
                rd = self.r.get(a, ())
                vals = list(w.values())
                if not rd and all(x == vals[0] or x != x for x in vals):
                    continue
                i, j = sorted(w)[:2]
                CONFLICT.append('%s: iterations %s and %s write the same '
                                'element' % (self.name, i, j))
                return
            i, = w
            o = [k for k in self.r.get(a, ()) if k != i]
            if o:
                CONFLICT.append('%s: iteration %s reads an element that '
                                'iteration %s writes' % (self.name, o[0], i))
                return


class Rec(np.ndarray):
    """array that logs the addresses of the elements it touches"""

    def __array_finalize__(self, obj):
        self._addr = None
        self._own = getattr(obj, '_own', None)

    def addr(self):
        if self._addr is None:
            b = self.__array_interface__['data'][0]
            a = np.zeros(self.shape, dtype=np.int64) + b
            for k, (n, s) in enumerate(zip(self.shape, self.strides)):
                sh = [1] * self.ndim
                sh[k] = n
                a += (np.arange(n, dtype=np.int64) * s).reshape(sh)
            self._addr = a
        return self._addr

    def _log(self, idx, write, val=None):
        l = LOOP[0]
        if l is None or l.it is None:
            return
        if self._own == (id(l), l.it):      # allocated by this iteration
            return
        idx = _plain(idx)
        l.keep.append(self)
        l.log(np.asarray(self.addr()[idx]), write, val)

    def __getitem__(self, idx):
        v = np.ndarray.__getitem__(self, _plain(idx))
        if isinstance(v, Rec):
            shared = v.size and np.shares_memory(v, self)
            if not shared:
                self._log(idx, False)
                v._own = _owner()
        else:
            self._log(idx, False)
        return v

    def __setitem__(self, idx, val):
        self._log(idx, True, val)
        np.ndarray.__setitem__(self, _plain(idx), np.asarray(val))

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]

    def __array_ufunc__(self, uf, method, *inputs, out=None, **kw):
        for a in inputs:
            if isinstance(a, Rec):
                a._log(Ellipsis, False)
        inp = [np.asarray(a) if isinstance(a, Rec) else a for a in inputs]
        if out is not None:
            kw['out'] = tuple(np.asarray(o) if isinstance(o, Rec) else o
                              for o in out)
        r = getattr(uf, method)(*inp, **kw)
        if out is not None:
            for o in out:
                if isinstance(o, Rec):
                    o._log(Ellipsis, True, np.asarray(o))
            return out[0] if len(out) == 1 else out
        return r


def _owner():
    l = LOOP[0]
    return None if l is None or l.it is None else (id(l), l.it)


def _plain(i):
    if isinstance(i, tuple):
        return tuple(_plain(k) for k in i)
    if isinstance(i, Rec):
        return np.asarray(i)
    return i


def rec(a):
    if isinstance(a, np.ndarray) and not isinstance(a, Rec) and \
            a.dtype != object:
        r = a.view(Rec)
        r._own = _owner()
        return r
    return a


def unrec(a):
    if isinstance(a, Rec):
        return np.asarray(a)
    if isinstance(a, tuple):
        return tuple(unrec(k) for k in a)
    return a


def prange(*a):
    r = list(range(*[int(k) for k in a]))
    if not PAR[0] or (LOOP[0] is not None and LOOP[0].it is not None):
        yield from r
        return
    f = sys._getframe(1)
    l = Loop('%s.%s' % (f.f_globals.get('__name__', ''), f.f_code.co_name))
    COUNT['loops'] += 1
    if ORDER == 'reversed':
        r.reverse()
    elif ORDER == 'shuffled':
        RNG.shuffle(r)
    old, LOOP[0] = LOOP[0], l
    try:
        for i in r:
            l.it = i
            COUNT['iterations'] += 1
            yield i
        l.it = None
        l.close()
    finally:
        l.it = None
        LOOP[0] = old


def parallel(f):
    @functools.wraps(f)
    def w(*a, **k):
        COUNT['functions'].add('%s.%s' % (f.__module__, f.__qualname__))
        PAR[0] += 1
        try:
            return unrec(f(*[rec(x) for x in a],
                           **{n: rec(x) for n, x in k.items()}))
        finally:
            PAR[0] -= 1
    return w


def njit(*a, **k):
    par = bool(k.get('parallel'))

    def d(f):
        return parallel(f) if par else f
    if a and callable(a[0]):
        return d(a[0])
    return d


def install():
    import numba.core.decorators as nd
    for m in (numba, nd):
        m.njit = njit
        m.jit = njit
    numba.prange = prange
    numba.vectorize = lambda *a, **k: (
        np.vectorize(a[0]) if a and callable(a[0]) else np.vectorize)
    for n in ('zeros', 'ones', 'empty', 'full', 'zeros_like', 'ones_like',
              'empty_like', 'full_like', 'arange', 'linspace'):
        def mk(g):
            @functools.wraps(g)
            def h(*a, **k):
                r = g(*[unrec(x) for x in a], **k)
                return rec(r) if PAR[0] else r
            return h
        setattr(np, n, mk(getattr(np, n)))


# ---------------------------------------------------------------- scenarios
def bunch(B, rng, n, name='b'):
    p = rng.normal(size=(3, n)) * 2
    p[2] += 200
    b = B(rng.uniform(1e6, 9e6, n), *(rng.normal(size=(2, n)) * 1e-5),
          rng.normal(size=n) * 5e-6, p[0].copy(), p[1].copy(), p[2].copy(),
          name=name)
    return b


def state(b):
    return {k: np.array(getattr(b, k)) for k in
            ('x', 'y', 'xi', 'px', 'py', 'pz')}


def s_push(v):
    import importlib
    from wake_t.particles.particle_bunch import ParticleBunch as B
    rng = np.random.default_rng(v['seed'])
    b = bunch(B, rng, v['n'])
    fl = fields(v)
    b.set_pusher(v['pusher']) if hasattr(b, 'set_pusher') else None
    f = getattr(importlib.import_module(
        {'boris': 'wake_t.particles.push.boris_pusher',
         'rk4': 'wake_t.particles.push.runge_kutta_4'}[v['pusher']]),
        'apply_%s_pusher' % v['pusher'])
    for k in range(2):
        f(b, fl, k * 2e-14, 2e-14)
    return state(b)


def fields(v):
    from wake_t.physics_models.em_fields.quadrupole import QuadrupoleField
    from wake_t.physics_models.em_fields.linear_b_theta import (
        LinearBThetaField)
    k = v['field']
    if k == 'quadrupole':
        return [QuadrupoleField(300.)]
    if k == 'lens':
        return [LinearBThetaField(-1e3)]
    from wake_t.physics_models.plasma_wakefields.focusing_blowout import (
        FocusingBlowoutField)
    from wake_t.physics_models.plasma_wakefields.simple_blowout import (
        SimpleBlowoutWakefield)
    from wake_t.physics_models.plasma_wakefields.custom_blowout import (
        CustomBlowoutWakefield)
    from wake_t import GaussianPulse
    las = GaussianPulse(5e-5, 2., 2e-5, 3e-14)
    den = lambda z: 1e23
    if k == 'focusing':
        return [FocusingBlowoutField(den)]
    if k == 'simple':
        return [SimpleBlowoutWakefield(den, las)]
    if k == 'custom':
        return [CustomBlowoutWakefield(den, las, -1e10, 1e14, 1e5)]
    raise SystemExit('scenario')


def s_deposit(v):
    from wake_t.particles.deposition import deposit_3d_distribution as f
    rng = np.random.default_rng(v['seed'])
    n, nz, nr = v['n'], 6, 5
    a = np.zeros((nz + 4, nr + 4))
    f(rng.uniform(0, 2.5, n), rng.uniform(-1, 1, n), rng.uniform(-1, 1, n),
      rng.uniform(1, 2, n), 0., .25, nz, nr, .5, .5, a, p_shape=v['shape'])
    return {'grid': a}


def s_gather(v):
    from wake_t.particles import interpolation as m
    rng = np.random.default_rng(v['seed'])
    n, nz, nr = v['n'], 6, 5
    x, y = rng.uniform(-1.5, 1.5, (2, n))
    z = rng.uniform(-.2, 3, n)
    g = rng.normal(size=(3, nz + 4, nr + 4))
    a = (0., 2.5, .25, 2.25, .5, .5, x, y, z)
    out = {'one': m.gather_field_cyl_linear(g[0], *a)}
    part = rng.normal(size=(6, n))
    m.gather_main_fields_cyl_linear(*g, *a, *part)
    out['main'] = part
    return out


def s_stage(v):
    """a whole tracking step through a plasma stage"""
    import warnings
    warnings.simplefilter('ignore')
    import wake_t
    from wake_t.particles.particle_bunch import ParticleBunch as B
    rng = np.random.default_rng(v['seed'])
    b = bunch(B, rng, v['n'])
    kw = dict(xi_max=15e-6, xi_min=-45e-6, n_xi=12, n_r=10, r_max=6e-5)
    las = None
    if v['laser']:
        las = wake_t.GaussianPulse(0., 1.5, 2e-5, 2e-14)
    kw.update(dz_fields=1e-4, laser=las)
    if v['model'] == 'quasistatic_2d':
        kw.update(ppc=2, p_shape=v['shape'])
    st = wake_t.PlasmaStage(
        length=2e-4, density=1e23, n_out=1,
        wakefield_model=v['model'], bunch_pusher=v['pusher'],
        dt_bunch=3e-13, **kw)
    out = {}
    try:
        bl = st.track(b)
    except TypeError:
        raise
    out.update(state(b))
    if bl:
        for k in ('x', 'px', 'pz', 'xi'):
            out['out_' + k] = np.array(getattr(bl[-1], k))
    return out


def s_threads(v):
    """numba.set_num_threads is seen as the surrounding program sees it"""
    from wake_t.fields.base import Field
    from wake_t.beamline_elements.field_element import FieldElement
    from wake_t.particles.particle_bunch import ParticleBunch as B
    b = bunch(B, np.random.default_rng(v['seed']), v['n'])
    numba.set_num_threads(v['outside'])
    seen = []

    class Probe(Field):
        def _gather(self, *a):
            seen.append(numba.get_num_threads())
    st = FieldElement(length=1e-4, dt_bunch=1e-13, n_out=2,
                             bunch_pusher='boris', fields=[Probe()])
    st.track(b)
    n = numba.get_num_threads()
    if n != v['outside']:
        EXTRA.append('%d threads before tracking and %d after it' % (
            v['outside'], n))
    if set(seen) - {v['inside']}:
        EXTRA.append('tracking used %s threads instead of the %d of '
                     'WAKET_NUM_THREADS' % (seen[0], v['inside']))
    return {}


EXTRA = []


def main():
    global ORDER
    v = json.loads(sys.argv[1])
    install()
    sys.path.insert(0, os.environ.get('WTV_REPO', '/repo'))
    res, f = {}, globals()['s_' + v['kind']]
    import contextlib
    import io
    for ORDER in ('forward', 'reversed', 'shuffled'):
        RNG.seed(v['seed'])
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            res[ORDER] = f(v)
    diff = []
    for o in ('reversed', 'shuffled'):
        for k, a in res['forward'].items():
            b = np.asarray(res[o][k])
            a = np.asarray(a)
            sc = np.max(np.abs(a), initial=0) + 1e-300
            if a.shape != b.shape:
                diff.append('%s has another shape' % k)
            elif a.size and not np.all(
                    (np.abs(a - b) <= 1e-9 * sc) | (a == b) |
                    ((a != a) & (b != b))):
                d = np.nanmax(np.abs(a - b))
                diff.append('%s changes by %.3g (of %.3g) when the '
                            'iterations run in %s order' % (k, d, sc, o))
    print('RESULT ' + json.dumps(dict(
        conflict=CONFLICT[:3], extra=EXTRA[:1], diff=diff[:3], loops=COUNT['loops'],
        iterations=COUNT['iterations'],
        functions=sorted(COUNT['functions']))))


if __name__ == '__main__':
    main()
