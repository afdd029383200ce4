from ..util import *
import numpy as np

BN = ['x', 'y', 'xi', 'px', 'py', 'pz']
FN = ['ex', 'ey', 'ez', 'bx', 'by', 'bz']


class SymField:
    """Arbitrary field: six unknown functions of position and time."""

    def __init__(self, name='F', log=None):
        self.name, self.log = name, log

    def comp(self, k, x, y, xi, t):
        return X.uf(self.name + '_' + FN[k], x, y, xi, t)

    def gather(self, x, y, z, t, *out):
        if self.log is not None:
            self.log.append((x.val, y.val, z.val, t))
        for k, o in enumerate(out):
            o[:] = o.val + self.comp(k, x.val, y.val, z.val, lift(t))


def sym_bunch(ctx, tw, kinetic=False, **kw):
    B = tw.get('wake_t.particles.particle_bunch.ParticleBunch')
    ctx.generic()
    v = {n: R(n) for n in BN}
    w = R('w', positive=True)
    b = B(P(w, 'w', True), *[P(v[n], n) for n in BN], name='b',
          q_species=R('q'), m_species=R('m', positive=True), **kw)
    return b, v


def state(b):
    return [getattr(b, n).val for n in BN]


# --------------------------------------------------------- run-time fields
class Fld:
    """Smooth field with explicit position and time dependence."""

    def __init__(self, rng, uniform=False, e=True, b=True, scale=1.):
        self.c = rng.normal(size=(6, 5)) * scale
        if uniform:
            self.c[:, 1:] = 0
        if not e:
            self.c[:3] = 0
        if not b:
            self.c[3:] = 0
        self.sc = np.array([1e9] * 3 + [3.] * 3)
        self.times = []

    def ev(self, x, y, z, t):
        f = []
        for k in range(6):
            c = self.c[k]
            f.append(self.sc[k] * (
                c[0] + c[1] * np.sin(x / 1e-5 + .3) + c[2] * np.cos(
                    y / 1.5e-5) + c[3] * np.sin(z / 2e-5 - .2) +
                c[4] * np.cos(t / 1e-14)))
        return f

    def gather(self, x, y, z, t, *out):
        self.times.append(t)
        for o, f in zip(out, self.ev(x, y, z, t)):
            o += f


def real_fields(fl):
    """wrap as real AnalyticalField-independent Field subclasses"""
    Field = real('wake_t.fields.base.Field')
    out = []
    for f in fl:
        class W(Field):
            def __init__(self, f):
                super().__init__()
                self.f = f

            def _gather(self, x, y, z, t, *o):
                self.f.gather(x, y, z, t, *o)
        out.append(W(f))
    return out


def sample_bunch(rng):
    return dict(n=rng.choice([1, 2, 5, 9]), seed=rng.randint(0, 10**6),
                g=rng.choice([1.2, 3., 50., 2000.]),
                species=rng.choice(['e', 'p', 'x']),
                dt=rng.choice([1e-16, 3e-15, 2e-14]),
                t=rng.choice([0., 1e-14, 3.3e-13]),
                nf=rng.choice([1, 1, 2, 3]))


QM = {'e': (-1.602176634e-19, 9.1093837015e-31),
      'p': (1.602176634e-19, 1.67262192369e-27),
      'x': (3.2e-19, 5e-30)}
C = 299792458.


def mk_bunch(v, rng, **kw):
    B = real('wake_t.particles.particle_bunch.ParticleBunch')
    n = v['n']
    q, m = QM[v['species']]
    p = rng.normal(size=(3, n)) * max(1., v['g'] / 10)
    p[2] += v['g']
    if v['g'] < 2:
        p = rng.normal(size=(3, n)) * .6
    return B(rng.uniform(1, 9, n), rng.normal(size=n) * 1e-5,
             rng.normal(size=n) * 1e-5, rng.normal(size=n) * 2e-5,
             p[0].copy(), p[1].copy(), p[2].copy(), name='b',
             q_species=q, m_species=m, **kw)


def ph(b):
    return np.array([getattr(b, n) for n in BN])


def cmp(a, b, dt, what, rtol=1e-12, p0=None):
    """compare phase spaces on the scale of the change within dt"""
    for k, nm in enumerate(BN):
        sc = C * abs(dt) if k < 3 else np.max(np.abs(b[3:])) + 1
        approx(a[k] / sc, b[k] / sc, rtol=rtol, atol=rtol,
               what=what + ' ' + nm)
