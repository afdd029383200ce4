D = 'wake_t/particles/deposition.py'
BX = 'wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/'

seed('s01_cubic_z_fold', 'C01', [(D,
'''            elif z_cell > nz - 2:
                zsc_2 += zsc_3
                zsc_3 = 0.
''',
'''            elif z_cell > nz - 1.5:
                zsc_2 += zsc_3
                zsc_3 = 0.
''')],
 'cubic shape and a particle between nz-2 and nz-1.5 cells',
 'part of the weight lands in a longitudinal guard cell', '''
import numpy as np
from wake_t.particles.deposition import deposit_3d_distribution as dep
nz, nr, dz, dr = 8, 8, 0.5, 0.25
a = np.zeros((nz+4, nr+4))
dep(np.array([6.25*dz]), np.array([.4]), np.array([0.]), np.array([2.]),
    0., dr/2, nz, nr, dz, dr, a, p_shape='cubic')
assert abs(a[2:-2, 2:-2].sum() - 2.) < 1e-12, a[2:-2, 2:-2].sum()
''')

seed('s02_cubic_z_mirror', 'C02', [(D,
'''            elif z_cell <= 1.:
                zsc_1 += zsc_0
                zsc_0 = 0.
''',
'''            elif z_cell <= 1.5:
                zsc_1 += zsc_0
                zsc_0 = 0.
''')],
 'cubic shape, longitudinal position between 1 and 1.5 cells',
 'total weight is kept, but the centre of charge moves', '''
import numpy as np
from wake_t.particles.deposition import deposit_3d_distribution as dep
nz, nr, dz, dr = 8, 6, 0.5, 0.5
a = np.zeros((nz+4, nr+4))
dep(np.array([1.25 * dz]), np.array([1.4]), np.array([0.]), np.array([1.]),
    0., dr/2, nz, nr, dz, dr, a, p_shape='cubic')
m = a[2:-2, 2:-2].sum(axis=1)
assert abs((m*np.arange(nz)).sum() - 1.25) < 1e-10, (m*np.arange(nz)).sum()
''')

seed('s04_source_interp', 'C04', [('wake_t/particles/interpolation.py',
"            fld_2_z_2 = dz_u*fld_2_lu + dz_l*fld_2_uu\n",
"            fld_2_z_2 = dz_u*fld_2_lu + dz_l*fld_2_lu\n")],
 'a plasma column between two slices of the grid',
 'the ponderomotive source is not interpolated along z', '''
import numpy as np
from wake_t.particles.interpolation import gather_sources_qs_baxevanis as g
nz, nr, dz, dr = 5, 5, 0.5, 0.5
f = np.zeros((nz+4, nr+4)) + np.arange(nz+4)[:, None]
o = [np.zeros(1) for _ in range(3)]
g(f, f, f, 0., 2., dr/2, 2.25, dz, dr, np.array([1.2]), 0.75, *o)
assert abs(o[0][0] - o[1][0]) < 1e-12, o
''')

seed('s05_boris_s', 'C05', [('wake_t/particles/push/boris_pusher.py',
"        cons_s = 2/(1 + t_x**2 + t_y**2 + t_z**2)",
"        cons_s = 2/(1 + t_x**2 + t_y**2)")],
 'a longitudinal magnetic field (no built-in element of the tests has one)',
 'a magnetic field changes the energy of the particles', '''
import numpy as np, scipy.constants as ct
from wake_t.particles.push.boris_pusher import push_momentum
p = [np.array([3.]), np.array([-2.]), np.array([40.])]
z = np.zeros(1)
g0 = sum(q[0]**2 for q in p)
push_momentum(*p, z, z, z, z, z, np.array([50.]), 1e-12,
              ct.e/(ct.m_e*ct.c))
g1 = sum(q[0]**2 for q in p)
assert abs(g1/g0 - 1) < 1e-12, g1/g0
''')

seed('s07_lost_last_output', 'C07', [('wake_t/tracking/tracker.py',
'''            if np.float32(t_next) > np.float32(self.t_final):
''',
'''            if t_next > self.t_final:
''')],
 'a number of outputs whose step, added up, rounds to just beyond the final time',
 'the last output is lost', '''
import numpy as np
from wake_t import ParticleBunch
from wake_t.tracking.tracker import Tracker
o = np.ones(1)
for n in range(1, 40):
    b = ParticleBunch(o, 0*o, 0*o, 0*o, 0*o, 0*o, 1e3*o)
    r = Tracker(1e-10, [b], [3e-11], [], n, None, None, 'boris', True,
                show_progress_bar=False).do_tracking()
    assert len(r[0]) == n + 1, (n, len(r[0]))
''')

seed('s08_even', 'C08', [('wake_t/fields/numerical_field.py',
"            self.dt_update = t_final / n_updates",
"            self.dt_update = min(self.dt_update, t_final / n_updates)")],
 'a field with force_even_updates used again in a longer element',
 'the last update does not fall on the end of the element', '''
import numpy as np
from wake_t.fields.numerical_field import NumericalField
f = NumericalField(1e-12, force_even_updates=True)
f.adjust_dt(2.5e-12)
f.adjust_dt(4e-12)
n = 4e-12 / f.dt_update
assert abs(n - round(n)) < 1e-9, n
''')

seed('s03_plasma_linear_edge', 'C03', [(BX + 'deposition.py',
"            elif r_cell > nr - 1:\n                # Force all charge to be deposited below r_max.\n                u_r = 0.",
"            elif r_cell > nr - .75:\n                # Force all charge to be deposited below r_max.\n                u_r = 0.")],
 'linear plasma shape and a particle just beyond the last grid point',
 'part of the weight goes to a guard cell', '''
import numpy as np
from wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis.deposition \
    import deposit_plasma_particles as dep
nz, nr, dz, dr = 5, 6, 0.5, 0.5
a = np.zeros((nz+4, nr+4))
dep(2, np.array([(5.2+.5)*dr]), np.array([1.]), 0., dr/2, nz, nr, dz, dr, a,
    p_shape='linear')
assert abs(a[2:-2, 2:-2].sum() - 1) < 1e-12, a.sum()
''')

seed('s06_rk4_time', 'C06', [('wake_t/particles/push/runge_kutta_4.py',
"            t_i += dt / 2\n", "            t_i += dt / 2 if i == 1 else dt\n")],
 'a field that changes within a time step',
 'the third stage samples the field at the end of the step', '''
import numpy as np, scipy.constants as ct
from wake_t import ParticleBunch
from wake_t.fields.analytical_field import AnalyticalField
seen = []
def ez(x, y, xi, t, f, c):
    seen.append(t)
    f[:] = 0.
f = AnalyticalField(e_z=ez)
o = np.ones(2)
b = ParticleBunch(o, 0*o, 0*o, 0*o, 0*o, 0*o, 1e3*o)
b.evolve([f], 1., .5, 'rk4')
assert seen == [1., 1.25, 1.25, 1.5], seen
''')
