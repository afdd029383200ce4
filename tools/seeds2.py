PM = 'wake_t/physics_models/'
BX = PM + 'plasma_wakefields/qs_rz_baxevanis/'

seed('s09_xi_centre', 'C09', [('wake_t/particles/particle_bunch.py',
"        current_xi_c = np.average(self.xi, weights=self.w)\n",
"        current_xi_c = np.average(self.xi)\n")],
 'macroparticles of different weights',
 'the bunch is not centred at the requested position', '''
import numpy as np
from wake_t import ParticleBunch
o = np.ones(3)
b = ParticleBunch(np.array([1., 2., 5.]), 0*o, 0*o, np.array([0., 1., 3.]), 0*o, 0*o, 100*o)
b.reposition_xi(2.)
assert abs(np.average(b.xi, weights=b.w) - 2.) < 1e-12, b.xi
''')

seed('s10_r56', 'C10', [(PM + 'beam_optics/transfer_matrices.py',
"    r56 -= z/(beta*beta)*igamma2\n", "    r56 -= z*igamma2\n")],
 'a bunch of low energy', 'time of flight of a slow particle through a drift', '''
import numpy as np
from wake_t.physics_models.beam_optics.transfer_matrices import first_order_matrix as m
g = 2.; b2 = 1 - 1/g**2
r = m(1., 1., 0., 0., g)
assert abs(r[4, 5] + 1/(b2*g**2)) < 1e-12, r[4, 5]
''')

seed('s11_frame', 'C11', [('wake_t/beamline_elements/tm_elements.py',
"        if bunch.theta_ref != 0:\n", "        if bunch.theta_ref != 0 and self.theta != 0:\n")],
 'a straight element after a dipole (a bunch with a reference angle)',
 'the bunch enters the straight element tilted', '''
import numpy as np
from wake_t import ParticleBunch, Drift, Dipole
o = np.ones(3)
b = ParticleBunch(o, 0*o, 0*o, np.array([-1e-6, 0., 1e-6]), 0*o, 0*o, 100*o)
Dipole(0.5, 0.1).track(b, show_progress_bar=False)
x0 = np.average(b.x) - b.x_ref
Drift(2.).track(b, show_progress_bar=False)
x1 = np.average(b.x) - b.x_ref
assert abs(x1 - x0) < 1e-2, (x0, x1)
''')

seed('s12_csr_step', 'C12', [(PM + 'collective_effects/csr.py',
"            ds_csr = ds_out / np.ceil(ds_out/ds_csr)\n",
"            ds_csr = ds_out / max(np.round(ds_out/ds_csr), 1)\n")],
 'n_out given and an output distance between 1 and 1.5 CSR steps',
 'kicks are applied less often than the requested step', '''
import wake_t
from wake_t import Dipole
from wake_t.physics_models.collective_effects.csr import get_csr_calculator, set_csr_settings
set_csr_settings(csr_step=0.1, csr_traj_step=0.01, n_bins=50)
c = get_csr_calculator()
e = Dipole(0.56, 0.1, n_out=4, csr_on=True)
c.add_lattice_element(e)
s = c.get_csr_step(e)
assert s <= 0.1 + 1e-12, s
''')

seed('s13_hoisted_phase', 'C13', [(PM + 'laser/envelope_solver.py',
"""    # Loop over time iterations.
    for n in range(nt):
""", """    # Getting the phase of the envelope on axis.
    if use_phase:
        phases = unwrap(np.angle(a[:, 0]))

    # Loop over time iterations.
    for n in range(nt):
"""), (PM + 'laser/envelope_solver.py', """        a_new_jp2 = np.zeros(nr, dtype=np.complex128)

        # Getting the phase of the envelope on axis.
        if use_phase:
            phases = unwrap(np.angle(a[:, 0]))
""", """        a_new_jp2 = np.zeros(nr, dtype=np.complex128)
""")],
 'two or more substeps per update',
 'later substeps use the phase of the first', '''
import numpy as np
from wake_t.physics_models.laser.envelope_solver import evolve_envelope as ev
def run(m, n):
    nz, nr = 40, 8
    z = .2*np.arange(nz); r = (np.arange(nr) + .5) * .5
    a = np.zeros((nz+2, nr), complex)
    a[:-2] = (np.exp(-((z-4)/2)**2 + .3j*(z-4)**2))[:, None] * np.exp(-r**2/4.)
    b = a.copy()
    for _ in range(m):
        ev(a, b, np.zeros((nz, nr)), 20., 1., z[0], z[-1], nz, 4., nr, 1e-9, n, True)
    return a[:-2]
x, y = run(1, 4), run(4, 1)
assert np.abs(x - y).max() < 1e-9, np.abs(x - y).max()
''')

seed('s14_subgrid', 'C14', [(PM + 'laser/laser_pulse.py',
"        subgrid_r_max = r_max - subgrid_dr / 2\n",
"        subgrid_r_max = r_max - dr / 2\n")],
 'a laser grid of another radial resolution than the plasma grid',
 'the plasma susceptibility is interpolated to shifted radii', '''
import numpy as np
from wake_t import GaussianPulse
def run(nr, chi, sub):
    p = GaussianPulse(0., 1., 20e-6, 30e-15)
    p.set_envelope_solver_params(-40e-6, 40e-6, 60e-6, 30, nr, 1e-12, subgrid_nr=sub)
    p.initialize_envelope()
    for _ in range(3):
        p.evolve(np.zeros((30, 1)) + chi, 1e24)
    return p.get_envelope()
r = lambda n: (np.arange(n) + .5)*60e-6/n
a = run(40, r(40)/60e-6, 20)
b = run(20, r(20)/60e-6, None)
c = np.array([np.interp(r(40), r(20), x.real) + 1j*np.interp(r(40), r(20), x.imag) for x in b])
d = np.abs(a - c)[:, 1:-1].max()/np.abs(c).max()
assert d < 1e-6, d
''')

seed('s15_gouy', 'C15', [(PM + 'laser/laser_pulse.py',
"            - 1j*(2*self.p)*psi  # *Additional* Gouy phase\n",
"            - 1j*self.p*psi  # *Additional* Gouy phase\n")],
 'a Laguerre-Gauss mode of order p > 0 away from focus',
 'not a solution of the paraxial wave equation', '''
import numpy as np
from wake_t.physics_models.laser.laser_pulse import LaguerreGaussPulse as L
p = L(0., 1, 1., 20e-6, 30e-15); k = 2*np.pi/.8e-6
f = lambda r, z: p.envelope_function(np.array([0.]), np.array([r]), z)[0]
r, z, h, g = 15e-6, 5e-4, 2e-7, 1e-6
lap = (f(r+h, z) - 2*f(r, z) + f(r-h, z))/h**2 + (f(r+h, z) - f(r-h, z))/(2*h*r)
dz = (f(r, z+g) - f(r, z-g))/(2*g)
x = min(abs(lap + 2j*k*dz), abs(lap - 2j*k*dz))/abs(lap)
assert x < 1e-3, x
''')

seed('s16_psi_edge', 'C16', [(BX + 'psi_and_derivatives.py',
"    r_furthest = max(r_N, r_max)\n", "    r_furthest = r_max\n")],
 'plasma electrons pushed outside the ion column',
 'psi on the grid and at the particles use different reference points', '''
import numpy as np, inspect
import wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis.psi_and_derivatives as m
import sys, os
r = np.array([.5, 1.5, 4.]); q = np.array([.3, .7, .9]); i = np.argsort(r)
f = m.calculate_psi
rf = np.linspace(.1, 6., 60); o = np.zeros((1+4, 64))
f(rf, r, q, i, 2., 0., o, 0)
o = o[2]
# no charge beyond the last electron: psi is constant at zero only if neutral
s = q.sum() - 2.
p = np.interp(4., rf, o[2:-2])
assert abs(p) < 5e-3, p
''')

seed('s17_limit', 'C17', [(BX + 'b_theta.py',
"        if b_theta_pp[i] < -3.:\n", "        elif b_theta_pp[i] < -30.:\n")],
 'a very strong field near the peak of a blowout, pointing inwards',
 'the limit on the field felt by an electron is not applied', '''
import numpy as np
from wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis.b_theta import calculate_b_theta_at_particles as f
o = np.zeros(3); r = np.array([1., 2., 3.]); z = np.zeros(3)
for b0 in (-40., 40.):
    f(r, z, np.full(3, .5), z+1, z, z, z, z+b0, z, np.arange(3), 1., o)
    assert np.abs(o).max() == 3., o
''')

seed('s18_mirror', 'C18', [(BX + 'plasma_push/ab5.py',
"        dr_4[idx_neg] *= -1.\n", "")],
 'an electron crossing the axis, several steps later',
 'a stored derivative keeps the old sign', '''
import numpy as np
from wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis.plasma_push.ab5 import evolve_plasma_ab5 as f
def run(s):
    # a particle far from axis (s=0) and one that crosses: |r| must follow
    r = np.array([.05 + s]); p = np.array([-1.]); o = np.ones(1); z = np.zeros(1)
    d = [-o.copy() for _ in range(5)]; e = [z.copy() for _ in range(5)]
    out = []
    for _ in range(6):
        f(.1, r, p, np.sqrt(2)*o, z, z, z, z, z, *d, *e)
        out.append(r[0])
    return np.array(out)
x, y = run(0.), run(5.)
assert np.allclose(x, np.abs(y - 5.)), (x, y - 5)
''')

seed('s19_max_gamma', 'C19', [(BX + 'solver.py',
"    idx_keep = np.where(gamma_pp >= max_gamma)\n",
"    idx_keep = np.where(gamma_pp >= max(max_gamma, 10.))\n")],
 'max_gamma below its default',
 'electrons above max_gamma are not put at rest', '''
import numpy as np
import wake_t.physics_models.plasma_wakefields.qs_rz_baxevanis.solver as s
x = np.linspace(0, 1, 60)[:, None]; r = np.linspace(0, 1, 30)
a2 = 16*np.exp(-((x-.8)/.1)**2 - (r/.3)**2)
def run(g):
    f = [np.zeros((64, 34)) for _ in range(5)]
    f += [np.linspace(-60e-6, 0., 60), (np.arange(30) + .5)*2e-6]
    k = dict(r_max=60e-6, xi_min=-60e-6, xi_max=0., n_r=30, n_xi=60, ppc=2, n_p=1e24,
             max_gamma=g, plasma_pusher='ab5', r_max_plasma=60e-6, p_shape='linear')
    s.calculate_wakefields(a2, [], fld_arrays=f, **k)
    return f
d = max(np.abs(p - q).max() for p, q in zip(run(1.5), run(10.)))
assert d > 0, d
''')

seed('s20_polarization', 'C20', [(PM + 'plasma_wakefields/qs_cold_fluid_1x3p.py',
"""            if self.laser.polarization == 'linear':
                a_env /= np.sqrt(2)""", """            a_env /= np.sqrt(2)""")],
 'a circularly polarised driver',
 'the wake is driven by half of the intensity', '''
import numpy as np
from wake_t import GaussianPulse
from wake_t.physics_models.plasma_wakefields.qs_cold_fluid_1x3p import NonLinearColdFluidWakefield as W
def ez(a, pol):
    w = W(lambda z: 1e24, laser=GaussianPulse(-10e-6, a, 20e-6, 15e-15, polarization=pol),
          beam_wakefields=False, laser_evolution=False,
          r_max=60e-6, xi_min=-40e-6, xi_max=0., n_r=30, n_xi=60)
    w.update([])
    return w.e_z
x, y = ez(1., 'linear'), ez(np.sqrt(.5), 'circular')
assert np.abs(x).max() > 0 and np.abs(x - y).max() < 1e-9*np.abs(x).max()
''')

seed('s21_density', 'C21', [(PM + 'plasma_wakefields/simple_blowout.py',
"        n_p = self.density(t*ct.c)\n", "        n_p = self.density(0.)\n")],
 'a density that changes along the stage, gathered at a later time',
 'the fields are those of the entrance', '''
import numpy as np, scipy.constants as ct
from wake_t import GaussianPulse
from wake_t.physics_models.plasma_wakefields.simple_blowout import SimpleBlowoutWakefield as W
p = GaussianPulse(0., 1., 20e-6, 30e-15)
def ex(t):
    w = W(lambda z: 1e23*(1 + z/1e-2), p)
    o = [np.zeros(2) for _ in range(6)]
    x = np.array([1e-6, 2e-6]); y = 0*x; xi = x - 2e-5
    w.gather(x, y, xi, t, *o)
    return o[0]
r = ex(1e-2/ct.c)/ex(0.)
assert np.allclose(r, 2.), r
''')

seed('s22_push_before', 'C22', [('wake_t/beamline_elements/plasma_ramp.py',
"            push_bunches_before_diags=push_bunches_before_diags,\n            n_out",
"            n_out")],
 'a ramp with push_bunches_before_diags=False',
 'the setting is ignored', '''
from wake_t.beamline_elements.plasma_ramp import PlasmaRamp as P
r = P(1e-2, profile='inverse_square', position_down=1e-2, plasma_dens_top=1e23,
      plasma_dens_down=1e21, wakefield_model=None, push_bunches_before_diags=False)
assert r.push_bunches_before_diags is False
''')

seed('s23_time', 'C23', [('wake_t/diagnostics/openpmd_diag.py',
"        it.time = time + self._current_z_pos/ct.c\n",
"        it.time = time\n")],
 'a diagnostics object shared by several elements',
 'the time of each output restarts in each element', '''
import glob, os, shutil, tempfile
import h5py, numpy as np, scipy.constants as ct
from wake_t import ParticleBunch
from wake_t.diagnostics import OpenPMDDiagnostics
d = tempfile.mkdtemp()
try:
    g = OpenPMDDiagnostics(write_dir=d)
    o = np.ones(3)
    b = ParticleBunch(o, 0*o, 0*o, 1e-6*o, 0*o, 0*o, 100*o)
    g.increase_z_pos(0.5)
    g.write_diagnostics(1e-12, 1e-14, [b])
    f = glob.glob(d + '/**/*.h5', recursive=True)[0]
    with h5py.File(f) as h:
        it = list(h['data'].values())[0]
        t = it.attrs['time'] * it.attrs['timeUnitSI']
    assert abs(t - 1e-12 - 0.5/ct.c) < 1e-16, t
finally:
    shutil.rmtree(d)
''')

seed('s24_theta', 'C24', [('wake_t/utilities/bunch_generation.py',
"    p_y = -a_y*em_y/(s_y*s_yp)\n", "    p_y = -a_x*em_y/(s_y*s_yp)\n")],
 'a bunch with different alpha in x and y', 'alpha_y of the bunch is wrong', '''
import numpy as np
from wake_t.utilities.bunch_generation import get_gaussian_bunch_from_twiss as g
np.random.seed(1)
b = g(1e-6, 1e-6, .5, -.8, 1., 1., 1000., .1, 1e-6, 0., 1e-12, n_part=40000)
yp = b.py/b.pz; y = b.y
e = np.sqrt(np.var(y)*np.var(yp) - np.cov(y, yp)[0, 1]**2)
a = -np.cov(y, yp)[0, 1]/e
assert abs(a + .8) < .05, a
''')

seed('s25_theta_y', 'C25', [('wake_t/diagnostics/bunch_analysis.py',
"    theta_y = py_avg/ene\n", "    theta_y = px_avg/ene\n")],
 'a bunch pointing in y', 'the y angle reported is that of x', '''
import numpy as np
from wake_t import ParticleBunch
import wake_t.diagnostics.bunch_analysis as A
g = np.random.default_rng(0); n = 500
b = ParticleBunch(np.ones(n)*1e5, *g.normal(0, 1e-6, (3, n)), g.normal(0, 1, n), g.normal(3, 1, n), g.normal(1000, 3, n))
d = A.analyze_bunch(b)
k = d['theta_y'] if 'theta_y' in d else None
assert k is not None and abs(k/3e-3 - 1) < .1, d
''')

seed('s26_dt_list', 'C26', [('wake_t/beamline_elements/field_element.py',
"            dt_bunch = [self.dt_bunch] * len(bunches)\n",
"            dt_bunch = self.dt_bunch = [self.dt_bunch] * len(bunches)\n")],
 'an element used twice, with different numbers of bunches',
 'the second track fails', '''
import numpy as np
from wake_t import ParticleBunch
from wake_t.beamline_elements import FieldQuadrupole
def b(n):
    o = np.ones(3)
    return ParticleBunch(o, 1e-6*o, 0*o, 0*o, 0*o, 0*o, 100*o, name='b%d' % n)
q = FieldQuadrupole(1e-2, 10., dt_bunch=1e-12)
q.track([b(1), b(2)], show_progress_bar=False)
x = [b(1), b(2), b(3)]
q.track(x, show_progress_bar=False)
assert all(abs(i.prop_distance - 1e-2) < 1e-9 for i in x)
''')

seed('s27_threads', 'C27', [('wake_t/tracking/tracker.py',
"        set_num_threads(num_threads_outside_waket)", "        pass")],
 'tracking from a program that uses numba itself',
 'the number of threads of the program is changed by the tracking', '''
import numpy as np
import wake_t.tracking.tracker as T
from wake_t import ParticleBunch
from wake_t.beamline_elements import FieldQuadrupole
n = [4]
T.set_num_threads = lambda k: n.__setitem__(0, k)
T.get_num_threads = lambda: n[0]
T.num_threads = 1
o = np.ones(3)
b = ParticleBunch(o, 1e-6*o, 0*o, 0*o, 0*o, 0*o, 100*o)
FieldQuadrupole(1e-2, 10., dt_bunch=1e-12).track(b, show_progress_bar=False)
assert n[0] == 4, n
''')
