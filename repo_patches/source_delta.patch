From 13119780aa9a32c4bea6a4600aacda46a7fabf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:08:55 +0000
Subject: [PATCH 01/31] fix: use the longitudinal cell position in the linear
 beam deposition

The upper longitudinal bound was tested with the radial position, so
particles with r_cell > nz - 1 were assigned to the wrong longitudinal cell
(and to a guard cell if they were located exactly at z_min).
---
 wake_t/particles/deposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/particles/deposition.py b/wake_t/particles/deposition.py
index 33e1dda..b3a1eaa 100644
--- a/wake_t/particles/deposition.py
+++ b/wake_t/particles/deposition.py
@@ -117,7 +117,7 @@ def deposit_3d_distribution_linear(z, x, y, q, z_min, r_min, nz, nr, dz, dr,
             if z_cell < 0:
                 # Force all charge to be deposited above z_min.
                 u_z = 1.
-            elif r_cell > nz - 1:
+            elif z_cell > nz - 1:
                 # Force all charge to be deposited below z_max.
                 u_z = 0.
             else:
-- 
2.43.0


From 9c279cbdb8fa02caacdc98859a298d1848cf39aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:08:55 +0000
Subject: [PATCH 02/31] fix: use the longitudinal cell index in the linear
 plasma deposition

Same defect as in the beam deposition: plasma particles with r_cell > nz - 1
were deposited in the slice behind the current one.
---
 .../plasma_wakefields/qs_rz_baxevanis/deposition.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
index a4938a9..5b302df 100644
--- a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
+++ b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py
@@ -87,7 +87,7 @@ def deposit_plasma_particles_linear(z_cell, r, q, z_min, r_min, nz, nr, dz, dr,
             if z_cell < 0:
                 # Force all charge to be deposited above z_min.
                 u_z = 1.
-            elif r_cell > nz - 1:
+            elif z_cell > nz - 1:
                 # Force all charge to be deposited below z_max.
                 u_z = 0.
             else:
-- 
2.43.0


From 357c8f878abc9e78e5569bd40a3603b8a951f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:14:48 +0000
Subject: [PATCH 03/31] fix: gather the main fields of particles that lie
 exactly on the axis

---
 wake_t/particles/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/particles/interpolation.py b/wake_t/particles/interpolation.py
index 7bfe378..28394a6 100644
--- a/wake_t/particles/interpolation.py
+++ b/wake_t/particles/interpolation.py
@@ -124,7 +124,7 @@ def gather_main_fields_cyl_linear(
         y_i = y[i]
         z_i = z[i]
         r_i = math.sqrt(x_i**2 + y_i**2)
-        inv_r_i = 1./r_i
+        inv_r_i = 1./r_i if r_i > 0. else 0.
 
         # Gather field only if particle is within field boundaries.
         if z_i >= z_min and z_i <= z_max and r_i <= r_max:
-- 
2.43.0


From 08bb68d29c3c1612c5f94dcad0e55847f3ad6a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:26:10 +0000
Subject: [PATCH 04/31] fix: track bunches whose time step is longer than the
 tracking time

---
 wake_t/tracking/tracker.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 0a3600e..6d1cd30 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -178,6 +178,11 @@ class Tracker():
             else:
                 dt_objects[i] = dt
 
+        # Make sure the first push of the bunches does not go beyond `t_final`.
+        n_bunches = len(self.bunches)
+        dt_objects[:n_bunches] = np.minimum(
+            dt_objects[:n_bunches], self.t_final)
+
         # Start tracking loop.
         while True:
 
-- 
2.43.0


From 5ed46d42aad00bf37eac29c673e9385274ad7138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:27:47 +0000
Subject: [PATCH 05/31] fix: allow tracking without diagnostics

---
 wake_t/tracking/tracker.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 6d1cd30..3b5df2d 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -130,9 +130,9 @@ class Tracker():
             self.objects_to_track.append('diags')
             self.dt_diags = self.t_final/self.n_diags
             self.dt_objects.append(self.dt_diags)
-            self.bunch_list = []
-            for bunch in bunches:
-                self.bunch_list.append([])
+        self.bunch_list = []
+        for bunch in bunches:
+            self.bunch_list.append([])
 
         # Initialize tracking time.
         self.t_tracking = 0.
@@ -164,7 +164,8 @@ class Tracker():
             field.update(self.bunches)
 
         # Generate initial diagnostics.
-        self.generate_diagnostics()
+        if self.n_diags > 0:
+            self.generate_diagnostics()
 
         # Allocate arrays containing the time step and current time of all
         # objects during tracking.
-- 
2.43.0


From 38e20590758453ebb7ec8517dbeba57610c8d5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:29:07 +0000
Subject: [PATCH 06/31] fix: start numerical fields at t=0 in every tracking

---
 wake_t/tracking/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wake_t/tracking/tracker.py b/wake_t/tracking/tracker.py
index 3b5df2d..610a46d 100644
--- a/wake_t/tracking/tracker.py
+++ b/wake_t/tracking/tracker.py
@@ -159,8 +159,10 @@ class Tracker():
             disable=not self.show_progress_bar,
         )
 
-        # Calculate fields at t=0.
+        # Calculate fields at t=0. If a field has already been used in a previous
+        # tracking, it has to be initialized again to start from t=0.
         for field in self.num_fields:
+            field.initialized = False
             field.update(self.bunches)
 
         # Generate initial diagnostics.
-- 
2.43.0


From 6707b6cd0a8257c89b41d3923eca4b3c11857819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:17 +0000
Subject: [PATCH 07/31] fix: use the documented energy deviation in the
 alternative bunch matrix

set_phase_space_from_alternative_matrix defines dp as (g-g_ref)/g_ref, but
get_alternative_6D_matrix returned (g-g_avg)/(g_avg*b_avg), so that a bunch
did not survive the round trip.
---
 wake_t/particles/particle_bunch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 09e3018..d57a0ed 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -223,8 +223,7 @@ class ParticleBunch():
         """
         g = np.sqrt(1 + self.px**2 + self.py**2 + self.pz**2)
         g_avg = np.average(g, weights=self.w)
-        b_avg = np.sqrt(1 - g_avg**(-2))
-        dp = (g-g_avg)/(g_avg*b_avg)
+        dp = (g-g_avg)/g_avg
         p_kin = np.sqrt(g**2 - 1)
         return np.array([self.x, self.px/p_kin, self.y, self.py/p_kin,
                          self.xi, dp]), g_avg
-- 
2.43.0


From be9a7ee88165fd397b7aed040c50eaa822c14fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:17 +0000
Subject: [PATCH 08/31] fix: keep all properties of a bunch when copying it

The tags, the time of flight and z_injection were lost, so that a copy did
not evolve as the original.
---
 wake_t/particles/particle_bunch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index d57a0ed..8f8f4b8 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -310,7 +310,10 @@ class ParticleBunch():
             px=deepcopy(self.px),
             py=deepcopy(self.py),
             pz=deepcopy(self.pz),
+            tags=deepcopy(self.tags),
             prop_distance=deepcopy(self.prop_distance),
+            t_flight=deepcopy(self.t_flight),
+            z_injection=deepcopy(self.z_injection),
             name=deepcopy(self.name),
             q_species=deepcopy(self.q_species),
             m_species=deepcopy(self.m_species)
-- 
2.43.0


From 0695e372f7fe373d5ee99a8c30cb2a1239931367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:18 +0000
Subject: [PATCH 09/31] fix: use the exact integral J3 in the second order
 transfer map

---
 wake_t/physics_models/beam_optics/transfer_matrices.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index 9fe4119..604dadf 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -136,10 +136,8 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     f2y = (L - s2y) / ky2 if ky2 != 0 else L3 / 6
     J1 = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
     J2 = (3.*L - 4.*sx + sx*cx) / (2*kx4) if kx != 0 else L ** 5 / 20.
-    J3 = ((15*L - 22.5*sx + 9*sx*cx - 1.5*sx*cx*cx + kx2*sx2*sx) /
+    J3 = ((15*L - 22*sx + 9*sx*cx - 2*sx*cx*cx) /
           (6 * kx4 * kx2)) if kx != 0 else L ** 7 / 56.
-    # J3 = (15 * L - 22 * sx + 9 * sx * cx - 2 * sx * cx * cx ) / (
-    #        6 * kx4 * kx2) if kx != 0 else L ** 7 / 56.
     J_denom = kx2 - 4 * ky2
     Jc = (c2y - cx) / J_denom if J_denom != 0 else 0.5 * L2
     Js = (cy * sy - sx) / J_denom if J_denom != 0 else L3 / 6
-- 
2.43.0


From 5772c052fc0ca174c796275dd1145feb4d29c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:18 +0000
Subject: [PATCH 10/31] fix: missing factor in the vertical integral of the
 second order map

---
 wake_t/physics_models/beam_optics/transfer_matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index 604dadf..4ad5065 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -133,7 +133,7 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     s2y = sy * cy
     c2y = np.cos(2 * ky * L).real
     fx = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
-    f2y = (L - s2y) / ky2 if ky2 != 0 else L3 / 6
+    f2y = (L - s2y) / (4 * ky2) if ky2 != 0 else L3 / 6
     J1 = (L - sx) / kx2 if kx2 != 0 else L3 / 6.
     J2 = (3.*L - 4.*sx + sx*cx) / (2*kx4) if kx != 0 else L ** 5 / 20.
     J3 = ((15*L - 22*sx + 9*sx*cx - 2*sx*cx*cx) /
-- 
2.43.0


From 161960f50716b2668a61f0f271c1015248f6f836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:20 +0000
Subject: [PATCH 11/31] fix: use the average energy of each tracked bunch as
 default reference

---
 wake_t/beamline_elements/tm_elements.py | 36 ++++++++++++-------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index bf1647d..574468d 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -110,9 +110,7 @@ class TMElement():
 
         """
         # Convert bunch to ocelot units and reference frame
-        bunch_mat, g_avg = self._get_beam_matrix_for_tracking(bunch)
-        if self.gamma_ref is None:
-            self.gamma_ref = g_avg
+        bunch_mat, gamma_ref = self._get_beam_matrix_for_tracking(bunch)
 
         # Add element to CSR calculator
         if self.csr_on:
@@ -133,7 +131,7 @@ class TMElement():
             print('')
             print(self.element_name.capitalize())
             print('-'*len(self.element_name))
-            self._print_element_properties()
+            self._print_element_properties(gamma_ref)
             csr_string = 'on' if self.csr_on else 'off'
             print('CSR {}.'.format(csr_string))
             print('')
@@ -155,15 +153,15 @@ class TMElement():
             # Track with transfer matrix
             bunch_mat = track_with_transfer_map(
                 bunch_mat, l_step, self.length, -self.theta, self.k1, self.k2,
-                self.gamma_ref, order=self.order)
+                gamma_ref, order=self.order)
             # Apply CSR
             if self.csr_on:
                 self.csr_calculator.apply_csr(bunch_mat, bunch.q,
-                                              self.gamma_ref, self, l_curr)
+                                              gamma_ref, self, l_curr)
             # Add bunch to output list
             if i in output_steps:
                 new_bunch_mat = convert_from_ocelot_matrix(
-                    bunch_mat, self.gamma_ref)
+                    bunch_mat, gamma_ref)
                 new_bunch = self._create_new_bunch(
                     bunch, new_bunch_mat, l_curr)
                 output_bunch_list.append(new_bunch)
@@ -172,7 +170,8 @@ class TMElement():
                         l_curr/ct.c, l_step/ct.c, [output_bunch_list[-1]])
 
         # Update bunch data
-        self._update_input_bunch(bunch, bunch_mat, output_bunch_list)
+        self._update_input_bunch(
+            bunch, bunch_mat, output_bunch_list, gamma_ref)
 
         # Add element length to diagnostics position
         if opmd_diag is not None:
@@ -218,10 +217,11 @@ class TMElement():
             output_steps = []
         return l_step, track_steps, output_steps
 
-    def _update_input_bunch(self, bunch, bunch_mat, output_bunch_list):
+    def _update_input_bunch(self, bunch, bunch_mat, output_bunch_list,
+                            gamma_ref):
         if len(output_bunch_list) == 0:
             new_bunch_mat = convert_from_ocelot_matrix(
-                bunch_mat, self.gamma_ref)
+                bunch_mat, gamma_ref)
             last_bunch = self._create_new_bunch(bunch, new_bunch_mat,
                                                 self.length)
         else:
@@ -266,7 +266,7 @@ class TMElement():
         new_bunch.x_ref = new_x_ref
         return new_bunch
 
-    def _print_element_properties(self):
+    def _print_element_properties(self, gamma_ref):
         "To be implemented by each element. Prints the element properties"
         raise NotImplementedError
 
@@ -306,7 +306,7 @@ class Drift(TMElement):
         super().__init__(length, 0, 0, 0, gamma_ref, csr_on, n_out, order)
         self.element_name = 'drift'
 
-    def _print_element_properties(self):
+    def _print_element_properties(self, gamma_ref):
         print('Length = {:1.4f} m'.format(self.length))
 
 
@@ -349,9 +349,9 @@ class Dipole(TMElement):
         super().__init__(length, theta, 0, 0, gamma_ref, csr_on, n_out, order)
         self.element_name = 'dipole'
 
-    def _print_element_properties(self):
+    def _print_element_properties(self, gamma_ref):
         ang_deg = self.theta * 180/ct.pi
-        b_field = (ct.m_e*ct.c/ct.e) * self.theta*self.gamma_ref/self.length
+        b_field = (ct.m_e*ct.c/ct.e) * self.theta*gamma_ref/self.length
         print('Bending angle = {:1.4f} rad ({:1.4f} deg)'.format(
             self.theta, ang_deg))
         print('Dipole field = {:1.4f} T'.format(b_field))
@@ -395,8 +395,8 @@ class Quadrupole(TMElement):
         super().__init__(length, 0, k1, 0, gamma_ref, csr_on, n_out, order)
         self.element_name = 'quadrupole'
 
-    def _print_element_properties(self):
-        g = self.k1 * self.gamma_ref*(ct.m_e*ct.c/ct.e)
+    def _print_element_properties(self, gamma_ref):
+        g = self.k1 * gamma_ref*(ct.m_e*ct.c/ct.e)
         print('Quadrupole gradient = {:1.4f} T/m'.format(g))
 
 
@@ -438,6 +438,6 @@ class Sextupole(TMElement):
         super().__init__(length, 0, 0, k2, gamma_ref, csr_on, n_out, order)
         self.element_name = 'sextupole'
 
-    def _print_element_properties(self):
-        g = self.k2 * self.gamma_ref*(ct.m_e*ct.c/ct.e)
+    def _print_element_properties(self, gamma_ref):
+        g = self.k2 * gamma_ref*(ct.m_e*ct.c/ct.e)
         print('Sextupole gradient = {:1.4f} T/m^2'.format(g))
-- 
2.43.0


From df02d22be36294a9a923ae600d4aaad3e991df6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:20 +0000
Subject: [PATCH 12/31] fix: advance the bunch when only the initial output is
 requested

---
 wake_t/beamline_elements/tm_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 574468d..8c64399 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -219,7 +219,7 @@ class TMElement():
 
     def _update_input_bunch(self, bunch, bunch_mat, output_bunch_list,
                             gamma_ref):
-        if len(output_bunch_list) == 0:
+        if self.n_out is None:
             new_bunch_mat = convert_from_ocelot_matrix(
                 bunch_mat, gamma_ref)
             last_bunch = self._create_new_bunch(bunch, new_bunch_mat,
-- 
2.43.0


From 7cbc538e0e9dcc2d51d63bebbfdba124809dc6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:20 +0000
Subject: [PATCH 13/31] fix: allow tracking through a generic TMElement with
 progress bar

---
 wake_t/beamline_elements/tm_elements.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 8c64399..958268a 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -267,8 +267,11 @@ class TMElement():
         return new_bunch
 
     def _print_element_properties(self, gamma_ref):
-        "To be implemented by each element. Prints the element properties"
-        raise NotImplementedError
+        "Prints the element properties. Can be overwritten by each element."
+        print('Length = {:1.4f} m'.format(self.length))
+        print('Bending angle = {:1.4f} rad'.format(self.theta))
+        print('k1 = {:1.4f} m^-2'.format(self.k1))
+        print('k2 = {:1.4f} m^-3'.format(self.k2))
 
 
 class Drift(TMElement):
-- 
2.43.0


From 16f9842d49e5152110eda6e93a5c8382c6b19c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:20 +0000
Subject: [PATCH 14/31] fix: keep tags and injection position in the outputs of
 TM elements

---
 wake_t/beamline_elements/tm_elements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 958268a..1ccbdaa 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -258,7 +258,10 @@ class TMElement():
         new_bunch_mat[0] += new_x_ref
         # create new bunch
         new_bunch = ParticleBunch(old_bunch.w, bunch_matrix=new_bunch_mat,
+                                  tags=old_bunch.tags,
                                   prop_distance=new_prop_dist,
+                                  t_flight=old_bunch.t_flight,
+                                  z_injection=old_bunch.z_injection,
                                   name=old_bunch.name,
                                   q_species=old_bunch.q_species,
                                   m_species=old_bunch.m_species)
-- 
2.43.0


From 450906c2dd053e0f2f7f62b6182b5b7366068428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:20 +0000
Subject: [PATCH 15/31] fix: do not lose the last CSR step of an element to
 rounding

---
 wake_t/beamline_elements/tm_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index 1ccbdaa..d2e2eef 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -205,7 +205,7 @@ class TMElement():
             frac_out = 0
         if self.csr_on:
             csr_track_step = self.csr_calculator.get_csr_step(self)
-            n_csr = int(self.length / csr_track_step)
+            n_csr = int(round(self.length / csr_track_step))
             if self.n_out is not None:
                 frac_out = int(n_csr / self.n_out)
             l_step = csr_track_step
-- 
2.43.0


From 6070cdb2e2a1feaa26e766460bed262474c80d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:20 +0000
Subject: [PATCH 16/31] fix: clear the steps of previous elements when
 resetting the CSR calculator

---
 wake_t/physics_models/collective_effects/csr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 098b0d8..2a5869d 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -52,6 +52,7 @@ class CSRCalculator():
         self._ref_traj = None
         self._lattice_elements = []
         self._lattice_element_steps = []
+        self._lattice_element_traj_steps = []
 
     def apply_csr(self, bunch_matrix, bunch_q, gamma, element, element_pos):
         """
-- 
2.43.0


From 5f6f35f7c743cf2d42496bced88ee8d0d5c8edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:37 +0000
Subject: [PATCH 17/31] fix: CSR position of elements that appear several times
 in a beamline

---
 wake_t/physics_models/collective_effects/csr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 2a5869d..2e877b1 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -79,14 +79,14 @@ class CSRCalculator():
             element.
 
         """
-        el_idx = self._lattice_elements.index(element)
+        # Use last occurrence (an element can appear several times).
+        n_el = len(self._lattice_elements)
+        el_idx = n_el - 1 - self._lattice_elements[::-1].index(element)
         ds_csr, ds_traj = self._lattice_element_traj_steps[el_idx]
 
         # Get current position along trajectory.
         s_current = 0
-        for el in self._lattice_elements:
-            if el is element:
-                break
+        for el in self._lattice_elements[:el_idx]:
             s_current += el.length
         s_current += element_pos
 
-- 
2.43.0


From b2694fdcdc914b248e8b7bc23d2d14d4972cc7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:10 +0000
Subject: [PATCH 18/31] fix: sign of the CSR energy kick for negatively charged
 particles

---
 wake_t/physics_models/collective_effects/csr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 2e877b1..02112a3 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -90,7 +90,9 @@ class CSRCalculator():
             s_current += el.length
         s_current += element_pos
 
-        # Get line charge profile of bunch as a histogram.
+        # Get line charge profile of bunch as a histogram. CSR decelerates
+        # the bunch regardless of the sign of its charge.
+        bunch_q = np.abs(bunch_q)
         z = -bunch_matrix[4]
         bunch_hist, bin_edges = np.histogram(z, self._n_bins, weights=bunch_q)
 
-- 
2.43.0


From 3f3de97ac84c973dccb8814b1552495c7c6e49ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:52 +0000
Subject: [PATCH 19/31] fix: last row of the tridiagonal solver of the laser
 envelope

---
 wake_t/physics_models/laser/tdma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/laser/tdma.py b/wake_t/physics_models/laser/tdma.py
index f41f9c5..42e8b68 100644
--- a/wake_t/physics_models/laser/tdma.py
+++ b/wake_t/physics_models/laser/tdma.py
@@ -42,7 +42,7 @@ def TDMA(a, b, c, d, p):
         g[i] = (d[i] - a_im1 * g[i - 1]) * inv_coef
         w[i] = c[i] * inv_coef
 
-    g[-1] = (d[-1] - a[-2] * g[-2]) / (b[-1] - a[-2] * w[-2])
+    g[-1] = (d[-1] - a[-1] * g[-2]) / (b[-1] - a[-1] * w[-1])
 
     # Fill in output array.
     p[-1] = g[-1]
-- 
2.43.0


From 26757941fdb3a576679a1fea432a9862cff1029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:08 +0000
Subject: [PATCH 20/31] fix: reject any change of the laser envelope grid after
 initialization

The check required all grid parameters to differ at the same time, so that
changing only some of them (e.g. the box length between two plasma stages)
was silently accepted.
---
 wake_t/physics_models/laser/laser_pulse.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index 7576e95..10dbdb2 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -125,14 +125,15 @@ class LaserPulse():
             'use_phase': use_phase
         }
         # Check if laser pulse has already been initialized.
-        if self.n_steps > 0:
+        if self.a_env is not None:
             # Check that grid parameters have not changed.
             if (
-                solver_params['zmin'] != self.solver_params['zmin'] and
-                solver_params['zmax'] != self.solver_params['zmax'] and
-                solver_params['rmax'] != self.solver_params['rmax'] and
-                solver_params['nz'] != self.solver_params['nz'] and
-                solver_params['nr'] != self.solver_params['nr']
+                solver_params['zmin'] != self.solver_params['zmin'] or
+                solver_params['zmax'] != self.solver_params['zmax'] or
+                solver_params['rmax'] != self.solver_params['rmax'] or
+                solver_params['nz'] != self.solver_params['nz'] or
+                solver_params['nr'] != self.solver_params['nr'] or
+                self.a_env.shape != (nz, nr)
             ):
                 raise ValueError(
                     'Laser envelope grid parameters cannot be changed once '
-- 
2.43.0


From e78a70556a391452de36add379d3887d5c7c47b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:08 +0000
Subject: [PATCH 21/31] fix: keep the polarization of summed laser pulses

The sum of two circularly polarized pulses was treated as linearly polarized.
---
 wake_t/physics_models/laser/laser_pulse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index 10dbdb2..f66b54a 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -339,7 +339,11 @@ class SummedPulse(LaserPulse):
             raise ValueError(
                 'Only laser pulses with the same central wavelength'
                 ' can currently be summed.')
-        super().__init__(pulse_1.l_0)
+        if pulse_1.polarization != pulse_2.polarization:
+            raise ValueError(
+                'Only laser pulses with the same polarization'
+                ' can currently be summed.')
+        super().__init__(pulse_1.l_0, pulse_1.polarization)
         self.pulse_1 = pulse_1
         self.pulse_2 = pulse_2
 
-- 
2.43.0


From adfa78e12eb2aa0945495e4ef7399d2abf4ad0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:09 +0000
Subject: [PATCH 22/31] fix: boundary term of dxi_psi with a parabolic plasma
 profile

The charge of the ion column up to r_max is r_max**2/2 + pc*r_max**4/4 (as in
delta_psi_eq and dr_psi_eq); the boundary term used pc*r_max/4.
---
 .../plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
index e9d6642..aa178e6 100644
--- a/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
+++ b/wake_t/physics_models/plasma_wakefields/qs_rz_baxevanis/psi_and_derivatives.py
@@ -153,7 +153,7 @@ def calculate_psi_and_derivatives_at_particles(
     if r_right <= r_max:
         dxi_psi_pp += sum_3
     else:
-        dxi_psi_pp += sum_3 - ((sum_1 - r_max**2/2 - pc*r_max/4)
+        dxi_psi_pp += sum_3 - ((sum_1 - r_max**2/2 - pc*r_max**4/4)
                                * pr_i / (r_right * (1 + psi_i)))
 
     # Again, near the peak of a strong blowout, very large and unphysical
-- 
2.43.0


From 0ff86b25edef9d0f93ea5b091432ebc2a688eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:01 +0000
Subject: [PATCH 23/31] fix: blowout fields add to the other fields of the
 element

The field gather adds the contributions of all fields. The analytic blowout
models assigned their value instead, discarding what was gathered from the
fields before them.
---
 wake_t/fields/analytical_field.py                           | 2 +-
 wake_t/physics_models/plasma_wakefields/custom_blowout.py   | 6 +++---
 wake_t/physics_models/plasma_wakefields/focusing_blowout.py | 4 ++--
 wake_t/physics_models/plasma_wakefields/simple_blowout.py   | 6 +++---
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/wake_t/fields/analytical_field.py b/wake_t/fields/analytical_field.py
index f69a6a3..d5835a1 100644
--- a/wake_t/fields/analytical_field.py
+++ b/wake_t/fields/analytical_field.py
@@ -53,7 +53,7 @@ class AnalyticalField(Field):
     >>> def linear_ex(x, y, z, t, ex, constants):
     ...     ex_slope = constants[0]
     ...     for i in prange(x.shape[0]):
-    ...         ex[i] = ex_slope * x[i]
+    ...         ex[i] += ex_slope * x[i]
     ...
     >>> ex = AnalyticField(e_x=linear_ex, constants=[1e6])
 
diff --git a/wake_t/physics_models/plasma_wakefields/custom_blowout.py b/wake_t/physics_models/plasma_wakefields/custom_blowout.py
index 1f1a364..50c1b4d 100644
--- a/wake_t/physics_models/plasma_wakefields/custom_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/custom_blowout.py
@@ -38,12 +38,12 @@ class CustomBlowoutWakefield(AnalyticalField):
         def e_x(x, y, xi, t, ex, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k * x[i]
+                ex[i] += ct.c * k * x[i]
 
         def e_y(x, y, xi, t, ey, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k * y[i]
+                ey[i] += ct.c * k * y[i]
 
         def e_z(x, y, xi, t, ez, constants):
             e_z_0 = constants[1]
@@ -53,7 +53,7 @@ class CustomBlowoutWakefield(AnalyticalField):
 
             xi_off = - xi_fields + (1 - b_w) * ct.c * t
             for i in prange(x.shape[0]):
-                ez[i] = e_z_0 + e_z_p * (xi[i] + xi_off)
+                ez[i] += e_z_0 + e_z_p * (xi[i] + xi_off)
 
         super().__init__(e_x=e_x, e_y=e_y, e_z=e_z)
 
diff --git a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
index 23bc5ed..de59416 100644
--- a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
@@ -11,11 +11,11 @@ class FocusingBlowoutField(AnalyticalField):
 
         def e_x(x, y, xi, t, ex, k):
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k[i] * x[i]
+                ex[i] += ct.c * k[i] * x[i]
 
         def e_y(x, y, xi, t, ey, k):
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k[i] * y[i]
+                ey[i] += ct.c * k[i] * y[i]
 
         super().__init__(e_x=e_x, e_y=e_y)
 
diff --git a/wake_t/physics_models/plasma_wakefields/simple_blowout.py b/wake_t/physics_models/plasma_wakefields/simple_blowout.py
index 41caa13..85c2ea3 100644
--- a/wake_t/physics_models/plasma_wakefields/simple_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/simple_blowout.py
@@ -18,12 +18,12 @@ class SimpleBlowoutWakefield(AnalyticalField):
         def e_x(x, y, xi, t, ex, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ex[i] = ct.c * k * x[i]
+                ex[i] += ct.c * k * x[i]
 
         def e_y(x, y, xi, t, ey, constants):
             k = constants[0]
             for i in prange(x.shape[0]):
-                ey[i] = ct.c * k * y[i]
+                ey[i] += ct.c * k * y[i]
 
         def e_z(x, y, xi, t, ez, constants):
             e_z_p = constants[1]
@@ -35,7 +35,7 @@ class SimpleBlowoutWakefield(AnalyticalField):
             # Precalculate offset.
             xi_off = l_p/2 - l_c - field_off + (1-b_w)*ct.c*t
             for i in prange(x.shape[0]):
-                ez[i] = e_z_p * (xi[i] + xi_off)
+                ez[i] += e_z_p * (xi[i] + xi_off)
 
         super().__init__(e_x=e_x, e_y=e_y, e_z=e_z)
 
-- 
2.43.0


From fb1bda325085e019263100138b21d6c04e44b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:29 +0000
Subject: [PATCH 24/31] fix: accept density functions that return a scalar

A density function such as 'lambda z: 1e23' raised TypeError in the automatic
time step and in the focusing blowout model.
---
 wake_t/beamline_elements/plasma_stage.py                    | 2 +-
 wake_t/physics_models/plasma_wakefields/focusing_blowout.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/wake_t/beamline_elements/plasma_stage.py b/wake_t/beamline_elements/plasma_stage.py
index ec9a83f..952b677 100644
--- a/wake_t/beamline_elements/plasma_stage.py
+++ b/wake_t/beamline_elements/plasma_stage.py
@@ -147,7 +147,7 @@ class PlasmaStage(FieldElement):
         z = np.linspace(0, self.length, 100)
         n_p = self.density(z)
         q_over_m = beam.q_species / beam.m_species
-        w_p = np.sqrt(max(n_p)*ct.e**2/(ct.m_e*ct.epsilon_0))
+        w_p = np.sqrt(np.max(n_p)*ct.e**2/(ct.m_e*ct.epsilon_0))
         max_kx = (ct.m_e/(2*ct.e*ct.c))*w_p**2
         w_x = np.sqrt(np.abs(q_over_m*ct.c * max_kx/min_gamma))
         period_x = 1/w_x
diff --git a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
index de59416..17d6c19 100644
--- a/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
+++ b/wake_t/physics_models/plasma_wakefields/focusing_blowout.py
@@ -24,4 +24,5 @@ class FocusingBlowoutField(AnalyticalField):
         n_p = self.density(z)
         w_p = np.sqrt(n_p*ct.e**2/(ct.m_e*ct.epsilon_0))
         k = (ct.m_e/(2*ct.e*ct.c))*w_p**2
-        self.constants = k
+        # One value per particle, also if the density function is constant.
+        self.constants = k * np.ones_like(z)
-- 
2.43.0


From 98efb313780de33e6b623a43d11ec984b6dee0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:59 +0000
Subject: [PATCH 25/31] fix: read bunch parameters with current versions of
 h5py

---
 wake_t/diagnostics/bunch_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/diagnostics/bunch_analysis.py b/wake_t/diagnostics/bunch_analysis.py
index b25d119..032b7df 100644
--- a/wake_t/diagnostics/bunch_analysis.py
+++ b/wake_t/diagnostics/bunch_analysis.py
@@ -89,7 +89,7 @@ def read_parameters_from_file(file_path):
     bunch_params = {}
     with H5File(file_path, 'r') as h5_file:
         for param in h5_file.keys():
-            bunch_params[param] = h5_file.get(param).value
+            bunch_params[param] = h5_file[param][()]
     return bunch_params
 
 
-- 
2.43.0


From 59e68f3b5c7b0084ac317fb13b192dad0aaf9fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:43 +0000
Subject: [PATCH 26/31] fix: second order map of a combined-function dipole
 with k1 = -h^2/5

The limits used when 5*k1 + h^2 vanishes are those of a drift, so that
the map of such an element was wrong.
---
 .../beam_optics/transfer_matrices.py          | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/wake_t/physics_models/beam_optics/transfer_matrices.py b/wake_t/physics_models/beam_optics/transfer_matrices.py
index 4ad5065..319adfd 100644
--- a/wake_t/physics_models/beam_optics/transfer_matrices.py
+++ b/wake_t/physics_models/beam_optics/transfer_matrices.py
@@ -139,10 +139,22 @@ def second_order_matrix(z, L, theta, k1, k2, gamma_ref):
     J3 = ((15*L - 22*sx + 9*sx*cx - 2*sx*cx*cx) /
           (6 * kx4 * kx2)) if kx != 0 else L ** 7 / 56.
     J_denom = kx2 - 4 * ky2
-    Jc = (c2y - cx) / J_denom if J_denom != 0 else 0.5 * L2
-    Js = (cy * sy - sx) / J_denom if J_denom != 0 else L3 / 6
-    Jd = (d2y - dx) / J_denom if J_denom != 0 else L4 / 24
-    Jf = (f2y - fx) / J_denom if J_denom != 0 else L5 / 120
+    if abs(J_denom) > 1e-8 * abs(kx2):
+        Jc = (c2y - cx) / J_denom
+        Js = (cy * sy - sx) / J_denom
+        Jd = (d2y - dx) / J_denom
+        Jf = (f2y - fx) / J_denom
+    elif kx2 != 0:
+        # Limit of the expressions above when 4*ky2 = kx2 (up to rounding).
+        Jc = 0.5 * L * sx
+        Js = 0.5 * (sx - L * cx) / kx2
+        Jd = (dx - 0.5 * L * sx) / kx2
+        Jf = (fx - 0.5 * (sx - L * cx) / kx2) / kx2
+    else:
+        Jc = 0.5 * L2
+        Js = L3 / 6
+        Jd = L4 / 24
+        Jf = L5 / 120
 
     khk = K2 + 2*h*K1
     T = np.zeros((6, 6, 6))
-- 
2.43.0


From ea7bb751da5da4562491df7c73f1075c30757ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:04 +0000
Subject: [PATCH 27/31] fix: even update period of a field always follows from
 the requested one

Using a NumericalField with force_even_updates again computed the period
from the already adjusted one: rounding gave one more update on each use
(length 0.02, 13 updates), and a shorter element before a longer one left
the shortened period.
---
 wake_t/fields/numerical_field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wake_t/fields/numerical_field.py b/wake_t/fields/numerical_field.py
index 6fe68f9..d556b1e 100644
--- a/wake_t/fields/numerical_field.py
+++ b/wake_t/fields/numerical_field.py
@@ -44,6 +44,7 @@ class NumericalField(Field):
     ) -> None:
         super().__init__(openpmd_diag_supported=openpmd_diag_supported)
         self.dt_update = dt_update
+        self._dt_update_requested = dt_update
         self.force_even_updates = force_even_updates
         self.initialized = False
 
@@ -95,7 +96,9 @@ class NumericalField(Field):
     ) -> None:
         """Autoadjust the time step of the field update."""
         if self.force_even_updates:
-            n_updates = np.ceil(t_final / self.dt_update)
+            # Start always from the requested value, so that using the field
+            # again (also for another length) does not shorten it further.
+            n_updates = np.ceil(t_final / self._dt_update_requested)
             self.dt_update = t_final / n_updates
 
     def _initialize_properties(self, bunches):
-- 
2.43.0


From e75ea278cb906b769db508fbf36046b68e2c265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:22 +0000
Subject: [PATCH 28/31] fix: reallocate the work arrays of a bunch when its
 number of particles changes

After a push, replacing the particles by more of them (set_bunch_matrix)
made the compiled pushers write beyond the end of the old arrays.
---
 wake_t/particles/particle_bunch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wake_t/particles/particle_bunch.py b/wake_t/particles/particle_bunch.py
index 8f8f4b8..224de9d 100644
--- a/wake_t/particles/particle_bunch.py
+++ b/wake_t/particles/particle_bunch.py
@@ -324,7 +324,8 @@ class ParticleBunch():
 
     def get_field_arrays(self):
         """Get the arrays where the gathered fields will be stored."""
-        if not self.__field_arrays_allocated:
+        if (not self.__field_arrays_allocated
+                or len(self.__e_x) != len(self.x)):
             self.__preallocate_field_arrays()
         return (
             self.__e_x, self.__e_y, self.__e_z,
@@ -333,7 +334,8 @@ class ParticleBunch():
 
     def get_rk4_arrays(self):
         """Get the arrays needed by the RK4 pusher."""
-        if not self.__rk4_arrays_allocated:
+        if (not self.__rk4_arrays_allocated
+                or len(self.__x_rk4) != len(self.x)):
             self.__preallocate_rk4_arrays()
         return (
             self.__x_rk4, self.__y_rk4, self.__xi_rk4,
-- 
2.43.0


From d4a61db7bfb5d2747ed57034d53094a083620867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:57 +0000
Subject: [PATCH 29/31] fix: outputs of transfer-matrix elements have their own
 weights and tags

They shared the arrays of the tracked bunch, so changing its weights
afterwards changed all stored outputs.
---
 wake_t/beamline_elements/tm_elements.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wake_t/beamline_elements/tm_elements.py b/wake_t/beamline_elements/tm_elements.py
index d2e2eef..90ac596 100644
--- a/wake_t/beamline_elements/tm_elements.py
+++ b/wake_t/beamline_elements/tm_elements.py
@@ -1,6 +1,7 @@
 """ Contains the classes of all elements tracked using transfer matrices. """
 from typing import Optional, Union, List
 import time
+from copy import deepcopy
 
 import numpy as np
 import scipy.constants as ct
@@ -257,8 +258,9 @@ class TMElement():
             new_bunch_mat = np.dot(rot, new_bunch_mat)
         new_bunch_mat[0] += new_x_ref
         # create new bunch
-        new_bunch = ParticleBunch(old_bunch.w, bunch_matrix=new_bunch_mat,
-                                  tags=old_bunch.tags,
+        new_bunch = ParticleBunch(deepcopy(old_bunch.w),
+                                  bunch_matrix=new_bunch_mat,
+                                  tags=deepcopy(old_bunch.tags),
                                   prop_distance=new_prop_dist,
                                   t_flight=old_bunch.t_flight,
                                   z_injection=old_bunch.z_injection,
-- 
2.43.0


From 262042401ab89e9ab0a4b67816a644b73799efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:56 +0000
Subject: [PATCH 30/31] fix: rejected changes of the laser grid leave the pulse
 as it was

set_envelope_solver_params replaced the subgrid settings before raising,
so that the next step of the pulse used a grid its envelope is not on.
---
 wake_t/physics_models/laser/laser_pulse.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/wake_t/physics_models/laser/laser_pulse.py b/wake_t/physics_models/laser/laser_pulse.py
index f66b54a..25400fd 100644
--- a/wake_t/physics_models/laser/laser_pulse.py
+++ b/wake_t/physics_models/laser/laser_pulse.py
@@ -107,19 +107,17 @@ class LaserPulse():
                 'Number of laser envelope substeps cannot be smaller than 1.')
 
         # Determine whether to run laser envelope in a subgrid.
-        self.use_subgrid = subgrid_nz is not None or subgrid_nr is not None
-        if self.use_subgrid:
+        use_subgrid = subgrid_nz is not None or subgrid_nr is not None
+        if use_subgrid:
             subgrid_nz = nz if subgrid_nz is None else subgrid_nz
             subgrid_nr = nr if subgrid_nr is None else subgrid_nr
-            self._create_laser_subgrid(
-                nz, nr, subgrid_nz, subgrid_nr, xi_max, xi_min, r_max)
 
         solver_params = {
             'zmin': xi_min,
             'zmax': xi_max,
             'rmax': r_max,
-            'nz': subgrid_nz if self.use_subgrid else nz,
-            'nr': subgrid_nr if self.use_subgrid else nr,
+            'nz': subgrid_nz if use_subgrid else nz,
+            'nr': subgrid_nr if use_subgrid else nr,
             'nt': nt,
             'dt': dt / nt,
             'use_phase': use_phase
@@ -143,6 +141,11 @@ class LaserPulse():
             # non-centered envelope solver is used for the next step.
             if solver_params['dt'] != self.solver_params['dt']:
                 self.n_steps = 0
+        # Apply the new settings (only if they have not been rejected).
+        self.use_subgrid = use_subgrid
+        if self.use_subgrid:
+            self._create_laser_subgrid(
+                nz, nr, subgrid_nz, subgrid_nr, xi_max, xi_min, r_max)
         self.solver_params = solver_params
 
     def initialize_envelope(self) -> None:
-- 
2.43.0


From 4ba9774704b5618c34d6c153c74b728bb4d8b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:38 +0000
Subject: [PATCH 31/31] fix: keep the transverse term of the CSR kernel before
 the trajectory

The term with the transverse distance of the straight line before the
start of the reference trajectory was dropped if the distance was small.
It is of the same order as the remaining terms: the kick at the entrance
of a first bend was too small by up to a factor of three.
---
 wake_t/physics_models/collective_effects/csr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wake_t/physics_models/collective_effects/csr.py b/wake_t/physics_models/collective_effects/csr.py
index 02112a3..322e859 100644
--- a/wake_t/physics_models/collective_effects/csr.py
+++ b/wake_t/physics_models/collective_effects/csr.py
@@ -371,7 +371,7 @@ class CSRCalculator():
               (beta_sq * np.dot(ev1, evo) - 1.) * np.log(
                   (winf - s + R) / (winf - s[0] + R[0])) +
               gamma_sq_inv * np.log(w_range[0]/w_range))
-        if a2/R[1]**2 > 1e-7:
+        if a != 0:
             KS -= (beta * np.dot(uup, evo) *
                    (np.arctan((s[0] - winf)/a) - np.arctan((s-winf)/a)))
         return KS
-- 
2.43.0

