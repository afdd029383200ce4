LEVELS = {}
NA = []
T_SAMPLE = 'The tests run a handful of fixed set-ups and compare a few ' \
           'integrated numbers; '

prop('C01', 'Beam deposition conserves charge',
     'Depositing a particle distribution on the radial-longitudinal grid adds '
     'to the physical cells exactly the total weight of the particles that '
     'lie within the grid, for every particle position, weight, grid size and '
     'cell size, for linear and cubic particle shapes, with and without the '
     'near-axis correction. Particles outside the grid leave it untouched, '
     'no weight ends up in guard cells, and deposits add to what the grid '
     'already held.',
     ['inputs', 'configurations'],
     'all particle positions (incl. on axis, on cell and grid boundaries), '
     'weights, grid shapes >= 3x3, shapes, correction on/off',
     T_SAMPLE + 'charge lost only in boundary cells or for particles close '
     'to the axis does not show there.',
     [W + 'particles/deposition.py'],
     [('3d deposition dispatch', W + 'particles/deposition.py:'
       'deposit_3d_distribution'),
      ('linear shape', W + 'particles/deposition.py:'
       'deposit_3d_distribution_linear'),
      ('cubic shape', W + 'particles/deposition.py:'
       'deposit_3d_distribution_cubic')],
     'All obligations are discharged for an arbitrary particle and arbitrary '
     'grid sizes over exact reals; floating-point rounding is only covered '
     'by the run-time replay.',
     observe='return value / array content after deposition')

prop('C02', 'Beam deposition is local and keeps the centre of charge',
     'A deposited particle only changes cells within the width of its shape '
     '(one cell for linear, two for cubic), and the weighted mean '
     'longitudinal position of what it deposits is the particle position '
     'wherever the shape does not touch the grid edge; without near-axis '
     'correction the same holds radially. Linear shapes never deposit a '
     'weight of the opposite sign, and with the near-axis correction a '
     'uniform distribution gives the exact charge of each ring-shaped cell '
     '(for cubic shapes, away from the outer edge).',
     ['inputs', 'configurations'],
     'all particle positions, weights, grid sizes, shapes, correction on/off',
     T_SAMPLE + 'a weight assigned to a neighbouring cell still conserves '
     'the total.',
     [W + 'particles/deposition.py'],
     [('linear shape', W + 'particles/deposition.py:'
       'deposit_3d_distribution_linear'),
      ('cubic shape', W + 'particles/deposition.py:'
       'deposit_3d_distribution_cubic')],
     'Unbounded over positions and grid sizes, exact reals.')

prop('C03', 'Plasma column deposition conserves charge',
     'Depositing a column of plasma particles at a longitudinal slice adds '
     'exactly the total weight of the particles within the radial range of '
     'the grid to the physical cells, within the shape width of the slice '
     'and of each particle radius. Particles beyond the grid deposit '
     'nothing, guard cells stay empty, and the radial centre is kept away '
     'from the edges.',
     ['inputs', 'configurations'],
     'all particle radii, weights, slices (incl. first and last), grid sizes',
     T_SAMPLE + 'only interior slices are compared.',
     [W + 'physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py'],
     [('plasma deposition', W + 'physics_models/plasma_wakefields/'
       'qs_rz_baxevanis/deposition.py:deposit_plasma_particles')],
     'Unbounded over radii, slices and grid sizes, exact reals.')

prop('C04', 'Field gathering is the interpolation of the gridded field',
     'Fields gathered by particles are the bilinear interpolation of the '
     'gridded values at the particle position, with transverse components '
     'antisymmetric and longitudinal/scalar ones symmetric about the axis, '
     'projected on x and y so that the result is rotationally symmetric. '
     'Particles outside the grid get no contribution, contributions add to '
     'what was gathered before, and a particle exactly on axis gets zero '
     'transverse field.',
     ['inputs', 'configurations'],
     'all particle positions, grid contents, grid sizes and spacings',
     T_SAMPLE + 'positions on cell boundaries, on axis and at the last grid '
     'point are not tried.',
     [W + 'particles/interpolation.py', W + 'fields/rz_wakefield.py'],
     [('gather to 3d particles', W + 'particles/interpolation.py:'
       'gather_main_fields_cyl_linear, gather_field_cyl_linear'),
      ('gather to plasma particles', W + 'particles/interpolation.py:'
       'gather_sources_qs_baxevanis'),
      ('wakefield object', W + 'fields/rz_wakefield.py:_gather')],
     'Unbounded over positions, grid contents and sizes, exact reals; '
     'array bounds and divisors are obligations too.')

prop('C05', 'The Boris pusher advances particles correctly',
     'One Boris step drifts each particle for half a step, applies the '
     'fields found at that midpoint position and at the middle of the time '
     'step, and drifts for the second half with the new momentum. A purely '
     'magnetic field never changes the energy, a purely electric field gives '
     'the exact impulse, and a step followed by the same step backwards '
     'restores the particle. Particle weights are untouched.',
     ['inputs', 'histories'],
     'all particle states, species, time steps and position- and '
     'time-dependent fields',
     T_SAMPLE + 'errors of second order, in one field component or in the '
     'gathering time stay within their tolerances or are not excited.',
     [W + 'particles/push/boris_pusher.py', W + 'fields/gather.py',
      W + 'particles/particle_bunch.py'],
     [('Boris step', W + 'particles/push/boris_pusher.py:'
       'apply_boris_pusher'),
      ('rotation', W + 'particles/push/boris_pusher.py:push_momentum'),
      ('drift', W + 'particles/push/boris_pusher.py:'
       'apply_half_position_push')],
     'Unbounded; fields are uninterpreted functions of position and time; '
     'exact reals.')

prop('C06', 'The Runge-Kutta pusher solves the equations of motion',
     'One step of the default fourth-order pusher is the classical '
     'four-stage combination for the relativistic Lorentz-force equations, '
     'with fields evaluated at the stage positions and at the start, middle, '
     'middle and end of the step. Without field a particle moves on an exact '
     'straight line; results never depend on what the bunch was pushed with '
     'before; and an unknown pusher name is refused without touching the '
     'bunch.',
     ['inputs', 'histories'],
     'all particle states, species, time steps, fields and sequences of '
     'pushes',
     T_SAMPLE + 'a wrong stage weight or time only lowers the order.',
     [W + 'particles/push/runge_kutta_4.py', W + 'fields/gather.py',
      W + 'particles/particle_bunch.py'],
     [('RK4 step', W + 'particles/push/runge_kutta_4.py:apply_rk4_pusher'),
      ('right-hand side', W + 'particles/push/runge_kutta_4.py:'
       'calculate_k')],
     'Unbounded; fields are uninterpreted functions; exact reals.')

prop('C07', 'The tracking schedule is complete and causal',
     'Tracking through a field-based element advances every bunch, whatever '
     'its (fixed or adaptive) time step, from the start to exactly the end '
     'in contiguous forward steps no longer than requested; a bunch is never '
     'pushed with a field that is not yet or no longer valid at that time. '
     'The requested number of evenly spaced outputs plus the initial one is '
     'produced, each with every bunch at the output time (when pushing '
     'before outputs is enabled), and the diagnostics position advances once '
     'by the element length.',
     ['schedules', 'configurations', 'inputs'],
     'all combinations of lengths, time steps, update periods, output '
     'counts, adaptive steps and options',
     T_SAMPLE + 'only a few combinations of periods occur.',
     [W + 'tracking/tracker.py', W + 'beamline_elements/field_element.py'],
     [('tracking loop', W + 'tracking/tracker.py:Tracker.do_tracking'),
      ('last step', W + 'tracking/tracker.py:Tracker.evolve_bunch'),
      ('outputs', W + 'tracking/tracker.py:Tracker.generate_diagnostics')],
     'Inductive loop invariant over unbounded iterations and arbitrary '
     'times; the number of tracked objects is enumerated (up to 2 bunches '
     'and 2 fields); exact reals, so float32 tie-breaking is only covered by '
     'the run-time contract.',
     state=[('object times', 'time reached by each bunch, field and the '
             'diagnostics')])

prop('C08', 'Numerical fields are updated at the right times',
     'In every tracking run a numerically computed field is first computed '
     'at the entrance and then once per update period, from scratch, with '
     'the plasma density of the position reached; the period is the '
     'requested one. If even updates are required the period may only be '
     'shortened, to the longest one that divides the duration, so that the '
     'last update falls on the end of the element.',
     ['schedules', 'histories', 'configurations'],
     'all durations, periods, density profiles and repeated runs',
     T_SAMPLE + 'an element is never tracked twice there.',
     [W + 'fields/numerical_field.py', W + 'fields/rz_wakefield.py',
      W + 'tracking/tracker.py'],
     [('update', W + 'fields/numerical_field.py:NumericalField.update'),
      ('even updates', W + 'fields/numerical_field.py:'
       'NumericalField.adjust_dt'),
      ('density', W + 'fields/rz_wakefield.py:_calculate_field')],
     'Unbounded over times and periods; repeated runs through the tracker '
     'are sampled.')

prop('C09', 'Particle bunches keep their data through every conversion',
     'The charge of a bunch is its weights times the species charge; setting '
     'the charge, converting to and from the matrix representations, '
     'recentring and copying change nothing but what they are meant to. A '
     'copy has its own storage and every property of the original (including '
     'tags, injection position, reference angle and displacement) and '
     'evolves identically. openPMD data are in SI units. A bunch moves '
     'ballistically exactly until its head reaches the injection position, '
     'and one call of evolve is one push of the requested kind.',
     ['inputs', 'histories'],
     'all particle coordinates, weights, species and bunch properties',
     T_SAMPLE + 'most properties of a bunch are not looked at again.',
     [W + 'particles/particle_bunch.py'],
     [('matrices', W + 'particles/particle_bunch.py:ParticleBunch'),
      ('copy', W + 'particles/particle_bunch.py:ParticleBunch.copy'),
      ('injection', W + 'particles/particle_bunch.py:ParticleBunch.evolve')],
     'Unbounded over particles; averages over the bunch are uninterpreted '
     'linear aggregates; exact reals.')

prop('C10', 'Transfer maps are symplectic and compose',
     'The first order map of an element is symplectic, solves the linear '
     'equations of motion (focusing, dispersion, path length) and the maps '
     'of consecutive sections compose to the map of the whole section. The '
     'second order maps solve the equations of motion of the element to '
     'second order (Hamiltonian of a charged particle in a curved '
     'quadrupole-sextupole field), satisfy the second order symplectic '
     'conditions and compose to second order, for every combination of '
     'bending angle, quadrupole and sextupole strength, including '
     'k1 = -h^2 and k1 = -h^2/5; zero length is the identity. Applying a '
     'map to a bunch is R x + T x x for each particle and leaves the input '
     'alone.',
     ['inputs', 'configurations'],
     'all lengths, angles, strengths, reference energies',
     'No test touches a dipole, sextupole or combined-function element.',
     [W + 'physics_models/beam_optics/transfer_matrices.py',
      W + 'particles/push/transfer_matrix.py'],
     [('first order', W + 'physics_models/beam_optics/transfer_matrices.py:'
       'first_order_matrix'),
      ('second order', W + 'physics_models/beam_optics/transfer_matrices.py:'
       'second_order_matrix'),
      ('application', W + 'particles/push/transfer_matrix.py:'
       'track_with_transfer_map')],
     'Exact identities for all parameter values in seven sign classes '
     '(trigonometric/hyperbolic normal form); exact reals.')

prop('C11', 'Transfer-matrix tracking: steps, outputs and reference path',
     'Tracking through a transfer-matrix element applies the map of the '
     'element in n_out equal steps to the coordinates relative to the '
     'reference path and returns n_out outputs (plus the initial one if '
     'requested) with the distance, reference angle and displacement of the '
     'respective position; the bunch itself ends at the exit. The reference '
     'particle stays on the reference path. Without a given reference energy '
     'the average of the tracked bunch is used, for every bunch. Weights, '
     'tags, species and name are kept, stored outputs are independent of '
     'the bunch, and openPMD times follow the position.',
     ['inputs', 'configurations', 'histories'],
     'all elements, output counts, entry angles/offsets, energies, reuse of '
     'an element for several bunches',
     'The tests only track one bunch through a short beamline.',
     [W + 'beamline_elements/tm_elements.py',
      W + 'utilities/bunch_manipulation.py'],
     [('tracking', W + 'beamline_elements/tm_elements.py:TMElement.track'),
      ('frame', W + 'beamline_elements/tm_elements.py:'
       'TMElement._create_new_bunch'),
      ('conversion', W + 'utilities/bunch_manipulation.py:'
       'convert_to_ocelot_matrix')],
     'Loop rule over an arbitrary step of arbitrarily many; the map itself '
     'is a stub with the contract of C10; forward tracking only (the code '
     'documents backtracking as unfinished); exact reals.')

prop('C12', 'CSR steps tile the element and do not depend on the past',
     'With coherent synchrotron radiation enabled the tracking steps tile '
     'each element exactly, are never longer than the requested CSR step '
     'and hit every output position. The reference trajectory is the '
     'integral of its unit tangent and agrees with the path of the bunch. '
     'After a reset, or an element without CSR, nothing of an earlier '
     'simulation is left; an element may appear several times in a '
     'beamline. The kick changes only the energy, scales with the charge, '
     'does not depend on the bend direction or bunch position, and is the '
     'retarded force of the line charge, integrated along the reference '
     'trajectory and the straight line before it: it gives the known '
     'steady-state energy loss of a Gaussian bunch, and neither a drift in '
     'front of the beamline nor skipping the early part of the trajectory '
     'changes it.',
     ['inputs', 'configurations', 'histories'],
     'all element lengths, step settings, output counts, lattices and '
     'earlier simulations',
     'No test uses CSR.',
     [W + 'physics_models/collective_effects/csr.py',
      W + 'beamline_elements/tm_elements.py'],
     [('steps', W + 'beamline_elements/tm_elements.py:'
       'TMElement._determine_steps'),
      ('calculator', W + 'physics_models/collective_effects/csr.py:'
       'CSRCalculator')],
     'Step tiling, reset, trajectory and the three parts of the kernel are '
     'proved for all values and any number of points; one kick for '
     'beamlines of up to 3 elements (bounded), with histogram, kernel '
     'density estimate, convolution and interpolation as documented; exact '
     'reals.',
     state=[('CSRCalculator singleton', 'elements, steps and trajectory of '
             'the current simulation')])

L = W + 'physics_models/laser/'
prop('C13', 'The laser envelope solver solves the envelope equation',
     'Every step of the envelope solver, time-centred or first order, '
     'returns the solution of the discretised paraxial envelope equation in '
     'a plasma with the given susceptibility: each row of the tridiagonal '
     'system is satisfied for every grid size, with zero field ahead of '
     'and radially outside the grid and symmetry on axis. The step is '
     'linear in the envelope, a zero envelope stays zero, no slice depends '
     'on slices behind it, and n substeps equal n calls of one substep. '
     'Phase unwrapping gives a continuous phase equal to the input modulo '
     '2 pi.',
     ['inputs', 'configurations'],
     'all envelopes, susceptibilities, wavelengths, densities, grid sizes, '
     'step sizes and numbers of substeps, with and without phase correction',
     'The tests compare the result of one vacuum and one plasma propagation '
     'to a few digits.',
     [L + 'tdma.py', L + 'envelope_solver.py',
      L + 'envelope_solver_non_centered.py', L + 'utils.py'],
     [('tridiagonal solver', L + 'tdma.py:TDMA'),
      ('time-centred solver', L + 'envelope_solver.py:evolve_envelope'),
      ('first-order solver', L + 'envelope_solver_non_centered.py:'
       'evolve_envelope_non_centered')],
     'Rows of the system by induction for any size; small grids completely '
     '(bounded); exact reals. Residual, causality, linearity and unwrap also '
     'as run-time contracts.')

prop('C14', 'A laser pulse keeps its grid, history and output consistent',
     'A laser envelope is initialised once, on the grid it was configured '
     'for, and the grid cannot be changed afterwards: any change raises '
     'ValueError and leaves the pulse usable. A step uses the centred '
     'solver only when the previous step had the same length. The output '
     'envelope always has the main grid and is the (bilinearly '
     'interpolated) current envelope; interpolation between grids '
     'reproduces linear functions exactly, including up to the axis and '
     'the outer edge. Within a wakefield the envelope of the laser evolves '
     'with the susceptibility of the previous step, and the group velocity '
     'follows the linear dispersion relation.',
     ['inputs', 'configurations', 'histories'],
     'all grids, subgrids, step sizes, sequences of set-up and evolve calls',
     'The tests only use one grid per pulse and never change the settings '
     'in between.',
     [L + 'laser_pulse.py', W + 'fields/interpolation.py'],
     [('settings', L + 'laser_pulse.py:LaserPulse.set_envelope_solver_params'),
      ('initialisation', L + 'laser_pulse.py:LaserPulse.initialize_envelope'),
      ('step', L + 'laser_pulse.py:LaserPulse.evolve')],
     'All set-ups symbolically over exact reals with the solver as a '
     'contract stub; interpolation for an arbitrary grid point.',
     state=[('LaserPulse._a_env, _a_env_old', 'current and previous '
             'envelope including two guard rows'),
            ('LaserPulse.n_steps', 'steps done with the current settings')])

prop('C15', 'Laser pulses are the paraxial beams they are named after',
     'The envelope of a Gaussian or Laguerre-Gauss pulse is, at every '
     'position and distance to the focus, the exact solution of the '
     'paraxial equation with the requested peak amplitude, waist, duration '
     '(FWHM of the intensity), focus position, centre and carrier phase. A '
     'flattened Gaussian is the superposition of modes that gives peak '
     'amplitude a_0 at focus. The sum of pulses is the sum of the '
     'envelopes, keeps the polarisation and rejects different wavelengths '
     'or polarisations. '
     'A linearly polarised pulse of amplitude a drives the plasma like a '
     'circular one of a/sqrt(2).',
     ['inputs', 'configurations'],
     'all amplitudes, waists, durations, focus positions, phases, mode '
     'orders, sums of pulses',
     'Only Gaussian and flattened pulses at one focus position are used in '
     'the tests.',
     [L + 'laser_pulse.py'],
     [('Gaussian', L + 'laser_pulse.py:GaussianPulse'),
      ('Laguerre-Gauss', L + 'laser_pulse.py:LaguerreGaussPulse'),
      ('flattened', L + 'laser_pulse.py:FlattenedGaussianPulse'),
      ('sum', L + 'laser_pulse.py:SummedPulse')],
     'Gaussian and sums unbounded; mode orders 0-3 and flattened N 0-4 '
     'bounded; higher orders and propagation by quadrature at run time. '
     'OpenPMDPulse needs an optional package that is absent: not covered.')

Q = W + 'physics_models/plasma_wakefields/qs_rz_baxevanis/'
COL = ('all numbers of plasma particles, orders, radii, charges, momenta, '
       'channel profiles, mesh positions')

prop('C16', 'Plasma potential is that of the rings plus the ion background',
     'In the quasi-static model the wakefield potential psi, its radial and '
     'its longitudinal derivative, at every plasma particle and every mesh '
     'radius, are those of the rings of plasma charge inside that radius '
     'minus the (uniform or parabolic) ion column, zero outside a neutral '
     'plasma; between particles the documented interpolation is used, the '
     'order in memory of the particles does not matter, results outside '
     'the documented limits are clipped and an undisturbed plasma has no '
     'potential and no field.',
     ['inputs', 'configurations'], COL,
     'The tests only see the potential through final beam parameters of a '
     'few runs.',
     [Q + 'psi_and_derivatives.py'],
     [('mesh', Q + 'psi_and_derivatives.py:calculate_psi'),
      ('particles', Q + 'psi_and_derivatives.py:'
       'calculate_psi_and_derivatives_at_particles')],
     'Any number of particles by induction over loop invariants; mesh for up '
     'to 3 particles and 2 points (bounded); exact reals; run-time contracts '
     'against a direct sum.')

prop('C17', 'Azimuthal plasma field solves the quasi-static field equation',
     'The magnetic field of the plasma column, at the particles and on the '
     'mesh, is regular on axis, falls as 1/r outside, and satisfies at '
     'every ring the continuity and jump conditions that follow from the '
     'charge, momentum, potential and laser and beam sources of that '
     'particle. It does not depend on the memory order of the particles, is '
     'clipped to the documented limit, and vanishes for plasma at rest '
     'without sources.',
     ['inputs', 'configurations'], COL,
     'The tests only see the field through final beam parameters of a few '
     'runs.',
     [Q + 'b_theta.py'],
     [('coefficients', Q + 'b_theta.py:calculate_ai_bi_from_axis'),
      ('particles', Q + 'b_theta.py:calculate_b_theta_at_particles'),
      ('mesh', Q + 'b_theta.py:calculate_b_theta')],
     'Any number of particles by induction; mesh for up to 3 particles and 2 '
     'points (bounded); exact reals; run-time contracts against a linear '
     'solve.')

prop('C18', 'Plasma pushers integrate the quasi-static equations of motion',
     'One slice step of the plasma particles is the classical fourth-order '
     'Runge-Kutta step (sources, potential and magnetic field evaluated '
     'anew at every substep, from the state of that substep) or the '
     'five-step Adams-Bashforth formula with the derivatives of the last '
     'five slices, for dr/dxi = p_r/(1+psi) and the radial force of the '
     'fields and sources at the particle. A particle that crosses the axis '
     'is reflected with its momentum, and the history of derivatives is '
     'reflected with it.',
     ['inputs', 'histories'],
     'all plasma states, fields, sources, step sizes, derivative histories',
     'The two pushers are exercised by one test each that compares final '
     'beam parameters.',
     [Q + 'plasma_push/rk4.py', Q + 'plasma_push/ab5.py'],
     [('Runge-Kutta', Q + 'plasma_push/rk4.py:evolve_plasma_rk4'),
      ('Adams-Bashforth', Q + 'plasma_push/ab5.py:evolve_plasma_ab5')],
     'For an arbitrary particle, over exact reals, with the fields by their '
     'contracts (C04, C16, C17); run-time contracts against an independent '
     'step.')

prop('C19', 'Quasi-static wakefields are causal and follow from the sources',
     'For given laser, bunches and plasma the quasi-static model starts from '
     'plasma at rest ahead of the window with the requested density '
     'profile, advances slice by slice from head to tail, puts every '
     'particle on the mass shell (or at rest above max_gamma), deposits its '
     'charge and current-corrected susceptibility, and gives the fields '
     'E_z = -d psi/d xi, E_r - c B = -d psi/d r, and B of plasma plus bunches '
     'in SI units. Every bunch contributes its azimuthal field; nothing '
     'influences the plasma ahead of it; without sources there is no field; '
     'the wakefield object uses the density and channel at its current '
     'position and keeps no state between updates.',
     ['inputs', 'configurations', 'histories'],
     'all grids, densities, channel profiles, particle numbers, shapes, '
     'pushers, lasers and sets of bunches',
     'The tests compare a few numbers of a few complete runs.',
     [Q + 'solver.py', Q + 'wakefield.py', Q + 'plasma_particles.py',
      W + 'utilities/other.py'],
     [('slices', Q + 'solver.py:evolve_plasma_and_calculate_fields'),
      ('units and fields', Q + 'solver.py:calculate_wakefields'),
      ('bunches', Q + 'solver.py:calculate_beam_source'),
      ('wakefield object', Q + 'wakefield.py:Quasistatic2DWakefield.'
       '_calculate_wakefield')],
     'Symbolic over exact reals for grids of any size with the parts by '
     'their contracts; whole solver, causality and the object as run-time '
     'contracts against an independent composition of the parts.')

prop('C20', 'Cold fluid wakefields solve the one-dimensional fluid equations',
     'On every radial row of the grid the cold-fluid model integrates '
     'psi\'\' = (1 + a^2)/(2 (1+psi)^2) - 1/2 - rho_beam (normalised) from the '
     'undisturbed plasma ahead of the window towards the tail with the '
     'fourth-order Runge-Kutta scheme, using the laser and the charge of '
     'all bunches on that row, interpolated at half steps. The plasma '
     'density, current, E_z, E_r, B_theta and susceptibility on the grid '
     'follow from psi, its derivatives and the sources, in SI units, with '
     'the local plasma density; nothing behind a slice influences it, and '
     'rows influence each other only through the derivatives in r. '
     '(The sign of the displacement current in B_theta is a known finding.)',
     ['inputs', 'configurations'],
     'all grids, densities, lasers, bunches and beam wakefields on or off',
     'The tests compare final beam parameters of one run.',
     [W + 'physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py'],
     [('fluid response and fields', W + 'physics_models/plasma_wakefields/'
       'qs_cold_fluid_1x3p.py:NonLinearColdFluidWakefield.'
       '_calculate_wakefield')],
     'Induction over slices, arbitrary row, exact reals; gather and '
     'deposition by their contracts (C01, C03); run-time contracts against '
     'an independent integration.')

prop('C21', 'Analytic fields are the stated fields and fields superpose',
     'Each analytic field (ion cavity with or without a drifting centre, '
     'custom blowout, focusing blowout, quadrupole, plasma-lens B_theta, '
     'user-defined components) adds to the components at a particle exactly '
     'the closed-form field at its position and the current time, and '
     'leaves the other components alone. The field seen by a particle is '
     'the sum of all fields of the element in any order and any mixture of '
     'analytic and gridded fields; no gather changes the bunch, and no '
     'field overwrites what another one contributed.',
     ['inputs', 'configurations'],
     'all positions, times, densities, field parameters and sets of fields',
     'The tests use a few fields with one set of parameters and never two '
     'fields at once.',
     [W + 'fields/analytical_field.py', W + 'fields/gather.py',
      W + 'physics_models/plasma_wakefields/simple_blowout.py',
      W + 'physics_models/plasma_wakefields/custom_blowout.py',
      W + 'physics_models/plasma_wakefields/focusing_blowout.py',
      W + 'physics_models/em_fields/quadrupole.py',
      W + 'physics_models/em_fields/linear_b_theta.py'],
     [('superposition', W + 'fields/gather.py:gather_fields'),
      ('components', W + 'fields/analytical_field.py:AnalyticalField')],
     'For an arbitrary particle over exact reals; densities and group '
     'velocity as uninterpreted functions; run-time contracts with real '
     'bunches and mixtures of fields.')

prop('C22', 'Plasma elements have the requested density, fields and step',
     'A plasma stage, ramp or lens gives its wakefield model the density '
     'requested by the user at every position: a uniform value, the '
     'user\'s function of z, or the ramp profile (inverse square, '
     'exponential, Gaussian) running from the low density to the top '
     'density for an up-ramp and mirrored for a down-ramp, with the decay '
     'length given or fitted to the density at position_down. The model gets the parameters and the laser '
     'given to the element, external fields are added to it, and the '
     'automatic time step resolves the betatron motion of the bunch in the '
     'strongest focusing of the element (a tenth of the inverse betatron '
     'frequency of the slowest particle). Pusher, time steps, number of '
     'outputs and the push before outputs are the requested ones.',
     ['inputs', 'configurations'],
     'all densities, profiles, decay lengths, lengths, models and lenses',
     'The tests use one density and one profile.',
     [W + 'beamline_elements/plasma_stage.py',
      W + 'beamline_elements/plasma_ramp.py',
      W + 'beamline_elements/active_plasma_lens.py',
      W + 'beamline_elements/field_quadrupole.py'],
     [('stage', W + 'beamline_elements/plasma_stage.py:PlasmaStage'),
      ('ramp', W + 'beamline_elements/plasma_ramp.py:PlasmaRamp'),
      ('lens', W + 'beamline_elements/active_plasma_lens.py:'
       'ActivePlasmaLens')],
     'Symbolic over exact reals with model constructors recorded; run-time '
     'contracts with real elements.')

prop('C23', 'openPMD output is the state of the simulation at its time',
     'Every output of the openPMD diagnostics is one numbered file with the '
     'time since the start of the beamline, the coordinates, SI momenta, '
     'weights, charge, mass and position offset of every bunch at that '
     'moment, and for every field that supports it E, B, charge density and '
     'laser envelope on the grid without guard cells, as (r, z) arrays, '
     'with the right spacing, offset, position in the cell and units. '
     'Writing changes neither the bunches nor the fields. Bunches with the '
     'same name are rejected before anything is written.',
     ['inputs', 'histories'],
     'all bunches, wakefield grids, lasers, times, sequences of outputs',
     'The tests only check that a few runs with output finish.',
     [W + 'diagnostics/openpmd_diag.py', W + 'fields/rz_wakefield.py',
      W + 'utilities/other.py'],
     [('writer', W + 'diagnostics/openpmd_diag.py:OpenPMDDiagnostics'),
      ('fields', W + 'fields/rz_wakefield.py:RZWakefield.'
       '_get_openpmd_diagnostics_data')],
     'Symbolic with openPMD-api replaced by a recorder; run-time contracts '
     'write real files and read them back with h5py.',
     state=[('OpenPMDDiagnostics._index_out, _current_z_pos',
             'number of the next output, start of the current element')])

prop('C24', 'Generated and stored bunches have the requested properties',
     'The bunch generators give independent Gaussian planes whose second '
     'moments are those of the requested emittance and Twiss parameters (or '
     'size, or matched beta function), the requested centroid, pointing, '
     'mean momentum, spread and length (truncated at three sigma), and '
     'equal positive weights that add up to the requested charge for any '
     'species. A bunch saved to a file and read again has the same '
     'particles, weights, species and name rules, centred in xi, with the '
     'mean position kept as propagation distance on request; an ambiguous '
     'species is rejected.',
     ['inputs', 'configurations'],
     'all beam parameters, species, particle numbers and file formats',
     'The tests generate two bunches and use fixed seeds.',
     [W + 'utilities/bunch_generation.py', W + 'utilities/bunch_saving.py'],
     [('generation', W + 'utilities/bunch_generation.py:'
       'get_gaussian_bunch_from_twiss'),
      ('reading', W + 'utilities/bunch_generation.py:get_from_file'),
      ('saving', W + 'utilities/bunch_saving.py:save_bunch_to_file')],
     'Moments proved exactly from the draws as standard normal variables; '
     'run-time contracts are statistical (7 sigma) for the generators and '
     'real files for the formats.')

prop('C25', 'Bunch analysis reports the parameters of the bunch',
     'The analysis of a bunch or list of bunches reports for each one the '
     'weighted centroids, sizes, pointing, Twiss parameters, emittances, '
     'energy, spreads, slice averages, peak current, charge and propagation '
     'distance under the right name, in the right plane, with the requested '
     'slices, without changing the bunch; parameters and bunches saved to a '
     'file are read back unchanged.',
     ['inputs'], 'all bunches, lists and numbers of slices',
     'The tests look at three of the parameters.',
     [W + 'diagnostics/bunch_analysis.py'],
     [('analysis', W + 'diagnostics/bunch_analysis.py:analyze_bunch'),
      ('lists', W + 'diagnostics/bunch_analysis.py:analyze_bunch_list'),
      ('files', W + 'diagnostics/bunch_analysis.py:'
       'read_parameters_from_file')],
     'Symbolic with the aptools statistics as uninterpreted functions; '
     'run-time contracts against independent formulas.')

prop('C26', 'A beamline is its elements in order, with one set of outputs',
     'Tracking through a beamline is tracking the same bunch through its '
     'elements one after the other: outputs of all elements in order, the '
     'bunch left at the end, the total distance, and one set of openPMD '
     'diagnostics with consecutive numbers and times and positions counted '
     'from the start of the beamline (a given set is continued). A field '
     'element tracks all given bunches over its length with its fields, '
     'steps, pusher and outputs, independently of each other and each time '
     'it is used, and rejects a wrong number of time steps.',
     ['inputs', 'configurations', 'histories'],
     'all beamlines, elements, numbers of bunches and outputs',
     'The tests use two beamlines and ignore the order of the outputs.',
     [W + 'beamline_elements/beamline.py',
      W + 'beamline_elements/field_element.py'],
     [('beamline', W + 'beamline_elements/beamline.py:Beamline.track'),
      ('field element', W + 'beamline_elements/field_element.py:'
       'FieldElement.track')],
     'Up to three elements and three bunches symbolically, with the tracker '
     'and elements by their contracts; run-time contracts with real '
     'elements and files.')

prop('C27', 'Results do not depend on the number or timing of threads',
     'Whatever the number of threads (WAKET_NUM_THREADS) and the order in '
     'which they run, the results are those of a single thread: in every '
     'loop that numba may run in parallel, no iteration reads or writes an '
     'array element that another iteration writes, and no value is carried '
     'from one iteration to the next; loops that accumulate into shared '
     'cells (deposition) are serial. Tracking runs with the requested number '
     'of threads and leaves the number of threads of the surrounding program '
     'as it was.',
     ['schedules', 'inputs', 'configurations'],
     'all schedules of the iterations, numbers of threads and particles',
     'The tests run with one thread.',
     [W + 'utilities/numba.py', W + 'particles/interpolation.py',
      W + 'particles/deposition.py', W + 'particles/push',
      W + 'fields/gather.py', W + 'tracking/tracker.py'],
     [('parallel loops', W + 'utilities/numba.py:njit_parallel'),
      ('threads', W + 'tracking/tracker.py:Tracker.do_tracking')],
     'Two arbitrary different iterations of every parallel loop found in the '
     'current source have disjoint footprints (proved for all sizes); '
     'run-time contracts run the real code under other schedules and log '
     'the addresses touched.')
