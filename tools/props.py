NOTE = 'all inputs, all grid sizes; unbounded. Assumes reals for doubles; see DESIGN.md'
def p(id, title, statement, over, qtext, why, files, mech, note=NOTE):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note))
PROPS = []
HB = ['src/muscl/HydroBaseFunctor2D.h', 'src/muscl/HydroBaseFunctor3D.h']; MB = ['src/muscl/MHDBaseFunctor2D.h', 'src/muscl/MHDBaseFunctor3D.h']
HR = ['src/muscl/HydroRunFunctors2D.h', 'src/muscl/HydroRunFunctors3D.h']; MR = ['src/muscl/MHDRunFunctors2D.h', 'src/muscl/MHDRunFunctors3D.h']
SH = ['src/muscl/SolverHydroMuscl.h', 'src/muscl/SolverHydroMuscl.cpp']; SM = ['src/muscl/SolverMHDMuscl.h', 'src/muscl/SolverMHDMuscl.cpp']
NOT = 'The stable tests cover configuration parsing, MPI basics and spectral-difference building blocks; '
p('H01', 'Conservative to primitive conversion, equation of state and floors',
  'For every conservative cell state of every solver (finite-volume hydrodynamics and MHD, spectral difference; 2D and 3D), the primitive state returned has the density raised to at least the density floor, velocities equal to momentum over that density, and pressure equal to (gamma-1) times the total energy minus kinetic and magnetic energy, raised to the pressure floor. The sound speed returned satisfies c^2 = gamma p / rho. For MHD the cell magnetic field is the average of the two face values in each direction, and the isothermal variant takes p = rho cs^2.',
  'inputs configurations', 'every cell state, floor value, gamma > 1, 2D/3D', NOT + 'no test calls the conversion of the finite-volume solvers, and a sample of states cannot cover the floored and non-floored cases.',
  HB + MB + ['src/sdm/SDMBaseFunctor.h'], [('computePrimitives', HB[0]), ('constoprim_mhd', MB[0]), ('eos', HB[1]), ('computePrimitives', 'src/sdm/SDMBaseFunctor.h')])
p('H02', 'Riemann flux consistency',
  'For every available hydrodynamics Riemann solver (approximate two-shock, LLF, HLL, HLLC) in 2D and 3D, when the left and right states are equal and admissible, the interface flux is the physical Euler flux of that state in every component (mass, normal and transverse momentum, energy).',
  'inputs configurations', 'every admissible state above the floors, every solver choice, 2D/3D', NOT + 'no test calls a Riemann solver.',
  ['src/shared/RiemannSolvers.h'], [('riemann_approx / riemann_llf / riemann_hll / riemann_hllc / riemann_hydro', 'src/shared/RiemannSolvers.h')])
p('H03', 'Riemann fluxes: upwinding, wave model, exact contacts',
  'When both states are supersonic in the same direction the HLL and HLLC fluxes are the physical flux of the upwind state. HLLC and the two-shock solver resolve an isolated contact discontinuity (equal pressure and normal velocity) exactly. LLF, HLL and HLLC return the flux of their published wave model for all other pairs of states.',
  'inputs configurations', 'every pair of admissible states, 2D/3D', NOT + 'no test calls a Riemann solver, and the branches of the wave fan need every ordering of the wave speeds.',
  ['src/shared/RiemannSolvers.h'], [('riemann_approx / riemann_llf / riemann_hll / riemann_hllc', 'src/shared/RiemannSolvers.h')])
p('H04', 'Riemann fluxes: mirror symmetry and transverse velocities',
  'For the LLF, HLL and HLLC solvers, exchanging the two states and reversing the normal velocities negates the mass, energy and transverse momentum fluxes and leaves the normal momentum flux unchanged. For all solvers each transverse momentum flux is the one obtained from its own transverse velocities: exchanging the transverse directions exchanges those fluxes, and reversing one reverses its flux.',
  'inputs configurations', 'every pair of admissible states, 2D/3D', NOT + 'no test calls a Riemann solver; symmetry is a relation between two runs for every input.',
  ['src/shared/RiemannSolvers.h'], [('riemann_*', 'src/shared/RiemannSolvers.h')])
p('H05', 'Hydro finite-volume update is the conservative unsplit MUSCL-Hancock scheme',
  'One step of the hydrodynamics finite-volume solver, in 2D and 3D and in each of its implementation variants, writes into every inner cell the old value plus dt/dx times the differences of one single-valued flux per face in each direction; that flux is the Riemann flux of the states predicted half a step (dt/2, with the grid spacing of each direction) from the two neighbouring cells with the limited slopes, with normal and transverse components put back in their own place. Hence mass, momentum and energy change only through the domain boundary, and all implementation variants give the same result.',
  'inputs configurations histories', 'every field, every grid size and spacing, both time parities, both implementation variants, 2D/3D', NOT + 'no stable test runs the finite-volume solver.',
  SH + HR + HB, [('godunov_unsplit_impl', SH[1]), ('ComputeAndStoreFluxesFunctor, UpdateFunctor, ComputeTraceAndFluxes_Functor, UpdateDirFunctor', HR[0]), ('trace_unsplit_*_along_dir', HB[0])])
p('G01', 'Gravity source terms of the hydro finite-volume solver',
  'With a gravity field enabled, one step adds to the conservative update exactly the momentum source 0.5 dt (rho_old + rho_new) g and the matching kinetic energy change in every inner cell, and the half-step predictor velocities receive 0.5 dt g of the cell they are predicted from, in 2D and 3D and in every implementation variant.',
  'inputs configurations', 'every field and every gravity field, both implementation variants, 2D/3D', NOT + 'no stable test enables gravity.',
  SH + HR, [('gravity source functor and gravity predictor', HR[0]), ('godunov_unsplit_impl', SH[1])])
p('H07', 'Slope limiting',
  'For minmod and generalised (monotonised central type) limiting the slope of every variable in every direction is zero at local extrema, never exceeds the limiter factor times either one-sided difference, has their sign, commutes with negation and mirror reflection, and uses only the two neighbours of that cell in that direction; with limiting order 0 the slope is exactly zero. This holds for cell-centred variables and for face-centred magnetic fields, in 2D and 3D.',
  'inputs configurations', 'every neighbour triple, every supported limiter, 2D/3D, hydro and MHD', NOT + 'no test calls the limiter.',
  HB + MB + MR, [('slope_unsplit_*', HB[0]), ('slope_unsplit_hydro_* / slope_unsplit_mhd_* / compute_limited_slope', MB[1])])
p('H09', 'Time step satisfies the CFL condition in every cell',
  'The time step chosen by the finite-volume solvers is non-negative and satisfies the CFL bound in every inner cell: dt times the sum over directions of (|velocity| + fastest wave speed)/spacing is at most the CFL number, where the wave speed is the sound speed (hydro) or the fast magnetosonic speed (MHD) of that cell in the current solution. With gravity the step also satisfies the bound that includes the free-fall displacement.',
  'inputs configurations histories', 'every field, grid size and spacing, both time parities, hydro/MHD, with and without gravity, 2D/3D', NOT + 'no stable test runs these solvers.',
  SH + SM + HR + MR, [('compute_dt_local', SH[0]), ('ComputeDtFunctor2D/3D, ComputeDtGravityFunctor2D/3D', HR[0]), ('ComputeDtFunctor2D_MHD/3D_MHD', MR[0])])
p('H10', 'Ghost cells follow the boundary conditions on every face, edge and corner',
  'After boundary filling, every ghost cell of every face, edge and corner holds the mirrored inner value with reversed normal velocity and normal magnetic field for reflecting boundaries, the nearest inner value for absorbing boundaries, and the value one period away for periodic boundaries, composed over directions. Inner cells are unchanged; 2D and 3D, hydro and MHD, every combination of boundary types.',
  'inputs configurations', 'every field, every grid of at least ghost-width cells per direction, every combination of boundary types', NOT + 'no stable test fills boundaries.',
  ['src/shared/BoundariesFunctors.h', 'src/shared/SolverBase.cpp'], [('MakeBoundariesFunctor2D/3D(_MHD)', 'src/shared/BoundariesFunctors.h'), ('make_boundary, make_boundaries_serial', 'src/shared/SolverBase.cpp')])
p('H11', 'Halo exchange: a decomposed run sees the ghost cells of the undivided run',
  'When the domain is divided among processes, after the ghost fill every ghost cell of a process, on every face, edge and corner, holds what the ghost fill defines for the undivided domain: the inner value of the neighbouring process that owns that place (wrapping around periodic domains), or the boundary condition at the outer boundary. Inner cells are unchanged, and all processes advance with the smallest of their stable time steps.',
  'inputs configurations', 'every field, every process grid and position in it, every grid of at least ghost-width cells per process, every combination of boundary types; finite-volume hydro and MHD, spectral difference (orders 1 to 3 in 2D, 1 in 3D, 2 in the thorough tier; problems without special boundaries), 2D/3D', NOT + 'the stable tests run in one process.',
  ['src/shared/SolverBase.cpp', 'src/shared/mpiBorderUtils.h', 'src/utils/mpiUtils/MpiCommCart.cpp', 'src/sdm/SolverHydroSDM.h'] + SH + SM, [('make_boundaries_mpi, copy_boundaries, transfert_boundaries_2d/3d, copy_boundaries_back', 'src/shared/SolverBase.cpp'), ('CopyDataArray_To_BorderBuf, CopyBorderBuf_To_DataArray', 'src/shared/mpiBorderUtils.h'), ('compute_dt', 'src/shared/SolverBase.cpp'), ('make_boundaries_sdm_mpi', 'src/sdm/SolverHydroSDM.h')])
p('C02', 'Run parameters derived from the parameter file',
  'For every solver the grid, ghost width, number of variables, array extents, domain bounds, boundary conditions, fluid constants, floors, Riemann solver, implementation variant and run control are those asked for in the parameter file, or the default where nothing or an unknown choice is given. The cells of all processes together tile the domain exactly. In a decomposed run each process finds its place and neighbours in the process grid, exchanges inner sides and applies the boundary condition on outer ones.',
  'inputs configurations', 'every value of every key read by setup; all finite-volume and spectral-difference solvers; one process and every process grid', NOT + 'the stable tests read one or two files and do not check derived values.',
  ['src/shared/HydroParams.cpp', 'src/shared/HydroParams.h', 'src/utils/mpiUtils/MpiCommCart.cpp'], [('HydroParams::setup, init, setup_mpi', 'src/shared/HydroParams.cpp'), ('MpiCommCart::getNeighborRank', 'src/utils/mpiUtils/MpiCommCart.h')])
p('T01', 'Simulation clock and output schedule',
  'The step used never carries the clock beyond the end time and is otherwise exactly the stable step; the clock and step counter advance by exactly the step used and by one; the run stops exactly when the end time or the step limit is reached. Output is written before a step, of the current solution and time, exactly when the clock has passed the next multiple of end-time/number-of-outputs or has reached the end time, and files are numbered consecutively; each step runs the scheme once from the current array into the other one.',
  'inputs histories configurations', 'every clock value, step, output count; both time parities; finite-volume hydro and MHD solvers', NOT + 'the schedule depends on the whole history of steps.',
  ['src/shared/SolverBase.cpp'] + SH + SM, [('compute_dt, finished, next_iteration, should_save_solution, save_solution', 'src/shared/SolverBase.cpp'), ('next_iteration_impl, godunov_unsplit', SH[0])])
p('M01', 'MHD Riemann solvers: consistency and wave models',
  'For equal left and right states every available MHD Riemann solver (LLF, HLL, HLLD) returns the ideal MHD flux of that state, for every field strength and orientation including the degenerate ones, adiabatic and isothermal. For other pairs of states each solver returns the flux of its published wave model (for HLLD in every region of the five-wave fan), and the flux of the upwind state when all waves move one way; LLF and HLL fluxes are mirror symmetric and treat both transverse directions alike. The characteristic speeds are the fast magnetosonic and Alfven speeds of that direction.',
  'inputs configurations', 'every pair of admissible states, every solver', NOT + 'no test calls an MHD Riemann solver.',
  ['src/shared/RiemannSolvers_MHD.h', 'src/shared/mhd_utils.h'], [('riemann_llf, riemann_hll, riemann_hlld, riemann_mhd', 'src/shared/RiemannSolvers_MHD.h'), ('find_mhd_flux, find_speed_fast, find_speed_info, find_speed_alfven', 'src/shared/mhd_utils.h')])
p('M02', 'Edge electromotive force from the 2D magnetic Riemann solver',
  'The electromotive force on an edge is the component of v x B along it when the four surrounding states agree, and is the same function of the states whatever the edge direction (cyclic permutation of the axes). When all waves move into one quadrant it is that of the upwind state, and otherwise it is the value of the two-dimensional HLLD wave model for the quadrant or half plane the waves occupy.',
  'inputs configurations', 'every four admissible states, every edge direction', NOT + 'no test calls the electromotive force.',
  ['src/shared/RiemannSolvers_MHD.h'], [('compute_emf, mag_riemann2d_hlld', 'src/shared/RiemannSolvers_MHD.h')])
p('M03', 'Constrained transport keeps the discrete divergence of the magnetic field',
 'One step of the MHD finite-volume solver, in 2D and 3D and in each of its three implementation variants, leaves the discrete divergence of the face-centred magnetic field of every inner cell unchanged (for cells whose faces are all updated by the step; the outermost faces are set by the boundary fill): the same electromotive force enters both faces that share an edge, with opposite signs.',
 'inputs configurations', 'every field, every grid size and spacing, 2D/3D, all implementation variants', NOT + 'no stable test runs the MHD solver.',
 SM + MR + MB, [("godunov_unsplit_impl", SM[0]), ('ComputeEmfAndStoreFunctor, UpdateEmfFunctor, ComputeEmfAndUpdateFunctor, ReconstructEdgeComputeEmfAndUpdateFunctor', MR[0])])
p('M04', 'MHD finite-volume update is the constrained-transport MUSCL-Hancock scheme',
 'One step of the MHD finite-volume solver, in 2D and 3D, writes into every inner cell the old mass, momentum, energy (and in 2D the z magnetic field) plus dt/h times the differences of one single-valued Riemann flux per face, and advances each face-centred magnetic component by the curl of the edge electromotive forces. Face and edge states are the cell-centred primitive state advanced half a time step with the primitive MHD equations and limited slopes, with the normal field taken from the face (advanced half a step by the cell-edge v x B) and limited face slopes at edges; the primitive cell field is the mean of the two faces (the stored z field in 2D). All three implementation variants give the same result.',
 'inputs configurations', 'every field, every grid size and spacing, 2D/3D, all implementation variants, every limiter setting', NOT + 'no stable test runs the MHD solver.',
 SM + MR + MB, [("godunov_unsplit_impl", SM[0]), ('ComputeTraceFunctor, ComputeFluxesAndStoreFunctor, UpdateFunctor, ComputeUpdatedPrimVarFunctor, ComputeFluxAndUpdateAlongDirFunctor', MR[0]), ('trace_unsplit_mhd_2d, trace_unsplit_mhd_3d_simpler', MB[0])])
p('R01', 'Parallel loops are free of data races',
 'In every parallel loop launched by a step of the finite-volume hydro and MHD solvers, by the spectral-difference operator, and by their boundary fills, halo copies and time step computations, no two different iterations access the same array element when one of them writes it, unless both accesses are atomic additions, and no iteration writes a shared variable. Hence the result does not depend on the schedule or the number of threads beyond the order of additions.',
 'schedules inputs configurations', 'every grid size, every pair of iterations, all implementation variants, 2D/3D', NOT + 'a race shows only under particular schedules.',
 HR + MR + ['src/shared/BoundariesFunctors.h'] + SH + SM, [('all functors of the step', HR[0]), ('ComputeFluxesAndUpdateFunctor, ComputeEmfAndUpdateFunctor', MR[0]), ('MakeBoundariesFunctor2D/3D(_MHD)', 'src/shared/BoundariesFunctors.h'), ('CopyDataArray_To_BorderBuf, CopyBorderBuf_To_DataArray', 'src/shared/mpiBorderUtils.h')])
p('R02', 'Array accesses stay inside the arrays',
 'In every parallel loop launched by a step of the finite-volume hydro and MHD solvers, by the spectral-difference operator, and by their boundary fills, halo copies and time step computations, every index used to read or write an array lies inside the extents with which that array was allocated, for every grid size (from one cell per direction; ghost-width cells for boundary fills).',
 'inputs configurations', 'every grid size, every iteration, all implementation variants, 2D/3D', NOT + 'an access outside an array usually goes unnoticed in a run.',
 HR + MR + ['src/shared/BoundariesFunctors.h'] + SH + SM, [('all functors of the step', HR[0]), ('all functors of the step', MR[0]), ('MakeBoundariesFunctor2D/3D(_MHD)', 'src/shared/BoundariesFunctors.h')])
SD = ['src/sdm/SolverHydroSDM.h']
p('S01', 'Spectral-difference points and interpolation operators',
 'For every order N from 1 to 6, in 2D and 3D, the spectral-difference solution points are the Chebyshev-Gauss points of the unit cell and the flux points its end points and the Gauss-Legendre points between them, all inside the cell, increasing and symmetric, with the multi-dimensional tables the tensor products of the 1D ones. The interpolation matrices from solution to flux points and back reproduce every polynomial of the degree they can represent, and the derivative matrices give its exact derivative. The tables used inside the parallel loops hold the same values as the host tables.',
 'configurations', 'every order 1..6, every polynomial of the representable degree, 2D/3D', NOT + 'the stable tests print these tables for a few orders without checking them against the defining conditions.',
 ['src/sdm/SDM_Geometry.h'], [('SDM_Geometry::init, init_lagrange_1d', 'src/sdm/SDM_Geometry.h')])
p('S02', 'Spectral-difference operator is the derivative of one flux polynomial',
 'For every order, grid, spacing and state the spectral-difference operator gives, at every solution point of every inner cell, the sum over directions of the derivative of the flux polynomial through the flux points of that line, divided by the spacing of that direction. The flux is the physical flux of the state interpolated to each inner flux point and, at the cell faces, the single Riemann flux of the two interpolated states of the adjacent cells, shared by both cells and with normal and transverse components in their own place, so the scheme is conservative.',
 'inputs configurations', 'every field, grid size and spacing, any interpolation matrices; orders 1 to 5 (2D), 1 to 3 (3D), one more each in the thorough tier; no viscosity', NOT + 'the stable spectral-difference tests look at single interpolations of one analytic field.',
 SD + ['src/sdm/SDM_Interpolate_Functors.h', 'src/sdm/SDM_Run_Functors.h', 'src/sdm/SDM_Flux_Functors.h'], [('compute_fluxes_divergence', SD[0]), ('interpolation functors', 'src/sdm/SDM_Interpolate_Functors.h')])
p('S03', 'Spectral-difference time integration is the published Runge-Kutta scheme',
 'One step of the spectral-difference solver with forward Euler, SSP-RK2, SSP-RK3 or SSP-RK(5,4) selected is exactly that published scheme applied to dU/dt = -div(U): the same stage values, in the same order, with the same coefficients, for every operator, state, grid and time step. Every evaluation of the operator sees a state whose ghost cells were filled after its last modification.',
 'inputs histories configurations', 'every operator, field, time step and grid; each time scheme; orders 1 to 3 (2D), 1 and 2 (3D)', NOT + 'no stable test advances the solver in time.',
 SD, [('time_integration_impl_forward_euler / _ssprk2 / _ssprk3 / _ssprk54', SD[0])])
p('S04', 'Spectral-difference ghost cells follow the boundary conditions',
 'After boundary filling of the spectral-difference solver every ghost cell of every face, edge and corner holds, at each solution point, for reflecting boundaries the value of the mirrored solution point of the mirrored inner cell with reversed normal momentum, for absorbing boundaries the value of the nearest inner cell at the same solution point, and for periodic boundaries the value one period away, composed over directions. Inner cells are unchanged.',
 'inputs configurations', 'every field, grid size and combination of boundary types; orders 1 to 4 (faces) and 1 to 3 (composition) in 2D, 1 and 2 in 3D; problems without special boundaries', NOT + 'no stable test fills these boundaries.',
 SD + ['src/sdm/SDM_Boundaries_Functors.h'], [('MakeBoundariesFunctor_SDM', 'src/sdm/SDM_Boundaries_Functors.h'), ('make_boundaries_sdm_serial', SD[0])])
p('S05', 'Spectral-difference time step satisfies the CFL condition',
 'The time step of the spectral-difference solver is such that dt times N (the number of solution points per direction) times the sum over directions of (|velocity| + sound speed)/spacing is at most the CFL number at every solution point of every inner cell, with the pressure taken from the conserved state at that point.',
 'inputs configurations', 'every field, grid size and spacing; orders 1 to 4 (2D), 1 to 3 (3D); without the optional rescaling of the step', NOT + 'no stable test computes a time step.',
 SD + ['src/sdm/SDM_Dt_Functor.h', 'src/shared/EulerEquations.h'], [('compute_dt_local', SD[0]), ('ComputeDt_Functor_2d / _3d', 'src/sdm/SDM_Dt_Functor.h')])
p('E01', 'Euler and Navier-Stokes point functions',
 'For every admissible conserved state, in 2D and 3D, the Euler system gives the ideal-gas pressure, sound speed, primitive and conserved states that invert each other, and the physical flux along each direction. The viscous flux is that of the symmetric traceless Newtonian stress tensor, with its work and the heat flux in the energy. The characteristic transformations of each direction are exact inverses of each other and diagonalise the flux along it.',
 'inputs', 'every admissible state and gradient, gamma > 1, 2D/3D', NOT + 'a sample of states cannot show an algebraic identity.',
 ['src/shared/EulerEquations.h'], [('EulerEquations<2>, EulerEquations<3>', 'src/shared/EulerEquations.h')])
p('X01', 'MOOD high-order scheme: conservation and admissibility',
  'The MOOD solver keeps conservation and falls back to a lower order wherever the candidate solution is not admissible.', 'inputs configurations', 'every field and order', NOT + 'no stable test runs it.',
  ['src/mood/SolverHydroMood.h'], [('SolverHydroMood', 'src/mood/SolverHydroMood.h')])
p('X02', 'Output files hold the solution',
  'Every value written to an output file is the value of the corresponding inner cell and variable, and a restart from it reproduces the fields.', 'inputs crash_points', 'every field, every format', NOT + 'no stable test checks file contents cell by cell.',
  ['src/utils/io'], [('IO_ReadWrite, IO_VTK, IO_HDF5', 'src/utils/io')])
NA = {
 'X01': 'the MOOD solver does not compile in this tree (its build option is off and its sources no longer match the current data types), so there is no running code to put under contract',
 'X02': 'file contents are produced by HDF5/iostream library calls; a contract over those would assume (external, unverifiable here) exactly the library behaviour that decides the property',
}
