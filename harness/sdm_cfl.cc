// Time step of the spectral difference solver: CFL condition at every solution point of every inner cell.   defs: DIM 2|3, ORD
// VC-OVERRIDE: ^ppkMHD::sdm::SolverHydroSDM<[23], [1-6]>::make_boundaries\( => nop
// VC-OVERRIDE: ^ppkMHD::sdm::SolverHydroSDM<[23], [1-6]>::init_sdm_geometry => nop
#include "sdm.h"
static Solver& mk() { Solver& s = mkSolver(); havocS(s.U, "U"); s.m_t = 0; s.m_tEnd = 1; return s; }
VC_HARNESS(safe) { mk().compute_dt_local(); vc_true("the time step is computed", true); }
VC_HARNESS(cfl)
{
  Solver& s = mk(); double dt = s.compute_dt_local(), g = P.settings.gamma0;
  C c = cellat("i", "j", "k", 1); int x[3] = {0, 0, 0};
  for (x[2] = 0; x[2] < (DIM == 3 ? NN : 1); ++x[2]) for (x[1] = 0; x[1] < NN; ++x[1]) for (x[0] = 0; x[0] < NN; ++x[0]) {
    double r = at(s.U, c, dofS(x, ID)), k = 0, u[3]; vc_assume(r >= 1e-8);
    for (int d = 0; d < DIM; ++d) { u[d] = at(s.U, c, dofS(x, IU + d)) / r; k += .5 * r * u[d] * u[d]; }
    double p = std::fmax((g - 1) * (at(s.U, c, dofS(x, IE)) - k), 1e-7 * r), cs = std::sqrt(g * p / r), sum = 0;
    for (int d = 0; d < DIM; ++d) sum += (std::fabs(u[d]) + cs) * NN / hd(d);
#if !VC_NATIVE
    __vc_reduce_instance(P.settings.cfl / dt, DIM == 2 ? c.c[0] * (long)P.jsize + c.c[1] : (c.c[0] * (long)P.jsize + c.c[1]) * P.ksize + c.c[2], c.c[0], c.c[1], c.c[2]);
#endif
    vc_le("time step within the CFL condition of every solution point", sum, P.settings.cfl / dt);
    vc_le("signal speed is not negative", 0, sum);
  }
}
