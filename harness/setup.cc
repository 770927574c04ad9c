// Run parameters derived from the parameter file (HydroParams::setup, and setup_mpi of a process in a decomposed run).
// defs: SOLVER "name", DIM, NV, GW, MHD, RIEM "name", RTYPE, MPI 0|1
#ifndef SOLVER
#define SOLVER Hydro_Muscl_2D
#define DIM 2
#define NV 4
#define GW 2
#define MHD 0
#define RIEM hllc
#define RTYPE RIEMANN_HLLC
#define IMPL 0
#endif
#define STR1(x) #x
#define STR(x) STR1(x)
#define USE_SDM 1
#ifdef WITH_MPI
#define USE_MPI 1
#endif
#include <string>
struct Cfg { long n[3], m[3], bt[6], iorder, niter, nstep, nout, nlog; float lo[3], hi[3], gamma0, cfl, slope, smallc, smallr, cp, mu, kappa, tend, impl; };
static Cfg C; static bool ASKED = true;                  // false: the file sets nothing but the solver
static long cfgint(const std::string& k, long d) {
  if (!ASKED) return d;
  static const char* nn[3] = {"nx", "ny", "nz"}; static const char* mm[3] = {"mx", "my", "mz"}; static const char* bn[6] = {"xmin", "xmax", "ymin", "ymax", "zmin", "zmax"};
  for (int q = 0; q < 3; ++q) { if (k == nn[q]) return C.n[q]; if (k == mm[q]) return C.m[q]; }
  for (int q = 0; q < 6; ++q) if (k == std::string("boundary_type_") + bn[q]) return C.bt[q];
  return k == "iorder" ? C.iorder : k == "niter_riemann" ? C.niter : k == "nstepmax" ? C.nstep : k == "noutput" ? C.nout : k == "nlog" ? C.nlog : d;
}
static float cfgfloat(const std::string& k, float d) {
  if (!ASKED) return d;
  static const char* lo[3] = {"xmin", "ymin", "zmin"}; static const char* hi[3] = {"xmax", "ymax", "zmax"};
  for (int q = 0; q < 3; ++q) { if (k == lo[q]) return C.lo[q]; if (k == hi[q]) return C.hi[q]; }
  return k == "gamma0" ? C.gamma0 : k == "cfl" ? C.cfl : k == "slope_type" ? C.slope : k == "smallc" ? C.smallc : k == "smallr" ? C.smallr : k == "cp" ? C.cp : k == "mu" ? C.mu : k == "kappa" ? C.kappa : k == "tend" ? C.tend : k == "implementationVersion" ? C.impl : d;
}
#define VC_CFG_INT cfgint(key, d)
#define VC_CFG_FLOAT cfgfloat(key, d)
static const char* cfgstr(const std::string& k, const std::string& d) { return k == "solver_name" ? STR(SOLVER) : !ASKED ? d.c_str() : k == "riemann" ? STR(RIEM) : "x"; }
#define VC_CFG_STR cfgstr(key, d)
#include "solver.h"
#ifdef WITH_MPI
#include "mpi_contract.h"
USED int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*) { std::abort(); }
#endif
static int size(int d) { return (int)C.n[d]; }
VC_HARNESS(setup)
{
  ASKED = true;
  static const char* nn[3] = {"nx", "ny", "nz"}; static const char* mm[3] = {"mx", "my", "mz"}; static const char* pp[3] = {"px", "py", "pz"}; static const char* ln[3] = {"xmin", "ymin", "zmin"}; static const char* hn[3] = {"xmax", "ymax", "zmax"}; static const char* bn[6] = {"bxmin", "bxmax", "bymin", "bymax", "bzmin", "bzmax"};
  for (int d = 0; d < 3; ++d) { C.n[d] = vc_int(nn[d], 1, 50); C.m[d] = vc_int(mm[d], 1, 3); C.lo[d] = (float)vc_real(ln[d], -1, 1); C.hi[d] = (float)vc_real(hn[d], 1.1, 3); vc_assume(C.hi[d] > C.lo[d]); }
  for (int f = 0; f < 6; ++f) { C.bt[f] = vc_int(bn[f], 1, 3); vc_assume(C.bt[f] <= 3); }
  C.gamma0 = (float)vc_real("gamma0", 1.1, 1.9); vc_assume(C.gamma0 > 1); C.cfl = (float)vc_pos("cfl"); C.slope = (float)vc_real("slope_type"); C.smallc = (float)vc_pos("smallc", .1, .9); C.smallr = (float)vc_pos("smallr", .1, .9);
  C.cp = (float)vc_real("cp"); C.mu = (float)vc_real("mu"); C.kappa = (float)vc_real("kappa"); C.tend = (float)vc_real("tend"); C.iorder = vc_int("iorder", 1, 2); C.niter = vc_int("niter", 1, 9); C.nstep = vc_int("nstep", 0, 9); C.nout = vc_int("nout", -1, 9); C.nlog = vc_int("nlog", 1, 9); C.impl = IMPL;
#ifdef WITH_MPI
  NWORLD = 1; for (int d = 0; d < DIM; ++d) { M[d] = C.m[d]; POS[d] = vc_index(pp[d], 0, M[d]); NWORLD *= M[d]; }
  for (int d = DIM; d < 3; ++d) { M[d] = 1; POS[d] = 0; C.m[d] = 1; }
#else
  for (int d = 0; d < 3; ++d) C.m[d] = 1;
#endif
  HydroParams& p = *new HydroParams();
#ifdef VC_SYM
  char cb[] = "[hydro]\nproblem=implode\n";
#else
  char cb[2000];
  snprintf(cb, sizeof cb,
    "[run]\nsolver_name=%s\nnstepmax=%ld\ntend=%.9g\nnoutput=%ld\nnlog=%ld\n[mesh]\nnx=%ld\nny=%ld\nnz=%ld\nxmin=%.9g\nymin=%.9g\nzmin=%.9g\nxmax=%.9g\nymax=%.9g\nzmax=%.9g\n"
    "boundary_type_xmin=%ld\nboundary_type_xmax=%ld\nboundary_type_ymin=%ld\nboundary_type_ymax=%ld\nboundary_type_zmin=%ld\nboundary_type_zmax=%ld\n"
    "[hydro]\ngamma0=%.9g\ncfl=%.9g\niorder=%ld\nslope_type=%.9g\nsmallc=%.9g\nsmallr=%.9g\ncp=%.9g\nmu=%.9g\nkappa=%.9g\nniter_riemann=%ld\nriemann=%s\n[OTHER]\nimplementationVersion=%.9g\n[mpi]\nmx=%ld\nmy=%ld\nmz=%ld\n",
    STR(SOLVER), C.nstep, C.tend, C.nout, C.nlog, C.n[0], C.n[1], C.n[2], C.lo[0], C.lo[1], C.lo[2], C.hi[0], C.hi[1], C.hi[2], C.bt[0], C.bt[1], C.bt[2], C.bt[3], C.bt[4], C.bt[5],
    C.gamma0, C.cfl, C.iorder, C.slope, C.smallc, C.smallr, C.cp, C.mu, C.kappa, C.niter, STR(RIEM), C.impl, C.m[0], C.m[1], C.m[2]);
#endif
  char* cp = cb; ConfigMap& cfg = *new ConfigMap(cp, (int)strlen(cb));
  p.setup(cfg);
  vc_true("solver kind: dimension", p.dimType == (DIM == 2 ? TWO_D : THREE_D)); vc_true("solver kind: number of variables", p.nbvar == NV); vc_true("solver kind: ghost width", p.ghostWidth == GW); vc_true("solver kind: magnetic", p.mhdEnabled == (MHD != 0));
  int n[3] = {p.nx, p.ny, p.nz}, s[3] = {p.isize, p.jsize, p.ksize}, lo[3] = {p.imin, p.jmin, p.kmin}, hi[3] = {p.imax, p.jmax, p.kmax}; double dx[3] = {p.dx, p.dy, p.dz}, xl[3] = {p.xmin, p.ymin, p.zmin}, xh[3] = {p.xmax, p.ymax, p.zmax};
  for (int d = 0; d < DIM; ++d) {
    vc_true("cells per direction are those asked for", n[d] == size(d)); vc_true("array extent is the cells plus a ghost layer on each side", s[d] == size(d) + 2 * GW);
    vc_true("index range covers the array", lo[d] == 0 && hi[d] == size(d) + 2 * GW - 1);
    vc_eq("domain bounds are those asked for", xl[d], C.lo[d]); vc_eq("domain bounds are those asked for", xh[d], C.hi[d]);
    vc_eq("cells of all processes tile the domain", dx[d] * n[d] * C.m[d], (double)C.hi[d] - (double)C.lo[d]);
  }
  int bt[6] = {p.boundary_type_xmin, p.boundary_type_xmax, p.boundary_type_ymin, p.boundary_type_ymax, p.boundary_type_zmin, p.boundary_type_zmax};
  for (int f = 0; f < 2 * DIM; ++f) vc_true("boundary condition of each face is the one asked for", bt[f] == C.bt[f]);
  const HydroSettings& h = p.settings; double g = C.gamma0, c = C.smallc;
  vc_eq("adiabatic index", h.gamma0, g); vc_eq("Courant number", h.cfl, C.cfl); vc_eq("slope limiter", h.slope_type, C.slope); vc_eq("sound speed floor", h.smallc, c); vc_eq("density floor", h.smallr, C.smallr); vc_eq("order", h.iorder, C.iorder);
  vc_eq("pressure floor follows from the sound speed floor", h.smallp * g, c * c); vc_eq("pressure floor times density floor", h.smallpp * g, C.smallr * c * c); vc_eq("gamma6 = (gamma0+1)/(2 gamma0)", h.gamma6 * 2 * g, g + 1);
  vc_eq("specific heat", h.cp, C.cp); vc_eq("viscosity", h.mu, C.mu); vc_eq("thermal diffusivity", h.kappa, C.kappa);
  vc_eq("end time", p.tEnd, C.tend); vc_eq("step limit", p.nStepmax, C.nstep); vc_eq("output count", p.nOutput, C.nout); vc_eq("log interval", p.nlog, C.nlog); vc_eq("Riemann iterations", p.niter_riemann, C.niter);
  vc_true("zero outputs switch output off", p.enableOutput == (C.nout != 0)); vc_true("Riemann solver is the one asked for", p.riemannSolverType == RTYPE); vc_eq("implementation variant", p.implementationVersion, IMPL <= 2 && IMPL >= 0 ? IMPL : 0);
#ifdef WITH_MPI
  vc_true("own rank is that of the process grid", p.myRank == cartrank(POS[0], POS[1], POS[2])); vc_true("fields are exchanged in the precision of the fields", hydroSimu::MpiComm::getDataType(p.data_type) == MPI_DOUBLE); vc_true("dimension of the process grid", p.nDim == DIM && p.nNeighbors == 2 * DIM && CDIM == DIM);
  for (int f = 0; f < 2 * DIM; ++f) {
    int d = f / 2, y[3] = {POS[0], POS[1], POS[2]}; y[d] = wrap(y[d] + (f % 2 ? 1 : -1), M[d]);
    vc_true("position in the process grid", p.myMpiPos[d] == POS[d]);
    vc_true("neighbour on each side is the process next to this one, wrapping around", p.neighborsRank[f] == cartrank(y[0], y[1], y[2]));
    bool outer = f % 2 ? POS[d] == M[d] - 1 : POS[d] == 0;
    vc_true("sides inside the domain are exchanged, sides on its boundary get its condition", p.neighborsBC[f] == (outer ? C.bt[f] : BC_COPY));
  }
#endif
}
VC_HARNESS(defaults)
{
  ASKED = false;
#ifdef WITH_MPI
  NWORLD = 1; for (int d = 0; d < 3; ++d) { M[d] = 1; POS[d] = 0; }
#endif
  HydroParams& p = *new HydroParams(); char cb[] = "[run]\nsolver_name=" STR(SOLVER) "\n"; char* cp = cb; ConfigMap& cfg = *new ConfigMap(cp, (int)strlen(cb));
  p.setup(cfg);
  vc_true("one cell per direction", p.nx == 1 && p.ny == 1 && p.nz == 1); vc_true("unit domain", p.xmin == 0 && p.ymin == 0 && p.zmin == 0 && p.xmax == 1 && p.ymax == 1 && p.zmax == 1 && p.dx == 1 && p.dy == 1 && p.dz == 1);
  vc_true("reflecting boundaries", p.boundary_type_xmin == BC_DIRICHLET && p.boundary_type_xmax == BC_DIRICHLET && p.boundary_type_ymin == BC_DIRICHLET && p.boundary_type_ymax == BC_DIRICHLET && p.boundary_type_zmin == BC_DIRICHLET && p.boundary_type_zmax == BC_DIRICHLET);
  vc_true("run control", p.nStepmax == 1000 && p.tEnd == 0 && p.nOutput == 100 && p.enableOutput && p.nlog == 10);
  const HydroSettings& h = p.settings;
  vc_true("gas", h.gamma0 == 1.4f && h.cp == 0 && h.mu == 0 && h.kappa == 0); vc_true("scheme", h.cfl == .5 && h.iorder == 2 && h.slope_type == 1 && p.implementationVersion == 0 && p.riemannSolverType == RIEMANN_APPROX && p.niter_riemann == 10); vc_true("floors", h.smallc == 1e-10f && h.smallr == 1e-10f);
}
