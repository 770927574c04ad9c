// VC-OVERRIDE: ^ppkMHD::muscl::Solver(Hydro|MHD)Muscl<[23]>::init\( => nop
// VC-OVERRIDE: ::compute_dt\(\) => nop
// VC-OVERRIDE: ::Solver(Hydro|MHD)Muscl<[23]>::convertToPrimitives\( => nop
// reflected / copied / wrapped independently along each direction.      defs: DIM 2|3, MHD 0|1
#ifndef DIM
#define DIM 2
#endif
#ifndef MHD
#define MHD 0
#endif
#include "solver.h"
#include "shared/SolverBase.cpp"
#if MHD
#include "muscl/SolverMHDMuscl.h"
#include "muscl/SolverMHDMuscl.cpp"
using Solver = ppkMHD::muscl::SolverMHDMuscl<DIM>;
#else
#include "muscl/SolverHydroMuscl.h"
#include "muscl/SolverHydroMuscl.cpp"
using Solver = ppkMHD::muscl::SolverHydroMuscl<DIM>;
#endif
using DA = Solver::DataArray;
constexpr int NV = MHD ? 8 : DIM == 2 ? 4 : 5, GW = MHD ? 3 : 2;
static HydroParams P;
// image of index x along a direction with n inner cells; s gets the sign of the normal components
static int image(int x, int n, int lo, int hi, int& s) {
  s = 1;
  if (x < GW) { if (lo == BC_DIRICHLET) { s = -1; return 2 * GW - 1 - x; } if (lo == BC_NEUMANN) return GW; return x + n; }
  if (x >= n + GW) { if (hi == BC_DIRICHLET) { s = -1; return 2 * n + 2 * GW - 1 - x; } if (hi == BC_NEUMANN) return n + GW - 1; return x - n; }
  return x;
}
static int bc(const char* n) { int b = vc_int(n, 1, 3); vc_assume(b <= 3); return b; }
static void setbc(HydroParams& p, int* b) {
  p.boundary_type_xmin = (BoundaryConditionType)b[0]; p.boundary_type_xmax = (BoundaryConditionType)b[1]; p.boundary_type_ymin = (BoundaryConditionType)b[2]; p.boundary_type_ymax = (BoundaryConditionType)b[3];
  p.boundary_type_zmin = (BoundaryConditionType)b[4]; p.boundary_type_zmax = (BoundaryConditionType)b[5];
}
static int facebc(const HydroParams& p, int f) { return f == 0 ? p.boundary_type_xmin : f == 1 ? p.boundary_type_xmax : f == 2 ? p.boundary_type_ymin : f == 3 ? p.boundary_type_ymax : f == 4 ? p.boundary_type_zmin : p.boundary_type_zmax; }
