// image cells and solution points of the ghost-cell fill of the spectral difference solver
#define VC_MINC 1
#include "sdm.h"
constexpr int ALL = ND * NV, GW = 1;
static int image(int x, int n, int lo, int hi, int& s) {
  s = 1;
  if (x < GW) { if (lo == BC_DIRICHLET) { s = -1; return 2 * GW - 1 - x; } if (lo == BC_NEUMANN) return GW; return x + n; }
  if (x >= n + GW) { if (hi == BC_DIRICHLET) { s = -1; return 2 * n + 2 * GW - 1 - x; } if (hi == BC_NEUMANN) return n + GW - 1; return x - n; }
  return x;
}
static int bc(const char* n) { int b = vc_int(n, 1, 3); vc_assume(b <= 3); return b; }
static void setbc(int* b) {
  P.boundary_type_xmin = (BoundaryConditionType)b[0]; P.boundary_type_xmax = (BoundaryConditionType)b[1]; P.boundary_type_ymin = (BoundaryConditionType)b[2]; P.boundary_type_ymax = (BoundaryConditionType)b[3];
  P.boundary_type_zmin = (BoundaryConditionType)b[4]; P.boundary_type_zmax = (BoundaryConditionType)b[5];
}
static int facebc(int f) { return f == 0 ? P.boundary_type_xmin : f == 1 ? P.boundary_type_xmax : f == 2 ? P.boundary_type_ymin : f == 3 ? P.boundary_type_ymax : f == 4 ? P.boundary_type_zmin : P.boundary_type_zmax; }
static inline int cells(int d) { return d == 0 ? P.nx : d == 1 ? P.ny : P.nz; }
template<class F> static void forall_dofs(F f) {
  int x[3]; for (int v = 0; v < NV; ++v) for (x[2] = 0; x[2] < (DIM == 3 ? NN : 1); ++x[2]) for (x[1] = 0; x[1] < NN; ++x[1]) for (x[0] = 0; x[0] < NN; ++x[0]) f(x, v);
}
