// Ghost-cell fill of the spectral difference solver (all faces, edges and corners): every cell holds, at every solution point, the value of
// its image cell, reflected / copied / wrapped independently along each direction.   defs: DIM 2|3, ORD, ZREG, YREG 0|1|2 (inner, lower, upper ghost layers)
// VC-OVERRIDE: ::compute_dt\(\) => nop
// VC-OVERRIDE: ^ppkMHD::sdm::SolverHydroSDM<[23], [1-6]>::init_sdm_geometry => nop
#include "sdm_boundary.h"
#ifndef ZREG
#define ZREG 3
#endif
#ifndef YREG
#define YREG 3
#endif
#include "sdm_face_contract.h"
static int region(const char* n, int r, int cellsn) { return vc_index(n, r == 2 ? cellsn + GW : r == 0 ? GW : 0, r == 1 ? GW : r == 0 ? cellsn + GW : cellsn + 2 * GW); }
VC_HARNESS(fill)
{
  Solver& s = mkSolver(); int b[6] = {1, 1, 1, 1, 1, 1}; static const char* bn[6] = {"xmin", "xmax", "ymin", "ymax", "zmin", "zmax"};
  for (int f = 0; f < 2 * DIM; ++f) b[f] = bc(bn[f]);
  setbc(b); s.params = P; vc_havoc(s.U, "U"); DA U = s.U, V = copyDA("V", U, ALL);
  s.make_boundaries(U);
  C c{{region("i", 3, P.nx), region("j", YREG, P.ny), DIM == 3 ? region("k", ZREG, P.nz) : 0}}, e = c; int sg[3] = {1, 1, 1};
  for (int d = 0; d < DIM; ++d) e.c[d] = image(c.c[d], cells(d), b[2 * d], b[2 * d + 1], sg[d]);
  forall_dofs([&](int* x, int v) { int y[3] = {x[0], x[1], x[2]}, g = 1; for (int d = 0; d < DIM; ++d) if (sg[d] < 0) { y[d] = NN - 1 - x[d]; if (v == IU + d) g = -1; }
    vc_eq("solution point value is that of the image cell", at(U, c, dofS(x, v)), g * at(V, e, dofS(y, v))); });
}
