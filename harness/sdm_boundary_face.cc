// Ghost-cell fill of the spectral difference solver across one face.    defs: DIM 2|3, ORD, FACE 0..5
// VC-OVERRIDE: ::compute_dt\(\) => nop
// VC-OVERRIDE: ^ppkMHD::sdm::SolverHydroSDM<[23], [1-6]>::make_boundaries\( => nop
// VC-OVERRIDE: ^ppkMHD::sdm::SolverHydroSDM<[23], [1-6]>::init_sdm_geometry => nop
#ifndef FACE
#define FACE 0
#endif
#include "sdm_boundary.h"
static Solver& start(int& bb) {
  Solver& s = mkSolver(); int b[6]; bb = bc("type"); for (int f = 0; f < 6; ++f) b[f] = f == FACE ? bb : 1 + bb % 3; setbc(b);
  s.params = P; vc_havoc(s.U, "U"); return s;
}
VC_HARNESS(face)
{
  int bb; Solver& s = start(bb); DA U = s.U, V = copyDA("V", U, ALL);
  s.make_boundary_sdm<(FaceIdType)FACE>(U, false);
  C c = cellat("i", "j", "k", 0), e = c; const int d = FACE / 2, n = cells(d); int sg = 1; bool inside = FACE % 2 == 0 ? c.c[d] < GW : c.c[d] >= n + GW;
  if (inside) e.c[d] = image(c.c[d], n, bb, bb, sg);
  forall_dofs([&](int* x, int v) { int y[3] = {x[0], x[1], x[2]}; if (sg < 0) y[d] = NN - 1 - x[d]; vc_eq("solution point value is that of its image across the face", at(U, c, dofS(x, v)), (v == IU + d ? sg : 1) * at(V, e, dofS(y, v))); });
}
VC_HARNESS(safe) { int bb; Solver& s = start(bb); s.make_boundary_sdm<(FaceIdType)FACE>(s.U, false); vc_true("the fill completes", true); }
