// Ghost-cell fill of the real solver (all faces, edges and corners): every cell holds the value of its image cell,
// reflected / copied / wrapped independently along each direction.      defs: DIM 2|3, MHD 0|1, ZREG 0|1|2 (inner, lower, upper ghost layers along z)
// VC-OVERRIDE: ^ppkMHD::SolverBase::make_boundary\(Kokkos::View<double\*\*\*[*,] => contract_face
#include "boundary.h"
#ifndef ZREG
#define ZREG 0
#define YREG 0
#endif
#include "face_contract.h"
VC_HARNESS(fill)
{
  HydroParams& p = P; vc_params(p, DIM, GW, NV, GW);
  int b[6] = {1, 1, 1, 1, 1, 1}; static const char* bn[6] = {"xmin", "xmax", "ymin", "ymax", "zmin", "zmax"};
  for (int f = 0; f < 2 * DIM; ++f) b[f] = bc(bn[f]);
  setbc(p, b);
  char cb[] = "[hydro]\nproblem=implode\n"; char* cp = cb; ConfigMap& cfg = *new ConfigMap(cp, sizeof cb); Solver& s = *new Solver(p, cfg);
#if DIM == 2
  DA U("U", p.isize, p.jsize, NV); vc_havoc(U, "U"); DA V("V", p.isize, p.jsize, NV); Kokkos::deep_copy(V, U);
  s.make_boundaries(U);
  int i = vc_index("i", 0, p.isize), j = vc_index("j", 0, p.jsize), si, sj; int a = image(i, p.nx, b[0], b[1], si), c = image(j, p.ny, b[2], b[3], sj);
  for (int v = 0; v < NV; ++v) { int g = 1; if (v == IU || v == IA) g *= si; if (v == IV || v == IB) g *= sj; vc_eq("cell value is that of its image cell", U(i, j, v), g * V(a, c, v)); }
#else
  DA U("U", p.isize, p.jsize, p.ksize, NV); vc_havoc(U, "U"); DA V("V", p.isize, p.jsize, p.ksize, NV); Kokkos::deep_copy(V, U);
  s.make_boundaries(U);
  int i = vc_index("i", 0, p.isize), j = vc_index("j", YREG == 2 ? p.ny + GW : YREG == 0 ? GW : 0, YREG == 1 ? GW : YREG == 0 ? p.ny + GW : p.jsize), k = vc_index("k", ZREG == 2 ? p.nz + GW : ZREG == 0 ? GW : 0, ZREG == 1 ? GW : ZREG == 0 ? p.nz + GW : p.ksize), si, sj, sk; int a = image(i, p.nx, b[0], b[1], si), c = image(j, p.ny, b[2], b[3], sj), d = image(k, p.nz, b[4], b[5], sk);
  for (int v = 0; v < NV; ++v) { int g = 1; if (v == IU || v == IA) g *= si; if (v == IV || v == IB) g *= sj; if (v == IW || v == IC) g *= sk; vc_eq("cell value is that of its image cell", U(i, j, k, v), g * V(a, c, d, v)); }
#endif
}
