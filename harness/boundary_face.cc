// Ghost-cell fill across one face.    defs: DIM 2|3, MHD 0|1, FACE 0..5
#include "boundary.h"
#ifndef FACE
#define FACE 0
#endif
VC_HARNESS(face)
{
  HydroParams& p = P; vc_params(p, DIM, GW, NV, GW); int b[6], bb = bc("type"); for (int f = 0; f < 6; ++f) b[f] = bb; setbc(p, b);
  char cb[] = "[hydro]\nproblem=implode\n"; char* cp = cb; ConfigMap& cfg = *new ConfigMap(cp, sizeof cb); Solver& s = *new Solver(p, cfg);
  for (int f = 0; f < 6; ++f) b[f] = f == FACE ? bb : 1 + bb % 3; setbc(p, b);
  const int d = FACE / 2, n = d == 0 ? p.nx : d == 1 ? p.ny : p.nz;
#if DIM == 3
  DA U("U", p.isize, p.jsize, p.ksize, NV); vc_havoc(U, "U"); DA V("V", p.isize, p.jsize, p.ksize, NV); Kokkos::deep_copy(V, U);
  s.SolverBase::make_boundary(U, (FaceIdType)FACE, MHD);
  int x[3] = {vc_index("i", 0, p.isize), vc_index("j", 0, p.jsize), vc_index("k", 0, p.ksize)}, sg = 1; const int i = x[0], j = x[1], k = x[2];
  if (FACE % 2 == 0 ? x[d] < GW : x[d] >= n + GW) x[d] = image(x[d], n, bb, bb, sg);
  for (int v = 0; v < NV; ++v) vc_eq("cell value is that of its image across the face", U(i, j, k, v), (v == IU + d || v == IA + d ? sg : 1) * V(x[0], x[1], x[2], v));
#else
  DA U("U", p.isize, p.jsize, NV); vc_havoc(U, "U"); DA V("V", p.isize, p.jsize, NV); Kokkos::deep_copy(V, U);
  s.SolverBase::make_boundary(U, (FaceIdType)FACE, MHD);
  int x[2] = {vc_index("i", 0, p.isize), vc_index("j", 0, p.jsize)}, sg = 1; const int i = x[0], j = x[1];
  if (FACE % 2 == 0 ? x[d] < GW : x[d] >= n + GW) x[d] = image(x[d], n, bb, bb, sg);
  for (int v = 0; v < NV; ++v) vc_eq("cell value is that of its image across the face", U(i, j, v), (v == IU + d || v == IA + d ? sg : 1) * V(x[0], x[1], v));
#endif
}
VC_HARNESS(safe)
{
  HydroParams& p = P; vc_params(p, DIM, GW, NV, GW); int b[6], bb = bc("type"); for (int f = 0; f < 6; ++f) b[f] = bb; setbc(p, b);
  char cb[] = "[hydro]\nproblem=implode\n"; char* cp = cb; ConfigMap& cfg = *new ConfigMap(cp, sizeof cb); Solver& s = *new Solver(p, cfg);
#if DIM == 3
  DA U("U", p.isize, p.jsize, p.ksize, NV);
#else
  DA U("U", p.isize, p.jsize, NV);
#endif
  vc_havoc(U, "U"); s.SolverBase::make_boundary(U, (FaceIdType)FACE, MHD); vc_true("the fill completes", true);
}
