// Common part of the SDM harnesses: any order-N solver on any grid, any state at every solution point.
// VC-OVERRIDE: ^ppkMHD::sdm::SolverHydroSDM<[23], [1-6]>::init_(sod|implode|blast|four_quadrant|kelvin_helmholtz|gresho_vortex|wedge|jet|isentropic_vortex|shu_osher)\( => nop
// VC-OVERRIDE: ^ppkMHD::sdm::SolverHydroSDM<[23], [1-6]>::get_name => nop
#ifndef VC_SDM_H_
#define VC_SDM_H_
#include "solver.h"
#ifndef DIM
#define DIM 2
#endif
#ifndef ORD
#define ORD 2
#endif
#include <array>
#include "sdm/SolverHydroSDM.h"
#include "shared/SolverBase.cpp"
using Solver = ppkMHD::sdm::SolverHydroSDM<DIM, ORD>;
using DA = Solver::DataArray;
constexpr int NV = DIM == 2 ? 4 : 5, NN = ORD, ND = DIM == 2 ? NN * NN : NN * NN * NN;
using State = std::conditional<DIM == 2, HydroState2d, HydroState3d>::type;
using Euler = ppkMHD::EulerEquations<DIM>;
static HydroParams P;
struct C { long c[3]; };
static inline C sh(C c, int d, int s) { c.c[d] += s; return c; }
static inline double& at(DA U, C c, int v) {
#if DIM == 2
  return U(c.c[0], c.c[1], v);
#else
  return U(c.c[0], c.c[1], c.c[2], v);
#endif
}
static inline DA newDA(const char* n, int nd) {
#if DIM == 2
  return DA(n, P.isize, P.jsize, nd);
#else
  return DA(n, P.isize, P.jsize, P.ksize, nd);
#endif
}
// number of the solution point x[0],x[1],x[2] of variable v inside a cell
static inline int dofS(const int* x, int v) { return DIM == 2 ? x[0] + NN * x[1] + NN * NN * v : x[0] + NN * x[1] + NN * NN * x[2] + NN * NN * NN * v; }
static inline C cellat(const char* a, const char* b, const char* c, int g) {
  C r; r.c[0] = vc_index(a, g, P.isize - g); r.c[1] = vc_index(b, g, P.jsize - g); r.c[2] = DIM == 3 ? vc_index(c, g, P.ksize - g) : 0; return r;
}
// X := a A + b B + c F at every interior solution point
static inline void comb(DA X, double a, DA A, double b, DA B, double c, DA F) {
#if DIM == 2
  Kokkos::parallel_for(Kokkos::MDRangePolicy<Kokkos::Rank<2>>({1, 1}, {P.isize - 1, P.jsize - 1}), [=](const int& i, const int& j) {
    for (int q = 0; q < ND * NV; ++q) X(i, j, q) = a * A(i, j, q) + b * B(i, j, q) + c * F(i, j, q); });
#else
  Kokkos::parallel_for(Kokkos::MDRangePolicy<Kokkos::Rank<3>>({1, 1, 1}, {P.isize - 1, P.jsize - 1, P.ksize - 1}), [=](const int& i, const int& j, const int& k) {
    for (int q = 0; q < ND * NV; ++q) X(i, j, k, q) = a * A(i, j, k, q) + b * B(i, j, k, q) + c * F(i, j, k, q); });
#endif
}
static inline DA copyDA(const char* n, DA U, int nd) { DA r = newDA(n, nd); Kokkos::deep_copy(r, U); return r; }
// U := fresh values in the ghost cells
static inline void freshGhosts(DA U, int nd) {
  DA G = newDA("G", nd); vc_havoc(G, "ghost");
#if DIM == 2
  Kokkos::parallel_for(Kokkos::MDRangePolicy<Kokkos::Rank<2>>({0, 0}, {P.isize, P.jsize}), [=](const int& i, const int& j) {
    if (i < 1 || j < 1 || i >= P.isize - 1 || j >= P.jsize - 1) for (int v = 0; v < nd; ++v) U(i, j, v) = G(i, j, v); });
#else
  Kokkos::parallel_for(Kokkos::MDRangePolicy<Kokkos::Rank<3>>({0, 0, 0}, {P.isize, P.jsize, P.ksize}), [=](const int& i, const int& j, const int& k) {
    if (i < 1 || j < 1 || k < 1 || i >= P.isize - 1 || j >= P.jsize - 1 || k >= P.ksize - 1) for (int v = 0; v < nd; ++v) U(i, j, k, v) = G(i, j, k, v); });
#endif
}
static inline double hd(int d) { return d == 0 ? P.dx : d == 1 ? P.dy : P.dz; }
// natively: positive density and pressure at every solution point
static inline void havocS(DA U, const char* n) {
#ifdef VC_SYM
  vc_havoc(U, n);
#else
  for (long i = 0; i < P.isize; ++i) for (long j = 0; j < P.jsize; ++j) for (long k = 0; k < (DIM == 3 ? P.ksize : 1); ++k) for (int d = 0; d < ND; ++d) {
    C c{{i, j, k}}; double r = 1 + vc_rnd(-.2, .2), p = 1 + vc_rnd(-.2, .2), e = 0;
    at(U, c, d) = r; for (int v = 2; v < NV; ++v) { double w = vc_rnd(-.5, .5); e += .5 * r * w * w; at(U, c, d + ND * v) = r * w; }
    at(U, c, d + ND) = p / (P.settings.gamma0 - 1) + e;
  }
#endif
}
#ifndef VC_CFG_TEXT
#define VC_CFG_TEXT
#endif
static Solver& mkSolver() {
  vc_params(P, DIM, 1, NV); P.riemannSolverType = RIEMANN_HLL;
#ifdef MU
  P.settings.mu = vc_pos("mu", .01, .1);
#endif
  char b[] = "[hydro]\nproblem=implode\n" VC_CFG_TEXT; char* bp = b;
  ConfigMap& cfg = *new ConfigMap(bp, sizeof b);
  return *new Solver(P, cfg);
}
#endif
