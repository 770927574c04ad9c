// Time integration of the spectral difference solver: one step of the real time_integration is the published Runge-Kutta scheme
// applied to the method of lines dU/dt = -div, for any operator div, grid, state and time step.
// SCHEME 1: forward Euler, 2: SSPRK(2,2), 3: SSPRK(3,3), 4: SSPRK(5,4).
// VC-OVERRIDE: ::compute_dt\(\) => nop
// VC-OVERRIDE: ^ppkMHD::sdm::SolverHydroSDM<[23], [1-6]>::make_boundaries\( => contract_make_boundaries
// VC-OVERRIDE: ^ppkMHD::sdm::SolverHydroSDM<[23], [1-6]>::init_sdm_geometry => nop
// VC-OVERRIDE: ^ppkMHD::sdm::SolverHydroSDM<[23], [1-6]>::compute_fluxes_divergence\( => contract_div
#ifndef SCHEME
#define SCHEME 1
#endif
#if SCHEME == 1
#define KEY "forward_euler"
#elif SCHEME == 2
#define KEY "ssprk2"
#elif SCHEME == 3
#define KEY "ssprk3"
#else
#define KEY "ssprk54"
#endif
#define VC_CFG_BOOL (key == KEY ? true : key == "forward_euler" ? SCHEME == 1 : d)
#if SCHEME == 1
#define VC_CFG_TEXT ""
#else
#define VC_CFG_TEXT "[sdm]\nforward_euler=no\n" KEY "=yes\n"
#endif
#include "sdm.h"
constexpr int ALL = ND * NV;
static DA IN[6], D[6], FILL; static int n1 = 0, n2 = 0, phase = 0; static C c0, c1;
// the ghost cells get fresh values; the state just filled is remembered
USED void contract_make_boundaries(Solver* s, DA* Up) { if (!phase) return; freshGhosts(*Up, ALL); FILL = copyDA("fill", *Up, ALL); }
// the operator: any values, the same for the same argument.  phase 1: the code under verification; phase 2: the scheme's definition.
USED void contract_div(Solver* s, DA* Up, DA* Fp, double dt) {
  DA U = *Up;
  if (phase == 1) {
    vc_true("no more operator evaluations than stages", n1 < 6);
    for (int q = 0; q < ALL; ++q) vc_eq("the operator is applied to a state whose ghost cells are up to date", at(U, c1, q), at(FILL, c1, q));
    D[n1] = newDA("D", ALL); vc_havoc(D[n1], "div"); IN[n1] = copyDA("in", U, ALL); Kokkos::deep_copy(*Fp, D[n1]); ++n1;
  } else {
    vc_true("as many operator evaluations as stages", n2 < n1);
    for (int q = 0; q < ALL; ++q) vc_eq("stage value", at(IN[n2], c0, q), at(U, c0, q));
    Kokkos::deep_copy(*Fp, D[n2]); ++n2;
  }
}
VC_HARNESS(rk)
{
  Solver& s = mkSolver(); havocS(s.U, "U"); vc_havoc(s.Uaux, "aux"); double dt = vc_real("dt", .0005, .005);
  c0 = cellat("i", "j", "k", 1); c1 = cellat("gi", "gj", "gk", 0);
  DA U0 = copyDA("U0", s.U, ALL);
  phase = 1; s.time_integration(dt);
  phase = 2; DA F = newDA("F", ALL), X[5]; for (int q = 0; q < 5; ++q) X[q] = newDA("X", ALL);
  DA E = newDA("E", ALL);
  auto L = [&](DA U) { s.make_boundaries(U); s.compute_fluxes_divergence(U, F, dt); };
  L(U0);
#if SCHEME == 1
  comb(E, 1, U0, 0, U0, -dt, F);
#elif SCHEME == 2
  comb(X[1], 1, U0, 0, U0, -dt, F); L(X[1]); comb(E, .5, U0, .5, X[1], -.5 * dt, F);
#elif SCHEME == 3
  comb(X[1], 1, U0, 0, U0, -dt, F); L(X[1]); comb(X[2], .75, U0, .25, X[1], -.25 * dt, F); L(X[2]);
  comb(E, 1. / 3, U0, 2. / 3, X[2], -2. / 3 * dt, F);
#else
  comb(X[1], 1, U0, 0, U0, -0.391752226571890 * dt, F); L(X[1]);
  comb(X[2], 0.444370493651235, U0, 0.555629506348765, X[1], -0.368410593050371 * dt, F); L(X[2]);
  comb(X[3], 0.620101851488403, U0, 0.379898148511597, X[2], -0.251891774271694 * dt, F); L(X[3]);
  comb(X[4], 0.178079954393132, U0, 0.821920045606868, X[3], -0.544974750228521 * dt, F);
  comb(E, 0.517231671970585, X[2], 0.096059710526147, X[3], -0.063692468666290 * dt, F); L(X[4]);
  comb(E, 1, E, 0.386708617503269, X[4], -0.226007483236906 * dt, F);
#endif
  for (int q = 0; q < ALL; ++q) vc_eq("updated state", at(s.U, c0, q), at(E, c0, q));
}
