// Time step of the real solvers: CFL condition for every inner cell; never beyond the end time.   defs: DIM 2|3, MHD 0|1, GRAV 0|1, PAR 0|1
// VC-OVERRIDE: ^ppkMHD::muscl::Solver(Hydro|MHD)Muscl<[23]>::init\( => nop
// VC-OVERRIDE: ^ppkMHD::muscl::Solver(Hydro|MHD)Muscl<[23]>::make_boundaries\( => nop
// VC-OVERRIDE: ::Solver(Hydro|MHD)Muscl<[23]>::convertToPrimitives\( => nop
#ifndef DIM
#define DIM 2
#endif
#ifndef MHD
#define MHD 0
#endif
#ifndef GRAV
#define GRAV 0
#endif
#ifndef PAR
#define PAR 0
#endif
#include "solver.h"
#include "shared/SolverBase.cpp"
#if MHD
#include "muscl/SolverMHDMuscl.h"
#include "muscl/SolverMHDMuscl.cpp"
using Solver = ppkMHD::muscl::SolverMHDMuscl<DIM>;
#else
#include "muscl/SolverHydroMuscl.h"
#include "muscl/SolverHydroMuscl.cpp"
using Solver = ppkMHD::muscl::SolverHydroMuscl<DIM>;
#endif
using DA = Solver::DataArray;
constexpr int NV = MHD ? 8 : DIM == 2 ? 4 : 5, GW = MHD ? 3 : 2;
static HydroParams P;
static double at(const DA& U, const int* c, int v) {
#if DIM == 2
  return U(c[0], c[1], v);
#else
  return U(c[0], c[1], c[2], v);
#endif
}
struct Run { Solver* sp; DA W; };
static Run run() {
  HydroParams& p = P; vc_params(p, DIM, GW, NV, VC_NATIVE ? GW : 1);
  char cb[] = "[hydro]\nproblem=implode\n"; char* cp = cb; ConfigMap& cfg = *new ConfigMap(cp, sizeof cb); Solver& s = *new Solver(p, cfg);
  s.m_iteration = 2 * vc_int("halfit", 0, 3) + PAR; s.m_t = 0; s.m_tEnd = vc_real("tEnd", 1, 2);
#if MHD
  vc_havoc(s.Q, "Q");
#if VC_NATIVE
  for (size_t n = 0; n < s.Q.s->d.size(); n += NV) { s.Q.s->d[n] = vc_rnd(.2, 2); s.Q.s->d[n + 1] = vc_rnd(.2, 2); }
#endif
  DA W = s.Q;
#else
  vc_havocU(s.U, "Un", NV, p.settings.gamma0); vc_havocU(s.U2, "U2n", NV, p.settings.gamma0);
  DA W = PAR == 0 ? s.U : s.U2;
#endif
#if GRAV
  s.m_gravity_enabled = true;
#if DIM == 2
  s.gravity = Solver::VectorField("g", p.isize, p.jsize);
#else
  s.gravity = Solver::VectorField("g", p.isize, p.jsize, p.ksize);
#endif
  vc_havoc(s.gravity, "g");
#endif
  return Run{&s, W};
}
VC_HARNESS(safe) { Run r = run(); r.sp->compute_dt_local(); vc_true("the time step is computed", true); }
VC_HARNESS(cfl)
{
  Run rn = run(); Solver& s = *rn.sp; DA W = rn.W; HydroParams& p = P;
  double dt = s.compute_dt_local();
  int c[3] = {vc_index("i", GW, p.isize - GW), vc_index("j", GW, p.jsize - GW), DIM == 3 ? vc_index("k", GW, p.ksize - GW) : 0};
  double h[3] = {p.dx, p.dy, p.dz};
#if VC_NATIVE
#else
  __vc_reduce_instance(p.settings.cfl / dt, DIM == 2 ? c[0] * (long)p.jsize + c[1] : (c[0] * (long)p.jsize + c[1]) * p.ksize + c[2], c[0], c[1], c[2]);
#endif
  double q[8] = {0, 0, 0, 0, 0, 0, 0, 0}, cs[3];
  for (int v = 0; v < NV; ++v) q[v] = at(W, c, v);
#if MHD
  vc_assume(q[ID] > 0); vc_assume(q[IP] > 0);
  double b2 = 0, d2; for (int d = 0; d < 3; ++d) b2 += q[IA + d] * q[IA + d];
  double c2 = p.settings.gamma0 * q[IP] / q[ID]; d2 = 0.5 * (b2 / q[ID] + c2);
  for (int d = 0; d < DIM; ++d) cs[d] = std::sqrt(d2 + std::sqrt(d2 * d2 - c2 * q[IA + d] * q[IA + d] / q[ID]));   // fast magnetosonic speed
#else
  double r = std::fmax(q[ID], p.settings.smallr), e = 0, pr; for (int d = 0; d < DIM; ++d) { q[IU + d] /= r; e += 0.5 * q[IU + d] * q[IU + d]; }
  pr = std::fmax((p.settings.gamma0 - 1) * r * (q[IP] / r - e), r * p.settings.smallp);
  for (int d = 0; d < DIM; ++d) cs[d] = std::sqrt(p.settings.gamma0 * pr / r);
#endif
#if GRAV
  double v = 0, k = 0, hm = std::fmin(p.dx, p.dy);
#if DIM == 3
  hm = std::fmin(hm, p.dz);
#endif
  for (int d = 0; d < DIM; ++d) v += std::fabs(q[IU + d]) + cs[d];
#if DIM == 2
  for (int d = 0; d < DIM; ++d) k += std::fabs(s.gravity(c[0], c[1], d));
#else
  for (int d = 0; d < DIM; ++d) k += std::fabs(s.gravity(c[0], c[1], c[2], d));
#endif
  k = std::fmax(k * p.settings.cfl * hm / (v * v), 1e-4);
  double sum = v * k / (std::sqrt(1 + 2 * k) - 1) / hm;
  vc_le("time step within the CFL condition of every inner cell with gravity", v * k / (std::sqrt(1 + 2 * k) - 1) / hm, p.settings.cfl / dt);
#else
  double sum = 0; for (int d = 0; d < DIM; ++d) sum += (std::fabs(q[IU + d]) + cs[d]) / h[d];
  vc_le("time step within the CFL condition of every inner cell", sum, p.settings.cfl / dt);
#endif
  vc_le("signal speed is not negative", 0, sum);   // with the bound above: cfl/dt >= sum >= 0
  vc_assume(p.settings.cfl / dt >= 0); vc_le("time step is not negative", 0, dt);
}
// the bound used above implies g dt^2/2 + v dt <= cfl h  (pure arithmetic)
VC_HARNESS(quad)
{
  double g = std::fabs(vc_real("g")), v = vc_pos("v"), cfl = vc_pos("cfl"), h = vc_pos("h"), k = std::fmax(g * cfl * h / (v * v), 1e-4), T = cfl * h * (std::sqrt(1 + 2 * k) - 1) / (v * k), gg = k * v * v / (cfl * h);
  vc_eq("quadratic", 0.5 * gg * T * T + v * T, cfl * h); vc_le("gravity not larger", g, gg);
}
