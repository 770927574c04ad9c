// One MUSCL-Hancock step of the real solver (constructor, boundary fill, primitives, slopes, predictor, Riemann, update)
// equals the conservative update written here from the scheme's definition, for every grid, state, time step.
// VC-OVERRIDE: ^ppkMHD::muscl::SolverHydroMuscl<[23]>::make_boundaries\( => contract_make_boundaries
// VC-OVERRIDE: ^ppkMHD::muscl::SolverHydroMuscl<[23]>::init\( => contract_init
// VC-OVERRIDE: ::compute_dt\(\) => nop
// VC-OVERRIDE: ppkMHD::riemann_hydro(<.*>)?\( => contract_riemann
// VC-OVERRIDE: HydroBaseFunctor[23]D::computePrimitives\( => contract_prim
// VC-OVERRIDE: HydroBaseFunctor2D::slope_unsplit_hydro_2d_scalar\( => contract_slope2
// VC-OVERRIDE: HydroBaseFunctor3D::slope_unsplit_hydro_3d_scalar\( => contract_slope3
#ifndef DIM
#define DIM 2
#endif
#ifndef IMPL
#define IMPL 0
#endif
#ifndef GRAV
#define GRAV 0
#endif
#include "solver.h"
#include "muscl/SolverHydroMuscl.h"
#include "muscl/SolverHydroMuscl.cpp"
#include "shared/SolverBase.cpp"
using Solver = ppkMHD::muscl::SolverHydroMuscl<DIM>;
using DA = Solver::DataArray;
constexpr int NV = DIM == 2 ? 4 : 5;
using State = std::conditional<DIM == 2, HydroState2d, HydroState3d>::type;
static HydroParams P;
USED void contract_init(Solver*, DA U) {}
// contract of the boundary fill: rewrites ghost cells only (proved by the boundary harnesses)
USED void contract_make_boundaries(Solver* s, DA* Up) {
  DA U = *Up; HydroParams& p = P; const int gw = p.ghostWidth;
#if DIM == 2
  DA G("G", p.isize, p.jsize, NV); vc_havoc(G, "ghost");
  Kokkos::parallel_for(Kokkos::MDRangePolicy<Kokkos::Rank<2>>({0, 0}, {p.isize, p.jsize}), [=](const int& i, const int& j) {
    if (i < gw || j < gw || i >= P.isize - gw || j >= P.jsize - gw) for (int v = 0; v < NV; ++v) U(i, j, v) = G(i, j, v); });
#else
  DA G("G", p.isize, p.jsize, p.ksize, NV); vc_havoc(G, "ghost");
  Kokkos::parallel_for(Kokkos::MDRangePolicy<Kokkos::Rank<3>>({0, 0, 0}, {p.isize, p.jsize, p.ksize}), [=](const int& i, const int& j, const int& k) {
    if (i < gw || j < gw || k < gw || i >= P.isize - gw || j >= P.jsize - gw || k >= P.ksize - gw) for (int v = 0; v < NV; ++v) U(i, j, k, v) = G(i, j, k, v); });
#endif
}
// contract of the Riemann solver: the flux is a function of the two states and the gas parameters
static inline double RF(int v, const State& l, const State& r, const HydroParams& p) {
  double a[16]; int n = 0; for (int q = 0; q < NV; ++q) { a[n++] = l[q]; a[n++] = r[q]; }
  a[n++] = p.settings.gamma0; a[n++] = p.settings.smallr; a[n++] = p.riemannSolverType;
  const char* nm[5] = {"Frho", "Fe", "Fu", "Fv", "Fw"}; return vc_uf(nm[v], n, a);
}
USED void contract_riemann(const State& l, const State& r, State& g, State& f, const HydroParams& p) { for (int v = 0; v < NV; ++v) f[v] = RF(v, l, r, p); }
// contract of the conversion to primitive variables: a function of the conserved state and the gas parameters (value: harness prim.cc)
#if DIM == 2
using Base = ppkMHD::muscl::HydroBaseFunctor2D;
#else
using Base = ppkMHD::muscl::HydroBaseFunctor3D;
#endif
static inline double QF(int v, const State& u, const HydroParams& p) {
  double a[16]; int n = 0; for (int q = 0; q < NV; ++q) a[n++] = u[q];
  a[n++] = p.settings.gamma0; a[n++] = p.settings.smallr; a[n++] = p.settings.smallp;
  const char* nm[5] = {"Qr", "Qp", "Qu", "Qv", "Qw"}; return vc_uf(nm[v], n, a);
}
USED void contract_prim(const Base* b, const State& u, double* c, State& q) { State t; for (int v = 0; v < NV; ++v) t[v] = QF(v, u, b->params); q = t; *c = vc_uf("Qc", NV, &t[0]); }
// contract of the slope limiter: one function of the three neighbouring values (value and limiting: harness slope.cc)
static inline double SF(double m, double q, double n, double th) { double a[4] = {m, q, n, th}; return vc_uf("Slope", 4, a); }
USED void contract_slope2(const Base* b, double q, double px, double mx, double py, double my, double* x, double* y) { double th = b->params.settings.slope_type; *x = SF(mx, q, px, th); *y = SF(my, q, py, th); }
USED void contract_slope3(const Base* b, double q, double px, double mx, double py, double my, double pz, double mz, double* x, double* y, double* z) {
  double th = b->params.settings.slope_type; *x = SF(mx, q, px, th); *y = SF(my, q, py, th); *z = SF(mz, q, pz, th); }

struct Spec {
  const HydroParams& p; DA U; double dt; bool grav; Solver::VectorField g;
  struct C { long c[3]; };
  C sh(C c, int d, int s) const { c.c[d] += s; return c; }
  double u(C c, int v) const {
#if DIM == 2
    return U(c.c[0], c.c[1], v);
#else
    return U(c.c[0], c.c[1], c.c[2], v);
#endif
  }
  double gr(C c, int d) const {
#if DIM == 2
    return g(c.c[0], c.c[1], d);
#else
    return g(c.c[0], c.c[1], c.c[2], d);
#endif
  }
  double h(int d) const { return d == 0 ? p.dx : d == 1 ? p.dy : p.dz; }
  State prim(C c) const {
    State w, q; double x; for (int v = 0; v < NV; ++v) w[v] = u(c, v);
    Base(p).computePrimitives(w, &x, q); return q;
  }
  double lim(double th, double m, double c, double q) const {       // theta-limited central slope
    double s = 0, t; if (th == 0) return 0;
#if DIM == 2
    Base(p).slope_unsplit_hydro_2d_scalar(c, q, m, q, m, &s, &t);
#else
    double w; Base(p).slope_unsplit_hydro_3d_scalar(c, q, m, q, m, q, m, &s, &t, &w);
#endif
    return s;
  }
  State slope(C c, int d) const {
    State m = prim(sh(c, d, -1)), q = prim(c), n = prim(sh(c, d, 1)), s;
    for (int v = 0; v < NV; ++v) s[v] = lim(p.settings.slope_type, m[v], q[v], n[v]); return s;
  }
  // state at the face of cell c in direction d (side=-1: lower face, +1: upper face) at the half time step
  State face(C c, int d, int side) const {
    State q = prim(c), s[DIM], f; for (int e = 0; e < DIM; ++e) s[e] = slope(c, e);
    double div = 0, dtr = 0, dtp = 0, r = q[ID];
    for (int e = 0; e < DIM; ++e) { double l = dt / h(e); div += l * s[e][IU + e]; dtr -= l * q[IU + e] * s[e][ID]; dtp -= l * q[IU + e] * s[e][IP]; }
    dtr -= r * div; dtp -= p.settings.gamma0 * q[IP] * div;
    f[ID] = std::fmax(p.settings.smallr, r + 0.5 * side * s[d][ID] + 0.5 * dtr);
    f[IP] = q[IP] + 0.5 * side * s[d][IP] + 0.5 * dtp;
    for (int k = 0; k < DIM; ++k) {
      double t = -dt / h(k) * s[k][IP] / r; for (int e = 0; e < DIM; ++e) t -= dt / h(e) * q[IU + e] * s[e][IU + k];
      f[IU + k] = q[IU + k] + 0.5 * side * s[d][IU + k] + 0.5 * t + (grav ? 0.5 * dt * gr(c, k) : 0.0);
    }
    return f;
  }
  static void swp(State& s, int d) { double t = s[IU]; s[IU] = s[IU + d]; s[IU + d] = t; }
  State flux(C c, int d) const {    // through the lower face of c
    State l = face(sh(c, d, -1), d, +1), r = face(c, d, -1), g, f; if (d) { swp(l, d); swp(r, d); }
    riemann_hydro(l, r, g, f, p); if (d) swp(f, d); return f;
  }
  State next(C c) const {
    State n; for (int v = 0; v < NV; ++v) n[v] = u(c, v);
    for (int d = 0; d < DIM; ++d) { State a = flux(c, d), b = flux(sh(c, d, 1), d); for (int v = 0; v < NV; ++v) n[v] += dt / h(d) * (a[v] - b[v]); }
    if (grav) {
      double ro = u(c, ID), rn = n[ID], k0 = 0, k1 = 0;
      vc_assume(rn >= p.settings.smallr);      // the source term is specified for updated densities above the floor
      for (int d = 0; d < DIM; ++d) { k0 += n[IU + d] * n[IU + d]; n[IU + d] += 0.5 * dt * gr(c, d) * (ro + rn); k1 += n[IU + d] * n[IU + d]; }
      n[IP] += 0.5 * (k1 - k0) / rn;
    }
    return n;
  }
};
struct Run { Solver* s; DA old, nw; double dt; };
static Run run() {
  HydroParams& p = P; vc_params(p, DIM, 2, NV, VC_NATIVE ? 2 : 1);   // natively the real boundary fill runs: it needs ghost-width cells
  p.settings.slope_type = vc_int("slope_type", 0, 2); vc_assume(p.settings.slope_type <= 2);
  p.riemannSolverType = RIEMANN_LLF; p.implementationVersion = IMPL;
  char b[] = "[hydro]\nproblem=implode\n"; char* bp = b;
  ConfigMap& cfg = *new ConfigMap(bp, sizeof b);
  Solver& s = *new Solver(p, cfg);
  if (GRAV) { s.m_gravity_enabled = true;
#if DIM == 2
    s.gravity = Solver::VectorField("g", p.isize, p.jsize);
#else
    s.gravity = Solver::VectorField("g", p.isize, p.jsize, p.ksize);
#endif
    vc_havoc(s.gravity, "g"); }
  double dt = vc_real("dt", .001, .05);
  vc_havocU(s.U, "Un", NV, p.settings.gamma0); vc_havocU(s.U2, "U2n", NV, p.settings.gamma0);
#ifndef PAR
#define PAR 0
#endif
  s.m_iteration = 2 * vc_int("halfit", 0, 3) + PAR;
  DA old = PAR == 0 ? s.U : s.U2, nw = PAR == 0 ? s.U2 : s.U;
  s.godunov_unsplit(dt);
  return Run{&s, old, nw, dt};
}
// the step runs to its end: every access is in bounds and no two iterations of a loop conflict (obligations of the executor)
VC_HARNESS(safe) { run(); vc_true("the step completes", true); }
VC_HARNESS(step)
{
  HydroParams& p = P; Run r = run(); Solver& s = *r.s; DA nw = r.nw; double dt = r.dt;
  Spec sp{p, r.old, dt, GRAV, s.gravity};
  Spec::C c; c.c[0] = vc_index("i", 2, p.isize - 2); c.c[1] = vc_index("j", 2, p.jsize - 2); c.c[2] = DIM == 3 ? vc_index("k", 2, p.ksize - 2) : 0;
  State e = sp.next(c);
  const char* nm[5] = {"density", "energy", "momentum x", "momentum y", "momentum z"};
  Spec sn{p, nw, dt, GRAV, s.gravity};
  for (int v = 0; v < NV; ++v) vc_eq(nm[v], sn.u(c, v), e[v]);
}
