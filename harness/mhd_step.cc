// One constrained-transport MUSCL-Hancock step of the real MHD solver equals the update written here from the scheme's definition,
// for every grid, state, time step; and it leaves the discrete divergence of the magnetic field unchanged.
// VC-OVERRIDE: ^ppkMHD::muscl::SolverMHDMuscl<[23]>::make_boundaries\( => contract_make_boundaries
// VC-OVERRIDE: ^ppkMHD::muscl::SolverMHDMuscl<[23]>::init\( => contract_init
// VC-OVERRIDE: ::compute_dt\(\) => nop
// VC-OVERRIDE: ppkMHD::riemann_mhd(<.*>)?\( => contract_riemann
// VC-OVERRIDE: compute_emf<\(.*EmfDir\)0> => contract_emf_x
// VC-OVERRIDE: compute_emf<\(.*EmfDir\)1> => contract_emf_y
// VC-OVERRIDE: compute_emf<\(.*EmfDir\)2> => contract_emf_z
// VC-OVERRIDE: MHDBaseFunctor[23]D::constoprim_mhd\( => contract_prim
// VC-OVERRIDE: MHDBaseFunctor[23]D::slope_unsplit_hydro_[23]d_scalar\(double, double, double\) => contract_slope1
// VC-OVERRIDE: MHDBaseFunctor2D::slope_unsplit_hydro_2d_scalar\(double, double, double, double, => contract_slope2
// VC-OVERRIDE: MHDBaseFunctor3D::slope_unsplit_hydro_3d_scalar\(double, double, double, double, => contract_slope3
// VC-OVERRIDE: MHDBaseFunctor2D::slope_unsplit_mhd_2d\( => contract_face2
// VC-OVERRIDE: MHDBaseFunctor3D::slope_unsplit_mhd_3d\( => contract_face3
// VC-OVERRIDE: MHDBaseFunctor[23]D::compute_limited_slope<\(.*Direction\)0> => contract_facearray_x
// VC-OVERRIDE: MHDBaseFunctor[23]D::compute_limited_slope<\(.*Direction\)1> => contract_facearray_y
// VC-OVERRIDE: MHDBaseFunctor[23]D::compute_limited_slope<\(.*Direction\)2> => contract_facearray_z
#ifndef DIM
#define DIM 2
#endif
#ifndef IMPL
#define IMPL 0
#endif
#ifndef SLOPE0
#define SLOPE0 0
#endif
#include "solver.h"
#include "muscl/SolverMHDMuscl.h"
#include "muscl/SolverMHDMuscl.cpp"
#include "shared/SolverBase.cpp"
using Solver = ppkMHD::muscl::SolverMHDMuscl<DIM>;
using DA = Solver::DataArray;
using S8 = MHDState;
#if DIM == 2
using Base = ppkMHD::muscl::MHDBaseFunctor2D;
#else
using Base = ppkMHD::muscl::MHDBaseFunctor3D;
#endif
static HydroParams P;
USED void contract_init(Solver*, DA U) {}
struct C { long c[3]; };
static inline C sh(C c, int d, int s) { c.c[d] += s; return c; }
static inline double& at(const DA& U, const C& c, int v) {
#if DIM == 2
  return U(c.c[0], c.c[1], v);
#else
  return U(c.c[0], c.c[1], c.c[2], v);
#endif
}
// contract of the boundary fill: rewrites ghost cells only (proved by the boundary harnesses)
USED void contract_make_boundaries(Solver* s, DA* Up) {
  DA U = *Up; HydroParams& p = P; const int gw = p.ghostWidth;
#if DIM == 2
  DA G("G", p.isize, p.jsize, 8); vc_havoc(G, "ghost");
  Kokkos::parallel_for(Kokkos::MDRangePolicy<Kokkos::Rank<2>>({0, 0}, {p.isize, p.jsize}), [=](const int& i, const int& j) {
    if (i < gw || j < gw || i >= P.isize - gw || j >= P.jsize - gw) for (int v = 0; v < 8; ++v) U(i, j, v) = G(i, j, v); });
#else
  DA G("G", p.isize, p.jsize, p.ksize, 8); vc_havoc(G, "ghost");
  Kokkos::parallel_for(Kokkos::MDRangePolicy<Kokkos::Rank<3>>({0, 0, 0}, {p.isize, p.jsize, p.ksize}), [=](const int& i, const int& j, const int& k) {
    if (i < gw || j < gw || k < gw || i >= P.isize - gw || j >= P.jsize - gw || k >= P.ksize - gw) for (int v = 0; v < 8; ++v) U(i, j, k, v) = G(i, j, k, v); });
#endif
}
#if !VC_NATIVE
// contract of the Riemann solver: the flux is a function of the two states (value: harness riemann_mhd.cc)
static inline double RF(int v, const S8& l, const S8& r, const HydroParams& p) {
  double a[20]; int n = 0; for (int q = 0; q < 8; ++q) { a[n++] = l[q]; a[n++] = r[q]; }
  const char* nm[8] = {"Frho", "Fe", "Fu", "Fv", "Fw", "Fa", "Fb", "Fc"}; return vc_uf(nm[v], n, a);
}
USED void contract_riemann(const S8& l, const S8& r, S8& f, const HydroParams& p) { S8 t; for (int v = 0; v < 8; ++v) t[v] = RF(v, l, r, p); f = t; }
// contract of the edge electromotive force: a function of the four states around the edge (value: harness emf.cc)
static inline double EF(int d, const S8 (&q)[4]) { double a[32]; int n = 0; for (int e = 0; e < 4; ++e) for (int v = 0; v < 8; ++v) a[n++] = q[e][v]; const char* nm[3] = {"EmfX", "EmfY", "EmfZ"}; return vc_uf(nm[d], 32, a); }
USED double contract_emf_x(const S8 (&q)[4], const HydroParams& p) { return EF(0, q); }
USED double contract_emf_y(const S8 (&q)[4], const HydroParams& p) { return EF(1, q); }
USED double contract_emf_z(const S8 (&q)[4], const HydroParams& p) { return EF(2, q); }
// contract of the conversion to primitive variables (value: harness prim.cc)
static inline double QF(int v, const S8& u, const double* nb) { double a[12]; int n = 0; for (int q = 0; q < 8; ++q) a[n++] = u[q]; for (int d = 0; d < 3; ++d) a[n++] = nb[d]; const char* nm[8] = {"Qr", "Qp", "Qu", "Qv", "Qw", "Qa", "Qb", "Qc"}; return vc_uf(nm[v], n, a); }
USED void contract_prim(const Base* b, const S8& u, const double (&nb)[3], double& c, S8& q) { S8 t; for (int v = 0; v < 8; ++v) t[v] = QF(v, u, nb); q = t; c = vc_uf("Qcs", 8, &t[0]); }
// contract of the slope limiter: one function of the three neighbouring values (value and limiting: harness slope.cc)
static inline double SF(double m, double q, double n, double th) { double a[4] = {m, q, n, th}; return vc_uf("Slope", 4, a); }
#define TH (b->params.settings.slope_type)
USED double contract_slope1(const Base* b, double q, double p, double m) { return SF(m, q, p, TH); }
USED void contract_slope2(const Base* b, double q, double px, double mx, double py, double my, double* x, double* y) { *x = SF(mx, q, px, TH); *y = SF(my, q, py, TH); }
USED void contract_slope3(const Base* b, double q, double px, double mx, double py, double my, double pz, double mz, double* x, double* y, double* z) { *x = SF(mx, q, px, TH); *y = SF(my, q, py, TH); *z = SF(mz, q, pz, TH); }
USED void contract_face2(const Base* b, const double* f, double (*d)[3]) { for (int e = 0; e < 2; ++e) for (int v = 0; v < 3; ++v) d[e][v] = 0; d[IY][IX] = SF(f[2], f[0], f[1], TH); d[IX][IY] = SF(f[5], f[3], f[4], TH); }
USED void contract_face3(const Base* b, const double* f, double (*d)[3]) { for (int e = 0; e < 3; ++e) d[e][e] = 0;
  d[IY][IX] = SF(f[2], f[0], f[1], TH); d[IZ][IX] = SF(f[4], f[0], f[3], TH); d[IX][IY] = SF(f[7], f[5], f[6], TH); d[IZ][IY] = SF(f[9], f[5], f[8], TH); d[IX][IZ] = SF(f[12], f[10], f[11], TH); d[IY][IZ] = SF(f[14], f[10], f[13], TH); }
static inline double FA(const Base* b, const DA& U, C c, int d, int v) { return SF(at(U, sh(c, d, -1), v), at(U, c, v), at(U, sh(c, d, 1), v), TH); }
#if DIM == 2
#define FARGS const Base* b, DA* U, int i, int j, int v
#define FC C{{i, j, 0}}
#else
#define FARGS const Base* b, DA* U, int i, int j, int k, int v
#define FC C{{i, j, k}}
#endif
USED double contract_facearray_x(FARGS) { return FA(b, *U, FC, 0, v); }
USED double contract_facearray_y(FARGS) { return FA(b, *U, FC, 1, v); }
USED double contract_facearray_z(FARGS) { return FA(b, *U, FC, 2, v); }
#endif
struct Spec {
  const HydroParams& p; DA U; double dt; Base b;
  double u(C c, int v) const { return at(U, c, v); }
  double h(int d) const { return d == 0 ? p.dx : d == 1 ? p.dy : p.dz; }
  double l(int d) const { return dt / h(d); }
  S8 prim(C c) const { S8 w, q; double x, nb[3]; for (int v = 0; v < 8; ++v) w[v] = u(c, v); for (int d = 0; d < 3; ++d) nb[d] = u(d < DIM ? sh(c, d, 1) : c, IA + d); b.constoprim_mhd(w, nb, x, q); return q; }
  double lim(double m, double q, double n) const { if (p.settings.slope_type == 0) return 0;
#if DIM == 2
    return b.slope_unsplit_hydro_2d_scalar(q, n, m);
#else
    return b.slope_unsplit_hydro_3d_scalar(q, n, m);
#endif
  }
  // slopes of the primitive variables: limited, except the normal field, which is the difference of its two face values
  S8 slope(C c, int d) const { S8 m = prim(sh(c, d, -1)), q = prim(c), n = prim(sh(c, d, 1)), s; for (int v = 0; v < 8; ++v) s[v] = lim(m[v], q[v], n[v]); s[IA + d] = u(sh(c, d, 1), IA + d) - u(c, IA + d); return s; }
  struct Cell { S8 q, s[DIM]; };      // half-time cell state and slopes
  Cell cell(C c) const {
    Cell k; S8 q = prim(c), n = q; for (int d = 0; d < DIM; ++d) k.s[d] = slope(c, d); double r = q[ID];
    for (int e = 0; e < DIM; ++e) {
      const S8& s = k.s[e]; double ve = q[IU + e], a = 0.5 * l(e), pm = s[IP]; for (int m = 0; m < 3; ++m) if (m != e) pm = pm + q[IA + m] * s[IA + m];
      n[ID] = n[ID] - a * (ve * s[ID] + r * s[IU + e]); n[IP] = n[IP] - a * (ve * s[IP] + p.settings.gamma0 * q[IP] * s[IU + e]);
      for (int m = 0; m < 3; ++m) {
        n[IU + m] = n[IU + m] - a * (ve * s[IU + m] + (m == e ? pm : -(q[IA + e] * s[IA + m])) / r);
        if (m != e) n[IA + m] = n[IA + m] + a * (q[IU + m] * s[IA + e] + q[IA + e] * s[IU + m] - ve * s[IA + m] - q[IA + m] * s[IU + e]);
      }
    }
    k.q = n; return k;
  }
  double E0(C c, int k) const {      // electric field (v x B) on the lower edge of c along k
    int a = (k + 1) % 3, b = (k + 2) % 3; S8 q[4] = {prim(c), prim(sh(c, a, -1)), prim(sh(c, b, -1)), prim(sh(sh(c, a, -1), b, -1))};
    double va = 0.25 * (q[0][IU + a] + q[1][IU + a] + q[2][IU + a] + q[3][IU + a]), vb = 0.25 * (q[0][IU + b] + q[1][IU + b] + q[2][IU + b] + q[3][IU + b]);
    return va * 0.5 * (u(c, IA + b) + u(sh(c, a, -1), IA + b)) - vb * 0.5 * (u(c, IA + a) + u(sh(c, b, -1), IA + a));
  }
  template<class E> double curl(C c, int d, E e) const { int a = (d + 1) % 3, b = (d + 2) % 3; double r = 0; if (a < DIM) r += l(a) * (e(sh(c, a, 1), b) - e(c, b)); if (b < DIM) r -= l(b) * (e(sh(c, b, 1), a) - e(c, a)); return r; }
  double Bh(C c, int d) const { return u(c, IA + d) + 0.5 * curl(c, d, [&](C x, int k) { return E0(x, k); }); }   // face field at the half time
  void floors(S8& f) const { f[ID] = std::fmax(p.settings.smallr, f[ID]); f[IP] = std::fmax(DIM == 3 && IMPL < 2 ? p.settings.smallp : p.settings.smallp * f[ID], f[IP]); }
  S8 face(C c, int d, int side) const {
    Cell k = cell(c); S8 f; for (int v = 0; v < 8; ++v) f[v] = k.q[v] + 0.5 * side * k.s[d][v]; f[IA + d] = Bh(side > 0 ? sh(c, d, 1) : c, d); floors(f); return f;
  }
  double Bedge(C c, int d, int sd, int e, int se) const {   // field component d extrapolated from its face to the edge
    C f = sd > 0 ? sh(c, d, 1) : c; return Bh(f, d) + 0.5 * se * lim0(u(sh(f, e, -1), IA + d), u(f, IA + d), u(sh(f, e, 1), IA + d));
  }
#if VC_NATIVE
  double lim0(double m, double q, double n) const { return lim(m, q, n); }
#else
  double lim0(double m, double q, double n) const { return SF(m, q, n, p.settings.slope_type); }
#endif
  S8 edge(C c, int a, int sa, int b, int sb) const {
    Cell k = cell(c); S8 f; for (int v = 0; v < 8; ++v) f[v] = k.q[v] + 0.5 * (sa * k.s[a][v] + sb * k.s[b][v]);
    f[IA + a] = Bedge(c, a, sa, b, sb); f[IA + b] = Bedge(c, b, sb, a, sa); floors(f); return f;
  }
  static void swp(S8& s, int d) { double t = s[IU]; s[IU] = s[IU + d]; s[IU + d] = t; t = s[IA]; s[IA] = s[IA + d]; s[IA + d] = t; }
  S8 flux(C c, int d) const { S8 l = face(sh(c, d, -1), d, +1), r = face(c, d, -1), f; if (d) { swp(l, d); swp(r, d); } riemann_mhd(l, r, f, p); if (d) swp(f, d); return f; }
  double emf(C c, int k) const {
    int a = (k + 1) % 3, b = (k + 2) % 3; S8 q[4]; q[IRT] = edge(sh(sh(c, a, -1), b, -1), a, +1, b, +1); q[ILT] = edge(sh(c, b, -1), a, -1, b, +1); q[IRB] = edge(sh(c, a, -1), a, +1, b, -1); q[ILB] = edge(c, a, -1, b, -1);
    return k == 0 ? compute_emf<EMFX>(q, p) : k == 1 ? compute_emf<EMFY>(q, p) : compute_emf<EMFZ>(q, p);
  }
};
struct Run { Solver* s; DA old, nw; double dt; };
static Run run() {
  HydroParams& p = P; vc_params(p, DIM, 3, 8, VC_NATIVE ? 3 : 1);
#if SLOPE0
  p.settings.slope_type = 0;
#else
  p.settings.slope_type = vc_int("slope_type", 1, 2); vc_assume(p.settings.slope_type <= 2);
#endif
  p.riemannSolverType = RIEMANN_HLLD; p.implementationVersion = IMPL;
  char b[] = "[hydro]\nproblem=implode\n"; char* bp = b; ConfigMap& cfg = *new ConfigMap(bp, sizeof b);
  Solver& s = *new Solver(p, cfg); double dt = vc_real("dt", .001, .05); s.m_dt = dt;
  vc_havocU(s.U, "Un", 8, p.settings.gamma0); vc_havocU(s.U2, "U2n", 8, p.settings.gamma0);
  s.godunov_unsplit_impl(s.U, s.U2);
  return Run{&s, s.U, s.U2, dt};
}
static C inner(int off = 0) { HydroParams& p = P; C c; c.c[0] = vc_index("i", 3, p.isize - 3 - off); c.c[1] = vc_index("j", 3, p.jsize - 3 - off); c.c[2] = DIM == 3 ? vc_index("k", 3, p.ksize - 3 - off) : 0; return c; }
static const char* NM[8] = {"density", "energy", "momentum x", "momentum y", "momentum z", "magnetic field x", "magnetic field y", "magnetic field z"};
#ifndef VSEL
#define VSEL 0
#endif
VC_HARNESS(step)
{
  Run r = run(); Spec sp{P, r.old, r.dt, Base(P)}; C c = inner();
  for (int v = 0; v < 8; ++v) {
    if (VSEL && !(v < 5 || (DIM == 2 && v == IC)) != (VSEL == 2)) continue;
    double e = sp.u(c, v);
    if (v < 5 || (DIM == 2 && v == IC)) { for (int d = 0; d < DIM; ++d) e += sp.l(d) * (sp.flux(c, d)[v] - sp.flux(sh(c, d, 1), d)[v]); }
    else e += sp.curl(c, v - IA, [&](C x, int k) { return sp.emf(x, k); });
    vc_eq(NM[v], at(r.nw, c, v), e);
  }
}
// the step runs to its end: every access is in bounds and no two iterations of a loop conflict (obligations of the executor)
VC_HARNESS(safe) { run(); vc_true("the step completes", true); }
// cells all of whose faces are updated by the step (the outermost faces belong to the boundary fill)
VC_HARNESS(divb)
{
  Run r = run(); C c = inner(1); double d0 = 0, d1 = 0;
  for (int d = 0; d < DIM; ++d) { double h = d == 0 ? P.dx : d == 1 ? P.dy : P.dz; d0 += (at(r.old, sh(c, d, 1), IA + d) - at(r.old, c, IA + d)) / h; d1 += (at(r.nw, sh(c, d, 1), IA + d) - at(r.nw, c, IA + d)) / h; }
  vc_eq("divergence of the magnetic field", d1, d0);
}
