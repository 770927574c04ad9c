// The Euler system of the spectral difference solver: point functions of the conserved state.   defs: DIM 2|3
#include "solver.h"
#include "shared/EulerEquations.h"
#ifndef DIM
#define DIM 2
#endif
using E = ppkMHD::EulerEquations<DIM>; using State = E::HydroState; constexpr int NV = DIM + 2;
static const char* nm[] = {"density", "energy", "momentum x", "momentum y", "momentum z"};
static State any(const char* tag) {
  State q; std::string t(tag);
  static const char* a[] = {"q.rho", "q.E", "q.mx", "q.my", "q.mz"}; static const char* b[] = {"a.rho", "a.E", "a.mx", "a.my", "a.mz"};
  for (int v = 0; v < NV; ++v) q[v] = vc_real(tag[0] == 'q' ? a[v] : b[v], -2, 3); return q;
}
static State conserved() { State q = any("q"); q[ID] = vc_real("density", .1, 3); vc_assume(q[ID] >= 1e-8); return q; }
static double gam() { double g = vc_real("gamma0", 1.1, 1.9); vc_assume(g > 1); return g; }
static double m2(const State& q) { double s = 0; for (int d = 0; d < DIM; ++d) s += q[IU + d] * q[IU + d]; return s; }
template<int d> static void flux(const State& q, double p, State& f) {
  if (d == 0) E::flux_x(q, p, f); else if (d == 1) E::flux_y(q, p, f);
#if DIM == 3
  else E::flux_z(q, p, f);
#endif
}
VC_HARNESS(pressure)
{
  State q = conserved(), w; double g = gam(), p = (g - 1) * (q[IE] - .5 * m2(q) / q[ID]), fl = 1e-7 * q[ID];
  double e = p > fl ? p : fl;
  vc_eq("pressure", E::compute_pressure(q, g), e);
  E::convert_to_primitive(q, w, g);
  vc_eq("primitive pressure", w[IP], e); vc_eq("primitive density", w[ID], q[ID]);
  for (int d = 0; d < DIM; ++d) vc_eq("velocity", w[IU + d], q[IU + d] / q[ID]);
  // in place, as the boundary and limiter kernels call it
  State z = q; E::convert_to_primitive(z, z, g);
  for (int v = 0; v < NV; ++v) vc_eq("conversion in place: density", z[ID], q[ID]);
}
template<int d> static void fluxes() {
  State q = conserved(), f; double p = vc_real("p");
  flux<d>(q, p, f);
  vc_eq("mass flux", f[ID], q[IU + d]); vc_eq("energy flux", f[IE], q[IU + d] / q[ID] * (q[IE] + p));
  for (int e = 0; e < DIM; ++e) vc_eq("momentum flux", f[IU + e], q[IU + d] * q[IU + e] / q[ID] + (e == d ? p : 0));
}
VC_HARNESS(flux)
{
  fluxes<0>(); fluxes<1>();
#if DIM == 3
  fluxes<2>();
#endif
}
// viscous stress: symmetric, traceless, equal to mu times the deviator of twice the strain rate; its work and the heat flux in the energy
VC_HARNESS(visc)
{
  E::GradTensor G; double g[DIM][DIM];
  static const char* gn[] = {"ux", "uy", "uz", "vx", "vy", "vz", "wx", "wy", "wz"};
  for (int a = 0; a < DIM; ++a) for (int b = 0; b < DIM; ++b) g[a][b] = vc_real(gn[3 * a + b]);
#if DIM == 2
  G[E::U_X] = g[0][0]; G[E::U_Y] = g[0][1]; G[E::V_X] = g[1][0]; G[E::V_Y] = g[1][1];
#else
  G[E::U_X] = g[0][0]; G[E::U_Y] = g[0][1]; G[E::U_Z] = g[0][2]; G[E::V_X] = g[1][0]; G[E::V_Y] = g[1][1]; G[E::V_Z] = g[1][2]; G[E::W_X] = g[2][0]; G[E::W_Y] = g[2][1]; G[E::W_Z] = g[2][2];
#endif
  E::Vector v, h; static const char* vn[] = {"v0", "v1", "v2"}; static const char* hn[] = {"h0", "h1", "h2"};
  for (int a = 0; a < DIM; ++a) { v[a] = vc_real(vn[a]); h[a] = vc_real(hn[a]); }
  double mu = vc_pos("mu"), tr = 0; for (int a = 0; a < DIM; ++a) tr += g[a][a];
  State f[3]; E::flux_visc_x(G, v, h, mu, f[0]); E::flux_visc_y(G, v, h, mu, f[1]);
#if DIM == 3
  E::flux_visc_z(G, v, h, mu, f[2]);
#endif
  double trace = 0;
  for (int d = 0; d < DIM; ++d) {
    double w = h[d]; trace += f[d][IU + d];
    vc_eq("no viscous mass flux", f[d][ID], 0);
    for (int a = 0; a < DIM; ++a) { double t = mu * (g[a][d] + g[d][a] - (a == d ? 2. / DIM * tr : 0)); w += v[a] * t; vc_eq("viscous stress", f[d][IU + a], t); vc_eq("stress is symmetric", f[d][IU + a], f[a][IU + d]); }
    vc_eq("work of the viscous stress", f[d][IE], w);
  }
  vc_eq("stress is traceless", trace, 0);
}
// characteristic decomposition of the Jacobian along d
template<int d> static void charac() {
  State q = conserved(), a = any("a"), L = a, R = a; double g = gam(), c = vc_pos("c"), H = c * c / (g - 1), u[DIM];
  for (int e = 0; e < DIM; ++e) { u[e] = q[IU + e] / q[ID]; H += .5 * u[e] * u[e]; }
  E::cons_to_charac<d>(L, q, c, g); E::charac_to_cons<d>(L, q, c, g);
  E::charac_to_cons<d>(R, q, c, g); State r = R; E::cons_to_charac<d>(r, q, c, g);
  for (int v = 0; v < NV; ++v) { vc_eq("conserved -> characteristic -> conserved", L[v], a[v]); vc_eq("characteristic -> conserved -> characteristic", r[v], a[v]); }
  // the columns are eigenvectors: A (R a) = R (Lambda a), A the derivative of the flux at q with sound speed c
  State s; for (int v = 0; v < NV; ++v) s[v] = u[d] * a[v];
  s[ID] = (u[d] - c) * a[ID]; s[IE] = (u[d] + c) * a[IE];
  E::charac_to_cons<d>(s, q, c, g);
  double dp = R[IE], dm = R[IU + d], k = 0; for (int e = 0; e < DIM; ++e) { k += .5 * u[e] * u[e]; dp -= u[e] * R[IU + e]; } dp = (g - 1) * (dp + k * R[ID]);
  vc_eq("eigenvectors: mass", s[ID], dm);
  for (int e = 0; e < DIM; ++e) vc_eq("eigenvectors: momentum", s[IU + e], u[e] * dm + u[d] * R[IU + e] - u[d] * u[e] * R[ID] + (e == d ? dp : 0));
  vc_eq("eigenvectors: energy", s[IE], u[d] * (R[IE] + dp) + (dm - u[d] * R[ID]) * H);
}
VC_HARNESS(characx) { charac<0>(); }
VC_HARNESS(characy) { charac<1>(); }
#if DIM == 3
VC_HARNESS(characz) { charac<2>(); }
#endif
