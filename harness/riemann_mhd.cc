// MHD Riemann solvers (real code: shared/RiemannSolvers_MHD.h, shared/mhd_utils.h).   defs: RS RIEMANN_LLF|RIEMANN_HLL|RIEMANN_HLLD ; CASE 0..5 for the HLLD model
// The characteristic speeds are called under contract (proved by `speeds`): a positive function of density, pressure, squared normal field and squared transverse field.
// VC-OVERRIDE: find_speed_fast<\(.*ComponentIndex3D\)0> => contract_fast_x
// VC-OVERRIDE: find_speed_fast<\(.*ComponentIndex3D\)1> => contract_fast_y
// VC-OVERRIDE: find_speed_fast<\(.*ComponentIndex3D\)2> => contract_fast_z
// VC-OVERRIDE: ^ppkMHD::find_speed_info\( => contract_info
#include "solver.h"
#include "shared/RiemannSolvers_MHD.h"
#ifndef ISO
#define ISO 0   // isothermal runs carry p = rho cs^2
#endif
#ifndef CASE
#define CASE 0
#endif
#ifndef DEG
#define DEG 0
#endif
#ifndef BN0
#define BN0 0
#endif
#ifndef RS
#define RS RIEMANN_LLF
#endif
using S8 = MHDState;
static double fastuf(double d, double p, double bn2, double bt2) {
#if VC_NATIVE
  return 0;
#else
  double a[4] = {d, p, bn2, bt2}; double r = vc_uf("cfast", 4, a); vc_assume(r > 0); return r;
#endif
}
USED double contract_fast_x(const S8& q, const HydroParams&) { return fastuf(q[ID], q[IP], q[IA] * q[IA], q[IB] * q[IB] + q[IC] * q[IC]); }
USED double contract_fast_y(const S8& q, const HydroParams&) { return fastuf(q[ID], q[IP], q[IB] * q[IB], q[IA] * q[IA] + q[IC] * q[IC]); }
USED double contract_fast_z(const S8& q, const HydroParams&) { return fastuf(q[ID], q[IP], q[IC] * q[IC], q[IA] * q[IA] + q[IB] * q[IB]); }
USED double contract_info(const S8& q, const HydroParams&) { return fastuf(q[ID], q[IP], q[IA] * q[IA], q[IB] * q[IB] + q[IC] * q[IC]) + std::fabs(q[IU]); }
static HydroParams P;
static HydroParams& params() { P.settings.gamma0 = vc_real("gamma0", 1.1, 1.9); vc_assume(P.settings.gamma0 > 1); P.settings.smallr = 1e-8; P.settings.smallc = 1e-8; P.settings.smallp = 1e-16; P.settings.cIso = ISO ? vc_pos("cIso") : 0; P.riemannSolverType = RS; return P; }
static S8 any(const char* const* n) { S8 q; q[ID] = vc_pos(n[0]); q[IP] = vc_pos(n[1]); for (int v = 2; v < 8; ++v) q[v] = vc_real(n[v]); if (ISO) q[IP] = q[ID] * P.settings.cIso * P.settings.cIso; return q; }
static const char* NL[] = {"rl", "pl", "ul", "vl", "wl", "al", "bl", "cl"}; static const char* NR[] = {"rr", "pr", "ur", "vr", "wr", "ar", "br", "cr"};
static const char* FN[8] = {"mass flux", "energy flux", "normal momentum flux", "transverse momentum flux 1", "transverse momentum flux 2", "normal field flux", "transverse field flux 1", "transverse field flux 2"};
static double dot(const S8& q, int a, int b) { return q[a] * q[b] + q[a + 1] * q[b + 1] + q[a + 2] * q[b + 2]; }
static S8 cons(const S8& q, const HydroParams& p) { S8 u = q; u[IP] = q[IP] / (p.settings.gamma0 - 1) + 0.5 * q[ID] * dot(q, IU, IU) + 0.5 * dot(q, IA, IA); for (int d = 0; d < 3; ++d) u[IU + d] = q[ID] * q[IU + d]; return u; }
// ideal MHD flux along the first axis
static S8 physflux(const S8& q, const HydroParams& p) {
  S8 f; double un = q[IU], bn = q[IA], pt = q[IP] + 0.5 * dot(q, IA, IA); f[ID] = q[ID] * un; f[IP] = (cons(q, p)[IP] + pt) * un - bn * dot(q, IU, IA);
  for (int d = 0; d < 3; ++d) { f[IU + d] = q[ID] * un * q[IU + d] - bn * q[IA + d] + (d == 0 ? pt : 0); f[IA + d] = un * q[IA + d] - q[IU + d] * bn; } return f;
}
static S8 solve(S8 l, S8 r, const HydroParams& p) { S8 f; for (int v = 0; v < 8; ++v) f[v] = 7; riemann_mhd(l, r, f, p); return f; }
VC_HARNESS(consist) { HydroParams& p = params(); S8 q = any(NL), e = physflux(q, p), f = solve(q, q, p); for (int v = 0; v < 8; ++v) vc_eq(FN[v], f[v], e[v]); }
// both sides use the mean normal field; the flux does not depend on how it is split
static void pair(S8& l, S8& r) { l = any(NL); r = any(NR); }
static void mean(S8& l, S8& r) { double m = 0.5 * (l[IA] + r[IA]); l[IA] = r[IA] = m; }
VC_HARNESS(upwind)
{
  HydroParams& p = params(); S8 l, r; pair(l, r); S8 L = l, R = r; mean(L, R); double c = std::fmax(find_speed_fast<IX>(L, p), find_speed_fast<IX>(R, p));
#ifdef LEFTWARD
#if VC_NATIVE
  { double k = std::fmax(l[IU], r[IU]) + c + 0.1; l[IU] -= k; r[IU] -= k; L[IU] -= k; R[IU] -= k; }
#endif
  vc_assume(l[IU] + c < 0 && r[IU] + c < 0); S8 e = physflux(R, p);
#else
#if VC_NATIVE
  { double k = std::fmin(l[IU], r[IU]) - c - 0.1; l[IU] -= k; r[IU] -= k; L[IU] -= k; R[IU] -= k; }
#endif
  vc_assume(l[IU] - c > 0 && r[IU] - c > 0); S8 e = physflux(L, p);
#endif
  S8 f = solve(l, r, p); for (int v = 0; v < 8; ++v) vc_eq(FN[v], f[v], e[v]);
}
VC_HARNESS(mirror)
{
  HydroParams& p = params(); S8 l, r; pair(l, r); S8 ml = r, mr = l; ml[IU] = -r[IU]; mr[IU] = -l[IU]; ml[IA] = -r[IA]; mr[IA] = -l[IA];
  S8 f = solve(l, r, p), g = solve(ml, mr, p); for (int v = 0; v < 8; ++v) vc_eq(FN[v], f[v], v == IU ? g[v] : -g[v]);
}
static S8 swapt(S8 q) { double t = q[IV]; q[IV] = q[IW]; q[IW] = t; t = q[IB]; q[IB] = q[IC]; q[IC] = t; return q; }
static S8 flip(S8 q) { q[IV] = -q[IV]; q[IB] = -q[IB]; return q; }
VC_HARNESS(transverse)
{
  HydroParams& p = params(); S8 l, r; pair(l, r); S8 f = solve(l, r, p), g = swapt(solve(swapt(l), swapt(r), p)), h = flip(solve(flip(l), flip(r), p));
  for (int v = 0; v < 8; ++v) { vc_eq(FN[v], f[v], g[v]); vc_eq(FN[v], f[v], h[v]); }
}
// state between an outer wave (speed s) and the contact (speed us, total pressure ps): density, total energy, velocity, field
[[maybe_unused]] static S8 star(const S8& q, const S8& u, double s, double us, double ps, double pt, bool deg) {
  S8 r; double bn = q[IA], m = q[ID] * (s - q[IU]), es = m * (s - us) - bn * bn, e = m * (s - q[IU]) - bn * bn;
  // degenerate: the transverse components are left alone
  if (CASE == 0 || CASE == 5) ; else if (BN0) vc_assume(!(bn * bn > 0)); else { vc_assume(bn * bn > 0); double k = std::fabs(es / (bn * bn)); if (deg) vc_assume(k <= 1e-8); else vc_assume(!(k <= 1e-8)); }
  r[ID] = m / (s - us); vc_assume(r[ID] > 0); r[IU] = us; r[IA] = bn;
  for (int d = 1; d < 3; ++d) { r[IU + d] = q[IU + d]; r[IA + d] = q[IA + d]; if (!deg) { r[IU + d] = q[IU + d] - bn * q[IA + d] * (us - q[IU]) / es; r[IA + d] = q[IA + d] * e / es; } }
  r[IP] = ((s - q[IU]) * u[IP] - pt * q[IU] + ps * us + bn * (dot(q, IU, IA) - dot(r, IU, IA))) / (s - us); return r;
}
// flux function of such a state
[[maybe_unused]] static S8 starflux(const S8& r, double ps) {
  S8 f; double us = r[IU], bn = r[IA]; f[ID] = r[ID] * us; f[IP] = (r[IP] + ps) * us - bn * dot(r, IU, IA);
  for (int k = 0; k < 3; ++k) { f[IU + k] = r[ID] * us * r[IU + k] - bn * r[IA + k] + (k == 0 ? ps : 0); f[IA + k] = k ? us * r[IA + k] - bn * r[IU + k] : 0; } return f;
}
VC_HARNESS(model)
{
  HydroParams& p = params(); S8 l, r; pair(l, r); const S8 l0 = l, r0 = r; mean(l, r); S8 fl = physflux(l, p), fr = physflux(r, p), a = cons(l, p), b = cons(r, p);
  double cl = find_speed_fast<IX>(l, p), cr = find_speed_fast<IX>(r, p);
#if defined(DEF_LLF)
  double s = std::fmax(std::fabs(l[IU]) + cl, std::fabs(r[IU]) + cr);
  S8 f = solve(l0, r0, p); for (int v = 0; v < 8; ++v) vc_eq(FN[v], f[v], 0.5 * (fl[v] + fr[v]) - 0.5 * s * (b[v] - a[v]));
#elif defined(DEF_HLL)
  double c = std::fmax(cl, cr), sl = std::fmin(0, std::fmin(l[IU], r[IU]) - c), sr = std::fmax(0, std::fmax(l[IU], r[IU]) + c);
  S8 f = solve(l0, r0, p); for (int v = 0; v < 8; ++v) { double us = (sr * b[v] - sl * a[v] - (fr[v] - fl[v])) / (sr - sl); vc_eq(FN[v], f[v], fl[v] + sl * (us - a[v])); }
#elif defined(DEF_HLLD)
  // Miyoshi & Kusano: jump conditions across the outer waves, the Alfven waves and the contact.
  double c = std::fmax(cl, cr), sl = std::fmin(l[IU], r[IU]) - c, sr = std::fmax(l[IU], r[IU]) + c, bn = l[IA];
  double ptl = l[IP] + 0.5 * dot(l, IA, IA), ptr = r[IP] + 0.5 * dot(r, IA, IA), ml = l[ID] * (l[IU] - sl), mr = r[ID] * (sr - r[IU]);
  double us = (mr * r[IU] + ml * l[IU] + (ptl - ptr)) / (mr + ml), ps = (mr * ptl + ml * ptr + ml * mr * (l[IU] - r[IU])) / (mr + ml);
  S8 sL = star(l, a, sl, us, ps, ptl, DEG & 1), sR = star(r, b, sr, us, ps, ptr, DEG & 2);   // conservative star states
  double ql = std::sqrt(sL[ID]), qr = std::sqrt(sR[ID]), al = us - std::fabs(bn) / ql, ar = us + std::fabs(bn) / qr, sg = bn >= 0 ? 1 : -1;
  S8 F;
#if CASE == 0
  vc_assume(sl > 0); F = fl;
#elif CASE == 5
  vc_assume(!(sl > 0)); vc_assume(!(al > 0)); vc_assume(!(us > 0)); vc_assume(!(ar > 0)); vc_assume(!(sr > 0)); F = fr;
#elif CASE == 1
  vc_assume(!(sl > 0)); vc_assume(al > 0); F = starflux(sL, ps);
#elif CASE == 4
  vc_assume(!(sl > 0)); vc_assume(!(al > 0)); vc_assume(!(us > 0)); vc_assume(!(ar > 0)); vc_assume(sr > 0); F = starflux(sR, ps);
#else
  // double-star state: transverse velocity and field common to both sides
  S8 d = CASE == 2 ? sL : sR, D = d;
  for (int k = 1; k < 3; ++k) { D[IU + k] = (ql * sL[IU + k] + qr * sR[IU + k] + sg * (sR[IA + k] - sL[IA + k])) / (ql + qr);
    D[IA + k] = (ql * sR[IA + k] + qr * sL[IA + k] + sg * ql * qr * (sR[IU + k] - sL[IU + k])) / (ql + qr); }
  double db = dot(d, IU, IA) - dot(D, IU, IA); D[IP] = CASE == 2 ? d[IP] - sg * ql * db : d[IP] + sg * qr * db;
  vc_assume(!(sl > 0)); vc_assume(!(al > 0)); F = starflux(D, ps);
#if CASE == 2
  vc_assume(us > 0);
#else
  vc_assume(!(us > 0)); vc_assume(ar > 0);
#endif
#endif
  S8 f = solve(l0, r0, p); for (int v = 0; v < 8; ++v) vc_eq(FN[v], f[v], F[v]);
#endif
}
