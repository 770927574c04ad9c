// Approximate Riemann solvers (through the dispatcher): consistency, upwinding, mirror symmetry, wave-model definition.
// defs: DIM 2|3, RS = RIEMANN_APPROX | RIEMANN_LLF | RIEMANN_HLL | RIEMANN_HLLC
#include "solver.h"
#include <cmath>
using namespace ppkMHD;
#ifndef DIM
#define DIM 2
#define RS RIEMANN_HLL
#endif
constexpr int NV = DIM == 2 ? 4 : 5;
using State = std::conditional<DIM == 2, HydroState2d, HydroState3d>::type;
static HydroParams params() {
  HydroParams p; p.settings.gamma0 = vc_real("gamma0", 1.1, 1.9); vc_assume(p.settings.gamma0 > 1);
  p.settings.smallr = vc_pos("smallr", 1e-9, 1e-8); p.settings.smallc = vc_pos("smallc", 1e-9, 1e-8);
  p.settings.smallp = vc_pos("smallp", 1e-18, 1e-17); p.settings.smallpp = vc_pos("smallpp", 1e-26, 1e-25);
  p.settings.gamma6 = (p.settings.gamma0 + 1) / (2 * p.settings.gamma0);
  p.riemannSolverType = RS; return p;
}
static State any(const HydroParams& p, const char* const* n) {       // any admissible primitive state (density and pressure above the floors)
  State q; q[ID] = vc_pos(n[0]); q[IP] = vc_pos(n[1]); q[IU] = vc_real(n[2], -3, 3); q[IV] = vc_real(n[3]);
#if DIM == 3
  q[IW] = vc_real(n[4]);
#endif
  vc_assume(q[ID] >= p.settings.smallr); vc_assume(q[IP] >= q[ID] * p.settings.smallp);
  vc_assume(std::sqrt(p.settings.gamma0 * q[IP] / q[ID]) >= p.settings.smallc); vc_assume(p.settings.gamma0 * q[IP] / q[ID] >= p.settings.smallc * p.settings.smallc);   // sound speed above its floor
  return q;
}
static const char* NL[] = {"rl", "pl", "ul", "vl", "wl"}; static const char* NR[] = {"rr", "pr", "ur", "vr", "wr"};
static double energy(const State& q, const HydroParams& p) { double k = 0; for (int d = 0; d < DIM; ++d) k += q[IU + d] * q[IU + d]; return q[IP] / (p.settings.gamma0 - 1) + 0.5 * q[ID] * k; }
static State cons(const State& q, const HydroParams& p) { State u; u[ID] = q[ID]; u[IP] = energy(q, p); for (int d = 0; d < DIM; ++d) u[IU + d] = q[ID] * q[IU + d]; return u; }
static State physflux(const State& q, const HydroParams& p) { State f; double un = q[IU]; f[ID] = q[ID] * un; f[IP] = un * (energy(q, p) + q[IP]); for (int d = 0; d < DIM; ++d) f[IU + d] = q[ID] * un * q[IU + d] + (d == 0 ? q[IP] : 0); return f; }
static const char* FN[5] = {"mass flux", "energy flux", "normal momentum flux", "transverse momentum flux 1", "transverse momentum flux 2"};
static double snd(const State& q, const HydroParams& p) { return std::sqrt(p.settings.gamma0 * q[IP] / q[ID]); }
static State solve(State l, State r, const HydroParams& p) { State g, f; for (int v = 0; v < NV; ++v) g[v] = 0; riemann_hydro(l, r, g, f, p); return f; }
// equal states give the physical flux
VC_HARNESS(consist)
{
  HydroParams p = params(); State q = any(p, NL); State e = physflux(q, p), f = solve(q, q, p);
  for (int v = 0; v < NV; ++v) vc_eq(FN[v], f[v], e[v]);
}
// supersonic flow: the flux is that of the upwind state (HLL, HLLC)
VC_HARNESS(upwind)
{
  HydroParams p = params(); State l = any(p, NL), r = any(p, NR); double c = std::fmax(snd(l, p), snd(r, p));
#ifdef LEFTWARD
#if VC_NATIVE
  { double k = std::fmax(l[IU], r[IU]) + c + 0.1; l[IU] -= k; r[IU] -= k; }
#endif
  vc_assume(l[IU] + c < 0 && r[IU] + c < 0); State e = physflux(r, p);
#else
#if VC_NATIVE
  { double k = std::fmin(l[IU], r[IU]) - c - 0.1; l[IU] -= k; r[IU] -= k; }
#endif
  vc_assume(l[IU] - c > 0 && r[IU] - c > 0); State e = physflux(l, p);
#endif
  State f = solve(l, r, p);
  for (int v = 0; v < NV; ++v) vc_eq(FN[v], f[v], e[v]);
}
// mirror: exchanging the sides and reversing the normal velocity reverses the flux
VC_HARNESS(mirror)
{
  HydroParams p = params(); State l = any(p, NL), r = any(p, NR);
#if RS_HLLC
  // the pressures are given through the sound speeds (p = rho c^2 / gamma is one-to-one), so that the square roots are plain variables
  double cl = vc_pos("cl"), cr = vc_pos("cr"); vc_assume(cl >= p.settings.smallc); vc_assume(cr >= p.settings.smallc); vc_assume(cl * cl >= p.settings.smallc * p.settings.smallc); vc_assume(cr * cr >= p.settings.smallc * p.settings.smallc);
  l[IP] = l[ID] * cl * cl / p.settings.gamma0; r[IP] = r[ID] * cr * cr / p.settings.gamma0;
  vc_assume(l[IP] >= l[ID] * p.settings.smallp); vc_assume(r[IP] >= r[ID] * p.settings.smallp);
#endif
  State ml = r, mr = l; ml[IU] = -r[IU]; mr[IU] = -l[IU];
#if RS_HLLC
#if UORD == 0
  vc_assume(l[IU] < r[IU]);
#else
  vc_assume(l[IU] >= r[IU]);
#endif
#if CORD == 0
  vc_assume(cl < cr);
#else
  vc_assume(cl >= cr);
#endif
  double c = std::fmax(cl, cr), sl = std::fmin(l[IU], r[IU]) - c, sr = std::fmax(l[IU], r[IU]) + c, kl = l[ID] * (l[IU] - sl), kr = r[ID] * (sr - r[IU]);
  double us = (kr * r[IU] + kl * l[IU] + (l[IP] - r[IP])) / (kr + kl);   // contact speed: the interface must lie strictly inside one region
#if CASE == 2            // the interface lies between the contact and the right wave; mirrored: between the left wave and the contact
  vc_assume(us != 0); vc_assume(us > sl); vc_assume(us < sr); vc_assume(kl / (us - sl) > 0); vc_assume(kr / (sr - us) > 0);
  vc_assume(!(sl > 0) && us < 0 && sr > 0);
#else                     // all waves move to the left (mirrored: to the right)
  vc_assume(sr < 0); vc_assume(us < 0); vc_assume(!(sl > 0)); vc_assume(!(sr > 0));
#endif
#endif
  State f = solve(l, r, p), g = solve(ml, mr, p);
#if RS_HLLC
  constexpr int NC = 3;        // transverse fluxes: the mass flux times the velocity of the side the mass comes from (harness contact), hence mirrored with it
#else
  constexpr int NC = NV;
#endif
  for (int v = 0; v < NC; ++v) vc_eq(FN[v], f[v], v == IU ? g[v] : -g[v]);
}
// the facts about the HLLC wave fan used above: the contact lies strictly between the outer waves
VC_HARNESS(waveorder)
{
  double g = vc_real("gamma0", 1.1, 1.9), rl = vc_pos("rl"), rr = vc_pos("rr"), cl = vc_pos("cl"), cr = vc_pos("cr"), ul = vc_real("ul", -3, 3), ur = vc_real("ur", -3, 3); vc_assume(g > 1);
  double sl, sr, c;
  if (ul < ur) { sl = ul; sr = ur; } else { sl = ur; sr = ul; }
  if (cl < cr) c = cr; else c = cl;
  sl -= c; sr += c;
  double al = ul - sl, ar = sr - ur, pl = rl * cl * cl / g, pr = rr * cr * cr / g;
  vc_true("left distance", al >= c); vc_true("right distance", ar >= c); vc_true("cross distances", ur - sl >= c && sr - ul >= c);
  vc_true("right pressure bounded", pr < rr * ar * (ur - sl)); vc_true("left pressure bounded", pl < rl * al * (sr - ul));
  // hence kr (ur - sl) + kl (ul - sl) + pl - pr > 0 and kr (sr - ur) + kl (sr - ul) - pl + pr > 0, i.e. sl < us < sr
  double x = vc_real("x", 0, 9), y = vc_real("y", 0, 9), z = vc_real("z", 0, 9); vc_assume(x > pr); vc_assume(y >= 0); vc_assume(z > pl);
  vc_true("contact faster than the left wave", x + y + pl - pr > 0); vc_true("contact slower than the right wave", z + y + pr - pl > 0);
}
// the transverse directions are equivalent: reversing a transverse velocity reverses only that component; exchanging them exchanges the fluxes
VC_HARNESS(transverse)
{
  HydroParams p = params(); State l = any(p, NL), r = any(p, NR), l2 = l, r2 = r; l2[IV] = -l[IV]; r2[IV] = -r[IV];
  State f = solve(l, r, p), g = solve(l2, r2, p);
  for (int v = 0; v < NV; ++v) vc_eq(FN[v], f[v], v == IV ? -g[v] : g[v]);
#if DIM == 3
  State l3 = l, r3 = r; l3[IV] = l[IW]; l3[IW] = l[IV]; r3[IV] = r[IW]; r3[IW] = r[IV]; State h = solve(l3, r3, p);
  for (int v = 0; v < NV; ++v) vc_eq(FN[v], f[v], v == IV ? h[IW] : v == IW ? h[IV] : h[v]);
#endif
}
// contact upwinding (approx, HLLC): transverse momentum is carried by the mass flux from the side the mass comes from
VC_HARNESS(contact)
{
  HydroParams p = params(); State l = any(p, NL), r = any(p, NR), f = solve(l, r, p);
#if RS_HLLC
  for (int d = 1; d < DIM; ++d) vc_eq(FN[IU + d], f[IU + d], f[ID] * (f[ID] > 0 ? l[IU + d] : r[IU + d]));
#else
  for (int d = 1; d < DIM; ++d) vc_true(FN[IU + d], f[IU + d] == f[ID] * l[IU + d] || f[IU + d] == f[ID] * r[IU + d]);
#endif
}
// isolated contact (equal pressure and normal velocity): transported exactly
VC_HARNESS(contactwave)
{
  HydroParams p = params(); State l = any(p, NL), r = any(p, NR);
#if VC_NATIVE
  r[IP] = l[IP]; r[IU] = l[IU]; vc_assume(r[IP] >= r[ID] * p.settings.smallp);
#endif
  vc_assume(r[IP] == l[IP]); vc_assume(r[IU] == l[IU]);
  r[IP] = l[IP]; r[IU] = l[IU]; vc_assume(r[IP] >= r[ID] * p.settings.smallp);
  vc_assume(std::sqrt(p.settings.gamma0 * l[IP] / r[ID]) >= p.settings.smallc); vc_assume(p.settings.gamma0 * l[IP] / r[ID] >= p.settings.smallc * p.settings.smallc);
  State f = solve(l, r, p), e = physflux(l[IU] >= 0 ? l : r, p);
  for (int v = 0; v < NV; ++v) vc_eq(FN[v], f[v], e[v]);
}
#if defined(DEF_LLF)
VC_HARNESS(model)
{
  HydroParams p = params(); State l = any(p, NL), r = any(p, NR), f = solve(l, r, p), fl = physflux(l, p), fr = physflux(r, p), a = cons(l, p), b = cons(r, p);
  double s = std::fmax(std::fabs(l[IU]) + snd(l, p), std::fabs(r[IU]) + snd(r, p));
  for (int v = 0; v < NV; ++v) vc_eq(FN[v], f[v], 0.5 * (fl[v] + fr[v]) - 0.5 * s * (b[v] - a[v]));
}
#elif defined(DEF_HLL)
// one intermediate state U* between two waves bounding all signals: F = fL + SL (U* - UL) = fR + SR (U* - UR)
VC_HARNESS(model)
{
  HydroParams p = params(); State l = any(p, NL), r = any(p, NR), f = solve(l, r, p), fl = physflux(l, p), fr = physflux(r, p), a = cons(l, p), b = cons(r, p);
  double c = std::fmax(snd(l, p), snd(r, p)), sl = std::fmin(0, std::fmin(l[IU], r[IU]) - c), sr = std::fmax(0, std::fmax(l[IU], r[IU]) + c);
  for (int v = 0; v < NV; ++v) {
    double us = (sr * b[v] - sl * a[v] - (fr[v] - fl[v])) / (sr - sl);
    vc_eq(FN[v], f[v], fl[v] + sl * (us - a[v])); vc_eq(FN[v], f[v], fr[v] + sr * (us - b[v]));
  }
}
#elif defined(DEF_HLLC)
// Rankine-Hugoniot across the outer waves with a pressure-matched contact between them
VC_HARNESS(model)
{
  HydroParams p = params(); State l = any(p, NL), r = any(p, NR), f = solve(l, r, p), fl = physflux(l, p), fr = physflux(r, p), a = cons(l, p), b = cons(r, p);
  double c = std::fmax(snd(l, p), snd(r, p)), sl = std::fmin(l[IU], r[IU]) - c, sr = std::fmax(l[IU], r[IU]) + c;
  double ml = l[ID] * (l[IU] - sl), mr = r[ID] * (sr - r[IU]);
  double us = (mr * r[IU] + ml * l[IU] + l[IP] - r[IP]) / (mr + ml), ps = (mr * l[IP] + ml * r[IP] + ml * mr * (l[IU] - r[IU])) / (mr + ml);
  vc_assume(us != 0);
#if CASE == 0
  vc_assume(sl > 0); for (int v = 0; v < NV; ++v) vc_eq(FN[v], f[v], fl[v]);
#elif CASE == 1
  vc_assume(!(sl > 0) && us > 0); double k = ml / (us - sl);
  { State u; u[ID] = k; u[IU] = k * us; u[IP] = ((sl - l[IU]) * a[IP] - l[IP] * l[IU] + ps * us) / (sl - us); for (int d = 1; d < DIM; ++d) u[IU + d] = k * l[IU + d];
    vc_assume(k > 0);
    for (int v = 0; v < NV; ++v) vc_eq(FN[v], f[v], fl[v] + sl * (u[v] - a[v])); }
#elif CASE == 2
  vc_assume(!(sl > 0) && us < 0 && sr > 0); double k = mr / (sr - us);
  { State u; u[ID] = k; u[IU] = k * us; u[IP] = ((sr - r[IU]) * b[IP] - r[IP] * r[IU] + ps * us) / (sr - us); for (int d = 1; d < DIM; ++d) u[IU + d] = k * r[IU + d];
    vc_assume(k > 0);
    for (int v = 0; v < NV; ++v) vc_eq(FN[v], f[v], fr[v] + sr * (u[v] - b[v])); }
#else
  vc_assume(!(sl > 0) && us < 0 && !(sr > 0)); for (int v = 0; v < NV; ++v) vc_eq(FN[v], f[v], fr[v]);
#endif
}
#endif
