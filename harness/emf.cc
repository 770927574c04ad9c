// 2D magnetic Riemann solver and edge electromotive force (real code: mag_riemann2d_hlld, compute_emf in shared/RiemannSolvers_MHD.h).  defs: DIR EMFX|EMFY|EMFZ, XC/YC 0 mid, 1 positive, 2 negative
// VC-OVERRIDE: find_speed_fast<\(.*ComponentIndex3D\)0> => contract_fast_x
// VC-OVERRIDE: find_speed_fast<\(.*ComponentIndex3D\)1> => contract_fast_y
#include "solver.h"
#include "shared/RiemannSolvers_MHD.h"
#ifndef DIR
#define DIR EMFZ
#endif
#ifndef XC
#define XC 0
#define YC 0
#endif
using S8 = MHDState;
static double fastuf(double d, double p, double bn2, double bt2) {
#if VC_NATIVE
  return 0;
#else
  double a[4] = {d, p, bn2, bt2}; double r = vc_uf("cfast", 4, a); vc_assume(r > 0); return r;
#endif
}
USED double contract_fast_x(const S8& q, const HydroParams&) { return fastuf(q[ID], q[IP], q[IA] * q[IA], q[IB] * q[IB] + q[IC] * q[IC]); }
USED double contract_fast_y(const S8& q, const HydroParams&) { return fastuf(q[ID], q[IP], q[IB] * q[IB], q[IA] * q[IA] + q[IC] * q[IC]); }
static HydroParams P;
static HydroParams& params() { P.settings.gamma0 = vc_real("gamma0", 1.1, 1.9); vc_assume(P.settings.gamma0 > 1); P.settings.smallr = 1e-8; P.settings.smallc = 1e-8; P.settings.smallp = 1e-16; P.settings.cIso = 0; return P; }
static S8 any(const char* const* n) { S8 q; q[ID] = vc_pos(n[0]); q[IP] = vc_pos(n[1]); for (int v = 2; v < 8; ++v) q[v] = vc_real(n[v]); return q; }
static const char* N4[4][8] = {{"r0", "p0", "u0", "v0", "w0", "a0", "b0", "c0"}, {"r1", "p1", "u1", "v1", "w1", "a1", "b1", "c1"}, {"r2", "p2", "u2", "v2", "w2", "a2", "b2", "c2"}, {"r3", "p3", "u3", "v3", "w3", "a3", "b3", "c3"}};
// the two axes of the plane orthogonal to the edge, in right-handed order, and the edge axis
constexpr int A1 = DIR == EMFZ ? 0 : DIR == EMFY ? 2 : 1, A2 = (A1 + 1) % 3, A3 = (A1 + 2) % 3;
VC_HARNESS(equal)
{
  HydroParams& p = params(); S8 q = any(N4[0]), e[4] = {q, q, q, q};
  vc_eq("edge emf of a uniform state", compute_emf<DIR>(e, p), q[IU + A1] * q[IA + A2] - q[IU + A2] * q[IA + A1]);
}
static S8 rot(const S8& q) { S8 r = q; r[IU] = q[IU + A1]; r[IV] = q[IU + A2]; r[IW] = q[IU + A3]; r[IA] = q[IA + A1]; r[IB] = q[IA + A2]; r[IC] = q[IA + A3]; return r; }
VC_HARNESS(cyclic)
{
  HydroParams& p = params(); S8 e[4], r[4]; for (int i = 0; i < 4; ++i) { e[i] = any(N4[i]); r[i] = rot(e[i]); }
  vc_eq("edge emf is the same in every plane", compute_emf<DIR>(e, p), compute_emf<EMFZ>(r, p));
}
static double mx(double a, double b) { return std::fmax(a, b); }
static double mn(double a, double b) { return std::fmin(a, b); }
// cells around the edge as the emf routine names them: the state stored under "right top" lies to the lower left of the edge, and so on
VC_HARNESS(model)
{
  HydroParams& p = params(); S8 e[4]; for (int i = 0; i < 4; ++i) e[i] = any(N4[i]);
  S8 q[2][2]; q[0][0] = e[IRT]; q[1][0] = e[ILT]; q[0][1] = e[IRB]; q[1][1] = e[ILB];                   // q[x side][y side]
  for (int y = 0; y < 2; ++y) { double m = 0.5 * (q[0][y][IA] + q[1][y][IA]); q[0][y][IA] = q[1][y][IA] = m; }  // normal fields are continuous
  for (int x = 0; x < 2; ++x) { double m = 0.5 * (q[x][0][IB] + q[x][1][IB]); q[x][0][IB] = q[x][1][IB] = m; }
  double cx = 0, cy = 0, umin = 0, umax = 0, vmin = 0, vmax = 0, E[2][2], pt[2][2];
#define ALL(f, op, g) op(g(q[0][0]), g(q[0][1]), g(q[1][0]), g(q[1][1]))
#define CX(s) find_speed_fast<IX>(s, p)
#define CY(s) find_speed_fast<IY>(s, p)
#define U(s) s[IU]
#define V(s) s[IV]
  cx = ALL(0, FMAX4, CX); cy = ALL(0, FMAX4, CY); umin = ALL(0, FMIN4, U); umax = ALL(0, FMAX4, U); vmin = ALL(0, FMIN4, V); vmax = ALL(0, FMAX4, V);
  double s[2] = {umin - cx, umax + cx}, t[2] = {vmin - cy, vmax + cy};
  for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) { const S8& a = q[x][y]; E[x][y] = a[IU] * a[IB] - a[IV] * a[IA]; pt[x][y] = a[IP] + 0.5 * (a[IA] * a[IA] + a[IB] * a[IB] + a[IC] * a[IC]); }
  double nu = 0, du = 0, nv = 0, dv = 0;
  for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) { const S8& a = q[x][y]; double mu = a[ID] * (x ? s[1] - a[IU] : a[IU] - s[0]), mv = a[ID] * (y ? t[1] - a[IV] : a[IV] - t[0]);
    nu = nu + (mu * a[IU] + (x ? -pt[x][y] : pt[x][y])); du = du + mu; nv = nv + (mv * a[IV] + (y ? -pt[x][y] : pt[x][y])); dv = dv + mv; }
  double us = nu / du, vs = nv / dv, kx[2][2], ky[2][2], B[2][2], A[2][2], al[2], be[2], cax[2][2], cAx[2][2], cby[2][2], cBy[2][2];
  for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) { const S8& a = q[x][y]; kx[x][y] = (s[x] - a[IU]) / (s[x] - us); ky[x][y] = (t[y] - a[IV]) / (t[y] - vs); B[x][y] = a[IB] * (s[x] - a[IU]) / (s[x] - us); A[x][y] = a[IA] * (t[y] - a[IV]) / (t[y] - vs);
    double rx = a[ID] * (s[x] - a[IU]) / (s[x] - us), ry = a[ID] * (t[y] - a[IV]) / (t[y] - vs), rr = a[ID] * (s[x] - a[IU]) / (s[x] - us) * (t[y] - a[IV]) / (t[y] - vs);
    vc_assume(rx > 0); vc_assume(ry > 0); vc_assume(rr > 0);
    cax[x][y] = std::fabs(a[IA]) / std::sqrt(rx); cAx[x][y] = std::fabs(A[x][y]) / std::sqrt(rr); cby[x][y] = std::fabs(a[IB]) / std::sqrt(ry); cBy[x][y] = std::fabs(B[x][y]) / std::sqrt(rr); }
  for (int x = 0; x < 2; ++x) al[x] = FMAX5(cax[x][1], cAx[x][1], cax[x][0], cAx[x][0], p.settings.smallc);
  for (int y = 0; y < 2; ++y) be[y] = FMAX5(cby[0][y], cBy[0][y], cby[1][y], cBy[1][y], p.settings.smallc);
  double S[2] = {mn(us - al[0], 0), mx(us + al[1], 0)}, T[2] = {mn(vs - be[0], 0), mx(vs + be[1], 0)};
  // which outer waves move which way
  vc_assume(s[0] < s[1] && t[0] < t[1]);
#if XC == 1
  vc_assume(s[0] > 0);
#elif XC == 2
  vc_assume(s[1] < 0); vc_assume(s[0] < 0);
#else
  vc_assume(s[0] < 0); vc_assume(s[1] > 0);
#endif
#if YC == 1
  vc_assume(t[0] > 0);
#elif YC == 2
  vc_assume(t[1] < 0); vc_assume(t[0] < 0);
#else
  vc_assume(t[0] < 0); vc_assume(t[1] > 0);
#endif
  double r;
#if XC && YC
  r = E[XC - 1][YC - 1];
#elif YC
  constexpr int y = YC - 1; double x0 = us * B[0][y] - q[0][y][IV] * q[0][y][IA], x1 = us * B[1][y] - q[1][y][IV] * q[1][y][IA];
  r = (S[1] * x0 - S[0] * x1 + S[1] * S[0] * (q[1][y][IB] - q[0][y][IB])) / (S[1] - S[0]);
#elif XC
  constexpr int x = XC - 1; double y0 = q[x][0][IU] * q[x][0][IB] - vs * A[x][0], y1 = q[x][1][IU] * q[x][1][IB] - vs * A[x][1];
  r = (T[1] * y0 - T[0] * y1 - T[1] * T[0] * (q[x][1][IA] - q[x][0][IA])) / (T[1] - T[0]);
#else
  double W[2][2]; for (int x = 0; x < 2; ++x) for (int y = 0; y < 2; ++y) W[x][y] = us * B[x][y] - vs * A[x][y];
  double AT = (S[1] * A[1][1] - S[0] * A[0][1]) / (S[1] - S[0]), AB = (S[1] * A[1][0] - S[0] * A[0][0]) / (S[1] - S[0]);
  double BR = (T[1] * B[1][1] - T[0] * B[1][0]) / (T[1] - T[0]), BL = (T[1] * B[0][1] - T[0] * B[0][0]) / (T[1] - T[0]);
  r = (S[0] * T[0] * W[1][1] - S[0] * T[1] * W[1][0] - S[1] * T[0] * W[0][1] + S[1] * T[1] * W[0][0]) / (S[1] - S[0]) / (T[1] - T[0]) - T[1] * T[0] / (T[1] - T[0]) * (AT - AB) + S[1] * S[0] / (S[1] - S[0]) * (BR - BL);
#endif
  vc_eq("edge emf", compute_emf<EMFZ>(e, p), r);
}
