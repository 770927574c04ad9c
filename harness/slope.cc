// Slope limiters: value, total-variation-diminishing bounds, component/direction wiring, for every stencil.
#include "solver.h"
#include <cmath>
#include "muscl/HydroBaseFunctor2D.h"
#include "muscl/HydroBaseFunctor3D.h"
#include "muscl/MHDBaseFunctor2D.h"
#include "muscl/MHDBaseFunctor3D.h"
using H2 = ppkMHD::muscl::HydroBaseFunctor2D; using H3 = ppkMHD::muscl::HydroBaseFunctor3D;
using M2 = ppkMHD::muscl::MHDBaseFunctor2D; using M3 = ppkMHD::muscl::MHDBaseFunctor3D;
static HydroParams params(bool positive = false) { HydroParams p; int t = vc_int("slope_type", positive ? 1 : 0, 2); vc_assume(t <= 2); p.settings.slope_type = t; return p; }
// theta-limited central difference
static double lim(double th, double m, double q, double n) {
  double a = q - m, b = n - q; if (a * b <= 0) return 0;
  double s = std::fmin(0.5 * std::fabs(a + b), th * std::fmin(std::fabs(a), std::fabs(b))); return a + b >= 0 ? s : -s;
}
static void tvd(double s, double m, double q, double n) {     // no new extremum at the faces
  double lo = std::fmin(q, std::fmin(m, n)), hi = std::fmax(q, std::fmax(m, n));
  vc_le("upper face value not above the neighbourhood", q + 0.5 * s, hi); vc_le("lower face value not above the neighbourhood", q - 0.5 * s, hi);
  vc_le("upper face value not below the neighbourhood", lo, q + 0.5 * s); vc_le("lower face value not below the neighbourhood", lo, q - 0.5 * s);
}
static double V(const char* n) { return vc_real(n); }
VC_HARNESS(scalar_h2) { HydroParams p = params(); double q = V("q"), a = V("qx+"), b = V("qx-"), c = V("qy+"), d = V("qy-"), x, y; H2(p).slope_unsplit_hydro_2d_scalar(q, a, b, c, d, &x, &y);
  double t = p.settings.slope_type; vc_eq("x slope", x, lim(t, b, q, a)); vc_eq("y slope", y, lim(t, d, q, c)); }
VC_HARNESS(scalar_m2) { HydroParams p = params(); double q = V("q"), a = V("qx+"), b = V("qx-"), c = V("qy+"), d = V("qy-"), x, y; M2(p).slope_unsplit_hydro_2d_scalar(q, a, b, c, d, &x, &y);
  double t = p.settings.slope_type; vc_eq("x slope", x, lim(t, b, q, a)); vc_eq("y slope", y, lim(t, d, q, c)); vc_eq("single direction slope", M2(p).slope_unsplit_hydro_2d_scalar(q, a, b), lim(t, b, q, a)); }
VC_HARNESS(scalar_h3) { HydroParams p = params(); double q = V("q"), a = V("qx+"), b = V("qx-"), c = V("qy+"), d = V("qy-"), e = V("qz+"), f = V("qz-"), x, y, z; H3(p).slope_unsplit_hydro_3d_scalar(q, a, b, c, d, e, f, &x, &y, &z);
  double t = p.settings.slope_type; vc_eq("x slope", x, lim(t, b, q, a)); vc_eq("y slope", y, lim(t, d, q, c)); vc_eq("z slope", z, lim(t, f, q, e)); }
VC_HARNESS(scalar_m3) { HydroParams p = params(); double q = V("q"), a = V("qx+"), b = V("qx-"), c = V("qy+"), d = V("qy-"), e = V("qz+"), f = V("qz-"), x, y, z; M3(p).slope_unsplit_hydro_3d_scalar(q, a, b, c, d, e, f, &x, &y, &z);
  double t = p.settings.slope_type; vc_eq("x slope", x, lim(t, b, q, a)); vc_eq("y slope", y, lim(t, d, q, c)); vc_eq("z slope", z, lim(t, f, q, e)); vc_eq("single direction slope", M3(p).slope_unsplit_hydro_3d_scalar(q, a, b), lim(t, b, q, a)); }
VC_HARNESS(bounds2) { HydroParams p = params(); double q = V("q"), a = V("q+"), b = V("q-"), x, y; H2(p).slope_unsplit_hydro_2d_scalar(q, a, b, a, b, &x, &y); tvd(x, b, q, a); }
VC_HARNESS(bounds3) { HydroParams p = params(); double q = V("q"), a = V("q+"), b = V("q-"), x, y, z; H3(p).slope_unsplit_hydro_3d_scalar(q, a, b, a, b, a, b, &x, &y, &z); tvd(z, b, q, a); }
VC_HARNESS(boundsm2) { HydroParams p = params(); double q = V("q"), a = V("q+"), b = V("q-"); tvd(M2(p).slope_unsplit_hydro_2d_scalar(q, a, b), b, q, a); }
VC_HARNESS(boundsm3) { HydroParams p = params(); double q = V("q"), a = V("q+"), b = V("q-"); tvd(M3(p).slope_unsplit_hydro_3d_scalar(q, a, b), b, q, a); }
static const char* CN[8] = {"rho", "p", "u", "v", "w", "A", "B", "C"};
template<class S> static S st(const char* const* n, int nv) { S s; for (int v = 0; v < nv; ++v) s[v] = vc_real(n[v]); return s; }
#define NAMES(x) {x "0", x "1", x "2", x "3", x "4", x "5", x "6", x "7"}
static const char* NB[7][8] = {NAMES("q"), NAMES("qxp"), NAMES("qxm"), NAMES("qyp"), NAMES("qym"), NAMES("qzp"), NAMES("qzm")};
// whole-state slopes: each component uses its own neighbours in each direction
VC_HARNESS(vec_h2) { HydroParams p = params(); using S = HydroState2d; S s[5], x, y; for (int k = 0; k < 5; ++k) s[k] = st<S>(NB[k], 4);
  H2(p).slope_unsplit_hydro_2d(s[0], s[1], s[2], s[3], s[4], x, y); double t = p.settings.slope_type;
  for (int v = 0; v < 4; ++v) { vc_eq("x slope", x[v], lim(t, s[2][v], s[0][v], s[1][v])); vc_eq("y slope", y[v], lim(t, s[4][v], s[0][v], s[3][v])); } }
VC_HARNESS(vec_h3) { HydroParams p = params(); using S = HydroState3d; S s[7], x, y, z; for (int k = 0; k < 7; ++k) s[k] = st<S>(NB[k], 5);
  H3(p).slope_unsplit_hydro_3d(s[0], s[1], s[2], s[3], s[4], s[5], s[6], x, y, z); double t = p.settings.slope_type;
  for (int v = 0; v < 5; ++v) { vc_eq("x slope", x[v], lim(t, s[2][v], s[0][v], s[1][v])); vc_eq("y slope", y[v], lim(t, s[4][v], s[0][v], s[3][v])); vc_eq("z slope", z[v], lim(t, s[6][v], s[0][v], s[5][v])); } }
VC_HARNESS(vec_m2) { HydroParams p = params(); MHDState s[3][3]; MHDState a[5]; for (int k = 0; k < 5; ++k) a[k] = st<MHDState>(NB[k], 8);
  for (auto& r : s) for (auto& c : r) c = a[0]; s[2][1] = a[1]; s[0][1] = a[2]; s[1][2] = a[3]; s[1][0] = a[4]; MHDState dq[2], d; M2(p).slope_unsplit_hydro_2d(s, dq); double t = p.settings.slope_type;
  M2(p).slope_unsplit_hydro_2d(a[0], a[1], a[2], d);
  for (int v = 0; v < 8; ++v) { vc_eq("x slope", dq[0][v], lim(t, a[2][v], a[0][v], a[1][v])); vc_eq("y slope", dq[1][v], lim(t, a[4][v], a[0][v], a[3][v])); vc_eq("single direction slope", d[v], lim(t, a[2][v], a[0][v], a[1][v])); } }
VC_HARNESS(vec_m3) { HydroParams p = params(); MHDState s[7]; for (int k = 0; k < 7; ++k) s[k] = st<MHDState>(NB[k], 8);
  MHDState dq[3], d; M3(p).slope_unsplit_hydro_3d(s[0], s[1], s[2], s[3], s[4], s[5], s[6], dq); double t = p.settings.slope_type; M3(p).slope_unsplit_hydro_3d(s[0], s[1], s[2], d);
  for (int v = 0; v < 8; ++v) { vc_eq("x slope", dq[0][v], lim(t, s[2][v], s[0][v], s[1][v])); vc_eq("y slope", dq[1][v], lim(t, s[4][v], s[0][v], s[3][v])); vc_eq("z slope", dq[2][v], lim(t, s[6][v], s[0][v], s[5][v])); vc_eq("single direction slope", d[v], lim(t, s[2][v], s[0][v], s[1][v])); } }
// transverse slopes of the face-centred magnetic field
VC_HARNESS(face_m2) { HydroParams p = params(); double b[6]; static const char* n[6] = {"bx", "bx_y+", "bx_y-", "by", "by_x+", "by_x-"}; for (int k = 0; k < 6; ++k) b[k] = vc_real(n[k]);
  double d[2][3]; M2(p).slope_unsplit_mhd_2d(b, d); double t = p.settings.slope_type;
  vc_eq("Bx along y", d[IY][IX], lim(t, b[2], b[0], b[1])); vc_eq("By along x", d[IX][IY], lim(t, b[5], b[3], b[4]));
  vc_eq("Bx along x", d[IX][IX], 0); vc_eq("By along y", d[IY][IY], 0); vc_eq("Bz along x", d[IX][IZ], 0); vc_eq("Bz along y", d[IY][IZ], 0); }
VC_HARNESS(face_m3) { HydroParams p = params(); double b[15]; static const char* n[15] = {"bx", "bx_y+", "bx_y-", "bx_z+", "bx_z-", "by", "by_x+", "by_x-", "by_z+", "by_z-", "bz", "bz_x+", "bz_x-", "bz_y+", "bz_y-"}; for (int k = 0; k < 15; ++k) b[k] = vc_real(n[k]);
  double d[3][3]; M3(p).slope_unsplit_mhd_3d(b, d); double t = p.settings.slope_type;
  vc_eq("Bx along y", d[IY][IX], lim(t, b[2], b[0], b[1])); vc_eq("Bx along z", d[IZ][IX], lim(t, b[4], b[0], b[3]));
  vc_eq("By along x", d[IX][IY], lim(t, b[7], b[5], b[6])); vc_eq("By along z", d[IZ][IY], lim(t, b[9], b[5], b[8]));
  vc_eq("Bz along x", d[IX][IZ], lim(t, b[12], b[10], b[11])); vc_eq("Bz along y", d[IY][IZ], lim(t, b[14], b[10], b[13]));
  for (int k = 0; k < 3; ++k) vc_eq("normal slope", d[k][k], 0); }
// slopes of the face-centred field read from the array (implementation 2)
VC_HARNESS(array_m2) { HydroParams p = params(); int nx = vc_int("nx", 3, 6), ny = vc_int("ny", 3, 6); DataArray2d U("U", nx, ny, 8); vc_havoc(U, "U");
  int i = vc_index("i", 1, nx - 1), j = vc_index("j", 1, ny - 1); double t = p.settings.slope_type; M2 m(p); int c = vc_index("c", 0, 8);
  { vc_eq("x slope", m.compute_limited_slope<DIR_X>(U, i, j, c), lim(t, U(i - 1, j, c), U(i, j, c), U(i + 1, j, c))); vc_eq("y slope", m.compute_limited_slope<DIR_Y>(U, i, j, c), lim(t, U(i, j - 1, c), U(i, j, c), U(i, j + 1, c))); }
  auto d = m.compute_normal_mag_field_slopes(U, i, j); vc_eq("normal difference of Bx", d[IX], U(i + 1, j, IA) - U(i, j, IA)); vc_eq("normal difference of By", d[IY], U(i, j + 1, IB) - U(i, j, IB)); vc_eq("normal difference of Bz", d[IZ], 0); }
VC_HARNESS(array_m3) { HydroParams p = params(); int nx = vc_int("nx", 3, 6), ny = vc_int("ny", 3, 6), nz = vc_int("nz", 3, 6); DataArray3d U("U", nx, ny, nz, 8); vc_havoc(U, "U");
  int i = vc_index("i", 1, nx - 1), j = vc_index("j", 1, ny - 1), k = vc_index("k", 1, nz - 1); double t = p.settings.slope_type; M3 m(p); int c = vc_index("c", 0, 8);
  { vc_eq("x slope", m.compute_limited_slope<DIR_X>(U, i, j, k, c), lim(t, U(i - 1, j, k, c), U(i, j, k, c), U(i + 1, j, k, c))); vc_eq("y slope", m.compute_limited_slope<DIR_Y>(U, i, j, k, c), lim(t, U(i, j - 1, k, c), U(i, j, k, c), U(i, j + 1, k, c)));
    vc_eq("z slope", m.compute_limited_slope<DIR_Z>(U, i, j, k, c), lim(t, U(i, j, k - 1, c), U(i, j, k, c), U(i, j, k + 1, c))); }
  auto d = m.compute_normal_mag_field_slopes(U, i, j, k); vc_eq("normal difference of Bx", d[IX], U(i + 1, j, k, IA) - U(i, j, k, IA)); vc_eq("normal difference of By", d[IY], U(i, j + 1, k, IB) - U(i, j, k, IB)); vc_eq("normal difference of Bz", d[IZ], U(i, j, k + 1, IC) - U(i, j, k, IC)); }
