// Points and interpolation matrices of the spectral difference scheme.   defs: ORD 1..6
#include "solver.h"
#include "sdm/SDM_Geometry.h"
#ifndef ORD
#define ORD 2
#endif
constexpr int N = ORD;
template<int D> static void points(const char* n) {
  ppkMHD::sdm::SDM_Geometry<D, N> g; g.init(0);
  const double eps = 1e-12;
  // Legendre polynomial of degree N-1 at 2x-1: the inner flux points are its roots
  for (int k = 0; k <= N; ++k) {
    double x = g.flux_pts_1d(k), t = 2 * x - 1, a = 1, b = t; for (int m = 1; m < N - 1; ++m) { double c = ((2 * m + 1) * t * b - m * a) / (m + 1); a = b; b = c; }
    double v = N == 1 ? 1 : b;
    if (k == 0) vc_eq("first flux point is the lower face", x, 0); else if (k == N) vc_eq("last flux point is the upper face", x, 1);
    else { vc_le("flux point is a Legendre root", v, eps); vc_le("flux point is a Legendre root", -v, eps); }
    if (k) vc_le("flux points increase", g.flux_pts_1d(k - 1) + 1e-3, x);
    vc_eq("host copy", g.flux_pts_1d_host(k), x);
  }
  for (int k = 0; k < N; ++k) {
    // Chebyshev points: roots of T_N at 1-2x, in increasing order
    double x = g.solution_pts_1d(k), t = 1 - 2 * x, a = 1, b = t; for (int m = 1; m < N; ++m) { double c = 2 * t * b - a; a = b; b = c; }
    vc_le("solution point is a Chebyshev root", b, eps); vc_le("solution point is a Chebyshev root", -b, eps); vc_le("solution points are inside the cell", 0, x); vc_le("solution points are inside the cell", x, 1);
    if (k) vc_le("solution points increase", g.solution_pts_1d(k - 1) + 1e-3, x);
    vc_eq("host copy", g.solution_pts_1d_host(k), x);
  }
}
template<int D> static void tensor() {
  ppkMHD::sdm::SDM_Geometry<D, N> g; g.init(0);
  for (int k = 0; k < (D == 3 ? N + 1 : 1); ++k) for (int j = 0; j <= N; ++j) for (int i = 0; i <= N; ++i) for (int t = -1; t < D; ++t) {
    int q[3] = {i, j, k}; bool in = true; for (int d = 0; d < D; ++d) in = in && q[d] < N + (d == t); if (!in) continue;
    for (int d = 0; d < D; ++d) {
      double e = d == t ? g.flux_pts_1d(q[d]) : g.solution_pts_1d(q[d]), x;
      if constexpr (D == 2) x = t < 0 ? g.solution_pts(i, j, d) : t == 0 ? g.flux_x_pts(i, j, d) : g.flux_y_pts(i, j, d);
      else x = t < 0 ? g.solution_pts(i, j, k, d) : t == 0 ? g.flux_x_pts(i, j, k, d) : t == 1 ? g.flux_y_pts(i, j, k, d) : g.flux_z_pts(i, j, k, d);
      vc_eq("point location is the product of the 1D locations", x, e);
    }
  }
  double s = 0; for (int k = 0; k < N; ++k) s += (g.solution_pts_1d(k) - .5) * (g.solution_pts_1d(k) - .5);
  double m = 1; for (int d = 1; d < D; ++d) m *= N;
  vc_le("sum of squared distances to the cell centre", g.sum_dx_square, s * m + 1e-12); vc_le("sum of squared distances to the cell centre", s * m, g.sum_dx_square + 1e-12);
  vc_le("sum of squared distances to the cell centre", g.sum_dy_square, s * m + 1e-12); vc_le("sum of squared distances to the cell centre", s * m, g.sum_dy_square + 1e-12);
  if (D == 3) { vc_le("sum of squared distances to the cell centre", g.sum_dz_square, s * m + 1e-12); vc_le("sum of squared distances to the cell centre", s * m, g.sum_dz_square + 1e-12); }
}
VC_HARNESS(points) { points<2>(""); points<3>(""); }
VC_HARNESS(tensor2) { tensor<2>(); }
VC_HARNESS(tensor3) { tensor<3>(); }
// the matrices: values and derivatives of the Lagrange polynomials on any distinct points
static double lag(const double* n, int cnt, int i, double x) { double l = 1; for (int k = 0; k < cnt; ++k) if (k != i) l *= (x - n[k]) / (n[i] - n[k]); return l; }
static double dlag(const double* n, int cnt, int i, double x) {
  double s = 0; for (int m = 0; m < cnt; ++m) if (m != i) { double t = 1 / (n[i] - n[m]); for (int k = 0; k < cnt; ++k) if (k != i && k != m) t *= (x - n[k]) / (n[i] - n[k]); s += t; } return s;
}
template<int D> static void matrices() {
  static const char* sn[] = {"s0", "s1", "s2", "s3", "s4", "s5"}; static const char* fn[] = {"f0", "f1", "f2", "f3", "f4", "f5", "f6"};
  double s[N], f[N + 1]; ppkMHD::sdm::SDM_Geometry<D, N> g; using G = ppkMHD::sdm::SDM_Geometry<D, N>;
  g.solution_pts_1d = typename G::PointsArray1D("s", N); g.solution_pts_1d_host = Kokkos::create_mirror(g.solution_pts_1d);
  g.flux_pts_1d = typename G::PointsArray1D("f", N + 1); g.flux_pts_1d_host = Kokkos::create_mirror(g.flux_pts_1d);
  for (int i = 0; i < N; ++i) g.solution_pts_1d(i) = g.solution_pts_1d_host(i) = s[i] = vc_real(sn[i], (i + .3) / N, (i + .6) / N);
  for (int i = 0; i <= N; ++i) g.flux_pts_1d(i) = g.flux_pts_1d_host(i) = f[i] = vc_real(fn[i], (i - .1) / N, (i + .1) / N);
  g.init_lagrange_1d();
  for (int i = 0; i < N; ++i) for (int j = 0; j <= N; ++j) vc_eq("interpolation from solution to flux points", g.sol2flux(i, j), lag(s, N, i, f[j]));
  for (int i = 0; i <= N; ++i) for (int j = 0; j < N; ++j) {
    vc_eq("interpolation from flux to solution points", g.flux2sol(i, j), lag(f, N + 1, i, s[j]));
    vc_eq("derivative of the flux polynomial at solution points", g.flux2sol_derivative(i, j), dlag(f, N + 1, i, s[j]));
  }
  for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) vc_eq("derivative of the solution polynomial at solution points", g.sol2sol_derivative(i, j), dlag(s, N, i, s[j]));
}
VC_HARNESS(matrices2) { matrices<2>(); }
VC_HARNESS(matrices3) { matrices<3>(); }
