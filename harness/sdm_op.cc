// The spatial operator of the spectral difference scheme: the real compute_fluxes_divergence equals, at every solution point of
// every interior cell, the derivative of the flux polynomial defined here, for every grid, state and interpolation matrix.
// VC-OVERRIDE: ::compute_dt\(\) => nop
// VC-OVERRIDE: ^ppkMHD::sdm::SolverHydroSDM<[23], [1-6]>::make_boundaries\( => nop
// VC-OVERRIDE: ^ppkMHD::sdm::SolverHydroSDM<[23], [1-6]>::init_sdm_geometry => contract_geometry
// VC-OVERRIDE: ppkMHD::riemann_hydro(<.*>)?\( => contract_riemann
// VC-OVERRIDE: ppkMHD::EulerEquations<[23]>::compute_pressure => contract_pressure
// VC-OVERRIDE: ppkMHD::EulerEquations<[23]>::convert_to_primitive => contract_prim
// VC-OVERRIDE: ppkMHD::EulerEquations<[23]>::flux_x => contract_fx
// VC-OVERRIDE: ppkMHD::EulerEquations<[23]>::flux_y => contract_fy
// VC-OVERRIDE: ppkMHD::EulerEquations<3>::flux_z => contract_fz
#include "sdm.h"
// contract of the geometry: any matrices (their values: harness sdm_geom.cc)
USED void contract_geometry(Solver* s) {
  auto& g = s->sdm_geom;
  g.sol2flux = decltype(g.sol2flux)("s2f", NN, NN + 1); vc_havoc(g.sol2flux, "s2f");
  g.flux2sol = decltype(g.flux2sol)("f2s", NN + 1, NN); vc_havoc(g.flux2sol, "f2s");
  g.flux2sol_derivative = decltype(g.flux2sol_derivative)("f2sd", NN + 1, NN); vc_havoc(g.flux2sol_derivative, "f2sd");
  g.sol2sol_derivative = decltype(g.sol2sol_derivative)("s2sd", NN, NN); vc_havoc(g.sol2sol_derivative, "s2sd");
}
// contracts of the point functions: functions of the state (their values: harness euler.cc)
static inline double RF(int v, const State& l, const State& r, const HydroParams& p) {
  double a[16]; int n = 0; for (int q = 0; q < NV; ++q) { a[n++] = l[q]; a[n++] = r[q]; }
  a[n++] = p.settings.gamma0; a[n++] = p.settings.smallr; a[n++] = p.riemannSolverType;
  const char* nm[5] = {"Frho", "Fe", "Fu", "Fv", "Fw"}; return vc_uf(nm[v], n, a);
}
USED void contract_riemann(const State& l, const State& r, State& g, State& f, const HydroParams& p) { for (int v = 0; v < NV; ++v) f[v] = RF(v, l, r, p); }
static inline double UF1(const char* nm, const State& q, double x) { double a[8]; for (int v = 0; v < NV; ++v) a[v] = q[v]; a[NV] = x; return vc_uf(nm, NV + 1, a); }
USED double contract_pressure(const State& q, double g) { return UF1("Pres", q, g); }
USED void contract_prim(const State& q, State& w, double g) { const char* nm[5] = {"Wr", "Wp", "Wu", "Wv", "Ww"}; State t; for (int v = 0; v < NV; ++v) t[v] = UF1(nm[v], q, g); w = t; }
USED void contract_fx(const State& q, double p, State& f) { const char* nm[5] = {"Xr", "Xe", "Xu", "Xv", "Xw"}; State t; for (int v = 0; v < NV; ++v) t[v] = UF1(nm[v], q, p); f = t; }
USED void contract_fy(const State& q, double p, State& f) { const char* nm[5] = {"Yr", "Ye", "Yu", "Yv", "Yw"}; State t; for (int v = 0; v < NV; ++v) t[v] = UF1(nm[v], q, p); f = t; }
USED void contract_fz(const State& q, double p, State& f) { const char* nm[5] = {"Zr", "Ze", "Zu", "Zv", "Zw"}; State t; for (int v = 0; v < NV; ++v) t[v] = UF1(nm[v], q, p); f = t; }
struct Spec {
  Solver& s; DA U;
  // state at flux point k of direction d, on the line of solution points x, of cell c
  State Q(C c, const int* x, int d, int k) const {
    State q; int y[3] = {x[0], x[1], x[2]};
    for (int v = 0; v < NV; ++v) { double t = 0; for (int m = 0; m < NN; ++m) { y[d] = m; t += at(U, c, dofS(y, v)) * s.sdm_geom.sol2flux(m, k); } q[v] = t; }
    q[ID] = std::fmax(q[ID], P.settings.smallr); return q;
  }
  static void swp(State& s, int d) { double t = s[IU]; s[IU] = s[IU + d]; s[IU + d] = t; }
  State face(C c, const int* x, int d) const {        // flux through the lower face of cell c
    State l, r, g, f; Euler::convert_to_primitive(Q(sh(c, d, -1), x, d, NN), l, P.settings.gamma0); Euler::convert_to_primitive(Q(c, x, d, 0), r, P.settings.gamma0);
    if (d) { swp(l, d); swp(r, d); }
    riemann_hydro(l, r, g, f, P); if (d) swp(f, d); return f;
  }
  State flux(C c, const int* x, int d, int k) const {
    if (k == 0) return face(c, x, d); if (k == NN) return face(sh(c, d, 1), x, d);
    State q = Q(c, x, d, k), f; double p = Euler::compute_pressure(q, P.settings.gamma0);
    if (d == 0) Euler::flux_x(q, p, f); else if (d == 1) Euler::flux_y(q, p, f);
#if DIM == 3
    else Euler::flux_z(q, p, f);
#endif
    return f;
  }
  State div(C c, const int* x) const {
    State r; for (int v = 0; v < NV; ++v) r[v] = 0;
    for (int d = 0; d < DIM; ++d) for (int k = 0; k <= NN; ++k) { State f = flux(c, x, d, k); for (int v = 0; v < NV; ++v) r[v] += f[v] * s.sdm_geom.flux2sol_derivative(k, x[d]) / hd(d); }
    return r;
  }
};
static Solver& run() {
  Solver& s = mkSolver(); havocS(s.U, "U"); vc_havoc(s.Uaux, "aux"); vc_havoc(s.Fluxes, "fl");
  s.compute_fluxes_divergence(s.U, s.Uaux, vc_real("dt", .001, .05)); return s;
}
VC_HARNESS(safe) { run(); vc_true("the operator completes", true); }
VC_HARNESS(op)
{
  Solver& s = run(); Spec sp{s, s.U}; C c = cellat("i", "j", "k", 1);
  const char* nm[5] = {"divergence of the mass flux", "divergence of the energy flux", "divergence of the x momentum flux", "divergence of the y momentum flux", "divergence of the z momentum flux"};
  for (int z = 0; z < (DIM == 3 ? NN : 1); ++z) for (int y = 0; y < NN; ++y) for (int x = 0; x < NN; ++x) {
    int q[3] = {x, y, z}; State e = sp.div(c, q);
    for (int v = 0; v < NV; ++v) vc_eq(nm[v], at(s.Uaux, c, dofS(q, v)), e[v]);
  }
}
