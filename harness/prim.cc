// Conservative <-> primitive conversion: value, floors, for every conserved state.   defs: DIM 2|3
#include "solver.h"
#include <cmath>
#include "muscl/HydroBaseFunctor2D.h"
#include "muscl/HydroBaseFunctor3D.h"
#include "muscl/MHDBaseFunctor2D.h"
#include "muscl/MHDBaseFunctor3D.h"
#include "sdm/SDMBaseFunctor.h"
#ifndef DIM
#define DIM 2
#endif
static HydroParams params() {
  HydroParams p; p.settings.gamma0 = vc_real("gamma0", 1.1, 1.9); vc_assume(p.settings.gamma0 > 1);
  p.settings.smallr = vc_pos("smallr", 1e-3, .3); p.settings.smallp = vc_pos("smallp", 1e-3, .2); p.settings.smallc = vc_pos("smallc", 1e-3, .1);
  p.settings.cIso = 0; return p;
}
static const char* N[] = {"rho", "E", "mx", "my", "mz", "Bx", "By", "Bz"};
// any conserved state u, its primitive state q by definition
template<int NV> struct Spec { double q[NV]; double c; };
template<int D, int NV, class S, class F> static void conv(F f) {
  HydroParams p = params(); S u, q; for (int v = 0; v < NV; ++v) u[v] = vc_real(N[v], -1.5, 3); double c = 0;
  f(p, u, c, q);
  double r = std::fmax(u[ID], p.settings.smallr), k = 0, e[NV];
  e[ID] = r; for (int d = 0; d < D; ++d) { e[IU + d] = u[IU + d] / r; k += 0.5 * e[IU + d] * e[IU + d]; }
  e[IP] = std::fmax((p.settings.gamma0 - 1) * r * (u[IP] / r - k), r * p.settings.smallp);
  const char* nm[] = {"density", "pressure", "velocity x", "velocity y", "velocity z"};
  for (int v = 0; v < NV; ++v) vc_eq(nm[v], q[v], e[v]);
  vc_eq("sound speed squared", c * c, p.settings.gamma0 * e[IP] / r); vc_le("sound speed is not negative", 0, c);
  vc_le("density floor", p.settings.smallr, q[ID]); vc_le("pressure floor", q[ID] * p.settings.smallp, q[IP]);
  // round trip: an admissible conserved state is recovered from its primitive state
  if (u[ID] >= p.settings.smallr) {
    double kk = 0; for (int d = 0; d < D; ++d) { vc_eq("momentum recovered", q[ID] * q[IU + d], u[IU + d]); kk += 0.5 * q[ID] * q[IU + d] * q[IU + d]; }
    vc_eq("density recovered", q[ID], u[ID]);
    if ((p.settings.gamma0 - 1) * r * (u[IP] / r - k) >= r * p.settings.smallp) vc_eq("energy recovered", q[IP] / (p.settings.gamma0 - 1) + kk, u[IP]);
  }
}
VC_HARNESS(hydro2) { conv<2, 4, HydroState2d>([](HydroParams& p, HydroState2d& u, double& c, HydroState2d& q) { ppkMHD::muscl::HydroBaseFunctor2D(p).computePrimitives(u, &c, q); }); }
VC_HARNESS(hydro3) { conv<3, 5, HydroState3d>([](HydroParams& p, HydroState3d& u, double& c, HydroState3d& q) { ppkMHD::muscl::HydroBaseFunctor3D(p).computePrimitives(u, &c, q); }); }
template<int D> struct SF_ : public ppkMHD::sdm::SDMBaseFunctor<D, 2> { using B = ppkMHD::sdm::SDMBaseFunctor<D, 2>; SF_(HydroParams p, ppkMHD::sdm::SDM_Geometry<D, 2> g) : B(p, g) {} };
VC_HARNESS(sdm2) { conv<2, 4, HydroState2d>([](HydroParams& p, HydroState2d& u, double& c, HydroState2d& q) { ppkMHD::sdm::SDM_Geometry<2, 2> g; SF_<2>(p, g).computePrimitives<2>(u, &c, q); }); }
VC_HARNESS(sdm3) { conv<3, 5, HydroState3d>([](HydroParams& p, HydroState3d& u, double& c, HydroState3d& q) { ppkMHD::sdm::SDM_Geometry<3, 2> g; SF_<3>(p, g).computePrimitives<3>(u, &c, q); }); }
template<class B> static void mhd(bool iso) {
  HydroParams p = params(); if (iso) p.settings.cIso = vc_pos("cIso");
  MHDState u, q; for (int v = 0; v < 8; ++v) u[v] = vc_real(N[v], -1.5, 3); double c = 0, nb[3] = {vc_real("Bx+"), vc_real("By+"), vc_real("Bz+")};
  B(p).constoprim_mhd(u, nb, c, q);
  double r = std::fmax(u[ID], p.settings.smallr), k = 0, m = 0, e[8];
  e[ID] = r; for (int d = 0; d < 3; ++d) { e[IU + d] = u[IU + d] / r; k += 0.5 * e[IU + d] * e[IU + d]; e[IA + d] = 0.5 * (u[IA + d] + nb[d]); m += 0.5 * e[IA + d] * e[IA + d]; }
  e[IP] = iso ? r * p.settings.cIso * p.settings.cIso : std::fmax((p.settings.gamma0 - 1) * r * ((u[IP] - m) / r - k), r * p.settings.smallp);
  const char* nm[] = {"density", "pressure", "velocity x", "velocity y", "velocity z", "cell-centred Bx", "cell-centred By", "cell-centred Bz"};
  for (int v = 0; v < 8; ++v) vc_eq(nm[v], q[v], e[v]);
  vc_eq("sound speed squared", c * c, iso ? p.settings.cIso * p.settings.cIso : p.settings.gamma0 * e[IP] / r);
  vc_le("density floor", p.settings.smallr, q[ID]); vc_le("pressure is positive", 0, q[IP]);
}
VC_HARNESS(mhd2) { mhd<ppkMHD::muscl::MHDBaseFunctor2D>(false); }
VC_HARNESS(mhd3) { mhd<ppkMHD::muscl::MHDBaseFunctor3D>(false); }
VC_HARNESS(mhd2iso) { mhd<ppkMHD::muscl::MHDBaseFunctor2D>(true); }
VC_HARNESS(mhd3iso) { mhd<ppkMHD::muscl::MHDBaseFunctor3D>(true); }
// stand-alone equation of state
template<class B> static void eos() {
  HydroParams p = params(); double r = vc_pos("rho"), e = vc_real("eint", -1, 3), P = 0, c = 0; B(p).eos(r, e, &P, &c);
  vc_eq("pressure", P, std::fmax((p.settings.gamma0 - 1) * r * e, r * p.settings.smallp)); vc_eq("sound speed squared", c * c, p.settings.gamma0 * P / r);
}
VC_HARNESS(eos_h2) { eos<ppkMHD::muscl::HydroBaseFunctor2D>(); }
VC_HARNESS(eos_h3) { eos<ppkMHD::muscl::HydroBaseFunctor3D>(); }
VC_HARNESS(eos_m2) { eos<ppkMHD::muscl::MHDBaseFunctor2D>(); }
VC_HARNESS(eos_m3) { eos<ppkMHD::muscl::MHDBaseFunctor3D>(); }
// the density and velocity parts used by the Riemann solver entry point
