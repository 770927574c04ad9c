// Common scaffolding: a parameter block describing any grid, the configuration-map contract, the boundary contract.
// The configuration map is replaced by its contract "any value not set in the file is the default" (here: nothing set).
// VC-OVERRIDE: ^ConfigMap::getBool => contract_getBool
// VC-OVERRIDE: ^ConfigMap::getFloat => contract_getFloat
// VC-OVERRIDE: ^INIReader::getInteger => contract_getInteger
// VC-OVERRIDE: ^INIReader::getString => contract_getString
// VC-OVERRIDE: ^INIReader::INIReader => nop
// VC-OVERRIDE: ^std::(__shared_ptr_access|shared_ptr|__shared_ptr)<.*Timer.*operator-> => contract_timer
// VC-OVERRIDE: ^ppkMHD::HydroParams::print => nop
#ifndef VC_SOLVER_H_
#define VC_SOLVER_H_
#include "vc.h"
#include <string>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <fstream>
#include <algorithm>
#include <map>
#include <vector>
#include <memory>
#include <set>
#include <limits>
#include <cstdlib>
#include <cstring>
#include <cctype>
#define private public
#define protected public
#include "shared/SolverBase.h"
#include "shared/RiemannSolvers.h"
#include "shared/HydroParams.cpp"
#include "utils/monitoring/OpenMPTimer.cpp"
#include "utils/config/ConfigMap.cpp"
#include "utils/config/inih/INIReader.cpp"
#include "utils/config/inih/ini.cpp"
#define VC_KEEP_PRIVATE
using namespace ppkMHD;
#define USED extern "C" __attribute__((used))
USED OpenMPTimer* contract_timer() { return new OpenMPTimer(); }
#ifndef VC_CFG_BOOL                                   // the value a harness gives to a boolean key, as an expression of key and d
#define VC_CFG_BOOL d
#endif
USED bool contract_getBool(const void*, std::string*, std::string* k, bool d) { const std::string& key = *k; (void)key; return VC_CFG_BOOL; }
#ifndef VC_CFG_FLOAT
#define VC_CFG_FLOAT d
#define VC_CFG_INT d
#define VC_CFG_STR "x"
#endif
USED float contract_getFloat(const void*, std::string*, std::string* k, float d) { const std::string& key = *k; (void)key; return VC_CFG_FLOAT; }
USED long contract_getInteger(const void*, std::string*, std::string* k, long d) { const std::string& key = *k; (void)key; return VC_CFG_INT; }
USED void contract_getString(std::string* r, const void*, std::string*, std::string* k, std::string* dp) { const std::string &key = *k, &d = *dp; (void)key; (void)d; new (r) std::string(VC_CFG_STR); }

// any contents
template<class V> inline void vc_havoc(const V& v, const char* n) {
#ifdef VC_SYM
  __vc_view_havoc(v.id, n);
#else
  for (auto& x : v.s->d) x = vc_rnd(-1, 1);
#endif
}
// any physically admissible conservative field is sampled natively; symbolically: any contents
inline void vc_havocU(const DataArray2d& U, const char* n, int nv, double g0) {
#ifdef VC_SYM
  __vc_view_havoc(U.id, n);
#else
  double base[8] = {1, 1, .1, .1, .1, .2, .1, .3}; double amp = vc_rnd(0, 1) < 0.3 ? 0.02 : 0.6;
  for (int i = 0; i < (int)U.extent(0); ++i) for (int j = 0; j < (int)U.extent(1); ++j) {
    double r = 1 + amp * vc_rnd(-.6, .6), p = 1 + amp * vc_rnd(-.6, .6), k = 0;
    for (int v = 2; v < nv; ++v) { double w = amp * vc_rnd(-1, 1) + base[v]; if (v < 5) { k += .5 * r * w * w; w *= r; } else k += .5 * w * w; U(i, j, v) = w; }
    U(i, j, 0) = r; U(i, j, 1) = p / (g0 - 1) + k + (nv > 5 ? 1 : 0);
  }
#endif
}
inline void vc_havocU(const DataArray3d& U, const char* n, int nv, double g0) {
#ifdef VC_SYM
  __vc_view_havoc(U.id, n);
#else
  double base[8] = {1, 1, .1, .1, .1, .2, .1, .3}; double amp = vc_rnd(0, 1) < 0.3 ? 0.02 : 0.6;
  for (int i = 0; i < (int)U.extent(0); ++i) for (int j = 0; j < (int)U.extent(1); ++j) for (int l = 0; l < (int)U.extent(2); ++l) {
    double r = 1 + amp * vc_rnd(-.6, .6), p = 1 + amp * vc_rnd(-.6, .6), k = 0;
    for (int v = 2; v < nv; ++v) { double w = amp * vc_rnd(-1, 1) + base[v]; if (v < 5) { k += .5 * r * w * w; w *= r; } else k += .5 * w * w; U(i, j, l, v) = w; }
    U(i, j, l, 0) = r; U(i, j, l, 1) = p / (g0 - 1) + k + (nv > 5 ? 1 : 0);
  }
#endif
}

// a block of parameters for any grid size / resolution / gas
inline void vc_params(HydroParams& p, int dim, int gw, int nbvar, int minc = 1) {
  p.dimType = dim == 2 ? TWO_D : THREE_D;
  p.ghostWidth = gw; p.nbvar = nbvar;
  int mx = dim == 2 ? 5 : 3;
  p.nx = vc_int("nx", minc, minc + mx); p.ny = vc_int("ny", minc, minc + mx); p.nz = dim == 3 ? vc_int("nz", minc, minc + mx) : 1;
  p.imin = 0; p.jmin = 0; p.kmin = 0;
  p.isize = p.nx + 2 * gw; p.jsize = p.ny + 2 * gw; p.ksize = p.nz + 2 * gw;
  if (dim == 2) p.ksize = 1;
  p.imax = p.isize - 1; p.jmax = p.jsize - 1; p.kmax = dim == 3 ? p.ksize - 1 : 0;
  p.dx = vc_pos("dx", .5, 2); p.dy = vc_pos("dy", .5, 2); p.dz = dim == 3 ? vc_pos("dz", .5, 2) : 1;
  p.xmin = vc_real("xmin"); p.ymin = vc_real("ymin"); p.zmin = vc_real("zmin");
  p.xmax = p.xmin + p.nx * p.dx; p.ymax = p.ymin + p.ny * p.dy; p.zmax = p.zmin + p.nz * p.dz;
  p.boundary_type_xmin = p.boundary_type_xmax = p.boundary_type_ymin = p.boundary_type_ymax = p.boundary_type_zmin = p.boundary_type_zmax = BC_PERIODIC;
  p.settings.gamma0 = vc_real("gamma0", 1.1, 1.9); vc_assume(p.settings.gamma0 > 1);
  p.settings.smallr = vc_pos("smallr", 1e-8, 1e-7);
  p.settings.smallc = vc_pos("smallc", 1e-8, 1e-7);
  p.settings.smallp = p.settings.smallc * p.settings.smallc / p.settings.gamma0;
  p.settings.smallpp = p.settings.smallr * p.settings.smallp;
  p.settings.gamma6 = (p.settings.gamma0 + 1) / (2 * p.settings.gamma0);
  p.settings.cfl = vc_pos("cfl", .1, .9);
  p.settings.cIso = 0; p.settings.Omega0 = 0;
  p.settings.iorder = 2; p.settings.slope_type = 1;
}
#endif
