// Characteristic speeds of MHD: the contract used for the Riemann solvers (no call is replaced here).
#include "solver.h"
#include "shared/RiemannSolvers_MHD.h"
static HydroParams P;
static double spec(const MHDState& q, int d) { double b2 = (q[IA] * q[IA] + q[IB] * q[IB] + q[IC] * q[IC]) / q[ID], c2 = P.settings.gamma0 * q[IP] / q[ID], h = 0.5 * (b2 + c2); return std::sqrt(h + std::sqrt(h * h - c2 * q[IA + d] * q[IA + d] / q[ID])); }
VC_HARNESS(speeds)
{
  P.settings.gamma0 = vc_real("gamma0", 1.1, 1.9); vc_assume(P.settings.gamma0 > 1);
  static const char* n[8] = {"r", "p", "u", "v", "w", "a", "b", "c"}; MHDState q; q[ID] = vc_pos(n[0]); q[IP] = vc_pos(n[1]); for (int v = 2; v < 8; ++v) q[v] = vc_real(n[v]);
  vc_eq("fast speed along x", find_speed_fast<IX>(q, P), spec(q, 0)); vc_eq("fast speed along y", find_speed_fast<IY>(q, P), spec(q, 1)); vc_eq("fast speed along z", find_speed_fast<IZ>(q, P), spec(q, 2));
  vc_eq("signal speed along x", find_speed_info(q, P), spec(q, 0) + std::fabs(q[IU]));
  double i3[3], i2[3]; find_speed_info<THREE_D>(q, i3, P); find_speed_info<TWO_D>(q, i2, P);
  for (int d = 0; d < 3; ++d) { vc_eq("signal speed per direction, 3D", i3[d], spec(q, d) + std::fabs(q[IU + d])); if (d < 2) vc_eq("signal speed per direction, 2D", i2[d], spec(q, d) + std::fabs(q[IU + d])); }
  vc_eq("alfven speed squared", find_speed_alfven(q) * find_speed_alfven(q), q[IA] * q[IA] / q[ID]); vc_eq("alfven speed squared (scalar form)", find_speed_alfven(q[ID], q[IA]) * find_speed_alfven(q[ID], q[IA]), q[IA] * q[IA] / q[ID]);
}
