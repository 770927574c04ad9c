// One solver iteration: output (if due) happens first, on the current solution; then the step is computed; then the
// scheme runs once, from the current to the other array, with that step.   defs: DIM 2|3, MHD 0|1, PAR 0|1, OUT 0|1 (output enabled)
// VC-OVERRIDE: ^ppkMHD::muscl::Solver(Hydro|MHD)Muscl<[23]>::init\( => nop
// VC-OVERRIDE: ^ppkMHD::muscl::Solver(Hydro|MHD)Muscl<[23]>::make_boundaries\( => nop
// VC-OVERRIDE: ::Solver(Hydro|MHD)Muscl<[23]>::convertToPrimitives\( => nop
// VC-OVERRIDE: ::SolverHydroMuscl<[23]>::godunov_unsplit_impl\( => contract_step
// VC-OVERRIDE: ::SolverMHDMuscl<[23]>::godunov_unsplit_impl\( => contract_step_mhd
// VC-OVERRIDE: ::SolverBase::save_data\( => contract_save
#ifndef DIM
#define DIM 2
#endif
#ifndef MHD
#define MHD 0
#endif
#ifndef PAR
#define PAR 0
#endif
#ifndef OUT
#define OUT 1
#endif
#include "solver.h"
#include "shared/SolverBase.cpp"
#if MHD
#include "muscl/SolverMHDMuscl.h"
#include "muscl/SolverMHDMuscl.cpp"
using Base = ppkMHD::muscl::SolverMHDMuscl<DIM>;
#else
#include "muscl/SolverHydroMuscl.h"
#include "muscl/SolverHydroMuscl.cpp"
using Base = ppkMHD::muscl::SolverHydroMuscl<DIM>;
#endif
using DA = Base::DataArray; using DH = Base::DataArrayHost;
static int clk, nstep, step_at, nsave, save_at, ndt, dt_at; static bool ok_in, ok_out, ok_src; static double used_dt, save_t; static int save_n;
struct Probe : Base {
  double nextdt = 0; bool due = false; int nask = 0;
  using Base::Base;
  void compute_dt() override { ++ndt; dt_at = ++clk; m_dt = nextdt; }
  int should_save_solution() override { ++nask; return due; }
};
static Probe* S;
static bool same(const DA& a, const DA& b) { return a.data() == b.data(); }
USED void contract_step(Base* s, DA in, DA out, double dt) { ++nstep; step_at = ++clk; used_dt = dt; ok_in = same(in, PAR ? s->U2 : s->U); ok_out = same(out, PAR ? s->U : s->U2); }
USED void contract_step_mhd(Base* s, DA in, DA out) { ++nstep; step_at = ++clk; ok_in = same(in, PAR ? s->U2 : s->U); ok_out = same(out, PAR ? s->U : s->U2); }
USED void contract_save(SolverBase*, DA U, DH, int n, double t) { ++nsave; save_at = ++clk; ok_src = same(U, PAR ? S->U2 : S->U); save_t = t; save_n = n; }
static HydroParams P;
struct IO : ppkMHD::io::IO_ReadWriteBase {
  void save_data(DA U, DH h, int n, double t, std::string) override { contract_save(nullptr, U, h, n, t); }
};
VC_HARNESS(order)
{
  HydroParams& p = P; vc_params(p, DIM, MHD ? 3 : 2, MHD ? 8 : DIM == 2 ? 4 : 5, 1); p.enableOutput = OUT;
  char cb[] = "[hydro]\nproblem=implode\n"; char* cp = cb; ConfigMap& cfg = *new ConfigMap(cp, sizeof cb); Probe& s = *new Probe(p, cfg); S = &s;
  clk = nstep = step_at = nsave = save_at = ndt = dt_at = save_n = 0; ok_in = ok_out = ok_src = false;
  s.m_iteration = 2 * vc_int("halfit", 0, 3) + PAR; s.m_t = vc_real("t", 0, 1); s.m_dt = vc_real("dt_prev"); s.m_tEnd = 2; s.m_times_saved = vc_int("nsaved", 0, 5); s.due = vc_int("due", 0, 1) != 0; s.nextdt = vc_pos("dt", 1e-4, 1e-3);
#if VC_NATIVE
  s.m_io_reader_writer = std::make_shared<IO>(); vc_havocU(s.U, "U", MHD ? 8 : DIM + 2, 1.4); vc_havocU(s.U2, "U2", MHD ? 8 : DIM + 2, 1.4);
#endif
  double t = s.m_t; int n = s.m_times_saved, it = s.m_iteration;
  s.next_iteration();
#if !VC_NATIVE
  vc_eq("scheme runs exactly once", nstep, 1);
  vc_true("scheme reads the current solution", ok_in); vc_true("scheme writes the other array", ok_out);
#if !MHD
  vc_eq("step computed exactly once", ndt, 1); vc_true("step computed before the scheme", dt_at < step_at); vc_eq("scheme uses the computed step", used_dt, s.nextdt);
  vc_eq("clock advances by the step used", s.m_t, t + s.nextdt);
#endif
#else
  vc_eq("step computed exactly once", ndt, 1); vc_eq("clock advances by the step used", s.m_t, t + s.nextdt);
#endif
  vc_eq("step counter", s.m_iteration, it + 1);
  if (OUT && s.due) { vc_eq("one output when due", nsave, 1); vc_eq("outputs counted", s.m_times_saved, n + 1); vc_true("output holds the current solution", ok_src); vc_eq("output stamped with the current time", save_t, t); vc_eq("output index", save_n, n); vc_true("output before the step", save_at == 1); }
  else { vc_eq("no output otherwise", nsave, 0); vc_eq("outputs not counted", s.m_times_saved, n); }
}
