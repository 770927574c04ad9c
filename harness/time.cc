// Simulation clock and output schedule of the real solver base class.
#ifdef WITH_MPI
#define USE_MPI 1
#endif
#include "solver.h"
#include "shared/SolverBase.cpp"
#ifdef WITH_MPI
#include "mpi_contract.h"
USED int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*) { std::abort(); }
#endif
using ppkMHD::SolverBase;
struct Probe : SolverBase {
  double local = 0, stepdt = 0, t_at_step = -1; int impl = 0, saved = 0, it_at_step = -1, id_at_save = -1;
  Probe(HydroParams& p, ConfigMap& c) : SolverBase(p, c) {}
  double compute_dt_local() override { return local; }
  void next_iteration_impl() override { ++impl; t_at_step = m_t; it_at_step = m_iteration; m_dt = stepdt; }
  void save_solution_impl() override { ++saved; id_at_save = m_times_saved; }
};
static HydroParams P;
static Probe& mkp()
{
  vc_params(P, 2, 2, 4, 1);
  char cb[] = "[hydro]\nproblem=implode\n"; char* cp = cb; ConfigMap& cfg = *new ConfigMap(cp, sizeof cb);
  Probe& s = *new Probe(P, cfg); return s;
}
VC_HARNESS(clip)
{
  Probe& s = mkp(); s.local = vc_pos("dt_local"); s.m_tEnd = vc_real("tEnd", 0, 2); s.m_t = vc_real("t", 0, 2); s.m_dt = vc_real("dt_prev");
  vc_assume(s.m_t <= s.m_tEnd);
  double t = s.m_t; s.compute_dt();
  vc_le("step ends no later than the end time", t + s.m_dt, s.m_tEnd);
  vc_le("step no larger than the stable one", s.m_dt, s.local);
  vc_eq("step is the stable one, shortened only to land on the end time", s.m_dt, t + s.local > s.m_tEnd ? s.m_tEnd - t : s.local);
  vc_eq("computing the step does not advance the clock", s.m_t, t);
}
#ifdef WITH_MPI
VC_HARNESS(globalstep)
{
  Probe& s = mkp(); s.local = vc_pos("dt_local"); s.m_tEnd = vc_real("tEnd", 0, 2); s.m_t = vc_real("t", 0, 2); s.m_dt = vc_real("dt_prev");
  P.communicator = new hydroSimu::MpiCommCart(M[0], M[1], 1, 1); P.data_type = hydroSimu::MpiComm::DOUBLE;
  vc_assume(s.m_t <= s.m_tEnd); OTHERS = -1;
  double t = s.m_t; s.compute_dt(); double all = s.local < OTHERS ? s.local : OTHERS;
  vc_true("the steps of all processes are compared", OTHERS > 0);
  vc_eq("every process takes the smallest stable step of all, shortened only to land on the end time", s.m_dt, t + all > s.m_tEnd ? s.m_tEnd - t : all);
}
#endif
VC_HARNESS(finish)
{
  Probe& s = mkp(); s.m_tEnd = vc_real("tEnd", 0, 2); s.m_t = vc_real("t", 0, 2); s.m_iteration = vc_int("it", 0, 9); P.nStepmax = vc_int("nstep", 0, 9);
#if VC_NATIVE
  if (vc_rnd(0, 1) < .3) s.m_t = s.m_tEnd;
#endif
  bool f = s.finished() != 0;
  vc_true("run stops when the end time is reached", f || s.m_t < s.m_tEnd);
  vc_true("run stops when the step limit is reached", f || s.m_iteration < P.nStepmax);
  vc_true("run does not stop before", !f || s.m_t >= s.m_tEnd - 1e-12 || s.m_iteration >= P.nStepmax);
}
VC_HARNESS(advance)
{
  Probe& s = mkp(); s.m_t = vc_real("t", 0, 2); s.m_iteration = vc_int("it", 0, 9); s.m_times_saved = vc_int("nsaved", 0, 9); s.stepdt = vc_pos("dt");
  double t = s.m_t; int it = s.m_iteration, ns = s.m_times_saved; s.next_iteration();
  vc_eq("scheme applied once per step", s.impl, 1); vc_eq("scheme sees the time at the start of the step", s.t_at_step, t); vc_eq("scheme sees the step index at the start of the step", s.it_at_step, it);
  vc_eq("clock advances by the step", s.m_t, t + s.stepdt); vc_eq("step counter advances by one", s.m_iteration, it + 1); vc_eq("no output is counted by a step itself", s.m_times_saved, ns);
  s.save_solution();
  vc_eq("one file written per save", s.saved, 1); vc_eq("file is numbered by the outputs before it", s.id_at_save, ns); vc_eq("outputs are counted", s.m_times_saved, ns + 1); vc_eq("saving does not advance the clock", s.m_t, t + s.stepdt);
}
VC_HARNESS(schedule)
{
  Probe& s = mkp(); s.m_tEnd = vc_real("tEnd", .1, 2); s.m_t = vc_real("t", 0, 2); s.m_times_saved = vc_int("nsaved", 0, 9);
  int n = vc_int("nOutput", 1, 9); P.nOutput = n; vc_assume(s.m_t <= s.m_tEnd); vc_assume(s.m_tEnd > 0);
#if VC_NATIVE
  if (vc_rnd(0, 1) < .3) s.m_t = s.m_tEnd;
#endif
  double next = s.m_times_saved * s.m_tEnd / n; bool y = s.should_save_solution() != 0;
  vc_true("output is due once the clock passes the next output time", y || s.m_t <= next * (1 + 1e-12) + (VC_NATIVE ? 1e-9 : 0));
  vc_true("output is always due at the end time", y || s.m_t < s.m_tEnd);
  vc_true("no output before the next output time", !y || s.m_t >= next - (VC_NATIVE ? 1e-9 : 0) || s.m_t >= s.m_tEnd - 1e-5);
  P.nOutput = -1; vc_true("negative count writes at every step", s.should_save_solution() != 0);
}
