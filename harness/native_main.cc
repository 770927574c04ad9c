// Executable semantics of the specification interface: the harness runs on random inputs.
// Used to find and replay a concrete failing input for a failed proof obligation; it decides nothing by itself.
#include "vc.h"
#include <cstdio>
#include <ctime>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <utility>
#include <dlfcn.h>
#include <unistd.h>
struct Reject {};
static uint64_t S = 88172645463325252ull;
static uint64_t rnd64() { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return S; }
double vc_rnd(double lo, double hi) { return lo + (hi - lo) * ((rnd64() >> 11) * (1.0 / 9007199254740992.0)); }
static std::vector<std::pair<std::string, double>> inputs;
static long checks = 0, samples = 0, rejected = 0;
static int maxfail = 1, nfail = 0;
static uint64_t curseed = 0;
static FILE* out = nullptr;
static std::string only;
static bool nonfinite_ok = false;
static void fail(const char* label, double a, double b) {
  if (nfail++ >= maxfail) return;
  FILE* o = out ? out : stdout;
  fprintf(o, "FAIL seed=%llu obligation=\"%s\" got=%.17g expected=%.17g\n", (unsigned long long)curseed, label, a, b);
  for (auto& p : inputs) fprintf(o, "  input %s = %.17g\n", p.first.c_str(), p.second);
  fflush(o);
}
struct Done {};
extern "C" {
double __vc_real(const char* n, double lo, double hi) {
  double x; unsigned k = rnd64() % 16;
  if (k == 0) x = lo + 0.25 * (long)((hi - lo) * 4 * ((rnd64() >> 11) * (1.0 / 9007199254740992.0)));
  else if (k == 1 && lo <= 0 && hi >= 0) x = 0;
  else if (k == 2 && !inputs.empty() && inputs.back().second >= lo && inputs.back().second <= hi) x = inputs.back().second;
  else x = vc_rnd(lo, hi);
  if (inputs.size() < 4000) inputs.push_back({n, x});
  return x;
}
long __vc_int(const char* n, long lo, long hi) { long x = lo + (long)(rnd64() % (uint64_t)(hi >= lo ? hi - lo + 1 : 1)); inputs.push_back({n, (double)x}); return x; }
long __vc_index(const char* n, long lo, long hi) { if (hi <= lo) throw Reject(); long x = lo + (long)(rnd64() % (uint64_t)(hi - lo)); inputs.push_back({n, (double)x}); return x; }
void __vc_assume(bool c) { if (!c) throw Reject(); }
void __vc_eq(const char* l, double a, double b, double scale) {
  ++checks;
  double s = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b); if (std::fabs(scale) > s) s = std::fabs(scale); if (s < 1) s = 1;
  if (!std::isfinite(b)) throw Reject();          // specification value undefined here
  if (!(std::fabs(a - b) <= 1e-7 * s)) { fail(l, a, b); throw Done(); }
}
void __vc_le(const char* l, double a, double b, double scale) {
  ++checks;
  double s = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b); if (std::fabs(scale) > s) s = std::fabs(scale); if (s < 1) s = 1;
  if (!std::isfinite(b)) throw Reject();
  if (!(a <= b + 1e-7 * s)) { fail(l, a, b); throw Done(); }
}
void __vc_true(const char* l, bool c) { ++checks; if (!c) { fail(l, 0, 1); throw Done(); } }
double __vc_uf(const char* n, int k, const double* a) { double s = 0.37 * strlen(n); for (const char* q = n; *q; ++q) s = s * 1.31 + *q * 0.011; for (int i = 0; i < k; ++i) s = std::sin(s * 1.7 + a[i] * (1.0 + 0.3 * i)) + 0.21 * a[i]; return s; }
void __vc_note(const char*) {}
void __vc_reduce_instance(double, long, long, long, long) {}
}
static int permmode = 0;
namespace Kokkos { long vc_perm(long n, long q) { return permmode == 0 ? q : permmode == 1 ? n - 1 - q : (q * 7919 % n + n) % n; } }
static bool oobflag = false; static long oobx[5], oobn[5];
namespace Kokkos { void vc_oob(const long* x, const long* n) {
  if (!oobflag) { oobflag = true; for (int q = 0; q < 5; ++q) { oobx[q] = x[q]; oobn[q] = n ? n[q] : 0; } } } }
void vc_oob(const long* x, const long* n) { Kokkos::vc_oob(x, n); }
// dynamic race detection: who wrote, atomically added to, or read each element during the current parallel loop
#include <unordered_map>
static bool racing = false, raceflag = false;
struct Touch { double v; bool atomic; }; static std::unordered_map<double*, std::vector<Touch>> cur;
struct Hist { long w = -1, a = -1, r = -1; bool r2 = false, a2 = false; }; static std::unordered_map<double*, Hist> hist;
namespace Kokkos {
void vc_touch(double* p) { if (racing) cur[p].push_back(Touch{*p, false}); }
void vc_atomic(double* p) { if (racing) { auto i = cur.find(p); if (i != cur.end()) i->second.back().atomic = true; } }
void vc_launch(bool b) { racing = b; cur.clear(); hist.clear(); }
void vc_iter(long x) {
  for (auto& t : cur) {
    Hist& h = hist[t.first]; bool w = false, a = false, r = false; auto& q = t.second;
    for (size_t n = 0; n < q.size(); ++n) {
      double nv = n + 1 < q.size() ? q[n + 1].v : *t.first;
      if (q[n].atomic) a = true; else if (memcmp(&q[n].v, &nv, 8) != 0) w = true; else r = true;
    }
    if (h.w >= 0 || (w && (h.a >= 0 || h.r >= 0)) || (a && h.r >= 0) || (r && h.a >= 0)) raceflag = true;
    if (w) h.w = x; if (a) h.a = x; if (r) h.r = x;
  }
  cur.clear();
}
}
int main(int argc, char** argv) {
  if (argc < 5) return 2;
  const char* name = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); long n = atol(argv[3]); double tl = atof(argv[4]);
  std::string sym = std::string("vc_harness_") + name;
  void* h = dlopen(nullptr, RTLD_NOW); void (*f)() = (void (*)())dlsym(h, sym.c_str());
  if (!f) { fprintf(stderr, "no harness %s\n", name); return 2; }
  out = fdopen(dup(1), "w"); if (!freopen("/dev/null", "w", stdout)) return 2;   // keep the repository code quiet
  clock_t t0 = clock();
  for (long k = 0; k < n; ++k) {
    curseed = seed + k; S = 88172645463325252ull ^ ((seed + k) * 0x9E3779B97F4A7C15ull); if (!S) S = 1; for (int q = 0; q < 5; ++q) rnd64();
    inputs.clear(); permmode = (seed + k) % 3 == 2 ? 0 : (seed + k) % 3; oobflag = false; raceflag = false; racing = false; ++samples;
    try { f(); } catch (Reject&) { ++rejected; } catch (Done&) {}
    if (oobflag) { ++checks; char b[200]; snprintf(b, sizeof b, "array access in bounds: index (%ld,%ld,%ld,%ld) of extents (%ld,%ld,%ld,%ld)", oobx[0], oobx[1], oobx[2], oobx[3], oobn[0], oobn[1], oobn[2], oobn[3]); fail(b, 0, 1); }
    if (raceflag) { ++checks; fail("no race between two iterations of a parallel loop", 0, 1); }
    if (nfail) break;
    if ((double)(clock() - t0) / CLOCKS_PER_SEC > tl) break;
    if (k % 64 == 63) { long a = 0, b = 0; FILE* m = fopen("/proc/self/statm", "r"); if (m) { if (fscanf(m, "%ld %ld", &a, &b) != 2) b = 0; fclose(m); } if (b > 500000) break; }     // samples leak their solvers: stop at 2 GB
  }
  fprintf(out, "samples %ld rejected %ld checks %ld failures %d\n", samples, rejected, checks, nfail);
  fflush(out); _exit(nfail ? 1 : 0);
}
