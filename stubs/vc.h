// Specification interface used by the contract harnesses (see DESIGN.md).
// Symbolic mode (VC_SYM): the functions below are intrinsics of the verifier.
// Native mode: the same harness runs on random inputs (used only to replay / confirm a failed obligation).
#ifndef VC_H_
#define VC_H_
#include <cmath>
#include <cstdint>
#include <cstddef>
extern "C" {
double __vc_real(const char* name, double lo, double hi);   // any real; [lo,hi] is only the native sampling range
long   __vc_int(const char* name, long lo, long hi);        // any integer >= lo ; hi: native sampling only
long   __vc_index(const char* name, long lo, long hi);      // any integer lo <= x < hi
void   __vc_assume(bool c);
void   __vc_eq(const char* label, double a, double b, double scale);
void   __vc_le(const char* label, double a, double b, double scale);
void   __vc_true(const char* label, bool c);
int    __vc_view_alloc(int rank, long n0, long n1, long n2, long n3, long n4);
double* __vc_view_ref(int id, long i, long j, long k, long l, long m);
void   __vc_view_copy(int dst, int src);
void   __vc_view_havoc(int id, const char* name);
void   __vc_view_fill(int id, double v);
int    __vc_view_clone(int id);
void   __vc_atomic_add(double* p, double v);
void   __vc_parallel_for(int nd, long b0, long e0, long b1, long e1, long b2, long e2, const void* functor, const void* thunk);
void   __vc_parallel_reduce(int nd, long b0, long e0, long b1, long e1, long b2, long e2, const void* functor, const void* thunk,
                            const void* init, const void* join, double* result);
void   __vc_reduce_instance(double r, long linear, long i, long j, long k);   // use the bound a reduction result gives for one iteration
double __vc_uf(const char* name, int n, const double* args);     // uninterpreted function
void   __vc_note(const char* s);
}
inline double vc_real(const char* n, double lo = -2, double hi = 2) { return __vc_real(n, lo, hi); }
inline int vc_int(const char* n, long lo, long hi) { return (int)__vc_int(n, lo, hi); }
inline int vc_index(const char* n, long lo, long hi) { return (int)__vc_index(n, lo, hi); }
inline void vc_assume(bool c) { __vc_assume(c); }
inline void vc_eq(const char* l, double a, double b, double scale = 0) { __vc_eq(l, a, b, scale); }
inline void vc_le(const char* l, double a, double b, double scale = 0) { __vc_le(l, a, b, scale); }
inline double vc_uf(const char* n, int k, const double* a) { return __vc_uf(n, k, a); }
inline void vc_true(const char* l, bool c) { __vc_true(l, c); }
#ifdef VC_SYM
#define VC_NATIVE 0
inline bool vc_skip() { return false; }
#else
#define VC_NATIVE 1
double vc_rnd(double lo, double hi);
#endif
// strict positive real
inline double vc_pos(const char* n, double lo = 0.2, double hi = 3) { double x = __vc_real(n, lo, hi); __vc_assume(x > 0); return x; }
#define VC_HARNESS(name) extern "C" void vc_harness_##name()
#endif
