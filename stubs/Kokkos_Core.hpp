// Stand-in for the Kokkos library: the contract the verified code relies on.
//  * View: a reference to an array of the given extents; copies alias.
//  * parallel_for(range, f): f applied to every index of the range, in any order (obligation: no races).
//  * parallel_reduce with Max / init+join functor.
#ifndef VC_KOKKOS_CORE
#define VC_KOKKOS_CORE
#include "vc.h"
#include <cmath>
#include <cstdint>
#include <cstddef>
#include <limits>
#include <string>
#include <type_traits>
#include <initializer_list>
#ifndef VC_SYM
#include <vector>
#include <memory>
#include <cstdio>
#include <cstdlib>
#endif
#define KOKKOS_VERSION_MAJOR 3
#define KOKKOS_VERSION 30701
#define KOKKOS_ENABLE_OPENMP 1
#define KOKKOS_ENABLE_CXX17 1
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FUNCTION
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [=, *this]
#define KOKKOS_ASSERT(x) ((void)0)
namespace Kokkos {
struct Serial { using execution_space = Serial; using memory_space = Serial; };
using OpenMP = Serial;
using DefaultExecutionSpace = Serial;
using DefaultHostExecutionSpace = Serial;
using HostSpace = Serial;
struct LayoutLeft {}; struct LayoutRight {};
struct InitArguments {};
inline void initialize(int&, char**) {}
inline void finalize() {}
inline void fence() {}
inline void fence(const char*) {}

template<class T, size_t N> struct Array {
  T m_[N];
  using value_type = T;
  T& operator[](size_t i) { return m_[i]; }
  const T& operator[](size_t i) const { return m_[i]; }
  T* data() { return m_; }
  const T* data() const { return m_; }
  static constexpr size_t size() { return N; }
};
#ifndef VC_SYM
void vc_oob(const long*, const long*);
void vc_touch(double*); void vc_atomic(double*); void vc_iter(long); void vc_launch(bool);   // dynamic race detection (replay builds only)
#endif
namespace Impl {
template<class T> struct vt { using type = T; static constexpr int dyn = 0, rank = 0; static constexpr long last = 0; };
template<class T> struct vt<T*> { using type = typename vt<T>::type; static constexpr int dyn = vt<T>::dyn + 1, rank = vt<T>::rank + 1; static constexpr long last = 0; };
template<class T, size_t N> struct vt<T[N]> { using type = typename vt<T>::type; static constexpr int dyn = vt<T>::dyn, rank = vt<T>::rank + 1; static constexpr long last = N; };
#ifndef VC_SYM
struct Store { std::vector<double> d; long n[5]; int rank; };
#endif
}
template<class DT, class... P> struct View {
  using value_type = typename Impl::vt<DT>::type;
  using HostMirror = View;
  using host_mirror_type = View;
  using execution_space = DefaultExecutionSpace;
  static constexpr int Rank = Impl::vt<DT>::rank;
  static constexpr int rank = Rank;
  static constexpr int dyn = Impl::vt<DT>::dyn;
  int id = 0;
  long n_[5] = {1, 1, 1, 1, 1};
#ifndef VC_SYM
  std::shared_ptr<Impl::Store> s;
#endif
  View() {}
  // Kokkos allows assignment between views of the same rank and element type that differ in static extents
  template<class DT2, class... P2, class = typename std::enable_if<!std::is_same<DT2, DT>::value && Impl::vt<DT2>::rank == Impl::vt<DT>::rank && std::is_same<typename Impl::vt<DT2>::type, typename Impl::vt<DT>::type>::value>::type>
  View(const View<DT2, P2...>& o) : id(o.id) {
    for (int q = 0; q < 5; ++q) n_[q] = o.n_[q];
#ifndef VC_SYM
    s = o.s;
#endif
  }
  void alloc(long a, long b, long c, long d, long e) {
    long v[5] = {a, b, c, d, e};
    for (int q = 0; q < 5; ++q) n_[q] = q < dyn ? v[q] : 1;
    if (Rank > dyn) n_[Rank - 1] = Impl::vt<DT>::last;
#ifdef VC_SYM
    id = __vc_view_alloc(Rank, n_[0], n_[1], n_[2], n_[3], n_[4]);
#else
    s = std::make_shared<Impl::Store>(); s->rank = Rank; long tot = 1;
    for (int q = 0; q < 5; ++q) { s->n[q] = n_[q]; tot *= n_[q] > 0 ? n_[q] : 0; }
    s->d.assign(tot, 0.0);
#endif
  }
  View(const char*, long a = 1, long b = 1, long c = 1, long d = 1, long e = 1) { alloc(a, b, c, d, e); }
#ifndef VC_SYM
  View(const std::string&, long a = 1, long b = 1, long c = 1, long d = 1, long e = 1) { alloc(a, b, c, d, e); }
#else
  View(const std::string&, long a = 1, long b = 1, long c = 1, long d = 1, long e = 1) { alloc(a, b, c, d, e); }
#endif
  value_type& at(long i, long j, long k, long l, long m) const {
#ifdef VC_SYM
    return *(value_type*)__vc_view_ref(id, i, j, k, l, m);
#else
    long x[5] = {i, j, k, l, m}; long o = 0;
    for (int q = 0; q < 5; ++q) {
      if (!s || x[q] < 0 || x[q] >= s->n[q]) { static double dummy; static value_type dd; vc_oob(x, s ? s->n : nullptr); (void)dummy; return dd; }
      o = o * s->n[q] + x[q];
    }
#ifdef VC_RACE
    vc_touch(&s->d[o]);
#endif
    return *(value_type*)&s->d[o];
#endif
  }
  template<class I0> value_type& operator()(I0 i) const { return at(i, 0, 0, 0, 0); }
  template<class I0, class I1> value_type& operator()(I0 i, I1 j) const { return at(i, j, 0, 0, 0); }
  template<class I0, class I1, class I2> value_type& operator()(I0 i, I1 j, I2 k) const { return at(i, j, k, 0, 0); }
  template<class I0, class I1, class I2, class I3> value_type& operator()(I0 i, I1 j, I2 k, I3 l) const { return at(i, j, k, l, 0); }
  template<class I0, class I1, class I2, class I3, class I4> value_type& operator()(I0 i, I1 j, I2 k, I3 l, I4 m) const { return at(i, j, k, l, m); }
  template<class I0> value_type& operator[](I0 i) const { return at(i, 0, 0, 0, 0); }
  template<class I> size_t extent(I q) const { return n_[q]; }
  size_t size() const { return n_[0] * n_[1] * n_[2] * n_[3] * n_[4]; }
  size_t span() const { return size(); }
  value_type* data() const {
#ifdef VC_SYM
    return (value_type*)__vc_view_ref(id, 0, 0, 0, 0, 0);
#else
    return s ? (value_type*)s->d.data() : nullptr;
#endif
  }
  bool is_allocated() const { return id != 0; }
};
template<class DT, class... P> View<DT, P...> create_mirror(const View<DT, P...>& v) { return View<DT, P...>("mirror", v.n_[0], v.n_[1], v.n_[2], v.n_[3], v.n_[4]); }
template<class DT, class... P> View<DT, P...> create_mirror_view(const View<DT, P...>& v) { return v; }
template<class DT, class... P, class DT2, class... P2> void deep_copy(const View<DT, P...>& d, const View<DT2, P2...>& s) {
#ifdef VC_SYM
  __vc_view_copy(d.id, s.id);
#else
  if (d.s && s.s) { if (d.s->d.size() != s.s->d.size()) { std::printf("VC-FAIL deep_copy extents mismatch\n"); std::exit(3); } d.s->d = s.s->d; }
#endif
}
template<class DT, class... P> void deep_copy(const View<DT, P...>& d, double v) {
#ifdef VC_SYM
  __vc_view_fill(d.id, v);
#else
  for (auto& x : d.s->d) x = v;
#endif
}
template<class DT, class... P> void resize(View<DT, P...>& v, long a = 1, long b = 1, long c = 1, long d = 1, long e = 1) { v.alloc(a, b, c, d, e); }
template<class DT, class... P> void realloc(View<DT, P...>& v, long a = 1, long b = 1, long c = 1, long d = 1, long e = 1) { v.alloc(a, b, c, d, e); }

template<int N> struct Rank {};
template<class... X> struct RangePolicy { long b, e; template<class A, class B> RangePolicy(A b_, B e_) : b(b_), e(e_) {} };
template<class R, class... X> struct MDRangePolicy;
template<int N, class... X> struct MDRangePolicy<Rank<N>, X...> {
  Array<int64_t, N> b, e;
  MDRangePolicy(Array<int64_t, N> b_, Array<int64_t, N> e_) : b(b_), e(e_) {}
};
#ifndef VC_SYM
long vc_perm(long n, long q);
#endif
namespace Impl {
template<class F> struct th {
  static void f1(const F* f, long i, long, long) { (*f)(i); }
  static void f2(const F* f, long i, long j, long) { (*f)((int)i, (int)j); }
  static void f3(const F* f, long i, long j, long k) { (*f)((int)i, (int)j, (int)k); }
  static void r1(const F* f, long i, long, long, double* a) { (*f)(i, *a); }
  static void r2(const F* f, long i, long j, long, double* a) { (*f)((int)i, (int)j, *a); }
  static void r3(const F* f, long i, long j, long k, double* a) { (*f)((int)i, (int)j, (int)k, *a); }
  static void init(const F* f, double* a) { f->init(*a); }
  static void join(const F* f, double* a, const double* b) { f->join(*a, *b); }
};
typedef void (*tfun)(const void*, long, long, long);
typedef void (*rfun)(const void*, long, long, long, double*);
typedef void (*ifun)(const void*, double*);
typedef void (*jfun)(const void*, double*, const double*);
#ifdef VC_SYM
inline void pf(int nd, long b0, long e0, long b1, long e1, long b2, long e2, const void* f, const void* t) { __vc_parallel_for(nd, b0, e0, b1, e1, b2, e2, f, t); }
inline void pr(int nd, long b0, long e0, long b1, long e1, long b2, long e2, const void* f, const void* t, const void* i, const void* j, double* r) { __vc_parallel_reduce(nd, b0, e0, b1, e1, b2, e2, f, t, i, j, r); }
#else
inline void pf(int, long b0, long e0, long b1, long e1, long b2, long e2, const void* f, const void* t) {
  long n0 = e0 - b0, n1 = e1 - b1, n2 = e2 - b2; if (n0 <= 0 || n1 <= 0 || n2 <= 0) return;
  long tot = n0 * n1 * n2;
#ifdef VC_RACE
  vc_launch(true);
#endif
  for (long q = 0; q < tot; ++q) { long x = vc_perm(tot, q); ((tfun)t)(f, b0 + x / (n1 * n2), b1 + (x / n2) % n1, b2 + x % n2);
#ifdef VC_RACE
    vc_iter(x);
#endif
  }
#ifdef VC_RACE
  vc_launch(false);
#endif
}
inline void pr(int, long b0, long e0, long b1, long e1, long b2, long e2, const void* f, const void* t, const void* i, const void* j, double* r) {
  double acc; if (i) ((ifun)i)(f, &acc); else acc = -std::numeric_limits<double>::max();
  long n0 = e0 - b0, n1 = e1 - b1, n2 = e2 - b2;
  if (n0 > 0 && n1 > 0 && n2 > 0) {
    // two partial accumulators joined, as a parallel back end may do
    double a2; if (i) ((ifun)i)(f, &a2); else a2 = -std::numeric_limits<double>::max();
    long tot = n0 * n1 * n2;
    for (long q = 0; q < tot; ++q) { long x = vc_perm(tot, q); ((rfun)t)(f, b0 + x / (n1 * n2), b1 + (x / n2) % n1, b2 + x % n2, (q & 1) ? &acc : &a2); }
    if (j) ((jfun)j)(f, &acc, &a2); else acc = acc > a2 ? acc : a2;
  }
  *r = acc;
}
#endif
template<class F, class = void> struct has_join : std::false_type {};
template<class F> struct has_join<F, std::void_t<decltype(&F::join)>> : std::true_type {};
}
template<class F> void parallel_for(long n, const F& f) { Impl::pf(1, 0, n, 0, 1, 0, 1, &f, (const void*)&Impl::th<F>::f1); }
template<class I, class F, class = std::enable_if_t<std::is_integral<I>::value>, class = void> void parallel_for(const char*, I n, const F& f) { parallel_for((long)n, f); }
template<class F, class... X> void parallel_for(RangePolicy<X...> p, const F& f) { Impl::pf(1, p.b, p.e, 0, 1, 0, 1, &f, (const void*)&Impl::th<F>::f1); }
template<class F, class... X> void parallel_for(MDRangePolicy<Rank<2>, X...> p, const F& f) { Impl::pf(2, p.b[0], p.e[0], p.b[1], p.e[1], 0, 1, &f, (const void*)&Impl::th<F>::f2); }
template<class F, class... X> void parallel_for(MDRangePolicy<Rank<3>, X...> p, const F& f) { Impl::pf(3, p.b[0], p.e[0], p.b[1], p.e[1], p.b[2], p.e[2], &f, (const void*)&Impl::th<F>::f3); }
template<class Pol, class F, class = std::enable_if_t<!std::is_integral<Pol>::value>> void parallel_for(const char*, Pol p, const F& f) { parallel_for(p, f); }
template<class Pol, class F> void parallel_for(const std::string&, Pol p, const F& f) { parallel_for(p, f); }

template<class T, class S = Serial> struct Max { T& r; Max(T& x) : r(x) {} };
namespace Impl {
template<class F> void red(int nd, long b0, long e0, long b1, long e1, long b2, long e2, const F& f, const void* t, double* out, bool mx) {
  if constexpr (has_join<F>::value) {
    if (!mx) { pr(nd, b0, e0, b1, e1, b2, e2, &f, t, (const void*)&th<F>::init, (const void*)&th<F>::join, out); return; }
  }
  pr(nd, b0, e0, b1, e1, b2, e2, &f, t, nullptr, nullptr, out);
}
template<class T> double* rp(T& x) { static_assert(sizeof(T) == 8, "reduction type"); return (double*)&x; }
template<class T> double* rp(Max<T>& x) { return (double*)&x.r; }
template<class T> double* rp(const Max<T>& x) { return (double*)&x.r; }
template<class T> struct ismax : std::false_type {};
template<class T> struct ismax<Max<T>> : std::true_type {};
}
template<class F, class R> void parallel_reduce(long n, const F& f, R&& r) {
  static_assert(Impl::ismax<std::decay_t<R>>::value || Impl::has_join<F>::value, "sum reductions are not modelled");
  Impl::red(1, 0, n, 0, 1, 0, 1, f, (const void*)&Impl::th<F>::r1, Impl::rp(r), Impl::ismax<std::decay_t<R>>::value); }
template<class F, class R, class... X> void parallel_reduce(RangePolicy<X...> p, const F& f, R&& r) { Impl::red(1, p.b, p.e, 0, 1, 0, 1, f, (const void*)&Impl::th<F>::r1, Impl::rp(r), Impl::ismax<std::decay_t<R>>::value); }
template<class F, class R, class... X> void parallel_reduce(MDRangePolicy<Rank<2>, X...> p, const F& f, R&& r) { Impl::red(2, p.b[0], p.e[0], p.b[1], p.e[1], 0, 1, f, (const void*)&Impl::th<F>::r2, Impl::rp(r), Impl::ismax<std::decay_t<R>>::value); }
template<class F, class R, class... X> void parallel_reduce(MDRangePolicy<Rank<3>, X...> p, const F& f, R&& r) { Impl::red(3, p.b[0], p.e[0], p.b[1], p.e[1], p.b[2], p.e[2], f, (const void*)&Impl::th<F>::r3, Impl::rp(r), Impl::ismax<std::decay_t<R>>::value); }
template<class Pol, class F, class R> void parallel_reduce(const char*, Pol p, const F& f, R&& r) { parallel_reduce(p, f, r); }
template<class Pol, class F, class R> void parallel_reduce(const std::string&, Pol p, const F& f, R&& r) { parallel_reduce(p, f, r); }

#ifdef VC_SYM
inline void atomic_add(double* p, double v) { __vc_atomic_add(p, v); }
inline void atomic_sub(double* p, double v) { __vc_atomic_add(p, -v); }
#else
#ifndef VC_RACE
inline void atomic_add(double* p, double v) { *p += v; }
inline void atomic_sub(double* p, double v) { *p -= v; }
#else
inline void atomic_add(double* p, double v) { vc_atomic(p); *p += v; }
inline void atomic_sub(double* p, double v) { vc_atomic(p); *p -= v; }
#endif
#endif
using std::abs;
using std::sqrt; using std::fabs; using std::exp; using std::fmod; using std::isnan; using std::pow; using std::sin; using std::cos;
inline double fmin(double a, double b) { return ::fmin(a, b); }
inline double fmax(double a, double b) { return ::fmax(a, b); }
namespace Experimental {
using std::sqrt; using std::exp; using std::fmod; using std::isnan;
inline double fmin(double a, double b) { return ::fmin(a, b); }
inline double fmax(double a, double b) { return ::fmax(a, b); }
inline double fabs(double a) { return ::fabs(a); }
}
}
#endif
