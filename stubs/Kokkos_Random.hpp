#ifndef VC_KOKKOS_RANDOM
#define VC_KOKKOS_RANDOM
#include <Kokkos_Core.hpp>
namespace Kokkos {
struct VcRand { double drand() { return __vc_real("rand", 0, 1); } double drand(double a) { return a * __vc_real("rand", 0, 1); } double drand(double a, double b) { return a + (b - a) * __vc_real("rand", 0, 1); } double frand() { return __vc_real("rand", 0, 1); } };
template<class D> struct Random_XorShift64_Pool { using generator_type = VcRand; Random_XorShift64_Pool(uint64_t = 0) {} VcRand get_state() const { return VcRand(); } void free_state(VcRand) const {} };
template<class D> using Random_XorShift64 = VcRand;
template<class G, class T> struct rand { static double draw(G& g) { return g.drand(); } static double draw(G& g, double a) { return g.drand(a); } static double draw(G& g, double a, double b) { return g.drand(a, b); } };
}
#endif
