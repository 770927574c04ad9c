// contract of one face fill (proved by harness boundary_face)
USED void contract_face(SolverBase*, DA* Up, int f, bool mhd) {
  DA U = *Up; const HydroParams p = P; const int d = f / 2, n = d == 0 ? p.nx : d == 1 ? p.ny : p.nz, b = facebc(p, f);
#if DIM == 3
  Kokkos::parallel_for(Kokkos::MDRangePolicy<Kokkos::Rank<3>>({0, 0, 0}, {p.isize, p.jsize, p.ksize}), [=](const int& i, const int& j, const int& k) {
    int x[3] = {i, j, k};
    if (f % 2 == 0 ? x[d] < GW : x[d] >= n + GW) { int s; x[d] = image(x[d], n, b, b, s); for (int v = 0; v < NV; ++v) { int g = v == IU + d || v == IA + d ? s : 1; U(i, j, k, v) = g * U(x[0], x[1], x[2], v); } } });
#else
  Kokkos::parallel_for(Kokkos::MDRangePolicy<Kokkos::Rank<2>>({0, 0}, {p.isize, p.jsize}), [=](const int& i, const int& j) {
    int x[2] = {i, j};
    if (f % 2 == 0 ? x[d] < GW : x[d] >= n + GW) { int s; x[d] = image(x[d], n, b, b, s); for (int v = 0; v < NV; ++v) { int g = v == IU + d || v == IA + d ? s : 1; U(i, j, v) = g * U(x[0], x[1], v); } } });
#endif
}
