// VC-OVERRIDE: ::make_boundary_sdm<\(ppkMHD::FaceIdType\)0>\( => contract_face0
// VC-OVERRIDE: ::make_boundary_sdm<\(ppkMHD::FaceIdType\)1>\( => contract_face1
// VC-OVERRIDE: ::make_boundary_sdm<\(ppkMHD::FaceIdType\)2>\( => contract_face2
// VC-OVERRIDE: ::make_boundary_sdm<\(ppkMHD::FaceIdType\)3>\( => contract_face3
// VC-OVERRIDE: ::make_boundary_sdm<\(ppkMHD::FaceIdType\)4>\( => contract_face4
// VC-OVERRIDE: ::make_boundary_sdm<\(ppkMHD::FaceIdType\)5>\( => contract_face5
// contract of one face fill (proved by harness sdm_boundary_face)
static void contract(DA* Up, int f) {
  DA U = *Up; const HydroParams p = P; const int d = f / 2, n = cells(d), b = facebc(f);
#if DIM == 3
  Kokkos::parallel_for(Kokkos::MDRangePolicy<Kokkos::Rank<3>>({0, 0, 0}, {p.isize, p.jsize, p.ksize}), [=](const int& i, const int& j, const int& k) { C e{{i, j, k}}, c = e;
#else
  Kokkos::parallel_for(Kokkos::MDRangePolicy<Kokkos::Rank<2>>({0, 0}, {p.isize, p.jsize}), [=](const int& i, const int& j) { C e{{i, j, 0}}, c = e;
#endif
    if (f % 2 == 0 ? e.c[d] < GW : e.c[d] >= n + GW) { int s; e.c[d] = image(e.c[d], n, b, b, s);
      forall_dofs([&](int* x, int v) { int y[3] = {x[0], x[1], x[2]}; if (b == BC_DIRICHLET) y[d] = NN - 1 - x[d]; at(U, c, dofS(x, v)) = (b == BC_DIRICHLET && v == IU + d ? -1 : 1) * at(U, e, dofS(y, v)); }); } });
}
#define FACEC(k) USED void contract_face##k(Solver*, DA* Up, bool) { contract(Up, k); }
FACEC(0) FACEC(1) FACEC(2) FACEC(3) FACEC(4) FACEC(5)
