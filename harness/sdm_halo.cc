// Ghost-cell fill of a process in a decomposed spectral difference run: layers towards a neighbouring process come from that process, solution point
// by solution point, layers at the domain boundary from the boundary condition, direction by direction, so that corners are right too.
// defs: DIM 2|3, ORD, REG 0|1|2|3 (inner cells, lower, upper ghost layers, all)
// VC-OVERRIDE: ::compute_dt\(\) => nop
// VC-OVERRIDE: ^ppkMHD::sdm::SolverHydroSDM<[23], [1-6]>::init_sdm_geometry => nop
#define USE_MPI 1
#ifndef REG
#define REG 3
#endif
#include "sdm_boundary.h"
#include "mpi_contract.h"
#include "sdm_face_contract.h"
static Solver* S = nullptr; static DA GU, PEER[6], PRE, OLD, V; static int CALLS = 0, DIRS = 0;
#if DIM == 2
static DA& sendb(int f) { return f == 0 ? S->borderBufSend_xmin_2d : f == 1 ? S->borderBufSend_xmax_2d : f == 2 ? S->borderBufSend_ymin_2d : S->borderBufSend_ymax_2d; }
static DA& recvb(int f) { return f == 0 ? S->borderBufRecv_xmin_2d : f == 1 ? S->borderBufRecv_xmax_2d : f == 2 ? S->borderBufRecv_ymin_2d : S->borderBufRecv_ymax_2d; }
#else
static DA& sendb(int f) { return f == 0 ? S->borderBufSend_xmin_3d : f == 1 ? S->borderBufSend_xmax_3d : f == 2 ? S->borderBufSend_ymin_3d : f == 3 ? S->borderBufSend_ymax_3d : f == 4 ? S->borderBufSend_zmin_3d : S->borderBufSend_zmax_3d; }
static DA& recvb(int f) { return f == 0 ? S->borderBufRecv_xmin_3d : f == 1 ? S->borderBufRecv_xmax_3d : f == 2 ? S->borderBufRecv_ymin_3d : f == 3 ? S->borderBufRecv_ymax_3d : f == 4 ? S->borderBufRecv_zmin_3d : S->borderBufRecv_zmax_3d; }
#endif
static int layer(int f, int d) { return f / 2 == d ? GW : cells(d) + 2 * GW; }        // extent of the layer of face f along d
static const char* PN[6] = {"from xmin", "from xmax", "from ymin", "from ymax", "from zmin", "from zmax"};
// The verifier proves one direction at a time: when the exchange along the next direction starts, the array must be the result of the direction
// before it (from any contents), and is then replaced by any contents. Native runs check the whole sequence at the end.
static double expected(int d, C c, const int* x, int v);           // value in cell c at solution point x after direction d
static double before(int d, C c, const int* x, int v) { return VC_NATIVE ? d == 0 ? at(V, c, dofS(x, v)) : expected(d - 1, c, x, v) : at(PRE, c, dofS(x, v)); }
static double ghost(int f, C c, const int* x, int v) {
  int d = f / 2, y[3] = {x[0], x[1], x[2]}, nb = S->params.neighborsBC[f], s;
  if (nb == BC_COPY || nb == BC_PERIODIC) { if (f % 2) c.c[d] -= cells(d) + GW; return at(PEER[f], c, dofS(x, v)); }
  c.c[d] = image(c.c[d], cells(d), nb, nb, s); if (nb == BC_DIRICHLET) y[d] = NN - 1 - x[d];
  return (v == IU + d ? s : 1) * before(d, c, y, v);
}
static double expected(int d, C c, const int* x, int v) {
  if (c.c[d] < GW) return ghost(2 * d, c, x, v);
  if (c.c[d] >= cells(d) + GW) return ghost(2 * d + 1, c, x, v);
  return before(d, c, x, v);
}
static int region(const char* n, int r, int m) { return vc_index(n, r == 2 ? m + GW : r == 0 ? GW : 0, r == 1 ? GW : r == 0 ? m + GW : m + 2 * GW); }
static void checkdir(int d) {
  int r[3] = {3, 3, 3}; if (!VC_NATIVE) r[d] = REG;
  C c{{region("i", r[0], P.nx), region("j", r[1], P.ny), DIM == 3 ? region("k", r[2], P.nz) : 0}};
  forall_dofs([&](int* x, int v) { vc_eq("ghost solution point holds the neighbour's value or the boundary condition", at(GU, c, dofS(x, v)), expected(d, c, x, v)); });
}
// contract of a send-receive pair; all processes execute the same calls in the same order, so what is sent towards a face here is what the
// neighbour on that face receives on its opposite face
USED int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int dest, int stag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm comm, MPI_Status*) {
  if (!S) return 0;                                             // the constructor fills boundaries once
  int f = -1; for (int q = 0; q < 2 * DIM; ++q) if (sb == (const void*)sendb(q).data()) f = q;
  vc_true("send uses a border buffer", f >= 0); if (f < 0) return 1;
  int g = f ^ 1; long size = ALL; for (int d = 0; d < DIM; ++d) size *= layer(f, d);
  vc_true("layer goes to the neighbour on its side", dest == S->params.neighborsRank[f] && comm == CART);
  vc_true("opposite layer comes from the opposite neighbour", rb == (void*)recvb(g).data() && src == S->params.neighborsRank[g]);
  vc_true("tags of matching sends and receives agree", stag == rtag);
  vc_true("the whole layer is exchanged as doubles", sn == size && rn == size && st == MPI_DOUBLE && rt == MPI_DOUBLE);
  C c{{f / 2 == 0 ? 0 : vc_index("si", 0, layer(f, 0)), f / 2 == 1 ? 0 : vc_index("sj", 0, layer(f, 1)), DIM == 3 && f / 2 != 2 ? vc_index("sk", 0, layer(f, 2)) : 0}}, e = c; e.c[f / 2] += f % 2 ? cells(f / 2) : GW;
  if (f / 2 == DIRS) { ++DIRS; if (!VC_NATIVE) { if (f / 2 > 0) checkdir(f / 2 - 1); Kokkos::deep_copy(OLD, GU); vc_havoc(GU, "any"); Kokkos::deep_copy(PRE, GU); } }
  for (int q = 0; q < ALL; ++q) vc_eq("what is sent is the inner layer next to the neighbour, with the ghost cells already filled", at(sendb(f), c, q), at(VC_NATIVE ? GU : OLD, e, q));
  Kokkos::deep_copy(recvb(g), PEER[g]); ++CALLS; return 0;
}
static DA start()
{
  static const char* bn[6] = {"xmin", "xmax", "ymin", "ymax", "zmin", "zmax"}; static const char* on[6] = {"inner xmin", "inner xmax", "inner ymin", "inner ymax", "inner zmin", "inner zmax"}; static const char* rn[6] = {"rank xmin", "rank xmax", "rank ymin", "rank ymax", "rank zmin", "rank zmax"};
  int b[6] = {1, 1, 1, 1, 1, 1}; S = nullptr;
  P.communicator = DIM == 2 ? new hydroSimu::MpiCommCart(M[0], M[1], 1, 1) : new hydroSimu::MpiCommCart(M[0], M[1], M[2], 1, 1); P.data_type = hydroSimu::MpiComm::DOUBLE;
  for (int f = 0; f < 2 * DIM; ++f) {
    int nb = vc_int(on[f], 1, 4); vc_assume(nb <= 4); b[f] = nb <= 2 ? nb : bc(bn[f]);                 // physical or periodic boundary, or (4) a neighbour
    P.neighborsRank[f] = vc_int(rn[f], 0, 7); P.neighborsBC[f] = (BoundaryConditionType)nb; }
  Solver& s = mkSolver(); setbc(b); s.params = P; S = &s;
  for (int f = 0; f < 2 * DIM; ++f) {
#if DIM == 2
    PEER[f] = DA("peer", layer(f, 0), layer(f, 1), ALL);
#else
    PEER[f] = DA("peer", layer(f, 0), layer(f, 1), layer(f, 2), ALL);
#endif
    vc_havoc(PEER[f], PN[f]);
  }
  vc_havoc(s.U, "U"); DA U = s.U; V = copyDA("V", U, ALL); GU = U; CALLS = DIRS = 0; PRE = newDA("pre", ALL); OLD = newDA("old", ALL);
  return U;
}
VC_HARNESS(halo)
{
  DA U = start(); S->make_boundaries(U);
  vc_eq("one exchange per face", CALLS, 2 * DIM);
  checkdir(DIM - 1);
}
VC_HARNESS(safe)
{
  DA U = start();
  S->copy_boundaries(U, XDIR); S->copy_boundaries(U, YDIR); S->copy_boundaries_back(U, XMIN); S->copy_boundaries_back(U, XMAX); S->copy_boundaries_back(U, YMIN); S->copy_boundaries_back(U, YMAX);
#if DIM == 3
  S->copy_boundaries(U, ZDIR); S->copy_boundaries_back(U, ZMIN); S->copy_boundaries_back(U, ZMAX);
#endif
  vc_true("the copies complete", true);
}
