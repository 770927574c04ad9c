// Ghost-cell fill of a process in a decomposed run: layers towards a neighbouring process come from that process, layers at the domain boundary
// from the boundary condition, direction by direction, so that corners are right too.          defs: DIM 2|3, MHD 0|1, REG 0|1|2|3 (inner cells, lower, upper ghost layers, all)
// VC-OVERRIDE: ^ppkMHD::SolverBase::make_boundary\(Kokkos::View<double\*\*\*[*,] => contract_face
// VC-OVERRIDE: ^ppkMHD::muscl::Solver(Hydro|MHD)Muscl<[23]>::init\( => nop
// VC-OVERRIDE: ::compute_dt\(\) => nop
// VC-OVERRIDE: ::Solver(Hydro|MHD)Muscl<[23]>::convertToPrimitives\( => nop
#define USE_MPI 1
#ifndef REG
#define REG 3
#endif
#include "boundary.h"
#include "mpi_contract.h"
#include "face_contract.h"
static Solver* S; static DA GU, PEER[6], PRE, OLD; static int CALLS = 0, DIRS = 0;
#if DIM == 2
static DA& sendb(int f) { return f == 0 ? S->borderBufSend_xmin_2d : f == 1 ? S->borderBufSend_xmax_2d : f == 2 ? S->borderBufSend_ymin_2d : S->borderBufSend_ymax_2d; }
static DA& recvb(int f) { return f == 0 ? S->borderBufRecv_xmin_2d : f == 1 ? S->borderBufRecv_xmax_2d : f == 2 ? S->borderBufRecv_ymin_2d : S->borderBufRecv_ymax_2d; }
static double& at(const DA& U, const int* x, int v) { return U(x[0], x[1], v); }
#else
static DA& sendb(int f) { return f == 0 ? S->borderBufSend_xmin_3d : f == 1 ? S->borderBufSend_xmax_3d : f == 2 ? S->borderBufSend_ymin_3d : f == 3 ? S->borderBufSend_ymax_3d : f == 4 ? S->borderBufSend_zmin_3d : S->borderBufSend_zmax_3d; }
static DA& recvb(int f) { return f == 0 ? S->borderBufRecv_xmin_3d : f == 1 ? S->borderBufRecv_xmax_3d : f == 2 ? S->borderBufRecv_ymin_3d : f == 3 ? S->borderBufRecv_ymax_3d : f == 4 ? S->borderBufRecv_zmin_3d : S->borderBufRecv_zmax_3d; }
static double& at(const DA& U, const int* x, int v) { return U(x[0], x[1], x[2], v); }
#endif
static int cells(int d) { return d == 0 ? P.nx : d == 1 ? P.ny : P.nz; }
static int layer(int f, int d) { return f / 2 == d ? GW : cells(d) + 2 * GW; }        // extent of the layer of face f along d
static const char* PN[6] = {"from xmin", "from xmax", "from ymin", "from ymax", "from zmin", "from zmax"};
// The verifier proves one direction at a time: when the exchange along the next direction starts, the array must be the result of the direction
// before it (from any contents), and is then replaced by any contents. Native runs check the whole sequence at the end.
static int image1(int x, int d, int b, int& s) { return image(x, cells(d), b, b, s); }
static DA V;
static double expected(int d, const int* x, int v);           // value at x after direction d
static double before(int d, const int* x, int v) { return VC_NATIVE ? d == 0 ? at(V, x, v) : expected(d - 1, x, v) : at(PRE, x, v); }
static double ghost(int f, const int* x, int v) {
  int d = f / 2, y[3] = {x[0], x[1], x[2]}, nb = S->params.neighborsBC[f], s;
  if (nb == BC_COPY || nb == BC_PERIODIC) { if (f % 2) y[d] -= cells(d) + GW; return at(PEER[f], y, v); }
  y[d] = image1(x[d], d, nb, s); return (v == IU + d || v == IA + d ? s : 1) * before(d, y, v);
}
static double expected(int d, const int* x, int v) {
  if (x[d] < GW) return ghost(2 * d, x, v);
  if (x[d] >= cells(d) + GW) return ghost(2 * d + 1, x, v);
  return before(d, x, v);
}
static int region(const char* n, int r, int c) { return vc_index(n, r == 2 ? c + GW : r == 0 ? GW : 0, r == 1 ? GW : r == 0 ? c + GW : c + 2 * GW); }
static void checkdir(int d) {
  int r[3] = {3, 3, 3}; if (!VC_NATIVE) r[d] = REG;
  int x[3] = {region("i", r[0], P.nx), region("j", r[1], P.ny), DIM == 3 ? region("k", r[2], P.nz) : 0};
  for (int v = 0; v < NV; ++v) vc_eq("ghost cell holds the neighbour's value or the boundary condition", at(GU, x, v), expected(d, x, v));
}
// contract of a send-receive pair; all processes execute the same calls in the same order, so what is sent towards a face here is what the
// neighbour on that face receives on its opposite face
USED int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int dest, int stag, void* rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm comm, MPI_Status*) {
  if (!S) return 0;                                             // the constructor fills boundaries once
  int f = -1; for (int q = 0; q < 2 * DIM; ++q) if (sb == (const void*)sendb(q).data()) f = q;
  vc_true("send uses a border buffer", f >= 0); if (f < 0) return 1;
  int g = f ^ 1; long size = NV; for (int d = 0; d < DIM; ++d) size *= layer(f, d);
  vc_true("layer goes to the neighbour on its side", dest == S->params.neighborsRank[f] && comm == CART);
  vc_true("opposite layer comes from the opposite neighbour", rb == (void*)recvb(g).data() && src == S->params.neighborsRank[g]);
  vc_true("tags of matching sends and receives agree", stag == rtag);
  vc_true("the whole layer is exchanged as doubles", sn == size && rn == size && st == MPI_DOUBLE && rt == MPI_DOUBLE);
  int x[3] = {0, 0, 0}, y[3]; x[0] = vc_index("si", 0, layer(f, 0)); x[1] = vc_index("sj", 0, layer(f, 1)); if (DIM == 3) x[2] = vc_index("sk", 0, layer(f, 2));
  for (int d = 0; d < 3; ++d) y[d] = x[d]; y[f / 2] += f % 2 ? cells(f / 2) : GW;
  if (f / 2 == DIRS) { ++DIRS; if (!VC_NATIVE) { if (f / 2 > 0) checkdir(f / 2 - 1); Kokkos::deep_copy(OLD, GU); vc_havoc(GU, "any"); Kokkos::deep_copy(PRE, GU); } }
  for (int v = 0; v < NV; ++v) vc_eq("what is sent is the inner layer next to the neighbour, with the ghost cells already filled", at(sendb(f), x, v), at(VC_NATIVE ? GU : OLD, y, v));
  Kokkos::deep_copy(recvb(g), PEER[g]); ++CALLS; return 0;
}
static DA start()
{
  HydroParams& p = P; vc_params(p, DIM, GW, NV, GW);
  int b[6] = {1, 1, 1, 1, 1, 1}; static const char* bn[6] = {"xmin", "xmax", "ymin", "ymax", "zmin", "zmax"}; static const char* on[6] = {"inner xmin", "inner xmax", "inner ymin", "inner ymax", "inner zmin", "inner zmax"}; static const char* rn[6] = {"rank xmin", "rank xmax", "rank ymin", "rank ymax", "rank zmin", "rank zmax"};
  S = nullptr;
  p.communicator = DIM == 2 ? new hydroSimu::MpiCommCart(M[0], M[1], 1, 1) : new hydroSimu::MpiCommCart(M[0], M[1], M[2], 1, 1); p.data_type = hydroSimu::MpiComm::DOUBLE;
  for (int f = 0; f < 2 * DIM; ++f) {
    int nb = vc_int(on[f], 1, 4); vc_assume(nb <= 4); b[f] = nb <= 2 ? nb : bc(bn[f]);                 // physical or periodic boundary, or (4) a neighbour
    p.neighborsRank[f] = vc_int(rn[f], 0, 7); p.neighborsBC[f] = (BoundaryConditionType)nb; }
  setbc(p, b);
  char cb[] = "[hydro]\nproblem=implode\n"; char* cp = cb; ConfigMap& cfg = *new ConfigMap(cp, sizeof cb); S = new Solver(p, cfg);
#if DIM == 2
  DA U("U", p.isize, p.jsize, NV); V = DA("V", p.isize, p.jsize, NV);
  for (int f = 0; f < 4; ++f) { PEER[f] = DA("peer", layer(f, 0), layer(f, 1), NV); vc_havoc(PEER[f], PN[f]); }
#else
  DA U("U", p.isize, p.jsize, p.ksize, NV); V = DA("V", p.isize, p.jsize, p.ksize, NV);
  for (int f = 0; f < 6; ++f) { PEER[f] = DA("peer", layer(f, 0), layer(f, 1), layer(f, 2), NV); vc_havoc(PEER[f], PN[f]); }
#endif
  vc_havoc(U, "U"); Kokkos::deep_copy(V, U); GU = U; CALLS = DIRS = 0; PRE = DA("pre", p.isize, p.jsize, DIM == 2 ? NV : p.ksize, NV); OLD = DA("old", p.isize, p.jsize, DIM == 2 ? NV : p.ksize, NV);
  return U;
}
VC_HARNESS(halo)
{
  DA U = start(); S->make_boundaries(U);
  vc_eq("one exchange per face", CALLS, 2 * DIM);
  checkdir(DIM - 1);
}
VC_HARNESS(safe)
{
  DA U = start();
  S->copy_boundaries(U, XDIR); S->copy_boundaries(U, YDIR); S->copy_boundaries_back(U, XMIN); S->copy_boundaries_back(U, XMAX); S->copy_boundaries_back(U, YMIN); S->copy_boundaries_back(U, YMAX);
#if DIM == 3
  S->copy_boundaries(U, ZDIR); S->copy_boundaries_back(U, ZMIN); S->copy_boundaries_back(U, ZMAX);
#endif
  vc_true("the copies complete", true);
}
