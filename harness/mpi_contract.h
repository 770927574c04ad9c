// The MPI library as the verified code may use it. Included after solver.h in harnesses compiled with USE_MPI (stubs/mpi.h).
//  * a cartesian communicator numbers the processes of an MX x MY (x MZ) grid by an arbitrary function cartrank of their wrapped coordinates;
//  * this process sits at arbitrary coordinates;  * collective calls and send-receive pairs succeed.
//  * the name of a type identifies it.
// VC-OVERRIDE: ^std::type_info::name => contract_typename
USED const char* contract_typename(const void* t) { return (const char*)t; }
#include "utils/mpiUtils/MpiComm.cpp"
#include "utils/mpiUtils/MpiCommCart.cpp"
#include "utils/mpiUtils/ErrorPolling.cpp"
static int M[3] = {1, 1, 1}, POS[3] = {0, 0, 0}, CDIM = 0, CPER = 1, NWORLD = 1;
static const int CART = 77;
static int wrap(int c, int m) { return c < 0 ? c + m : c >= m ? c - m : c; }
static int cartrank(int a, int b, int c) { double x[3] = {(double)a, (double)b, (double)c}; double r = vc_uf("cartrank", 3, x); return (int)r; }
extern "C" {
USED int MPI_Initialized(int* f) { *f = 1; return 0; }
USED int MPI_Barrier(MPI_Comm) { return 0; }
USED int MPI_Comm_size(MPI_Comm, int* n) { *n = NWORLD; return 0; }
USED int MPI_Comm_rank(MPI_Comm c, int* r) { *r = c == CART ? cartrank(POS[0], POS[1], POS[2]) : 0; return 0; }
USED int MPI_Cart_create(MPI_Comm, int nd, const int* dims, const int* per, int, MPI_Comm* c) {
  CDIM = nd; CPER = 1; bool ok = true; for (int d = 0; d < nd; ++d) { ok = ok && dims[d] == M[d]; if (per[d] == 0) CPER = 0; }
  vc_true("process grid has the configured shape", ok); *c = CART; return 0; }
USED int MPI_Cart_coords(MPI_Comm c, int r, int nd, int* x) { vc_true("coordinates are asked for this process in the process grid", c == CART && r == cartrank(POS[0], POS[1], POS[2])); for (int d = 0; d < nd; ++d) x[d] = POS[d]; return 0; }
USED int MPI_Cart_rank(MPI_Comm c, const int* x, int* r) {
  int y[3] = {0, 0, 0}; for (int d = 0; d < CDIM; ++d) { y[d] = wrap(x[d], M[d]); vc_true("coordinates outside the process grid need a periodic grid, at most one step out", (CPER || (x[d] >= 0 && x[d] < M[d])) && x[d] >= -1 && x[d] <= M[d]); }
  *r = cartrank(y[0], y[1], y[2]); return 0; }
}
static double OTHERS = 0;                                      // smallest value of the other processes in the last real reduction
USED int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  if (t == MPI_INT) { *(int*)b = *(const int*)a; return 0; }     // failure poll: no process reports a failure
  vc_true("one real number is reduced to the minimum over all processes", t == MPI_DOUBLE && op == MPI_MIN && n == 1 && c == CART);
  OTHERS = vc_pos("others"); double x = *(const double*)a; *(double*)b = x < OTHERS ? x : OTHERS; return 0;
}
// references that keep unused wrappers linkable
#define VC_MPI_UNUSED(n, ...) USED int n(__VA_ARGS__) { std::abort(); }
extern "C" {
VC_MPI_UNUSED(MPI_Cart_shift, MPI_Comm, int, int, int*, int*) VC_MPI_UNUSED(MPI_Cartdim_get, MPI_Comm, int*)
VC_MPI_UNUSED(MPI_Send, const void*, int, MPI_Datatype, int, int, MPI_Comm) VC_MPI_UNUSED(MPI_Recv, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*)
VC_MPI_UNUSED(MPI_Isend, const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*) VC_MPI_UNUSED(MPI_Ibsend, const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*) VC_MPI_UNUSED(MPI_Issend, const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*) VC_MPI_UNUSED(MPI_Irsend, const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*) VC_MPI_UNUSED(MPI_Irecv, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*)
VC_MPI_UNUSED(MPI_Reduce, const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm) VC_MPI_UNUSED(MPI_Bcast, void*, int, MPI_Datatype, int, MPI_Comm)
VC_MPI_UNUSED(MPI_Alltoall, const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm) VC_MPI_UNUSED(MPI_Alltoallv, const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm)
VC_MPI_UNUSED(MPI_Gather, const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm) VC_MPI_UNUSED(MPI_Gatherv, const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm) VC_MPI_UNUSED(MPI_Allgather, const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm) VC_MPI_UNUSED(MPI_Allgatherv, const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm)
}
