// Stand-in for the MPI library (used only by harnesses compiled with USE_MPI): declarations; the contracts of the calls the verified code
// makes are in harness/mpi_contract.h.
#ifndef VC_MPI_STUB_H
#define VC_MPI_STUB_H
#include <cstdlib>
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
enum { MPI_COMM_WORLD = 91, MPI_COMM_SELF = 92, MPI_COMM_NULL = 0, MPI_INT = 11, MPI_FLOAT = 12, MPI_DOUBLE = 13, MPI_CHAR = 14, MPI_SUM = 21, MPI_MIN = 22, MPI_MAX = 23, MPI_PROD = 24, MPI_SUCCESS = 0, MPI_MAX_PROCESSOR_NAME = 256 };
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
extern "C" {
int MPI_Initialized(int*); int MPI_Init(int*, char***); int MPI_Finalize(); int MPI_Get_processor_name(char*, int*);
int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*); int MPI_Barrier(MPI_Comm);
int MPI_Cart_create(MPI_Comm, int, const int*, const int*, int, MPI_Comm*); int MPI_Cart_coords(MPI_Comm, int, int, int*); int MPI_Cart_rank(MPI_Comm, const int*, int*); int MPI_Cart_shift(MPI_Comm, int, int, int*, int*); int MPI_Cartdim_get(MPI_Comm, int*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Ibsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Irsend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm); int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm); int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm); int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
}
#endif
