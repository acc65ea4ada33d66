// stand-in for <mpi.h>: ranks are coroutines of the controlled scheduler (rt/omp.cpp)
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Comm;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, count_; } MPI_Status;
enum { MPI_DOUBLE = 1, MPI_FLOAT, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG, MPI_CHAR, MPI_BYTE, MPI_SHORT, MPI_C_BOOL };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_UINT64_T MPI_UNSIGNED_LONG_LONG
#define MPI_INT64_T MPI_LONG_LONG
#define MPI_UINT32_T MPI_UNSIGNED
#define MPI_INT32_T MPI_INT
#define MPI_CXX_BOOL MPI_C_BOOL
enum { MPI_SUM = 1, MPI_MAX, MPI_MIN, MPI_LAND, MPI_LOR, MPI_PROD };
enum { MPI_COMM_WORLD = 91, MPI_COMM_SELF = 92 };
enum { MPI_SUCCESS = 0, MPI_ANY_SOURCE = -2, MPI_ANY_TAG = -1, MPI_THREAD_SINGLE = 0, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
#define MPI_IN_PLACE ((void*)-1L)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
int MPI_Init(int*, char***); int MPI_Init_thread(int*, char***, int, int*); int MPI_Initialized(int*); int MPI_Finalized(int*);
int MPI_Finalize(void); int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*); double MPI_Wtime(void); int MPI_Abort(MPI_Comm, int);
int MPI_Barrier(MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*); int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
#ifdef __cplusplus
}
namespace MPI {
static const MPI_Datatype DOUBLE = MPI_DOUBLE, FLOAT = MPI_FLOAT, INT = MPI_INT, UNSIGNED = MPI_UNSIGNED, LONG = MPI_LONG, UNSIGNED_LONG = MPI_UNSIGNED_LONG,
    LONG_LONG = MPI_LONG_LONG, UNSIGNED_LONG_LONG = MPI_UNSIGNED_LONG_LONG, CHAR = MPI_CHAR, BOOL = MPI_C_BOOL;
}
#endif
