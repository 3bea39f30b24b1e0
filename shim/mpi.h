// Minimal MPI interface for the verification builds. By default there is one
// process; see spmd.hpp for running several ranks as threads of one process.
#pragma once
#include <cstddef>
#include <cstring>

typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Info;
typedef int MPI_Request;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };

#define MPI_SUCCESS 0
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_COMM_TYPE_SHARED 1
#define MPI_INFO_NULL 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

enum { MPI_CHAR = 1, MPI_INT, MPI_LONG, MPI_LONG_LONG, MPI_UNSIGNED, MPI_UNSIGNED_LONG,
       MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_C_BOOL, MPI_BYTE, MPI_INT64_T,
       MPI_UINT64_T, MPI_LONG_LONG_INT = MPI_LONG_LONG };
enum { MPI_MAX = 1, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_LOR, MPI_BAND, MPI_BOR };

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int* provided);
int MPI_Initialized(int* flag);
int MPI_Finalized(int* flag);
int MPI_Finalize();
int MPI_Abort(MPI_Comm, int code);
int MPI_Barrier(MPI_Comm);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int color, int key, MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm, int type, int key, MPI_Info, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Allreduce(const void* s, void* r, int n, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce(const void* s, void* r, int n, MPI_Datatype, MPI_Op, int root, MPI_Comm);
int MPI_Bcast(void* b, int n, MPI_Datatype, int root, MPI_Comm);
int MPI_Gather(const void* s, int ns, MPI_Datatype, void* r, int nr, MPI_Datatype, int root, MPI_Comm);
int MPI_Allgather(const void* s, int ns, MPI_Datatype, void* r, int nr, MPI_Datatype, MPI_Comm);
int MPI_Gatherv(const void* s, int ns, MPI_Datatype, void* r, const int* nr, const int* displs,
                MPI_Datatype, int root, MPI_Comm);
int MPI_Allgatherv(const void* s, int ns, MPI_Datatype, void* r, const int* nr, const int* displs,
                   MPI_Datatype, MPI_Comm);
double MPI_Wtime();
