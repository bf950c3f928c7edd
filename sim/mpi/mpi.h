// Stand-in for an MPI library: ranks are fibers of one process; message order, delays, partial
// delivery, completion and arrival order in collectives come from the seeded scheduler.
#pragma once
#include <cstddef>

enum MPI_Comm : int
{
    MPI_COMM_NULL = 0,
    MPI_COMM_WORLD = 1,
    MPI_COMM_SELF = 2
};
enum MPI_Datatype : int
{
    MPI_DATATYPE_NULL = 0,
    MPI_CHAR,
    MPI_SIGNED_CHAR,
    MPI_UNSIGNED_CHAR,
    MPI_BYTE,
    MPI_WCHAR,
    MPI_SHORT,
    MPI_INT,
    MPI_LONG,
    MPI_LONG_LONG,
    MPI_UNSIGNED_SHORT,
    MPI_UNSIGNED,
    MPI_UNSIGNED_LONG,
    MPI_UNSIGNED_LONG_LONG,
    MPI_FLOAT,
    MPI_DOUBLE,
    MPI_LONG_DOUBLE,
    MPI_CXX_BOOL,
    MPI_CXX_FLOAT_COMPLEX,
    MPI_CXX_DOUBLE_COMPLEX,
    MPI_CXX_LONG_DOUBLE_COMPLEX,
    MPI_INT8_T,
    MPI_INT16_T,
    MPI_INT32_T,
    MPI_INT64_T,
    MPI_UINT8_T,
    MPI_UINT16_T,
    MPI_UINT32_T,
    MPI_UINT64_T
};
constexpr MPI_Datatype MPI_LONG_LONG_INT = MPI_LONG_LONG;
constexpr MPI_Datatype MPI_C_BOOL = MPI_CXX_BOOL;
enum MPI_Op : int
{
    MPI_OP_NULL = 0,
    MPI_MAX,
    MPI_MIN,
    MPI_SUM,
    MPI_PROD,
    MPI_LAND,
    MPI_BAND,
    MPI_LOR,
    MPI_BOR,
    MPI_LXOR,
    MPI_BXOR,
    MPI_MAXLOC,
    MPI_MINLOC
};
typedef int MPI_Request;
constexpr MPI_Request MPI_REQUEST_NULL = 0;
struct MPI_Status
{
    int MPI_SOURCE, MPI_TAG, MPI_ERROR;
    size_t bytes;
};
#define MPI_STATUS_IGNORE ((MPI_Status*)nullptr)
#define MPI_STATUSES_IGNORE ((MPI_Status*)nullptr)
#define MPI_IN_PLACE ((void*)1)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_UNDEFINED (-3)
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_MAX_ERROR_STRING 64

extern "C"
{
int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Finalize();
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm, int);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Type_size(MPI_Datatype, int*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Testsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*);
int MPI_Request_get_status(MPI_Request, int*, MPI_Status*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Query_thread(int*);
int MPI_Error_string(int, char*, int*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
double MPI_Wtime();
}

namespace simmpi
{
/// a new world of n ranks; rank = fiber id. strict: buffers are checked until completion is reported
void start(int ranks, bool strict);
/// after all ranks ended: nothing may be left in flight
void finish();
/// requests of this rank that touch [p, p+n) and whose completion was not reported yet
int pendingIn(const void* p, size_t n);
/// of those, how many are not complete
int unfinishedIn(const void* p, size_t n);
/// all messages were consumed and all requests completed (between phases)
bool idle();
/// a rank that does not take part in anything for a while
void maybeStall();
/// drop all expectations (the run ends early by design)
void abandon();
}
