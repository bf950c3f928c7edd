// Mini MPI for the demonstrations: all ranks live in one thread, mini::rank is the one that is calling.
// A message is taken from the sender's memory when the receiver tests it for the delay-th time.
#pragma once
#include <cstdlib>
#include <cstring>
#include <functional>
#include <list>
#include <vector>
#define OMPI_MPI_H 1
namespace mini
{
struct Msg { int src, dst, tag, size; const void* buf; bool taken; };
struct Req { bool send; int owner, peer, tag, size; void* buf; Msg* m; int tests; bool done; };
inline int rank = 0, ranks = 1;
inline std::function<int(int, int)> delay = [](int, int) { return 0; };
inline std::list<Msg>& msgs() { static std::list<Msg> m; return m; }
inline std::list<Req*>& recvs() { static std::list<Req*> m; return m; }
/// every call of a rank moves all its receives forward
inline void progress()
{
    for (Req* q : recvs())
        if (q->owner == rank && !q->done && q->tests++ >= delay(q->peer, rank))
            for (auto& m : msgs())
                if (!m.taken && m.src == q->peer && m.dst == rank && m.tag == q->tag)
                {
                    memcpy(q->buf, m.buf, m.size < q->size ? m.size : q->size);
                    m.taken = q->done = true;
                    break;
                }
}
struct Reduce { int type = 0, op = 0, count = 0; };
inline Reduce last;
inline std::function<void(void*, int, int, int)> reducer;
}
using MPI_Comm = int;
using MPI_Datatype = int;
using MPI_Op = int;
using MPI_Request = mini::Req*;
struct MPI_Status {};
enum { MPI_SUCCESS = 0, MPI_COMM_NULL = 0, MPI_COMM_WORLD = 1, MPI_THREAD_MULTIPLE = 3 };
#define MPI_REQUEST_NULL ((MPI_Request) nullptr)
#define MPI_STATUS_IGNORE ((MPI_Status*)nullptr)
#define MPI_IN_PLACE ((void*)-1)
enum { MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR, MPI_MAXLOC, MPI_MINLOC };
enum { MPI_CHAR, MPI_WCHAR, MPI_SHORT, MPI_INT, MPI_LONG, MPI_LONG_LONG, MPI_UNSIGNED_SHORT, MPI_UNSIGNED, MPI_UNSIGNED_LONG, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE, MPI_CXX_BOOL, MPI_CXX_FLOAT_COMPLEX, MPI_CXX_DOUBLE_COMPLEX, MPI_CXX_LONG_DOUBLE_COMPLEX };
inline int MPI_Init(int*, char***) { return 0; }
inline int MPI_Init_thread(int*, char***, int, int* p) { *p = MPI_THREAD_MULTIPLE; return 0; }
inline int MPI_Finalize() { return 0; }
inline int MPI_Abort(MPI_Comm, int c) { _Exit(c ? c : 1); }
inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = mini::rank; return 0; }
inline int MPI_Comm_size(MPI_Comm, int* r) { *r = mini::ranks; return 0; }
inline int MPI_Isend(const void* b, int n, MPI_Datatype, int dst, int tag, MPI_Comm, MPI_Request* r)
{
    mini::msgs().push_back({mini::rank, dst, tag, n, b, false});
    *r = new mini::Req {true, mini::rank, dst, tag, n, nullptr, &mini::msgs().back(), 0, false};
    return 0;
}
inline int MPI_Irecv(void* b, int n, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Request* r)
{
    mini::recvs().push_back(*r = new mini::Req {false, mini::rank, src, tag, n, b, nullptr, 0, false});
    return 0;
}
inline int MPI_Test(MPI_Request* r, int* flag, MPI_Status*)
{
    *flag = 1;
    if (!*r) return 0;
    mini::progress();
    *flag = (*r)->send ? (*r)->m->taken : (*r)->done;
    if (*flag)
    {
        mini::recvs().remove(*r);
        delete *r;
        *r = nullptr;
    }
    return 0;
}
inline int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status*)
{
    *flag = 1;
    for (int i = 0; i < n; i++)
    {
        int f;
        MPI_Test(r + i, &f, nullptr);
        *flag &= f;
    }
    return 0;
}
inline int MPI_Wait(MPI_Request* r, MPI_Status*)
{
    for (int f = 0; !f;) MPI_Test(r, &f, nullptr);
    return 0;
}
inline int MPI_Waitall(int n, MPI_Request* r, MPI_Status*)
{
    for (int i = 0; i < n; i++) MPI_Wait(r + i, nullptr);
    return 0;
}
inline int MPI_Allreduce(const void*, void* b, int n, MPI_Datatype t, MPI_Op op, MPI_Comm)
{
    mini::last = {t, op, n};
    if (mini::reducer) mini::reducer(b, n, t, op);
    return 0;
}
