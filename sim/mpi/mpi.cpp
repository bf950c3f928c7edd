#include "mpi.h"
#include "../sim.hpp"

#include <complex>
#include <cstdlib>
#include <cstring>

// this file is not instrumented; it touches user memory only through checked helpers
namespace
{
using namespace sim;
constexpr int MAXRANK = 16, MAXREQ = 512, MAXMSG = 256, MAXCOMM = 8, MAXCOLL = 32, MAXDATA = 2048;

struct Req
{
    int used, rank, isSend, done, peer, tag, comm, gen;
    unsigned char* buf;
    size_t bytes, got;
    uint64_t hash;
    int msg; // matched message
    int coll;
};
struct Msg
{
    int used, src, dst, tag, comm, eager, arrived, sendReq, recvReq;
    uint64_t arriveSeq;
    size_t bytes;
    unsigned char data[MAXDATA];
};
struct Coll
{
    int used, comm, kind, op, type, count, root, arrived;
    unsigned mask, left;
    uint64_t seq;
    unsigned char part[MAXRANK][256];
    unsigned char result[256];
    int ready;
};
struct World
{
    int n = 0;
    bool strict = false, off = false;
    Req req[MAXREQ];
    Msg msg[MAXMSG];
    Coll coll[MAXCOLL];
    int ncomm;
    uint64_t chan[MAXRANK][MAXRANK][MAXCOMM]; // last arrival time per channel
    uint64_t collSeq[MAXRANK][MAXCOMM];
    int dupSeq[MAXRANK];
    uint64_t postSeq, arriveSeq;
    uint64_t reqPost[MAXREQ];
    int freeHint;
    uint32_t patience; // 0: no rank stalls for long in this run
} w;

/// copies by the library itself: not accesses of the program
void cp(void* d, const void* s, size_t n)
{
    Quiet q;
    memcpy(d, s, n);
}
void fillEE(void* d, size_t n)
{
    Quiet q;
    memset(d, 0xEE, n);
}
/// addressable memory of the right kind, pending receives aside
void live(const void* p, size_t n, bool write, const char* what)
{
    suspendPending(true);
    checkRange(p, n, write, Space::Host, what);
    suspendPending(false);
}
int me()
{
    int t = tid();
    return t < 0 ? 0 : t;
}
size_t sizeOf(int t)
{
    switch (t)
    {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_INT8_T: case MPI_UINT8_T: return 1;
    case MPI_CXX_BOOL: return sizeof(bool);
    case MPI_WCHAR: return sizeof(wchar_t);
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: case MPI_INT16_T: case MPI_UINT16_T: return 2;
    case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4;
    case MPI_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_INT64_T: case MPI_UINT64_T: case MPI_CXX_FLOAT_COMPLEX: return 8;
    case MPI_LONG_DOUBLE: case MPI_CXX_DOUBLE_COMPLEX: return 16;
    case MPI_CXX_LONG_DOUBLE_COMPLEX: return 32;
    }
    fail("mpi-misuse", "invalid datatype %d", t);
}
void checkComm(int c)
{
    if (c <= 0 || c >= w.ncomm) fail("mpi-misuse", "invalid communicator");
}
uint64_t delay() { return chooseAs(S, 64, rnd(S, 3) == 0 ? rnd(S, 64) : rnd(S, 8)); }

void enter()
{
    // every call into the library is a scheduling point, and time may pass
    if (isQuiet() || waitingLong()) return;
    if (chooseAs(S, 4, rnd(S, 4) == 0 ? 1 + rnd(S, 3) : 0)) advance(1 + choose(S, 16));
    yieldPoint();
}
int newReq(int rank)
{
    for (int k = 1; k < MAXREQ; k++)
    {
        int i = 1 + (w.freeHint + k) % (MAXREQ - 1);
        if (!w.req[i].used)
        {
            w.freeHint = i;
            int gen = w.req[i].gen + 1;
            w.req[i] = Req {};
            w.req[i].used = 1;
            w.req[i].rank = rank;
            w.req[i].gen = gen;
            w.req[i].msg = -1;
            w.req[i].coll = -1;
            w.reqPost[i] = ++w.postSeq;
            return i;
        }
    }
    fail("sim-limit", "too many requests");
}
void tryMatch(int dst);
void evArrive(void* p)
{
    Msg& m = w.msg[(intptr_t)p];
    m.arrived = 1;
    m.arriveSeq = ++w.arriveSeq;
    tryMatch(m.dst);
}
void evRecvDone(void* p)
{
    w.req[(intptr_t)p].done = 1;
    probe("fault:delayed-completion");
}
void touchSendBuf(Req& r)
{
    live(r.buf, r.bytes, false, "message buffer of a pending send");
    if (w.strict && hashBytes(r.buf, r.bytes) != r.hash)
        fail("send-buffer-modified", "the buffer of a pending send from rank %d to rank %d was modified", r.rank, r.peer);
}
void evTransfer(void* p)
{
    int mi = (int)(intptr_t)p;
    Msg& m = w.msg[mi];
    Req& r = w.req[m.recvReq];
    const unsigned char* src = m.data;
    if (!m.eager)
    {
        Req& s = w.req[m.sendReq];
        touchSendBuf(s);
        src = s.buf;
    }
    live(r.buf, m.bytes, true, "message buffer of a pending receive");
    cp(r.buf, src, m.bytes);
    r.got = m.bytes;
    int rr = m.recvReq, ss = m.sendReq;
    bool eager = m.eager;
    m.used = 0;
    at(now() + delay(), evRecvDone, (void*)(intptr_t)rr);
    if (!eager) at(now() + delay(), evRecvDone, (void*)(intptr_t)ss);
    probe("messages-delivered");
}
void match(int mi, int ri)
{
    Msg& m = w.msg[mi];
    Req& r = w.req[ri];
    m.recvReq = ri;
    m.arrived = 2;
    r.msg = mi;
    r.peer = m.src;
    r.tag = m.tag;
    if (m.bytes > r.bytes) fail("message-truncated", "rank %d receives %zu bytes from rank %d (tag %d) into a buffer of %zu bytes", m.dst, m.bytes, m.src, m.tag, r.bytes);
    // the buffer of a pending receive may change at any time before completion
    uint32_t part = m.bytes ? chooseAs(S, 3, rnd(S, 3)) : 0;
    if (part)
    {
        size_t k = 1 + choose(S, (uint32_t)m.bytes);
        live(r.buf, k, true, "message buffer of a pending receive");
        if (part == 1) fillEE(r.buf, k);
        else if (m.eager)
            cp(r.buf, m.data, k);
        else
        {
            touchSendBuf(w.req[m.sendReq]);
            cp(r.buf, w.req[m.sendReq].buf, k);
        }
        probe("fault:partial-delivery");
    }
    at(now() + delay(), evTransfer, (void*)(intptr_t)mi);
}
void tryMatch(int dst)
{
    for (;;)
    {
        // oldest posted receive that has an arrived message; messages in arrival order
        int bm = -1, br = -1;
        uint64_t bestPost = ~0ull;
        for (int ri = 1; ri < MAXREQ; ri++)
        {
            Req& r = w.req[ri];
            if (!r.used || r.isSend || r.coll >= 0 || r.done || r.msg >= 0 || r.rank != dst || w.reqPost[ri] >= bestPost) continue;
            int cand = -1;
            for (int mi = 0; mi < MAXMSG; mi++)
            {
                Msg& m = w.msg[mi];
                if (!m.used || m.arrived != 1 || m.dst != dst || m.comm != r.comm) continue;
                if (r.peer != MPI_ANY_SOURCE && r.peer != m.src) continue;
                if (r.tag != MPI_ANY_TAG && r.tag != m.tag) continue;
                if (cand < 0 || w.msg[cand].arriveSeq > m.arriveSeq) cand = mi;
            }
            if (cand >= 0)
            {
                bm = cand;
                br = ri;
                bestPost = w.reqPost[ri];
            }
        }
        if (bm < 0) return;
        match(bm, br);
    }
}
int post(const void* buf, int count, MPI_Datatype t, int peer, int tag, MPI_Comm comm, MPI_Request* out, bool send, bool sync)
{
    enter();
    checkComm(comm);
    if (count < 0) fail("mpi-misuse", "negative count %d", count);
    if (peer < 0 ? !(peer == MPI_PROC_NULL || (!send && peer == MPI_ANY_SOURCE)) : peer >= w.n) fail("mpi-misuse", "rank %d does not exist", peer);
    if ((tag < 0 && !(!send && tag == MPI_ANY_TAG)) || tag > 32767) fail("mpi-misuse", "tag %d is outside the guaranteed range", tag);
    size_t bytes = (size_t)count * sizeOf(t);
    int rank = me();
    int ri = newReq(rank);
    Req& r = w.req[ri];
    r.isSend = send;
    r.peer = comm == MPI_COMM_SELF ? rank : peer;
    r.tag = tag;
    r.comm = comm;
    r.buf = (unsigned char*)buf;
    r.bytes = bytes;
    if (peer == MPI_PROC_NULL)
    {
        r.done = 1;
        *out = ri;
        return MPI_SUCCESS;
    }
    if (bytes) checkRange(buf, bytes, !send, Space::Host, send ? "message buffer to send" : "message buffer to receive into");
    if (send)
    {
        r.hash = hashBytes(buf, bytes);
        int mi = -1;
        for (int i = 0; i < MAXMSG; i++)
            if (!w.msg[i].used)
            {
                mi = i;
                break;
            }
        if (mi < 0) fail("sim-limit", "too many messages");
        Msg& m = w.msg[mi];
        m.used = 1;
        m.src = rank;
        m.dst = r.peer;
        m.tag = tag;
        m.comm = comm;
        m.bytes = bytes;
        m.arrived = 0;
        m.sendReq = ri;
        m.recvReq = -1;
        m.eager = sync || bytes > MAXDATA ? 0 : !choose(S, 2);
        if (bytes > MAXDATA) probe("large-messages");
        r.msg = mi;
        if (m.eager)
        {
            cp(m.data, buf, bytes);
            at(now() + delay(), evRecvDone, (void*)(intptr_t)ri);
        }
        // messages of one channel arrive in order
        uint64_t when = now() + delay();
        uint64_t& last = w.chan[rank][r.peer][comm];
        if (when < last) when = last;
        last = when;
        probe("fault:delayed-message");
        at(when, evArrive, (void*)(intptr_t)mi);
    }
    else
    {
        if (w.strict) markPendingRecv(buf, bytes, true);
        tryMatch(rank);
    }
    *out = ri;
    return MPI_SUCCESS;
}
/// the library tells the caller that the request is complete
void report(MPI_Request* q, MPI_Status* st)
{
    Req& r = w.req[*q];
    if (r.rank != me()) fail("mpi-misuse", "rank %d completes a request of rank %d", me(), r.rank);
    if (r.coll < 0 && r.peer != MPI_PROC_NULL)
    {
        if (r.isSend) touchSendBuf(r);
        else
        {
            if (w.strict) markPendingRecv(r.buf, r.bytes, false);
            live(r.buf, r.bytes, true, "message buffer of a pending receive");
        }
    }
    if (st)
    {
        st->MPI_SOURCE = r.peer;
        st->MPI_TAG = r.tag;
        st->MPI_ERROR = 0;
        st->bytes = r.got;
    }
    r.used = 0;
    *q = MPI_REQUEST_NULL;
}
bool finished(MPI_Request q)
{
    if (q == MPI_REQUEST_NULL) return true;
    if (q < 0 || q >= MAXREQ || !w.req[q].used) fail("mpi-misuse", "a request handle is not a live request");
    return w.req[q].done;
}
/// a completion may be noticed late
bool noticed()
{
    if (isQuiet() || waitingLong()) return true;
    if (choose(S, 6) == 5)
    {
        probe("fault:late-completion-report");
        return false;
    }
    return true;
}

// ---------------------------------------------------------------- collectives
template<class T>
void comb(int op, T* a, const T* b, int n)
{
    for (int i = 0; i < n; i++)
    {
        switch (op)
        {
        case MPI_SUM: a[i] = a[i] + b[i]; continue;
        case MPI_PROD: a[i] = a[i] * b[i]; continue;
        default: break;
        }
        if constexpr (std::is_arithmetic_v<T>)
        {
            switch (op)
            {
            case MPI_MAX: a[i] = a[i] < b[i] ? b[i] : a[i]; continue;
            case MPI_MIN: a[i] = b[i] < a[i] ? b[i] : a[i]; continue;
            default: break;
            }
            if constexpr (std::is_integral_v<T>)
            {
                switch (op)
                {
                case MPI_LAND: a[i] = a[i] && b[i]; continue;
                case MPI_LOR: a[i] = a[i] || b[i]; continue;
                case MPI_LXOR: a[i] = !a[i] != !b[i]; continue;
                case MPI_BAND: a[i] = a[i] & b[i]; continue;
                case MPI_BOR: a[i] = a[i] | b[i]; continue;
                case MPI_BXOR: a[i] = a[i] ^ b[i]; continue;
                default: break;
                }
            }
        }
        fail("mpi-misuse", "operation %d is not defined for this datatype", op);
    }
}
void combine(int op, int type, void* a, const void* b, int n)
{
#define C(E, T) case E: comb<T>(op, (T*)a, (const T*)b, n); return;
    switch (type)
    {
        C(MPI_CHAR, char) C(MPI_SIGNED_CHAR, signed char) C(MPI_UNSIGNED_CHAR, unsigned char)
        C(MPI_BYTE, unsigned char) C(MPI_WCHAR, wchar_t) C(MPI_SHORT, short) C(MPI_INT, int) C(MPI_LONG, long)
        C(MPI_LONG_LONG, long long) C(MPI_UNSIGNED_SHORT, unsigned short) C(MPI_UNSIGNED, unsigned)
        C(MPI_UNSIGNED_LONG, unsigned long) C(MPI_UNSIGNED_LONG_LONG, unsigned long long)
        C(MPI_FLOAT, float) C(MPI_DOUBLE, double) C(MPI_LONG_DOUBLE, long double)
        C(MPI_INT8_T, int8_t) C(MPI_INT16_T, int16_t) C(MPI_INT32_T, int32_t) C(MPI_INT64_T, int64_t)
        C(MPI_UINT8_T, uint8_t) C(MPI_UINT16_T, uint16_t) C(MPI_UINT32_T, uint32_t) C(MPI_UINT64_T, uint64_t)
        C(MPI_CXX_FLOAT_COMPLEX, std::complex<float>) C(MPI_CXX_DOUBLE_COMPLEX, std::complex<double>)
        C(MPI_CXX_LONG_DOUBLE_COMPLEX, std::complex<long double>)
    case MPI_CXX_BOOL:
    {
        bool* x = (bool*)a;
        const bool* y = (const bool*)b;
        for (int i = 0; i < n; i++)
            switch (op)
            {
            case MPI_LAND: x[i] = x[i] && y[i]; break;
            case MPI_LOR: x[i] = x[i] || y[i]; break;
            case MPI_LXOR: x[i] = x[i] != y[i]; break;
            default: fail("mpi-misuse", "operation %d is not defined for booleans", op);
            }
        return;
    }
    }
#undef C
    fail("mpi-misuse", "invalid datatype %d", type);
}
enum CollKind
{
    K_BARRIER,
    K_BCAST,
    K_REDUCE,
    K_ALLREDUCE,
    K_GATHER
};
/// this rank joins its next collective on comm; returns its index
int joinColl(int kind, int comm, int op, int type, int count, int root, const void* in, size_t bytes)
{
    checkComm(comm);
    int rank = me();
    uint64_t seq = w.collSeq[rank][comm]++;
    if (bytes > 256) fail("sim-limit", "collective too large");
    int slot = -1, fre = -1;
    for (int i = 0; i < MAXCOLL; i++)
    {
        if (w.coll[i].used && w.coll[i].comm == comm && w.coll[i].seq == seq && comm != MPI_COMM_SELF) slot = i;
        if (!w.coll[i].used && fre < 0) fre = i;
    }
    if (slot < 0)
    {
        if (fre < 0) fail("sim-limit", "too many collectives");
        slot = fre;
        Coll& c = w.coll[slot];
        c.mask = 0;
        c.left = 0;
        c.arrived = 0;
        c.ready = 0;
        c.used = 1;
        c.comm = comm;
        c.seq = seq;
        c.kind = kind;
        c.op = op;
        c.type = type;
        c.count = count;
        c.root = root;
    }
    Coll& c = w.coll[slot];
    if (c.kind != kind || c.op != op || c.type != type || c.count != count || c.root != root)
        fail("collective-mismatch", "rank %d joins collective %llu with kind %d op %d type %d count %d, others with kind %d op %d type %d count %d", rank, (unsigned long long)seq, kind, op, type, count, c.kind, c.op, c.type, c.count);
    if (in) cp(c.part[rank], in, bytes);
    c.mask |= 1u << rank;
    c.arrived++;
    int need = comm == MPI_COMM_SELF ? 1 : w.n;
    if (c.arrived == need)
    {
        c.left = need;
        if (kind == K_REDUCE || kind == K_ALLREDUCE)
        {
            int order[MAXRANK], n = 0;
            for (int i = 0; i < w.n; i++)
                if (c.mask >> i & 1) order[n++] = i;
            for (int k = n; k > 0; k--)
            {
                int j = (int)choose(S, k);
                int r = order[j];
                for (int i = j; i + 1 < k; i++) order[i] = order[i + 1];
                if (k == n) cp(c.result, c.part[r], bytes);
                else
                    combine(op, type, c.result, c.part[r], count);
            }
        }
        if (kind == K_BCAST) cp(c.result, c.part[root], bytes);
        c.ready = 1;
        probe("collectives");
    }
    return slot;
}
void leaveColl(int slot)
{
    Coll& c = w.coll[slot];
    if (--c.left == 0) c.used = 0;
}
int collective(int kind, const void* in, void* out, int count, MPI_Datatype type, int op, int root, MPI_Comm comm)
{
    enter();
    if (kind == K_REDUCE || kind == K_ALLREDUCE)
    {
        if (op <= 0 || op > MPI_MINLOC) fail("mpi-misuse", "invalid reduction operation %d", op);
        if (op >= MPI_MAXLOC) fail("mpi-misuse", "a location reduction needs a pair type");
        unsigned char a[256] = {1, 1, 1, 1, 1, 1, 1, 1}, b[256] = {1, 1, 1, 1, 1, 1, 1, 1};
        if (count) combine(op, type, a, b, 1); // is the operation defined for the type?
    }
    if (count < 0) fail("mpi-misuse", "negative count");
    size_t bytes = type ? (size_t)count * sizeOf(type) : 0;
    const void* src = in == MPI_IN_PLACE ? out : in;
    if (bytes)
    {
        if (src) checkRange(src, bytes, false, Space::Host, "collective input");
        if (out) checkRange(out, bytes, true, Space::Host, "collective output");
    }
    int slot = joinColl(kind, comm, op, type, count, root, src, bytes);
    while (!w.coll[slot].ready) pollYield();
    // ranks leave at different times
    uint32_t linger = chooseAs(S, 4, rnd(S, 4));
    for (uint32_t i = 0; i < linger; i++) yieldPoint();
    if (out && bytes && !(kind == K_REDUCE && me() != root)) cp(out, w.coll[slot].result, bytes);
    leaveColl(slot);
    return MPI_SUCCESS;
}
}

namespace simmpi
{
void start(int ranks, bool strict)
{
    for (auto& r : w.req) r.used = 0, r.gen = 0;
    for (auto& m : w.msg) m.used = 0;
    for (auto& c : w.coll) c.used = 0;
    w.off = false;
    w.postSeq = w.arriveSeq = 0;
    w.freeHint = 0;
    {
        Quiet q;
        memset(w.chan, 0, sizeof w.chan);
        memset(w.collSeq, 0, sizeof w.collSeq);
        memset(w.dupSeq, 0, sizeof w.dupSeq);
        memset(w.reqPost, 0, sizeof w.reqPost);
    }
    w.n = ranks;
    w.strict = strict;
    w.ncomm = 3;
    w.patience = chooseAs(F, 12, rnd(F, 24) == 0 ? 1 + rnd(F, 9) : 0);
}
void abandon() { w.off = true; }
void finish()
{
    if (w.off) return;
    for (int i = 0; i < MAXMSG; i++)
        if (w.msg[i].used) fail("message-left", "a message from rank %d to rank %d with tag %d was never received", w.msg[i].src, w.msg[i].dst, w.msg[i].tag);
    for (int i = 1; i < MAXREQ; i++)
        if (w.req[i].used) fail("request-left", "a %s of rank %d (peer %d, tag %d) was never completed", w.req[i].isSend ? "send" : "receive", w.req[i].rank, w.req[i].peer, w.req[i].tag);
    for (int i = 0; i < MAXCOLL; i++)
        if (w.coll[i].used) fail("collective-left", "a collective was not completed by all ranks");
}
static int countIn(const void* p, size_t n, bool unfinished)
{
    int c = 0;
    auto* b = (const unsigned char*)p;
    for (int i = 1; i < MAXREQ; i++)
        if (w.req[i].used && w.req[i].coll < 0 && w.req[i].rank == me() && w.req[i].bytes && w.req[i].buf < b + n && w.req[i].buf + w.req[i].bytes > b)
            c += unfinished ? !w.req[i].done : 1;
    return c;
}
int pendingIn(const void* p, size_t n) { return countIn(p, n, false); }
int unfinishedIn(const void* p, size_t n) { return countIn(p, n, true); }
bool idle()
{
    for (auto& r : w.req)
        if (r.used) return false;
    for (auto& m : w.msg)
        if (m.used) return false;
    return true;
}
static void nothing(void*) {}
void maybeStall()
{
    if (chooseAs(F, 12, rnd(F, 12)) != 11) return;
    uint64_t until = now() + 1 + choose(F, 300);
    if (w.patience && !waitingLong() && chooseAs(F, 3, rnd(F, 3)) == 2)
    {
        // a rank that is away for so long that the others poll many thousand times
        until = now() + (1000u << choose(F, w.patience));
        waitLong(until);
        probe("fault:rank-stalled-long");
    }
    probe("fault:stalled-rank");
    at(until, nothing, nullptr);
    while (now() < until) pollYield();
}
}

extern "C"
{
int MPI_Init(int*, char***) { return 0; }
int MPI_Init_thread(int*, char***, int r, int* p)
{
    *p = r;
    return 0;
}
int MPI_Finalize() { return 0; }
int MPI_Initialized(int* f)
{
    *f = 1;
    return 0;
}
int MPI_Finalized(int* f)
{
    *f = 0;
    return 0;
}
int MPI_Abort(MPI_Comm, int) { abort(); }
int MPI_Comm_rank(MPI_Comm c, int* r)
{
    checkComm(c);
    *r = c == MPI_COMM_SELF ? 0 : me();
    return 0;
}
int MPI_Comm_size(MPI_Comm c, int* n)
{
    checkComm(c);
    *n = c == MPI_COMM_SELF ? 1 : w.n;
    return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out)
{
    collective(K_BARRIER, nullptr, nullptr, 0, MPI_DATATYPE_NULL, 0, 0, c);
    int id = 3 + w.dupSeq[me()]++;
    if (id >= MAXCOMM) fail("sim-limit", "too many communicators");
    if (w.ncomm <= id) w.ncomm = id + 1;
    *out = (MPI_Comm)id;
    return 0;
}
int MPI_Comm_free(MPI_Comm* c)
{
    *c = MPI_COMM_NULL;
    return 0;
}
int MPI_Type_size(MPI_Datatype t, int* n)
{
    *n = (int)sizeOf(t);
    return 0;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request* r) { return post(b, n, t, p, tag, c, r, true, false); }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request* r) { return post(b, n, t, p, tag, c, r, true, true); }
int MPI_Irecv(void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Request* r) { return post(b, n, t, p, tag, c, r, false, false); }
int MPI_Wait(MPI_Request* q, MPI_Status* st)
{
    enter();
    if (*q == MPI_REQUEST_NULL) return 0;
    while (!finished(*q)) pollYield();
    report(q, st);
    return 0;
}
int MPI_Waitall(int n, MPI_Request* q, MPI_Status* st)
{
    for (int i = 0; i < n; i++) MPI_Wait(q + i, st ? st + i : nullptr);
    return 0;
}
int MPI_Waitany(int n, MPI_Request* q, int* idx, MPI_Status* st)
{
    enter();
    for (;;)
    {
        int any = 0;
        for (int i = 0; i < n; i++)
        {
            if (q[i] == MPI_REQUEST_NULL) continue;
            any = 1;
            if (finished(q[i]))
            {
                report(q + i, st);
                *idx = i;
                return 0;
            }
        }
        if (!any)
        {
            *idx = MPI_UNDEFINED;
            return 0;
        }
        pollYield();
    }
}
int MPI_Test(MPI_Request* q, int* flag, MPI_Status* st)
{
    if (*q == MPI_REQUEST_NULL)
    {
        *flag = 1;
        return 0;
    }
    enter();
    if (finished(*q) && noticed())
    {
        report(q, st);
        *flag = 1;
        return 0;
    }
    *flag = 0;
    pollYield();
    return 0;
}
int MPI_Testall(int n, MPI_Request* q, int* flag, MPI_Status* st)
{
    *flag = 1;
    bool any = false;
    for (int i = 0; i < n; i++) any = any || q[i] != MPI_REQUEST_NULL;
    if (!any) return 0;
    enter();
    for (int i = 0; i < n; i++)
        if (!finished(q[i])) *flag = 0;
    if (*flag && !noticed()) *flag = 0;
    if (!*flag)
    {
        pollYield();
        return 0;
    }
    for (int i = 0; i < n; i++)
        if (q[i] != MPI_REQUEST_NULL) report(q + i, st ? st + i : nullptr);
    return 0;
}
int MPI_Testany(int n, MPI_Request* q, int* idx, int* flag, MPI_Status* st)
{
    enter();
    int any = 0;
    for (int i = 0; i < n; i++)
    {
        if (q[i] == MPI_REQUEST_NULL) continue;
        any = 1;
        if (finished(q[i]) && noticed())
        {
            report(q + i, st);
            *idx = i;
            *flag = 1;
            return 0;
        }
    }
    *idx = MPI_UNDEFINED;
    *flag = !any;
    if (any) pollYield();
    return 0;
}
int MPI_Testsome(int n, MPI_Request* q, int* out, int* idx, MPI_Status* st)
{
    enter();
    int any = 0, k = 0;
    for (int i = 0; i < n; i++)
    {
        if (q[i] == MPI_REQUEST_NULL) continue;
        any = 1;
        if (!finished(q[i]) || !noticed()) continue;
        report(q + i, st ? st + k : nullptr);
        idx[k++] = i;
    }
    *out = any ? k : MPI_UNDEFINED;
    if (any && !k) pollYield();
    return 0;
}
int MPI_Waitsome(int n, MPI_Request* q, int* out, int* idx, MPI_Status* st)
{
    do MPI_Testsome(n, q, out, idx, st);
    while (*out == 0);
    return 0;
}
int MPI_Request_get_status(MPI_Request q, int* flag, MPI_Status*)
{
    // the request stays as it is: completion is only looked at
    *flag = 1;
    if (q == MPI_REQUEST_NULL) return 0;
    enter();
    *flag = finished(q) && noticed();
    if (!*flag) pollYield();
    return 0;
}
int MPI_Get_count(const MPI_Status* st, MPI_Datatype t, int* n)
{
    size_t s = sizeOf(t);
    *n = st->bytes % s ? MPI_UNDEFINED : (int)(st->bytes / s);
    return 0;
}
int MPI_Sendrecv(const void* b, int n, MPI_Datatype t, int p, int tag, void* b2, int n2, MPI_Datatype t2, int p2, int tag2, MPI_Comm c, MPI_Status* st)
{
    MPI_Request r[2];
    MPI_Irecv(b2, n2, t2, p2, tag2, c, r);
    MPI_Isend(b, n, t, p, tag, c, r + 1);
    MPI_Wait(r, st);
    return MPI_Wait(r + 1, nullptr);
}
int MPI_Query_thread(int* l)
{
    *l = MPI_THREAD_MULTIPLE;
    return 0;
}
int MPI_Error_string(int, char* s, int* n)
{
    s[0] = 'e';
    s[1] = 0;
    *n = 1;
    return 0;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c)
{
    MPI_Request r;
    MPI_Isend(b, n, t, p, tag, c, &r);
    return MPI_Wait(&r, nullptr);
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int p, int tag, MPI_Comm c, MPI_Status* st)
{
    MPI_Request r;
    MPI_Irecv(b, n, t, p, tag, c, &r);
    return MPI_Wait(&r, st);
}
int MPI_Barrier(MPI_Comm c) { return collective(K_BARRIER, nullptr, nullptr, 0, MPI_DATATYPE_NULL, 0, 0, c); }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) { return collective(K_BCAST, b, b, n, t, 0, root, c); }
int MPI_Reduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c) { return collective(K_REDUCE, in, out, n, t, op, root, c); }
int MPI_Allreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { return collective(K_ALLREDUCE, in, out, n, t, op, 0, c); }
int MPI_Iallreduce(const void* in, void* out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request* q)
{
    // completes before it returns: one of the allowed behaviours
    int r = collective(K_ALLREDUCE, in, out, n, t, op, 0, c);
    *q = newReq(me());
    w.req[*q].coll = 1;
    w.req[*q].done = 1;
    return r;
}
int MPI_Allgather(const void* in, int n, MPI_Datatype t, void* out, int n2, MPI_Datatype t2, MPI_Comm c)
{
    enter();
    size_t bytes = (size_t)n * sizeOf(t);
    if (n2 != n || t2 != t) fail("mpi-misuse", "allgather with different counts or types");
    const void* src = in == MPI_IN_PLACE ? (char*)out + me() * bytes : in;
    int slot = joinColl(K_GATHER, c, 0, t, n, 0, src, bytes);
    while (!w.coll[slot].ready) pollYield();
    checkRange(out, bytes * w.n, true, Space::Host, "collective output");
    for (int i = 0; i < w.n; i++) cp((char*)out + i * bytes, w.coll[slot].part[i], bytes);
    leaveColl(slot);
    return 0;
}
double MPI_Wtime() { return (double)now() * 1e-6; }
}
