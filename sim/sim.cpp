// NeoSim core: choice streams, fibers, scheduler, memory arenas, access checking, race detection,
// fault injection, libc overrides, run isolation, minimisation, replay.
// This file is compiled WITHOUT -fsanitize=thread and provides the __tsan_* entry points.
#include "sim.hpp"

#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <ctime>
#include <elf.h>
#include <fcntl.h>
#include <iostream>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <streambuf>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" char __libc_single_threaded;
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);

namespace sim
{
bool (*classifyHook)(Outcome&, const std::exception&) = nullptr;

namespace
{
// ------------------------------------------------------------------ layout
constexpr uintptr_t BASE = 0x100000000000ull;
constexpr size_t HOST_SZ = 256ull << 20, DEV_SZ = 64ull << 20;
constexpr size_t MAIN_STK = 1ull << 20, FIB_STK = 256ull << 10;
constexpr int MAX_FIB = 40;
constexpr size_t STK_SZ = MAIN_STK + MAX_FIB * FIB_STK;
constexpr size_t TOTAL = HOST_SZ + DEV_SZ + (32ull << 20);
constexpr uintptr_t DEV0 = BASE + HOST_SZ, STK0 = DEV0 + DEV_SZ, END = BASE + TOTAL;
static_assert(STK_SZ <= (32ull << 20));
constexpr uintptr_t ASH = 0x200000000000ull;  // 1 byte / 8 bytes
constexpr uintptr_t RSH = 0x300000000000ull;  // 64 bytes / 8 bytes
constexpr uintptr_t IDX = 0x400000000000ull;  // 4 bytes / 16 bytes
constexpr uintptr_t RECS = 0x500000000000ull; // allocation records
constexpr uintptr_t GSH = 0x600000000000ull;  // race shadow of the executable's data
constexpr uint32_t MAX_REC = 4u << 20;

struct Slot
{
    uint32_t pc, who, clk;
    uint8_t mask, fl;
    uint16_t pad;
};
static_assert(sizeof(Slot) == 16);
enum
{
    FL_W = 1,
    FL_A = 2,
    FL_K = 4,
    FL_V = 8
};
struct Rec
{
    uint32_t size;
    uint8_t live, kind, quiet, arr;
    uintptr_t addr;
    uintptr_t nextFree;
};

// ------------------------------------------------------------------ shared result record
constexpr uint32_t CAP_W = 1 << 16, CAP_S = 1 << 17, CAP_F = 1 << 13, CAP_M = 4096;
constexpr uint32_t CAP_LOG = 192 << 10;
struct Mark
{
    uint32_t w, s, f;
};
struct ProbeRec
{
    char name[48];
    uint64_t n;
};
constexpr int MAXP = 96;
enum Status : uint32_t
{
    ST_NONE,
    ST_OK,
    ST_FAIL,
    ST_CRASH
};
struct Result
{
    uint32_t status;
    char kind[64];
    char msg[1024];
    char sigs[8][64];
    char sigMsg[8][300];
    uint32_t nSigs;
    uint64_t hash, steps, preempts, simtime;
    uint32_t nontriv;
    uint32_t n[3];
    uint32_t overflow;
    uint32_t w[CAP_W], s[CAP_S], f[CAP_F];
    uint32_t nMarks;
    Mark marks[CAP_M];
    uint32_t nProbes;
    ProbeRec probes[MAXP];
    uint32_t logLen;
    char logBuf[CAP_LOG];
    uint32_t* arr(int k) { return k == 0 ? w : k == 1 ? s : f; }
    static uint32_t cap(int k) { return k == 0 ? CAP_W : k == 1 ? CAP_S : CAP_F; }
};

// ------------------------------------------------------------------ fibers
constexpr int NT = MAX_FIB + 1;
struct VC
{
    uint32_t c[NT];
};
struct Fiber
{
    void* sp;
    int id;       // slot; -1 for the main fiber
    int tid;      // vector clock index (main 0)
    uintptr_t lo, hi;
    FiberFn fn;
    void* arg;
    const char* name;
    enum
    {
        Free,
        Runnable,
        Blocked,
        Done
    } state;
    const void* waitObj;
    VC vc;
    void* eh[2];
    uint8_t tls[1024];
    AttemptFrame* frame;
    uint32_t failAt; // countdown, 0 = not armed
    bool failPersist, failFired, counting;
    uint32_t allocCount;
    int quiet;
    uint32_t iter; // kernel iteration being executed
    // kernel worker
    const KernelBody* body;
    const uint32_t* list;
    uint32_t listN;
};
struct Group
{
    Fiber* f[MAX_FIB];
    int n;
    Fiber* launcher;
    Group* outer;
    uint32_t gap; // accesses until next preemption, 0 = never
    uint32_t mean;
    bool kernel;
};
struct Ev
{
    uint64_t t, seq;
    void (*fn)(void*);
    void* arg;
};
struct SyncVar
{
    const void* addr;
    VC vc;
    bool used;
};
struct Mutex
{
    const void* addr;
    Fiber* owner;
    int depth;
    int readers;
    bool used;
};
struct Pend
{
    uintptr_t lo, hi;
};

struct G
{
    bool inited, on, replay;
    uint64_t prng[3];
    const uint32_t* rep[3];
    uint32_t repN[3];
    Result* res;
    uint64_t seed;
    // memory
    uintptr_t hostTop, devTop, hostLo;
    uint32_t nRec;
    MemStat ms;
    const char* only; // kinds of failure this run judges (null: all)
    uint32_t exits;   // operations that ended by process exit
    int reuse;
    uint8_t junk;
    uintptr_t freeList[64];
    Pend pend[256];
    int nPend;
    bool noPend;
    // fibers
    Fiber mainF;
    Fiber fib[MAX_FIB];
    Fiber* cur;
    Group* grp;
    Group pendingGrp;
    bool pendingOpen;
    bool yields, race, kpre;
    uint64_t preemptCap;
    // kernel
    bool kern;
    bool kernInline;
    uint32_t kernId;
    Space kspace;
    uintptr_t kStackTop; // for inline kernels: addresses of the current stack below are private
    int nextWorkerWho;
    // faults
    bool faults;
    int rate;
    // events
    Ev ev[4096];
    int nEv;
    uint64_t evSeq, now;
    uint32_t idlePolls;
    uint64_t longWait;
    // sync
    SyncVar sv[512];
    Mutex mx[256];
    // misc
    uint64_t hash;
    uint64_t stepLimit;
    char cap[32768];
    uint32_t capLen;
    uintptr_t gLo, gHi;
    uintptr_t tlsLo;
    size_t tlsSz;
    size_t tlsFileSz;
    const void* tlsInit;
    uintptr_t exLo[6], exHi[6];
    int nEx;
    // known signatures
    const char* known;
} g;


void mapFixed(uintptr_t a, size_t n)
{
    void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)a)
    {
        fprintf(stderr, "neosim: cannot map %lx (%s)\n", (unsigned long)a, strerror(errno));
        _exit(3);
    }
}

void initMem()
{
    if (g.inited) return;
    g.inited = true;
    mapFixed(BASE, TOTAL);
    mapFixed(ASH, TOTAL >> 3);
    mapFixed(RSH, (TOTAL >> 3) * 64);
    mapFixed(IDX, (TOTAL >> 4) * 4);
    mapFixed(RECS, sizeof(Rec) * (size_t)MAX_REC);
    g.hostTop = BASE + 4096;
    g.devTop = DEV0 + 4096;
    g.nRec = 1;
    g.cur = &g.mainF;
    g.mainF.id = -1;
    g.race = true;
    g.kpre = true;
    g.junk = 0xCD;
}

inline uint8_t& ash(uintptr_t a) { return *(uint8_t*)(ASH + ((a - BASE) >> 3)); }
inline Slot* rsh(uintptr_t a)
{
    if (a >= BASE && a < END) return (Slot*)(RSH + ((a - BASE) >> 3) * 64);
    return (Slot*)(GSH + ((a - g.gLo) >> 3) * 64);
}
inline uint32_t& idxOf(uintptr_t a) { return *(uint32_t*)(IDX + ((a - BASE) >> 4) * 4); }
inline Rec& rec(uint32_t i) { return ((Rec*)RECS)[i]; }
inline bool isArena(uintptr_t a) { return a >= BASE && a < STK0; }
inline bool isStack(uintptr_t a) { return a >= STK0 && a < END; }

uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline void mix(uint64_t v) { g.hash = (g.hash ^ v) * 0x100000001b3ull; g.hash ^= g.hash >> 29; }

void vlog(const char* fmt, va_list ap)
{
    if (!g.res) return;
    char buf[1200];
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    if (n < 0) return;
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    for (int i = 0; i < n; i++) mix((unsigned char)buf[i]);
    if (g.res->logLen + n + 1 < CAP_LOG)
    {
        __real_memcpy(g.res->logBuf + g.res->logLen, buf, n);
        g.res->logLen += n;
        g.res->logBuf[g.res->logLen++] = '\n';
    }
}

[[noreturn]] void finish(uint32_t status)
{
    Result* r = g.res;
    r->hash = g.hash;
    r->simtime = g.now;
    r->status = status;
    _exit(0);
}

/// the run only judges some kinds of failure and this is not one of them
bool otherKind(const char* kind)
{
    if (!g.only) return false;
    char pat[100];
    snprintf(pat, sizeof pat, ",%s,", kind);
    return !strstr(g.only, pat);
}

[[noreturn]] void failv(const char* kind, const char* fmt, va_list ap)
{
    Result* r = g.res;
    if (!r)
    {
        fprintf(stderr, "neosim: failure outside a run: %s: ", kind);
        vfprintf(stderr, fmt, ap);
        fprintf(stderr, "\n");
        _exit(3);
    }
    if (otherKind(kind))
    {
        g.on = false;
        char nm[40];
        snprintf(nm, sizeof nm, "ended early: %s", kind);
        probe(nm);
        finish(ST_OK);
    }
    snprintf(r->kind, sizeof r->kind, "%s", kind);
    vsnprintf(r->msg, sizeof r->msg, fmt, ap);
    for (const char* p = r->kind; *p; p++) mix((unsigned char)*p);
    finish(ST_FAIL);
}

// ------------------------------------------------------------------ fiber switching
extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

void* ehGlobals() { return abi::__cxa_get_globals(); }

void switchTo(Fiber* t)
{
    Fiber* me = g.cur;
    if (t == me) return;
    __real_memcpy(me->eh, ehGlobals(), 16);
    if (g.tlsSz) __real_memcpy(me->tls, (void*)g.tlsLo, g.tlsSz);
    g.cur = t;
    __real_memcpy(ehGlobals(), t->eh, 16);
    if (g.tlsSz) __real_memcpy((void*)g.tlsLo, t->tls, g.tlsSz);
    sim_switch(&me->sp, t->sp);
    // resumed (whoever switched to us restored our state)
}

void runnableList(Group* gr, Fiber** out, int& n)
{
    n = 0;
    for (int i = 0; i < gr->n; i++)
        if (gr->f[i]->state == Fiber::Runnable) out[n++] = gr->f[i];
}

Fiber* pickNext(Group* gr, bool rotate, bool first = false)
{
    for (;;)
    {
        Fiber* l[MAX_FIB];
        int n;
        runnableList(gr, l, n);
        if (n == 0)
        {
            bool alive = false;
            for (int i = 0; i < gr->n; i++)
                if (gr->f[i]->state == Fiber::Blocked) alive = true;
            if (!alive) return nullptr;
            if (advanceToNextEvent()) continue;
            char who[256];
            int o = 0;
            for (int i = 0; i < gr->n && o < 200; i++)
                if (gr->f[i]->state == Fiber::Blocked)
                    o += snprintf(who + o, sizeof who - o, " %s", gr->f[i]->name);
            fail("deadlock", "no runnable fiber and no pending event; blocked:%s", who);
        }
        int start = 0;
        if (rotate)
            for (int i = 0; i < n; i++)
                if (l[i]->id > g.cur->id)
                {
                    start = i;
                    break;
                }
        int k = n == 1 || first ? 0 : (int)choose(S, n);
        return l[(start + k) % n];
    }
}

void drawGap(Group* gr)
{
    if (gr->mean == 0 || g.res->preempts > g.preemptCap)
    {
        gr->gap = 0;
        return;
    }
    uint32_t n = 2 * gr->mean + 1;
    uint32_t v = chooseAs(S, n, 1 + rnd(S, n - 1));
    gr->gap = v;
}

void preempt()
{
    Group* gr = g.grp;
    Fiber* l[MAX_FIB];
    int n;
    runnableList(gr, l, n);
    drawGap(gr);
    if (n <= 1) return;
    int pos = 0;
    for (int i = 0; i < n; i++)
        if (l[i] == g.cur) pos = i;
    uint32_t k = chooseAs(S, n, 1 + rnd(S, n - 1));
    if (k == 0) return;
    Fiber* t = l[(pos + k) % n];
    g.res->preempts++;
    mix(0x51 + t->id);
    switchTo(t);
}

void fiberDone()
{
    Fiber* me = g.cur;
    me->state = Fiber::Done;
    Group* gr = g.grp;
    Fiber* t = pickNext(gr, false);
    if (!t) t = gr->launcher;
    switchTo(t);
    __builtin_unreachable();
}

void fiberEntry()
{
    Fiber* f = g.cur;
    try
    {
        if (f->body)
        {
            for (uint32_t i = 0; i < f->listN; i++)
            {
                f->iter = f->list[i];
                f->body->call(f->body->ctx, f->list[i]);
            }
        }
        else
            f->fn(f->arg);
    }
    catch (const std::exception& e)
    {
        fail("uncaught", "exception escaped %s: %s", f->name, e.what());
    }
    catch (...)
    {
        fail("uncaught", "unknown exception escaped %s", f->name);
    }
    fiberDone();
}

Fiber* allocFiber(const char* name)
{
    for (int i = 0; i < MAX_FIB; i++)
        if (g.fib[i].state == Fiber::Free)
        {
            Fiber* f = &g.fib[i];
            uint32_t keepClk = f->vc.c[i + 1];
            VC keep = f->vc;
            uintptr_t lo = STK0 + MAIN_STK + i * FIB_STK;
            __real_memset((void*)f, 0, sizeof *f);
            f->vc = keep;
            f->vc.c[i + 1] = keepClk;
            f->id = i;
            f->tid = i + 1;
            f->lo = lo;
            f->hi = lo + FIB_STK;
            f->name = name;
            f->state = Fiber::Runnable;
            if (g.tlsSz)
            {
                __real_memset(f->tls, 0, sizeof f->tls);
                __real_memcpy(f->tls, g.tlsInit, g.tlsFileSz);
            }
            uintptr_t sp = f->hi - 64;
            sp &= ~15ull;
            sp -= 8;
            *(uintptr_t*)sp = 0;
            void** s = (void**)sp;
            *--s = (void*)fiberEntry;
            for (int k = 0; k < 6; k++) *--s = nullptr;
            --s;
            uint32_t mxcsr;
            uint16_t cw;
            asm volatile("stmxcsr %0" : "=m"(mxcsr));
            asm volatile("fnstcw %0" : "=m"(cw));
            ((uint32_t*)s)[0] = mxcsr;
            ((uint32_t*)s)[1] = cw;
            f->sp = s;
            return f;
        }
    fail("sim-limit", "too many fibers");
}

void clearStackShadow(Fiber* f)
{
    // only the part that is likely to have been touched: from the top down until an untouched page run
    uintptr_t a = f->hi;
    int cleanPages = 0;
    while (a > f->lo && cleanPages < 4)
    {
        a -= 4096;
        // one page of stack = 32KB of shadow
        char* sh = (char*)rsh(a);
        bool any = false;
        for (size_t i = 0; i < 32768; i += 64)
            if (((Slot*)(sh + i))->fl)
            {
                any = true;
                break;
            }
        if (any)
        {
            __real_memset(sh, 0, 32768);
            cleanPages = 0;
        }
        else
            cleanPages++;
    }
}

void vcJoin(VC& a, const VC& b)
{
    for (int i = 0; i < NT; i++)
        if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}

void runGroup(Group* gr)
{
    gr->outer = g.grp;
    gr->launcher = g.cur;
    g.grp = gr;
    int savedQuiet = g.cur->quiet;
    Fiber* t = pickNext(gr, false);
    if (t) switchTo(t);
    g.cur->quiet = savedQuiet;
    g.grp = gr->outer;
    for (int i = 0; i < gr->n; i++)
    {
        vcJoin(g.cur->vc, gr->f[i]->vc);
        gr->f[i]->state = Fiber::Free;
    }
    g.cur->vc.c[g.cur->tid]++;
}

// ------------------------------------------------------------------ sync variables
SyncVar* sv(const void* a)
{
    size_t h = ((uintptr_t)a >> 2) * 0x9E3779B97F4A7C15ull >> 55;
    for (size_t i = 0; i < 512; i++)
    {
        SyncVar* s = &g.sv[(h + i) & 511];
        if (!s->used)
        {
            s->used = true;
            s->addr = a;
            return s;
        }
        if (s->addr == a) return s;
    }
    fail("sim-limit", "too many synchronisation objects");
}
void acquire(const void* a)
{
    if (g.grp && !g.kern) vcJoin(g.cur->vc, sv(a)->vc);
}
void release(const void* a)
{
    if (g.grp && !g.kern)
    {
        vcJoin(sv(a)->vc, g.cur->vc);
        g.cur->vc.c[g.cur->tid]++;
    }
}

// ------------------------------------------------------------------ access checking
const char* describe(uintptr_t a, char* buf, size_t n)
{
    if (isArena(a))
    {
        // find the block at or before
        uintptr_t p = a & ~15ull;
        for (int i = 0; i < 4096 && p >= BASE; i++, p -= 16)
        {
            uint32_t ix = idxOf(p);
            if (ix)
            {
                Rec& r = rec(ix);
                snprintf(buf, n, "%ld bytes into %s%s block of %u bytes (allocation #%u)", (long)(a - p),
                         r.live ? "" : "freed ", r.kind == 2 ? "device" : "host", r.size, ix);
                return buf;
            }
        }
        snprintf(buf, n, "unallocated %s memory", a >= DEV0 ? "device" : "host");
    }
    else if (isStack(a))
        snprintf(buf, n, "stack");
    else if (a >= g.gLo && a < g.gHi)
        snprintf(buf, n, "global data");
    else
        snprintf(buf, n, "foreign memory");
    return buf;
}

[[noreturn]] void memFail(const char* kind, uintptr_t a, size_t n, bool write, uint32_t pc)
{
    char b[200];
    fail(kind, "%s of %zu bytes at %s [pc %x]", write ? "write" : "read", n, describe(a, b, sizeof b), pc);
}

inline void raceWord(uintptr_t wa, uint8_t mask, bool write, bool atomic, uint32_t pc)
{
    Slot* sl = rsh(wa);
    Fiber* me = g.cur;
    const bool k = g.kern;
    const uint32_t who = k ? me->iter : (uint32_t)me->tid;
    const uint32_t clk = k ? g.kernId : me->vc.c[me->tid];
    int freeIx = -1, sameIx = -1, stale = -1, readIx = -1;
    for (int i = 0; i < 4; i++)
    {
        Slot& s = sl[i];
        if (!(s.fl & FL_V))
        {
            if (freeIx < 0) freeIx = i;
            continue;
        }
        bool same, ordered;
        if (k)
        {
            if (!(s.fl & FL_K) || s.clk != clk)
            {
                stale = i;
                continue;
            }
            same = s.who == who;
            ordered = same;
        }
        else
        {
            if (s.fl & FL_K)
            {
                stale = i;
                continue;
            }
            same = s.who == who;
            ordered = same || me->vc.c[s.who] >= s.clk;
        }
        if ((s.mask & mask) && !ordered)
        {
            bool w2 = s.fl & FL_W, a2 = s.fl & FL_A;
            if ((write || w2) && !(atomic && a2))
            {
                char b[200];
                fail("race",
                     "data race: %s%s by %s %u [pc %x] and %s%s by %s %u [pc %x] on %s", atomic ? "atomic " : "",
                     write ? "write" : "read", k ? "iteration" : "thread", who, pc, a2 ? "atomic " : "",
                     w2 ? "write" : "read", k ? "iteration" : "thread", s.who, s.pc, describe(wa, b, sizeof b));
            }
        }
        if (same && s.mask == mask && (s.fl & (FL_W | FL_A)) == (write ? FL_W : 0) + (atomic ? FL_A : 0)) sameIx = i;
        else if (ordered && !same && !k) stale = i;
        else if (ordered && same && !k && (s.mask & ~mask) == 0 && (write || !(s.fl & FL_W))) stale = i;
        if (!(s.fl & FL_W)) readIx = i;
    }
    int ix = sameIx >= 0 ? sameIx : freeIx >= 0 ? freeIx : stale >= 0 ? stale : (write || readIx < 0) ? (int)(g.res->steps & 3) : readIx;
    Slot& s = sl[ix];
    s.pc = pc;
    s.who = who;
    s.clk = clk;
    s.mask = mask;
    s.fl = FL_V | (write ? FL_W : 0) | (atomic ? FL_A : 0) | (k ? FL_K : 0);
}

void checkArena(uintptr_t a, size_t n, bool write, uint32_t pc)
{
    // addressability
    uintptr_t e = a + n;
    for (uintptr_t w = a & ~7ull; w < e; w += 8)
    {
        uint8_t s = ash(w);
        if (s == 8) continue;
        uintptr_t last = (e < w + 8 ? e : w + 8) - w; // bytes of the word needed up to
        if (s >= 1 && s <= 7 && last <= s) continue;
        if (s == 0xFD) memFail("use-after-free", a, n, write, pc);
        memFail("out-of-bounds", a, n, write, pc);
    }
    if (g.nPend && !g.noPend)
        for (int i = 0; i < g.nPend; i++)
            if (a < g.pend[i].hi && e > g.pend[i].lo)
            {
                char b[200];
                fail("pending-buffer", "%s of memory a pending receive is writing: %s [pc %x]", write ? "write" : "read",
                     describe(a, b, sizeof b), pc);
            }
}

void countStep()
{
    if (++g.res->steps > g.stepLimit) fail("no-progress", "step limit exceeded (%lu accesses)", (unsigned long)g.stepLimit);
}

void access(uintptr_t a, size_t n, bool write, bool atomic, uint32_t pc)
{
    if (!g.on || g.cur->quiet || n == 0) return;
    countStep();
    if (g.grp && g.grp->gap && (g.yields || g.grp->kernel))
        if (--g.grp->gap == 0) preempt();
    bool global = false;
    if (a >= BASE && a < END)
    {
        if (a < STK0)
        {
            const bool dev = a >= DEV0;
            if (dev != (g.kern && g.kspace == Space::Device))
            {
                if (dev) memFail("memory-space", a, n, write, pc);
                // host memory touched by a device kernel: allowed only for the functor copy
                uint32_t ix = 0;
                uintptr_t p = a & ~15ull;
                for (int i = 0; i < 4096; i++, p -= 16)
                    if ((ix = idxOf(p))) break;
                if (!(ix && rec(ix).kind == 3)) memFail("memory-space", a, n, write, pc);
            }
            checkArena(a, n, write, pc);
        }
        else
        {
            // stacks
            Fiber* me = g.cur;
            if (g.kern)
            {
                if (g.kernInline)
                {
                    if (a >= me->lo && a < g.kStackTop) return; // private part
                }
                else if (a >= me->lo && a < me->hi)
                    return;
                if (g.kspace == Space::Device)
                    memFail("memory-space", a, n, write, pc);
            }
        }
    }
    else if (a >= g.gLo && a < g.gHi)
    {
        global = true;
        for (int i = 0; i < g.nEx; i++)
            if (a >= g.exLo[i] && a < g.exHi[i]) return;
    }
    else if (a < 4096)
        memFail("null-dereference", a, n, write, pc);
    else
        return;
    (void)global;
    if (!g.race || !g.grp) 
    {
        if (!(g.race && g.kern)) return;
    }
    uintptr_t e = a + n;
    for (uintptr_t w = a & ~7ull; w < e; w += 8)
    {
        unsigned lo = a > w ? a - w : 0, hi = e < w + 8 ? e - w : 8;
        uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
        raceWord(w, mask, write, atomic, pc);
    }
}

// ------------------------------------------------------------------ allocation
void setLive(uintptr_t a, size_t n)
{
    uintptr_t w = a;
    size_t full = n / 8;
    __real_memset(&ash(w), 8, full);
    if (n % 8) ash(w + full * 8) = n % 8;
}
void clearRace(uintptr_t a, size_t n) { __real_memset(rsh(a), 0, ((n + 7) / 8) * 64); }

int sizeClass(size_t n)
{
    size_t c = (n + 15) / 16;
    return c < 64 ? (int)c : -1;
}

void* rawAlloc(size_t n, size_t align, uint8_t kind, uint8_t arr)
{
    initMem();
    if (n == 0) n = 1;
    if (align < 16) align = 16;
    const bool dev = kind == 2;
    uintptr_t p = 0;
    uint32_t ix = 0;
    int sc = sizeClass(n);
    if (!dev && g.on && g.reuse && align == 16 && sc > 0 && g.freeList[sc])
    {
        p = g.freeList[sc];
        ix = idxOf(p);
        g.freeList[sc] = rec(ix).nextFree;
        __real_memset(&ash(p), 0, (size_t)sc * 2);
    }
    else
    {
        uintptr_t& top = dev ? g.devTop : g.hostTop;
        p = (top + align - 1) & ~(uintptr_t)(align - 1);
        uintptr_t end = ((p + n + 15) & ~15ull) + 16;
        if (end > (dev ? STK0 : DEV0))
        {
            if (g.res) fail("memory-exhausted", "simulated %s memory exhausted (request of %zu bytes)", dev ? "device" : "host", n);
            fprintf(stderr, "neosim: arena exhausted\n");
            _exit(3);
        }
        top = end;
        ix = g.nRec++;
        if (ix >= MAX_REC) fail("memory-exhausted", "too many allocations");
        idxOf(p) = ix;
    }
    Rec& r = rec(ix);
    r.size = (uint32_t)n;
    r.live = 1;
    r.kind = kind;
    r.quiet = g.cur->quiet > 0;
    r.arr = arr;
    r.addr = p;
    r.nextFree = 0;
    setLive(p, n);
    if (g.on)
    {
        clearRace(p, n);
        __real_memset((void*)p, g.junk, n);
    }
    if (kind == 2)
    {
        g.ms.devBlocks++;
        g.ms.devBytes += n;
    }
    else if (kind != 3 && !r.quiet)
    {
        g.ms.hostBlocks++;
        g.ms.hostBytes += n;
        if (kind == 1) g.ms.kkBlocks++;
    }
    return (void*)p;
}

void rawFree(void* q, int kindWanted)
{
    if (!q) return;
    uintptr_t p = (uintptr_t)q;
    if (!isArena(p))
    {
        if (g.res) fail("bad-free", "freeing a pointer that was never allocated");
        return;
    }
    uint32_t ix = (p & 15) ? 0 : idxOf(p);
    if (!ix) fail("bad-free", "freeing an address that is not the start of a block");
    Rec& r = rec(ix);
    if (!r.live) fail("double-free", "freeing allocation #%u (%u bytes) a second time", ix, r.size);
    if (kindWanted >= 0 && r.kind != kindWanted)
        fail("bad-free", "allocation #%u (%u bytes) of kind %d freed by the deallocator of kind %d", ix, r.size, r.kind, kindWanted);
    if (g.nPend)
        for (int i = 0; i < g.nPend; i++)
            if (p < g.pend[i].hi && p + r.size > g.pend[i].lo)
                fail("pending-buffer", "memory of a pending message is freed (allocation #%u, %u bytes)", ix, r.size);
    if (g.on && !g.cur->quiet && g.grp && g.race && !g.kern)
        access(p, r.size, true, false, (uint32_t)(uintptr_t)__builtin_return_address(0));
    r.live = 0;
    if (r.kind == 2)
    {
        g.ms.devBlocks--;
        g.ms.devBytes -= r.size;
    }
    else if (r.kind != 3 && !r.quiet)
    {
        g.ms.hostBlocks--;
        g.ms.hostBytes -= r.size;
        if (r.kind == 1) g.ms.kkBlocks--;
    }
    if (g.on)
    {
        __real_memset((void*)p, 0xDD, r.size);
        __real_memset(&ash(p), 0xFD, (r.size + 7) / 8);
        int sc = sizeClass(r.size);
        if (g.reuse && r.kind != 2 && sc > 0 && p % 16 == 0)
        {
            r.nextFree = g.freeList[sc];
            g.freeList[sc] = p;
        }
    }
}

bool allocShouldFail()
{
    Fiber* f = g.cur;
    if (!g.on || f->quiet) return false;
    if (f->counting) f->allocCount++;
    if (!f->failAt) return false;
    if (f->failFired && f->failPersist) return true;
    if (f->failFired) return false;
    if (--f->failAt == 0)
    {
        f->failAt = 1;
        f->failFired = true;
        probe("fault:alloc-failure");
        return true;
    }
    return false;
}

void* opNew(size_t n, size_t al, bool nothrow, uint8_t arr)
{
    if (g.on && allocShouldFail())
    {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if (g.on && n > (1ull << 31))
    {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    return rawAlloc(n, al, 0, arr);
}

// ------------------------------------------------------------------ captured output
struct CapBuf : std::streambuf
{
    int overflow(int c) override
    {
        if (c != EOF && g.capLen + 1 < sizeof g.cap) g.cap[g.capLen++] = (char)c;
        return c;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        for (std::streamsize i = 0; i < n; i++) overflow((unsigned char)s[i]);
        return n;
    }
};
alignas(16) unsigned char capStore[sizeof(CapBuf)];

// ------------------------------------------------------------------ properties
struct Prop
{
    const char* id;
    PropFn fn;
    const char* rule;
};
Prop props[64];
int nProps;

} // namespace

// ================================================================== public API
Register::Register(const char* p, PropFn fn, const char* rule, bool) { props[nProps++] = {p, fn, rule}; }

uint32_t rnd(Stream s, uint32_t n)
{
    if (g.replay || n == 0) return 0;
    return (uint32_t)(splitmix(g.prng[s]) % n);
}
uint32_t chooseAs(Stream s, uint32_t n, uint32_t gen)
{
    Result* r = g.res;
    uint32_t i = r->n[s];
    uint32_t v;
    if (i >= Result::cap(s))
    {
        r->overflow = 1;
        return 0;
    }
    if (g.replay)
        v = i < g.repN[s] ? g.rep[s][i] : 0;
    else
        v = gen;
    if (n == 0) n = 1;
    if (v >= n) v = g.replay ? v % n : n - 1;
    r->arr(s)[i] = v;
    r->n[s] = i + 1;
    mix(v * 4 + s);
    return v;
}
uint32_t choose(Stream s, uint32_t n) { return chooseAs(s, n, rnd(s, n)); }
bool flip(Stream s, uint32_t num, uint32_t den) { return chooseAs(s, 2, rnd(s, den) < num) != 0; }
uint32_t small(uint32_t n)
{
    uint32_t m = 1 + rnd(W, n);
    return chooseAs(W, n, rnd(W, m));
}
bool nextOp(uint32_t softMax)
{
    Result* r = g.res;
    if (r->nMarks < CAP_M) r->marks[r->nMarks++] = {r->n[0], r->n[1], r->n[2]};
    return chooseAs(W, 2, rnd(W, softMax) != 0) != 0;
}

void fail(const char* kind, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    failv(kind, fmt, ap);
}
void require(bool c, const char* kind, const char* fmt, ...)
{
    if (c) return;
    va_list ap;
    va_start(ap, fmt);
    failv(kind, fmt, ap);
}
void finding(const char* sig, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    char pat[100];
    snprintf(pat, sizeof pat, ",%s,", sig);
    if (g.known && strstr(g.known, pat))
    {
        Result* r = g.res;
        for (uint32_t i = 0; i < r->nSigs; i++)
            if (!strcmp(r->sigs[i], sig)) return;
        if (r->nSigs < 8)
        {
            snprintf(r->sigs[r->nSigs], 64, "%s", sig);
            vsnprintf(r->sigMsg[r->nSigs], 300, fmt, ap);
            r->nSigs++;
        }
        return;
    }
    char kind[64];
    snprintf(kind, sizeof kind, "finding:%s", sig);
    failv(kind, fmt, ap);
}
void onlyKinds(const char* kinds) { g.only = kinds; }
uint32_t exits() { return g.exits; }
PropFn propFn(const char* name)
{
    for (int i = 0; i < nProps; i++)
        if (!strcmp(props[i].id, name)) return props[i].fn;
    return nullptr;
}
void log(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vlog(fmt, ap);
    va_end(ap);
}
void probe(const char* name, uint64_t n)
{
    Result* r = g.res;
    if (!r) return;
    for (uint32_t i = 0; i < r->nProbes; i++)
        if (!strcmp(r->probes[i].name, name))
        {
            r->probes[i].n += n;
            return;
        }
    if (r->nProbes < MAXP)
    {
        snprintf(r->probes[r->nProbes].name, sizeof r->probes[0].name, "%s", name);
        r->probes[r->nProbes++].n = n;
    }
}
void nontrivial() { g.res->nontriv = 1; }

void quietInc() { g.cur->quiet++; }
void quietDec() { g.cur->quiet--; }
bool isQuiet() { return g.cur->quiet > 0; }
Quiet::Quiet() { g.cur->quiet++; }
Quiet::~Quiet() { g.cur->quiet--; }

const char* resName(Res r)
{
    static const char* n[] = {"ok", "bad_alloc", "injected", "out_of_range", "bad_any_cast", "bad_cast", "neofoam-exception", "std-exception", "unknown-exception", "exited", "aborted"};
    return n[(int)r];
}
void attemptPush(AttemptFrame& f)
{
    f.prev = g.cur->frame;
    __real_memcpy(f.eh, ehGlobals(), 16);
    f.exitKind = 0;
    f.quiet = g.cur->quiet;
    g.cur->frame = &f;
    g.cur->counting = true;
    g.cur->allocCount = 0;
    g.cur->failAt = 0;
    g.cur->failFired = false;
    g.cur->failPersist = false;
}
void attemptPop(AttemptFrame& f) { g.cur->frame = f.prev; }
void allowFaults(bool on) { g.faults = on; }
bool faultsEnabled() { return g.faults; }
void armAlloc(uint32_t span)
{
    if (!g.faults) return;
    // 0 = no failure; k = k-th allocation fails; k > span: all allocations from k-span on fail
    uint32_t gen = rnd(F, 100) < 45 ? 1 + rnd(F, 1 + rnd(F, 2 * span)) : 0;
    uint32_t v = chooseAs(F, 2 * span + 1, gen);
    if (!v) return;
    armAllocAt(v > span ? v - span : v, v > span);
}
void armAllocAt(uint32_t k, bool persistent)
{
    g.cur->failAt = k;
    g.cur->failPersist = persistent;
    g.cur->failFired = false;
    probe("armed:alloc-failure");
}
void disarmAlloc(Outcome& o)
{
    o.faultFired = g.cur->failFired;
    o.allocs = g.cur->allocCount;
    g.cur->failAt = 0;
    g.cur->failFired = false;
    g.cur->counting = false;
}
void classify(Outcome& o)
{
    quietInc();
    try
    {
        throw;
    }
    catch (const Injected&)
    {
        o.res = Res::Injected;
    }
    catch (const std::bad_alloc& e)
    {
        o.res = Res::BadAlloc;
    }
    catch (const std::exception& e)
    {
        snprintf(o.what, sizeof o.what, "%s", e.what());
        if (classifyHook && classifyHook(o, e)) {}
        else if (dynamic_cast<const std::out_of_range*>(&e)) o.res = Res::OutOfRange;
        else if (dynamic_cast<const std::bad_any_cast*>(&e)) o.res = Res::BadAnyCast;
        else if (dynamic_cast<const std::bad_cast*>(&e)) o.res = Res::BadCast;
        else o.res = Res::StdOther;
    }
    catch (...)
    {
        o.res = Res::Unknown;
    }
    quietDec();
}

int spawn(FiberFn fn, void* arg, const char* name)
{
    if (!g.pendingOpen)
    {
        __real_memset((void*)&g.pendingGrp, 0, sizeof(Group));
        g.pendingOpen = true;
    }
    Fiber* f = allocFiber(name);
    f->fn = fn;
    f->arg = arg;
    clearStackShadow(f);
    vcJoin(f->vc, g.cur->vc);
    f->vc.c[f->tid]++;
    g.cur->vc.c[g.cur->tid]++;
    g.pendingGrp.f[g.pendingGrp.n++] = f;
    return f->id;
}
void joinAll()
{
    Group gr = g.pendingGrp;
    g.pendingOpen = false;
    if (gr.n == 0) return;
    static const uint32_t means[] = {0, 6, 40, 250, 1500};
    uint32_t m = g.yields ? chooseAs(S, 5, 1 + rnd(S, 4)) : 0;
    gr.mean = means[m];
    Group* saved = g.grp;
    (void)saved;
    if (g.yields) drawGap(&gr);
    runGroup(&gr);
}
void yieldPoint()
{
    Group* gr = g.grp;
    if (!gr || g.cur->quiet) return;
    Fiber* l[MAX_FIB];
    int n;
    runnableList(gr, l, n);
    if (n <= 1) return;
    int pos = 0;
    for (int i = 0; i < n; i++)
        if (l[i] == g.cur) pos = i;
    uint32_t k = chooseAs(S, n, rnd(S, 2) ? rnd(S, n) : 0);
    if (k == 0) return;
    g.res->preempts++;
    switchTo(l[(pos + k) % n]);
}
int tid() { return g.cur->id; }
void blockOn(const void* obj)
{
    Fiber* me = g.cur;
    me->state = Fiber::Blocked;
    me->waitObj = obj;
    if (!g.grp) 
    {
        // main fiber alone: only events can help
        while (me->state == Fiber::Blocked)
            if (!advanceToNextEvent()) fail("deadlock", "blocked with no other thread and no pending event");
        return;
    }
    while (me->state == Fiber::Blocked)
    {
        Fiber* t = pickNext(g.grp, true);
        if (!t) fail("deadlock", "all fibers finished while one is blocked");
        if (t == me) break;
        switchTo(t);
    }
}
void wake(const void* obj)
{
    if (!g.grp)
    {
        if (g.cur->state == Fiber::Blocked && g.cur->waitObj == obj) g.cur->state = Fiber::Runnable;
        return;
    }
    for (int i = 0; i < g.grp->n; i++)
        if (g.grp->f[i]->state == Fiber::Blocked && g.grp->f[i]->waitObj == obj) g.grp->f[i]->state = Fiber::Runnable;
}
void pollYield()
{
    countStep();
    g.idlePolls++;
    g.now++;
    if (runDueEvents()) g.idlePolls = 0;
    int n = g.grp ? g.grp->n : 1;
    const bool longWait = g.now < g.longWait;
    if (!longWait && g.idlePolls > (uint32_t)(4 * n))
    {
        if (advanceToNextEvent()) g.idlePolls = 0;
        else if (g.idlePolls > 3000)
            fail("no-progress", "all threads keep polling although no message is in flight");
    }
    if (!g.grp) return;
    Fiber* t = pickNext(g.grp, true, longWait);
    if (t && t != g.cur) switchTo(t);
}
void waitLong(uint64_t until) { g.longWait = until; }
bool waitingLong() { return g.now < g.longWait; }
void enableYields(bool on) { g.yields = on; }
void raceDetect(bool on) { g.race = on; }

uint64_t now() { return g.now; }
void advance(uint64_t dt)
{
    g.now += dt;
    runDueEvents();
}
void at(uint64_t when, void (*fn)(void*), void* arg)
{
    if (g.nEv >= 4096) fail("sim-limit", "too many events");
    int i = g.nEv++;
    Ev e {when, g.evSeq++, fn, arg};
    while (i > 0 && (g.ev[i - 1].t < e.t || (g.ev[i - 1].t == e.t && g.ev[i - 1].seq < e.seq)))
    {
        g.ev[i] = g.ev[i - 1];
        i--;
    }
    g.ev[i] = e; // sorted descending: earliest last
}
bool runDueEvents()
{
    bool any = false;
    while (g.nEv && g.ev[g.nEv - 1].t <= g.now)
    {
        Ev e = g.ev[--g.nEv];
        any = true;
        e.fn(e.arg);
    }
    return any;
}
bool advanceToNextEvent()
{
    if (!g.nEv) return false;
    if (g.ev[g.nEv - 1].t > g.now) g.now = g.ev[g.nEv - 1].t;
    return runDueEvents();
}
bool eventsPending() { return g.nEv > 0; }

// ------------------------------------------------------------------ kernels
bool inKernel() { return g.kern; }
void setKernelPreempt(bool b) { g.kpre = b; }

void kernel(size_t n, KernelBody body, Space space)
{
    if (n == 0) return;
    if (!g.on || g.kern || g.cur->quiet)
    {
        if (g.kern && !g.cur->quiet) fail("nested-kernel", "a parallel algorithm was launched from inside a kernel");
        for (size_t i = 0; i < n; i++) body.call(body.ctx, i);
        return;
    }
    Fiber* me = g.cur;
    uint32_t wk = n == 1 ? 0 : chooseAs(S, 4, rnd(S, 3) == 0 ? 0 : 1 + rnd(S, 3)); // workers-1
    uint32_t workers = wk + 1;
    if (workers > n) workers = (uint32_t)n;
    g.kernId++;
    g.kspace = space;
    probe(space == Space::Device ? "kernels:device" : "kernels:host-parallel");
    if (workers == 1)
    {
        g.kern = true;
        g.kernInline = true;
        g.kStackTop = (uintptr_t)__builtin_frame_address(0);
        uint32_t rev = n > 1 ? choose(S, 2) : 0;
        for (size_t i = 0; i < n; i++)
        {
            me->iter = (uint32_t)(rev ? n - 1 - i : i);
            body.call(body.ctx, me->iter);
        }
        g.kern = false;
        g.kernInline = false;
        return;
    }
    probe("kernels:multi-worker");
    // assignment of iterations to workers
    uint32_t* order = (uint32_t*)rawAlloc(n * 4 * 2, 16, 3, 0);
    uint32_t* owner = order + n;
    uint32_t strat = choose(S, 4);
    for (size_t i = 0; i < n; i++)
    {
        switch (strat)
        {
        case 0: owner[i] = (uint32_t)(i * workers / n); break;
        case 1: owner[i] = (uint32_t)(i % workers); break;
        case 2: owner[i] = (uint32_t)((i / 2) % workers); break;
        default: owner[i] = choose(S, workers); break;
        }
    }
    Group gr;
    __real_memset((void*)&gr, 0, sizeof gr);
    gr.kernel = true;
    uint32_t pos = 0;
    for (uint32_t w = 0; w < workers; w++)
    {
        uint32_t b = pos;
        for (size_t i = 0; i < n; i++)
            if (owner[i] == w) order[pos++] = (uint32_t)i;
        Fiber* f = allocFiber("worker");
        f->body = &body;
        f->list = order + b;
        f->listN = pos - b;
        gr.f[gr.n++] = f;
    }
    static const uint32_t means[] = {0, 3, 12, 60};
    gr.mean = g.kpre ? means[chooseAs(S, 4, 1 + rnd(S, 3))] : 0;
    if (gr.mean) drawGap(&gr);
    g.kern = true;
    bool savedY = g.yields;
    g.yields = false;
    runGroup(&gr);
    g.yields = savedY;
    g.kern = false;
    // the scratch list stays allocated in quiet bookkeeping only
    rawFree(order, 3);
}
size_t kernelChunks(size_t n, size_t* bounds, size_t maxChunks)
{
    bounds[0] = 0;
    if (n == 0) return 0;
    uint32_t c = 1 + (n == 1 ? 0 : chooseAs(S, 4, rnd(S, 4)));
    if (c > n) c = (uint32_t)n;
    if (c >= maxChunks) c = (uint32_t)maxChunks - 1;
    for (uint32_t i = 1; i < c; i++)
    {
        size_t lo = bounds[i - 1] + 1, hi = n - (c - i);
        bounds[i] = lo + choose(S, (uint32_t)(hi - lo + 1));
    }
    bounds[c] = n;
    return c;
}
void atomicSync(void* p, size_t n, bool write)
{
    if (!g.on || g.cur->quiet) return;
    access((uintptr_t)p, n, write, true, (uint32_t)(uintptr_t)__builtin_return_address(0));
}

// ------------------------------------------------------------------ memory API
void* hostAlloc(size_t n, size_t align, const char*)
{
    if (g.on && allocShouldFail()) throw std::bad_alloc();
    if (n > (1ull << 31)) throw std::bad_alloc();
    return rawAlloc(n, align, 1, 0);
}
void hostFree(void* p) { rawFree(p, 1); }
void* devAlloc(size_t n, const char*)
{
    if (g.on && allocShouldFail()) throw std::bad_alloc();
    if (n > (1ull << 31)) throw std::bad_alloc();
    return rawAlloc(n, 16, 2, 0);
}
void devFree(void* p) { rawFree(p, 2); }
void* functorAlloc(size_t n, size_t align) { return rawAlloc(n, align, 3, 0); }
void functorFree(void* p) { rawFree(p, 3); }
size_t allocSize(void* p)
{
    uintptr_t a = (uintptr_t)p;
    if (!isArena(a) || (a & 15)) return 0;
    uint32_t ix = idxOf(a);
    return ix && rec(ix).live ? rec(ix).size : 0;
}
bool isDevicePtr(const void* p) { return (uintptr_t)p >= DEV0 && (uintptr_t)p < STK0; }
bool isLiveBlock(const void* p) { return allocSize((void*)p) != 0; }
MemStat memStat() { return g.ms; }
void checkRange(const void* p, size_t n, bool write, Space space, const char* what)
{
    if (!g.on || n == 0) return;
    uintptr_t a = (uintptr_t)p;
    if (a < 4096) fail("null-dereference", "%s: null pointer with %zu bytes", what, n);
    if (isArena(a))
    {
        if ((a >= DEV0) != (space == Space::Device))
            fail("memory-space", "%s: %s memory used as %s memory", what, a >= DEV0 ? "device" : "host", space == Space::Device ? "device" : "host");
        checkArena(a, n, write, (uint32_t)(uintptr_t)__builtin_return_address(0));
    }
    else if (space == Space::Device)
        fail("memory-space", "%s: host memory used as device memory", what);
}
void markPendingRecv(const void* p, size_t n, bool pending)
{
    uintptr_t a = (uintptr_t)p;
    if (n == 0) return;
    if (pending)
    {
        if (g.nPend < 256) g.pend[g.nPend++] = {a, a + n};
        return;
    }
    for (int i = 0; i < g.nPend; i++)
        if (g.pend[i].lo == a && g.pend[i].hi == a + n)
        {
            g.pend[i] = g.pend[--g.nPend];
            return;
        }
}
void suspendPending(bool on) { g.noPend = on; }
uint64_t hashBytes(const void* p, size_t n)
{
    uint64_t h = 0xcbf29ce484222325ull;
    const unsigned char* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
    return h;
}
const char* captured()
{
    g.cap[g.capLen] = 0;
    return g.cap;
}
void clearCaptured() { g.capLen = 0; }
} // namespace sim

using namespace sim;

// ================================================================== tsan entry points
#define PC ((uint32_t)(uintptr_t)__builtin_return_address(0))
extern "C"
{
#define RW(N)                                                                                      \
    void __tsan_read##N(void* a) { access((uintptr_t)a, N, false, false, PC); }                    \
    void __tsan_write##N(void* a) { access((uintptr_t)a, N, true, false, PC); }                    \
    void __tsan_unaligned_read##N(void* a) { access((uintptr_t)a, N, false, false, PC); }          \
    void __tsan_unaligned_write##N(void* a) { access((uintptr_t)a, N, true, false, PC); }          \
    void __tsan_volatile_read##N(void* a) { access((uintptr_t)a, N, false, false, PC); }           \
    void __tsan_volatile_write##N(void* a) { access((uintptr_t)a, N, true, false, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* a, unsigned long n) { access((uintptr_t)a, n, false, false, PC); }
    void __tsan_write_range(void* a, unsigned long n) { access((uintptr_t)a, n, true, false, PC); }
    void __tsan_vptr_update(void** a, void* v)
    {
        if (*a != v) access((uintptr_t)a, 8, true, false, PC);
    }
    void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, false, PC); }
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_init() {}

    static inline bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
    static inline bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

#define ATOMICS(B, T)                                                                              \
    T __tsan_atomic##B##_load(const volatile T* a, int mo)                                         \
    {                                                                                              \
        access((uintptr_t)a, sizeof(T), false, true, PC);                                          \
        if (isAcq(mo)) acquire((const void*)a);                                                    \
        return *a;                                                                                 \
    }                                                                                              \
    void __tsan_atomic##B##_store(volatile T* a, T v, int mo)                                      \
    {                                                                                              \
        access((uintptr_t)a, sizeof(T), true, true, PC);                                           \
        if (isRel(mo)) release((const void*)a);                                                    \
        *a = v;                                                                                    \
    }                                                                                              \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo)                                      \
    {                                                                                              \
        access((uintptr_t)a, sizeof(T), true, true, PC);                                           \
        if (isAcq(mo)) acquire((const void*)a);                                                    \
        if (isRel(mo)) release((const void*)a);                                                    \
        T o = *a;                                                                                  \
        *a = v;                                                                                    \
        return o;                                                                                  \
    }                                                                                              \
    FETCH(B, T, add, o + v) FETCH(B, T, sub, o - v) FETCH(B, T, and, o & v) FETCH(B, T, or, o | v) \
    FETCH(B, T, xor, o ^ v) FETCH(B, T, nand, ~(o & v))                                            \
    bool __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int)         \
    {                                                                                              \
        access((uintptr_t)a, sizeof(T), true, true, PC);                                           \
        if (isAcq(mo)) acquire((const void*)a);                                                    \
        if (*a == *c)                                                                              \
        {                                                                                          \
            if (isRel(mo)) release((const void*)a);                                                \
            *a = v;                                                                                \
            return true;                                                                           \
        }                                                                                          \
        *c = *a;                                                                                   \
        return false;                                                                              \
    }                                                                                              \
    bool __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo)       \
    {                                                                                              \
        return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo);                       \
    }                                                                                              \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo)            \
    {                                                                                              \
        __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo);                             \
        return c;                                                                                  \
    }
#define FETCH(B, T, NAME, EXPR)                                                                    \
    T __tsan_atomic##B##_fetch_##NAME(volatile T* a, T v, int mo)                                  \
    {                                                                                              \
        access((uintptr_t)a, sizeof(T), true, true, PC);                                           \
        if (isAcq(mo)) acquire((const void*)a);                                                    \
        if (isRel(mo)) release((const void*)a);                                                    \
        T o = *a;                                                                                  \
        *a = (T)(EXPR);                                                                            \
        return o;                                                                                  \
    }
    ATOMICS(8, uint8_t)
    ATOMICS(16, uint16_t)
    ATOMICS(32, uint32_t)
    ATOMICS(64, uint64_t)
    void __tsan_atomic_thread_fence(int)
    {
        if (g.on && g.grp && !g.kern)
        {
            acquire(&g.sv);
            release(&g.sv);
        }
    }
    void __tsan_atomic_signal_fence(int) {}

    // ---------------------------------------------------------- libc memory functions (wrapped)
    void* __wrap_memcpy(void* d, const void* s, size_t n)
    {
        access((uintptr_t)s, n, false, false, PC);
        access((uintptr_t)d, n, true, false, PC);
        return __real_memcpy(d, s, n);
    }
    void* __wrap_memmove(void* d, const void* s, size_t n)
    {
        access((uintptr_t)s, n, false, false, PC);
        access((uintptr_t)d, n, true, false, PC);
        return __real_memmove(d, s, n);
    }
    void* __wrap_memset(void* d, int c, size_t n)
    {
        access((uintptr_t)d, n, true, false, PC);
        return __real_memset(d, c, n);
    }
    int __real_memcmp(const void*, const void*, size_t);
    int __wrap_memcmp(const void* a, const void* b, size_t n)
    {
        access((uintptr_t)a, n, false, false, PC);
        access((uintptr_t)b, n, false, false, PC);
        return __real_memcmp(a, b, n);
    }

    // ---------------------------------------------------------- process exit
    [[noreturn]] static void leave(int kind, int code)
    {
        Fiber* f = g.cur;
        if (g.on && f->frame)
        {
            AttemptFrame* fr = f->frame;
            g.exits++;
            fr->exitKind = kind;
            fr->exitCode = code;
            __real_memcpy(ehGlobals(), fr->eh, 16);
            f->quiet = fr->quiet;
            if (g.kernInline) g.kern = g.kernInline = false; // a kernel ended the program
            longjmp(fr->jb, 1);
        }
        if (g.on) fail("unexpected-exit", kind == 1 ? "process exit(%d) outside a guarded operation" : "abort/terminate outside a guarded operation (%d)", code);
        _exit(code);
    }
    void __wrap_exit(int code) { leave(1, code); }
    void __wrap_abort() { leave(2, 0); }
    void __wrap__Exit(int code) { leave(1, code); }
    void __wrap_quick_exit(int code) { leave(1, code); }

    // ---------------------------------------------------------- static local guards
    int __cxa_guard_acquire(uint64_t* gd)
    {
        unsigned char* b = (unsigned char*)gd;
        if (!g.on) return b[0] ? 0 : (b[1] = 1);
        if (b[0])
        {
            acquire(gd);
            return 0;
        }
        while (b[1])
        {
            if (b[0])
            {
                acquire(gd);
                return 0;
            }
            if (!g.grp) fail("deadlock", "recursive initialisation of a function-local static");
            probe("static-init-contended");
            blockOn(gd);
        }
        if (b[0])
        {
            acquire(gd);
            return 0;
        }
        b[1] = 1;
        return 1;
    }
    void __cxa_guard_release(uint64_t* gd)
    {
        unsigned char* b = (unsigned char*)gd;
        b[0] = 1;
        b[1] = 0;
        if (g.on)
        {
            release(gd);
            wake(gd);
        }
    }
    void __cxa_guard_abort(uint64_t* gd)
    {
        ((unsigned char*)gd)[1] = 0;
        if (g.on) wake(gd);
    }

    // ---------------------------------------------------------- pthread locks
    static Mutex* mtx(const void* a)
    {
        for (auto& m : g.mx)
        {
            if (!m.used)
            {
                m.used = true;
                m.addr = a;
                return &m;
            }
            if (m.addr == a) return &m;
        }
        fail("sim-limit", "too many mutexes");
    }
    static bool simLocks() { return g.on && g.grp; }
    static int lockX(const void* a, bool tryOnly, bool recursive)
    {
        if (!simLocks()) return 0;
        yieldPoint();
        Mutex* m = mtx(a);
        if (m->owner == g.cur)
        {
            if (recursive)
            {
                m->depth++;
                return 0;
            }
            if (tryOnly) return EBUSY;
            fail("deadlock", "a thread locks a mutex it already holds");
        }
        while (m->owner || m->readers)
        {
            if (tryOnly) return EBUSY;
            probe("mutex-contended");
            blockOn(m);
        }
        m->owner = g.cur;
        m->depth = 1;
        acquire(a);
        return 0;
    }
    static int unlockX(const void* a)
    {
        if (!simLocks()) return 0;
        Mutex* m = mtx(a);
        if (m->owner == g.cur)
        {
            if (--m->depth > 0) return 0;
            m->owner = nullptr;
        }
        else if (m->readers > 0)
            m->readers--;
        release(a);
        wake(m);
        yieldPoint();
        return 0;
    }
    int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return lockX(m, false, m->__data.__kind & 1); }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return lockX(m, true, m->__data.__kind & 1); }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return unlockX(m); }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return lockX(m, false, false); }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return lockX(m, true, false); }
    int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { return unlockX(m); }
    int pthread_rwlock_rdlock(pthread_rwlock_t* a) noexcept
    {
        if (!simLocks()) return 0;
        yieldPoint();
        Mutex* m = mtx(a);
        while (m->owner) blockOn(m);
        m->readers++;
        acquire(a);
        return 0;
    }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* a) noexcept
    {
        if (!simLocks()) return 0;
        Mutex* m = mtx(a);
        if (m->owner) return EBUSY;
        m->readers++;
        acquire(a);
        return 0;
    }
    int pthread_spin_lock(pthread_spinlock_t* m) noexcept { return lockX((void*)m, false, false); }
    int pthread_spin_unlock(pthread_spinlock_t* m) noexcept { return unlockX((void*)m); }
    int pthread_once(pthread_once_t* o, void (*fn)())
    {
        if (*o == 2)
        {
            if (simLocks()) acquire((void*)o);
            return 0;
        }
        while (*o == 1 && simLocks()) blockOn((void*)o);
        if (*o == 2)
        {
            if (simLocks()) acquire((void*)o);
            return 0;
        }
        *o = 1;
        try
        {
            fn();
        }
        catch (...)
        {
            *o = 0;
            if (g.on) wake((void*)o);
            throw;
        }
        *o = 2;
        if (simLocks()) release((void*)o);
        if (g.on) wake((void*)o);
        return 0;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (!simLocks()) return 0;
        unlockX(m);
        blockOn(c);
        return lockX(m, false, false);
    }
    int pthread_cond_signal(pthread_cond_t* c) noexcept
    {
        if (simLocks()) wake(c);
        return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c) noexcept
    {
        if (simLocks()) wake(c);
        return 0;
    }

    // ---------------------------------------------------------- clocks
    int clock_gettime(clockid_t, struct timespec* ts) noexcept
    {
        uint64_t t = 1000000000ull * 1700000000ull + g.now * 1000;
        ts->tv_sec = t / 1000000000ull;
        ts->tv_nsec = t % 1000000000ull;
        return 0;
    }
    int nanosleep(const struct timespec* a, struct timespec*)
    {
        advance((uint64_t)a->tv_sec * 1000000 + a->tv_nsec / 1000);
        if (g.on) pollYield();
        return 0;
    }
    int clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec* b) { return nanosleep(a, b); }
    int usleep(useconds_t us)
    {
        advance(us);
        if (g.on) pollYield();
        return 0;
    }
    int sched_yield() noexcept
    {
        if (g.on) pollYield();
        return 0;
    }
}

// ================================================================== operator new / delete
void* operator new(size_t n) { return opNew(n, 16, false, 0); }
void* operator new[](size_t n) { return opNew(n, 16, false, 1); }
void* operator new(size_t n, std::align_val_t a) { return opNew(n, (size_t)a, false, 0); }
void* operator new[](size_t n, std::align_val_t a) { return opNew(n, (size_t)a, false, 1); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return opNew(n, 16, true, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return opNew(n, 16, true, 1); }
void operator delete(void* p) noexcept { rawFree(p, 0); }
void operator delete[](void* p) noexcept { rawFree(p, 0); }
void operator delete(void* p, size_t) noexcept { rawFree(p, 0); }
void operator delete[](void* p, size_t) noexcept { rawFree(p, 0); }
void operator delete(void* p, std::align_val_t) noexcept { rawFree(p, 0); }
void operator delete[](void* p, std::align_val_t) noexcept { rawFree(p, 0); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { rawFree(p, 0); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { rawFree(p, 0); }
void operator delete(void* p, const std::nothrow_t&) noexcept { rawFree(p, 0); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { rawFree(p, 0); }

// ================================================================== runs
extern "C" char __data_start, _end;

static int phdrCb(struct dl_phdr_info* info, size_t, void*)
{
    static bool first = true;
    if (!first) return 0;
    first = false;
    for (int i = 0; i < info->dlpi_phnum; i++)
        if (info->dlpi_phdr[i].p_type == PT_TLS)
        {
            const auto& ph = info->dlpi_phdr[i];
            uintptr_t tp;
            asm volatile("movq %%fs:0, %0" : "=r"(tp));
            size_t sz = (ph.p_memsz + ph.p_align - 1) & ~(ph.p_align - 1);
            g.tlsLo = tp - sz;
            g.tlsSz = ph.p_memsz;
            g.tlsFileSz = ph.p_filesz;
            g.tlsInit = (void*)(info->dlpi_addr + ph.p_vaddr);
            if (g.tlsSz > 1024)
            {
                fprintf(stderr, "neosim: TLS block too large\n");
                _exit(3);
            }
        }
    return 0;
}

static void sigHandler(int sig)
{
    if (g.res)
    {
        if (otherKind(sig == SIGALRM ? "hang" : sig == SIGFPE ? "arithmetic" : "crash"))
        {
            probe("ended by a failure of another property");
            finish(ST_OK);
        }
        snprintf(g.res->kind, 64, sig == SIGALRM ? "hang" : "crash");
        snprintf(g.res->msg, 1024, sig == SIGALRM ? "run did not finish within the time limit" : "signal %d (%s)", sig, strsignal(sig));
        mix(sig);
        finish(ST_CRASH);
    }
    _exit(3);
}

static PropFn gProp;
static void* gBackSp;
static void mainFiberEntry()
{
    try
    {
        gProp();
    }
    catch (const std::exception& e)
    {
        fail("uncaught", "exception escaped the run: %s", e.what());
    }
    catch (...)
    {
        fail("uncaught", "unknown exception escaped the run");
    }
    g.on = false;
    finish(ST_OK);
}

// runs inside the forked child; never returns
[[noreturn]] static void runChild(PropFn fn, Result* res, uint64_t seed, bool replay, const uint32_t* const* rep, const uint32_t* repN)
{
    g.res = res;
    g.seed = seed;
    g.replay = replay;
    g.hash = 0xcbf29ce484222325ull;
    for (int k = 0; k < 3; k++)
    {
        uint64_t s = seed * 0x2545F4914F6CDD1Dull + 0x1234567 * (k + 1);
        splitmix(s);
        g.prng[k] = s ^ (0xabcdef12345ull << k);
        splitmix(g.prng[k]);
        g.rep[k] = rep ? rep[k] : nullptr;
        g.repN[k] = rep ? repN[k] : 0;
    }
    // alternate signal stack
    static char altstk[32768];
    stack_t ss {};
    ss.ss_sp = altstk;
    ss.ss_size = sizeof altstk;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = sigHandler;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM, SIGABRT}) sigaction(s, &sa, nullptr);
    struct itimerval tv {};
    tv.it_value.tv_sec = 60;
    setitimer(ITIMER_REAL, &tv, nullptr);
    std::set_terminate([] { leave(2, 1); });
    __libc_single_threaded = 0;
    g.stepLimit = 60ull << 20;
    g.preemptCap = 20000;
    g.faults = false;
    g.reuse = choose(S, 2);
    static const uint8_t junks[] = {0xCD, 0xFF, 0x00};
    g.junk = junks[choose(S, 3)];
    // the initial process image: allocations made before main are plain live blocks
    g.mainF.lo = STK0;
    g.mainF.hi = STK0 + MAIN_STK;
    g.mainF.tid = 0;
    g.mainF.vc.c[0] = 1;
    gProp = fn;
    uintptr_t sp = (g.mainF.hi - 64) & ~15ull;
    asm volatile("" : "+r"(sp));
    sp -= 8;
    void** s = (void**)sp;
    *--s = (void*)mainFiberEntry;
    for (int k = 0; k < 6; k++) *--s = nullptr;
    --s;
    uint32_t mxcsr;
    uint16_t cw;
    asm volatile("stmxcsr %0" : "=m"(mxcsr));
    asm volatile("fnstcw %0" : "=m"(cw));
    ((uint32_t*)s)[0] = mxcsr;
    ((uint32_t*)s)[1] = cw;
    g.on = true;
    sim_switch(&gBackSp, s);
    _exit(3);
}

static Result* newResult()
{
    void* p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        _exit(3);
    }
    return (Result*)p;
}
static void clearResult(Result* r)
{
    // large arrays need not be cleared: lengths say what is valid
    r->status = ST_NONE;
    r->kind[0] = r->msg[0] = 0;
    r->nSigs = 0;
    r->hash = r->steps = r->preempts = r->simtime = 0;
    r->nontriv = 0;
    r->n[0] = r->n[1] = r->n[2] = 0;
    r->overflow = 0;
    r->nMarks = r->nProbes = r->logLen = 0;
}

static void runOnce(PropFn fn, Result* r, uint64_t seed, bool replay, const uint32_t* const* rep, const uint32_t* repN)
{
    clearResult(r);
    pid_t c = fork();
    if (c < 0)
    {
        perror("fork");
        _exit(3);
    }
    if (c == 0) runChild(fn, r, seed, replay, rep, repN);
    int st = 0;
    while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
    if (r->status == ST_NONE)
    {
        r->status = ST_CRASH;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
            snprintf(r->kind, 64, "killed");
        else
            snprintf(r->kind, 64, "crash");
        snprintf(r->msg, 1024, "run ended without a result (wait status %d)", st);
    }
}

static double wall()
{
    struct timeval tv;
    gettimeofday(&tv, nullptr);
    return tv.tv_sec + tv.tv_usec * 1e-6;
}

// ------------------------------------------------------------------ minimisation
namespace
{
struct Vec
{
    uint32_t* d;
    uint32_t n;
};
struct Cand
{
    Vec v[3];
};
Cand cloneCand(const Cand& a)
{
    Cand b;
    for (int k = 0; k < 3; k++)
    {
        b.v[k].n = a.v[k].n;
        b.v[k].d = (uint32_t*)malloc(4 * (a.v[k].n + 1));
        __real_memcpy(b.v[k].d, a.v[k].d, 4 * a.v[k].n);
    }
    return b;
}
void freeCand(Cand& a)
{
    for (int k = 0; k < 3; k++) free(a.v[k].d);
}
Cand candOf(Result* r)
{
    Cand c;
    for (int k = 0; k < 3; k++)
    {
        c.v[k].d = r->arr(k);
        c.v[k].n = r->n[k];
    }
    return cloneCand(c);
}

struct Minimiser
{
    PropFn fn;
    uint64_t seed;
    char kind[64];
    Result* best;
    Result* tmp;
    double deadline;
    int tries = 0;

    void trimZeros(Cand& c)
    {
        for (int k = 0; k < 3; k++)
            while (c.v[k].n && c.v[k].d[c.v[k].n - 1] == 0) c.v[k].n--;
    }
    bool attemptRun(Cand& c)
    {
        if (wall() > deadline) return false;
        tries++;
        const uint32_t* rep[3] = {c.v[0].d, c.v[1].d, c.v[2].d};
        uint32_t n[3] = {c.v[0].n, c.v[1].n, c.v[2].n};
        runOnce(fn, tmp, seed, true, rep, n);
        if ((tmp->status == ST_FAIL || tmp->status == ST_CRASH) && !strcmp(tmp->kind, kind))
        {
            Result* t = best;
            best = tmp;
            tmp = t;
            return true;
        }
        return false;
    }
    void run()
    {
        // drop whole streams
        for (int k : {2, 1})
        {
            Cand c = candOf(best);
            c.v[k].n = 0;
            attemptRun(c);
            freeCand(c);
        }
        for (int round = 0; round < 4 && wall() < deadline; round++)
        {
            uint64_t before = cost();
            // delete spans of operations, large chunks first
            for (uint32_t chunk = best->nMarks ? best->nMarks : 0; chunk >= 1; chunk /= 2)
            {
                for (uint32_t i = 0; i + 1 <= best->nMarks && wall() < deadline;)
                {
                    uint32_t j = i + chunk;
                    Cand c = candOf(best);
                    Mark a = best->marks[i];
                    Mark b = j < best->nMarks ? best->marks[j] : Mark {best->n[0], best->n[1], best->n[2]};
                    if (j >= best->nMarks)
                    {
                        i = best->nMarks;
                        freeCand(c);
                        continue;
                    }
                    auto cut = [](Vec& v, uint32_t x, uint32_t y)
                    {
                        if (y > v.n) y = v.n;
                        if (x >= y) return;
                        __real_memmove(v.d + x, v.d + y, 4 * (v.n - y));
                        v.n -= y - x;
                    };
                    cut(c.v[0], a.w, b.w);
                    Cand c2 = cloneCand(c);
                    cut(c2.v[1], a.s, b.s);
                    cut(c2.v[2], a.f, b.f);
                    bool ok = attemptRun(c2);
                    if (!ok) ok = attemptRun(c);
                    freeCand(c);
                    freeCand(c2);
                    if (!ok) i += chunk;
                }
            }
            // streams: truncate and zero chunks
            for (int k : {2, 1, 0})
            {
                for (uint32_t chunk = best->n[k]; chunk >= 1; chunk /= 2)
                {
                    for (uint32_t i = 0; i < best->n[k] && wall() < deadline; i += chunk)
                    {
                        bool any = false;
                        for (uint32_t q = i; q < i + chunk && q < best->n[k]; q++) any |= best->arr(k)[q] != 0;
                        if (!any) continue;
                        Cand c = candOf(best);
                        for (uint32_t q = i; q < i + chunk && q < c.v[k].n; q++) c.v[k].d[q] = 0;
                        trimZeros(c);
                        attemptRun(c);
                        freeCand(c);
                    }
                    if (k == 1 && chunk <= 4 && best->n[k] > 4000) break;
                }
                // lower single values
                if (k != 1 || best->n[1] < 300)
                    for (uint32_t i = 0; i < best->n[k] && wall() < deadline; i++)
                    {
                        uint32_t v = best->arr(k)[i];
                        for (uint32_t nv = v / 2; v > 1; nv = (nv + v) / 2)
                        {
                            Cand c = candOf(best);
                            c.v[k].d[i] = nv;
                            bool ok = attemptRun(c);
                            freeCand(c);
                            if (ok || nv + 1 >= v) break;
                        }
                    }
            }
            if (cost() == before) break;
        }
    }
    uint64_t cost()
    {
        uint64_t c = 0;
        for (int k = 0; k < 3; k++)
            for (uint32_t i = 0; i < best->n[k]; i++) c += 1 + best->arr(k)[i];
        return c;
    }
};

void writeReplay(const char* path, const char* prop, uint64_t seed, Result* r, uint64_t origSeedIndex, int tries)
{
    FILE* f = fopen(path, "w");
    if (!f)
    {
        perror(path);
        _exit(3);
    }
    fprintf(f, "neosim-replay 1\nproperty %s\nseed %lu\nrun %lu\nkind %s\nhash %016lx\nminimiser-runs %d\n", prop, (unsigned long)seed, (unsigned long)origSeedIndex, r->kind, (unsigned long)r->hash, tries);
    fprintf(f, "message %s\n", r->msg);
    static const char* names[] = {"W", "S", "F"};
    for (int k = 0; k < 3; k++)
    {
        uint32_t n = r->n[k];
        while (n && r->arr(k)[n - 1] == 0) n--;
        fprintf(f, "%s %u", names[k], n);
        for (uint32_t i = 0; i < n; i++) fprintf(f, " %u", r->arr(k)[i]);
        fprintf(f, "\n");
    }
    fprintf(f, "--- event log (W workload, S schedule, F fault choices above decide it completely)\n");
    fwrite(r->logBuf, 1, r->logLen, f);
    fclose(f);
}

void jsonStr(FILE* f, const char* s, size_t n)
{
    fputc('"', f);
    for (size_t i = 0; i < n; i++)
    {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fprintf(f, "\\n");
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

struct Shared
{
    volatile uint64_t minFail;
    volatile uint32_t stop;
    struct Wk
    {
        uint64_t runs, steps, preempts, simtime, nontriv, overflow, mismatch, rechecks;
        uint32_t nProbes;
        ProbeRec probes[MAXP];
        uint32_t nSigs;
        char sigs[8][64];
        char sigMsg[8][300];
        uint64_t sigN[8];
        uint64_t failIdx; // ~0 none
        char sample[8192];
        uint32_t sampleLen;
        char mismatchMsg[256];
    } wk[64];
    uint64_t nHash;
    uint64_t hashes[]; // one per run index: hash | nontrivial
};

int cmpU64(const void* a, const void* b)
{
    uint64_t x = *(const uint64_t*)a, y = *(const uint64_t*)b;
    return x < y ? -1 : x > y;
}
} // namespace

static uint64_t seedOf(uint64_t base, const char* prop, uint64_t i)
{
    uint64_t s = base * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull;
    for (const char* p = prop; *p; p++) s = (s ^ (unsigned char)*p) * 0x100000001b3ull;
    return splitmix(s);
}

static int doReplay(PropFn fn, const char* prop, const char* path)
{
    FILE* f = fopen(path, "r");
    if (!f)
    {
        perror(path);
        return 3;
    }
    char line[65536];
    static uint32_t buf[3][CAP_S];
    uint32_t n[3] = {0, 0, 0};
    unsigned long seed = 0, hash = 0;
    char kind[64] = "";
    while (fscanf(f, "%65535s", line) == 1)
    {
        if (!strcmp(line, "seed")) { if (fscanf(f, "%lu", &seed) != 1) return 3; }
        else if (!strcmp(line, "hash")) { if (fscanf(f, "%lx", &hash) != 1) return 3; }
        else if (!strcmp(line, "kind")) { if (fscanf(f, "%63s", kind) != 1) return 3; }
        else if (!strcmp(line, "message")) { if (!fgets(line, sizeof line, f)) return 3; }
        else if (!strcmp(line, "---")) break;
        else if ((line[0] == 'W' || line[0] == 'S' || line[0] == 'F') && !line[1])
        {
            int k = line[0] == 'W' ? 0 : line[0] == 'S' ? 1 : 2;
            if (fscanf(f, "%u", &n[k]) != 1 || n[k] > CAP_S) return 3;
            for (uint32_t i = 0; i < n[k]; i++)
                if (fscanf(f, "%u", &buf[k][i]) != 1) return 3;
        }
    }
    fclose(f);
    Result* r = newResult();
    const uint32_t* rep[3] = {buf[0], buf[1], buf[2]};
    runOnce(fn, r, seed, true, rep, n);
    printf("replay status=%u kind=%s hash=%016lx expected-hash=%016lx\nmessage=%s\n", r->status, r->kind, (unsigned long)r->hash, hash, r->msg);
    fwrite(r->logBuf, 1, r->logLen, stdout);
    bool same = r->status != ST_OK && !strcmp(kind, r->kind) && r->hash == hash;
    printf("\nREPLAY %s\n", same ? "REPRODUCED" : "DIFFERS");
    if (r->status != ST_OK) printf("VIOLATION property=%s replay=%s\n", prop, path);
    return r->status == ST_OK ? 0 : (same ? 1 : 4);
}

int main(int argc, char** argv)
{
    // deterministic address space where the system allows it
    if (!getenv("NEOSIM_REEXEC"))
    {
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1)
        {
            setenv("NEOSIM_REEXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    initMem();
    dl_iterate_phdr(phdrCb, nullptr);
    g.gLo = (uintptr_t)&__data_start & ~7ull;
    g.gHi = (uintptr_t)&_end;
    mapFixed(GSH, ((g.gHi - g.gLo) / 8 + 2) * 64);
    auto ex = [](void* p, size_t n)
    {
        g.exLo[g.nEx] = (uintptr_t)p;
        g.exHi[g.nEx++] = (uintptr_t)p + n;
    };
    ex(&std::cout, sizeof std::cout);
    ex(&std::cerr, sizeof std::cerr);
    ex(&std::clog, sizeof std::clog);
    auto* cb = new (capStore) CapBuf();
    std::cout.rdbuf(cb);
    std::cerr.rdbuf(cb);
    std::clog.rdbuf(cb);

    const char *prop = nullptr, *out = nullptr, *replay = nullptr, *replayOut = "replay.txt", *list = nullptr;
    uint64_t seed = 1, runs = 1000, one = ~0ull;
    double timeCap = 60, minTime = 20;
    int workers = 8;
    uint64_t recheck = 64;
    bool hashes = false;
    for (int i = 1; i < argc; i++)
    {
        auto is = [&](const char* s) { return !strcmp(argv[i], s); };
        if (is("--property")) prop = argv[++i];
        else if (is("--seed")) seed = strtoull(argv[++i], nullptr, 10);
        else if (is("--runs")) runs = strtoull(argv[++i], nullptr, 10);
        else if (is("--time")) timeCap = atof(argv[++i]);
        else if (is("--min-time")) minTime = atof(argv[++i]);
        else if (is("--workers")) workers = atoi(argv[++i]);
        else if (is("--out")) out = argv[++i];
        else if (is("--replay")) replay = argv[++i];
        else if (is("--replay-out")) replayOut = argv[++i];
        else if (is("--known")) g.known = argv[++i];
        else if (is("--one")) one = strtoull(argv[++i], nullptr, 10);
        else if (is("--recheck")) recheck = strtoull(argv[++i], nullptr, 10);
        else if (is("--hashes")) hashes = true;
        else if (is("--list")) list = "1";
    }
    if (list)
    {
        for (int i = 0; i < nProps; i++) printf("%s\n", props[i].id);
        return 0;
    }
    Prop* pr = nullptr;
    for (int i = 0; i < nProps; i++)
        if (prop && !strcmp(props[i].id, prop)) pr = &props[i];
    if (!pr)
    {
        fprintf(stderr, "neosim: unknown property\n");
        return 3;
    }
    if (replay) return doReplay(pr->fn, prop, replay);
    if (one != ~0ull)
    {
        Result* r = newResult();
        runOnce(pr->fn, r, seedOf(seed, prop, one), false, nullptr, nullptr);
        printf("run %lu status=%u kind=%s hash=%016lx steps=%lu preempts=%lu simtime=%lu choices=%u/%u/%u\nmessage=%s\n", (unsigned long)one, r->status, r->kind, (unsigned long)r->hash, (unsigned long)r->steps, (unsigned long)r->preempts, (unsigned long)r->simtime, r->n[0], r->n[1], r->n[2], r->msg);
        fwrite(r->logBuf, 1, r->logLen, stdout);
        for (uint32_t i = 0; i < r->nProbes; i++) printf("probe %s %lu\n", r->probes[i].name, (unsigned long)r->probes[i].n);
        return r->status == ST_OK ? 0 : 1;
    }
    if (workers > 64) workers = 64;
    double t0 = wall();
    size_t shsz = sizeof(Shared) + runs * 8;
    Shared* sh = (Shared*)mmap(nullptr, shsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) { perror("mmap"); return 3; }
    sh->minFail = ~0ull;
    pid_t pids[64];
    for (int w = 0; w < workers; w++)
    {
        pid_t c = fork();
        if (c < 0) { perror("fork"); return 3; }
        if (c == 0)
        {
            Shared::Wk& k = sh->wk[w];
            k.failIdx = ~0ull;
            Result* r = newResult();
            Result* r2 = newResult();
            for (uint64_t i = w; i < runs; i += workers)
            {
                if (sh->minFail < i) break;
                if (wall() - t0 > timeCap) break;
                runOnce(pr->fn, r, seedOf(seed, prop, i), false, nullptr, nullptr);
                k.runs++;
                k.steps += r->steps;
                k.preempts += r->preempts;
                k.simtime += r->simtime;
                k.nontriv += r->nontriv;
                k.overflow += r->overflow;
                sh->hashes[i] = (r->hash & ~1ull) | (r->nontriv ? 1 : 0);
                for (uint32_t p = 0; p < r->nProbes; p++)
                {
                    uint32_t q = 0;
                    for (; q < k.nProbes; q++)
                        if (!strcmp(k.probes[q].name, r->probes[p].name)) break;
                    if (q == k.nProbes && q < MAXP)
                    {
                        k.probes[k.nProbes++] = r->probes[p];
                        continue;
                    }
                    if (q < MAXP) k.probes[q].n += r->probes[p].n;
                }
                for (uint32_t p = 0; p < r->nSigs; p++)
                {
                    uint32_t q = 0;
                    for (; q < k.nSigs; q++)
                        if (!strcmp(k.sigs[q], r->sigs[p])) break;
                    if (q == k.nSigs && q < 8)
                    {
                        strcpy(k.sigs[q], r->sigs[p]);
                        strcpy(k.sigMsg[q], r->sigMsg[p]);
                        k.nSigs++;
                    }
                    if (q < 8) k.sigN[q]++;
                }
                if (i < 2)
                {
                    k.sampleLen = r->logLen < 8000 ? r->logLen : 8000;
                    __real_memcpy(k.sample, r->logBuf, k.sampleLen);
                }
                if (hashes)
                {
                    // print from the worker: order does not matter, lines are keyed
                    char line[100];
                    int n = snprintf(line, sizeof line, "H %lu %016lx %u\n", (unsigned long)i, (unsigned long)r->hash, r->status);
                    if (write(1, line, n) < 0) _exit(3);
                }
                bool failed = r->status != ST_OK;
                if (failed || (recheck && i % recheck == (uint64_t)w % recheck))
                {
                    runOnce(pr->fn, r2, seedOf(seed, prop, i), false, nullptr, nullptr);
                    k.rechecks++;
                    if (r2->hash != r->hash || r2->status != r->status || strcmp(r2->kind, r->kind))
                    {
                        k.mismatch++;
                        snprintf(k.mismatchMsg, sizeof k.mismatchMsg, "run %lu: first %s %016lx, second %s %016lx", (unsigned long)i, r->kind, (unsigned long)r->hash, r2->kind, (unsigned long)r2->hash);
                    }
                }
                if (failed)
                {
                    k.failIdx = i;
                    // lower the shared bound
                    uint64_t cur = __atomic_load_n(&sh->minFail, __ATOMIC_SEQ_CST);
                    while (i < cur && !__atomic_compare_exchange_n(&sh->minFail, &cur, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
                    break;
                }
            }
            _exit(0);
        }
        pids[w] = c;
    }
    bool workerBad = false;
    for (int w = 0; w < workers; w++)
    {
        int st = 0;
        waitpid(pids[w], &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) workerBad = true;
    }
    double tRuns = wall() - t0;
    // aggregate
    uint64_t nRuns = 0, steps = 0, pre = 0, simt = 0, overflow = 0, mism = 0, rech = 0;
    static Shared::Wk tot;
    for (int w = 0; w < workers; w++)
    {
        Shared::Wk& k = sh->wk[w];
        nRuns += k.runs;
        steps += k.steps;
        pre += k.preempts;
        simt += k.simtime;
        overflow += k.overflow;
        mism += k.mismatch;
        rech += k.rechecks;
        if (k.mismatch) strcpy(tot.mismatchMsg, k.mismatchMsg);
        for (uint32_t p = 0; p < k.nProbes; p++)
        {
            uint32_t q = 0;
            for (; q < tot.nProbes; q++)
                if (!strcmp(tot.probes[q].name, k.probes[p].name)) break;
            if (q == tot.nProbes) { if (q < MAXP) tot.probes[tot.nProbes++] = k.probes[p]; }
            else tot.probes[q].n += k.probes[p].n;
        }
        for (uint32_t p = 0; p < k.nSigs; p++)
        {
            uint32_t q = 0;
            for (; q < tot.nSigs; q++)
                if (!strcmp(tot.sigs[q], k.sigs[p])) break;
            if (q == tot.nSigs && q < 8)
            {
                strcpy(tot.sigs[q], k.sigs[p]);
                strcpy(tot.sigMsg[q], k.sigMsg[p]);
                tot.nSigs++;
            }
            if (q < 8) tot.sigN[q] += k.sigN[p];
        }
    }
    uint64_t* hs = (uint64_t*)malloc(8 * (runs + 1));
    uint64_t nh = 0;
    for (uint64_t i = 0; i < runs; i++)
        if (sh->hashes[i]) hs[nh++] = sh->hashes[i];
    qsort(hs, nh, 8, cmpU64);
    uint64_t distinct = 0, distinctNT = 0;
    for (uint64_t i = 0; i < nh; i++)
        if (i == 0 || hs[i] != hs[i - 1])
        {
            distinct++;
            if (hs[i] & 1) distinctNT++;
        }
    bool failed = sh->minFail != ~0ull;
    Result* fr = nullptr;
    int tries = 0;
    if (failed && mism == 0)
    {
        uint64_t s = seedOf(seed, prop, sh->minFail);
        Minimiser m;
        m.fn = pr->fn;
        m.seed = s;
        m.best = newResult();
        m.tmp = newResult();
        runOnce(pr->fn, m.best, s, false, nullptr, nullptr);
        strcpy(m.kind, m.best->kind);
        // turn it into a replayable form first
        Cand c = candOf(m.best);
        m.deadline = wall() + 30;
        char origKind[64];
        strcpy(origKind, m.best->kind);
        if (m.attemptRun(c))
        {
            m.deadline = wall() + minTime;
            m.run();
        }
        else
        {
            mism++;
            snprintf(tot.mismatchMsg, sizeof tot.mismatchMsg, "run %lu (%s) is not reproduced by its recorded choices (got %s)", (unsigned long)sh->minFail, origKind, m.tmp->kind);
        }
        fr = m.best;
        tries = m.tries;
        writeReplay(replayOut, prop, s, fr, sh->minFail, tries);
    }
    FILE* f = out ? fopen(out, "w") : stdout;
    if (!f) { perror(out); return 3; }
    fprintf(f, "{\n\"property\": \"%s\",\n\"seed\": %lu,\n\"runs\": %lu,\n\"wall_runs_s\": %.3f,\n\"wall_total_s\": %.3f,\n\"steps\": %lu,\n\"preemptions\": %lu,\n\"simtime\": %lu,\n\"distinct\": %lu,\n\"distinct_nontrivial\": %lu,\n\"choice_overflow\": %lu,\n\"rechecks\": %lu,\n\"mismatches\": %lu,\n\"worker_error\": %s,\n", prop, (unsigned long)seed, (unsigned long)nRuns, tRuns, wall() - t0, (unsigned long)steps, (unsigned long)pre, (unsigned long)simt, (unsigned long)distinct, (unsigned long)distinctNT, (unsigned long)overflow, (unsigned long)rech, (unsigned long)mism, workerBad ? "true" : "false");
    fprintf(f, "\"mismatch_msg\": ");
    jsonStr(f, tot.mismatchMsg, strlen(tot.mismatchMsg));
    fprintf(f, ",\n\"rule\": ");
    jsonStr(f, pr->rule, strlen(pr->rule));
    fprintf(f, ",\n\"probes\": {");
    for (uint32_t p = 0; p < tot.nProbes; p++) fprintf(f, "%s\n  \"%s\": %lu", p ? "," : "", tot.probes[p].name, (unsigned long)tot.probes[p].n);
    fprintf(f, "\n},\n\"known\": {");
    for (uint32_t p = 0; p < tot.nSigs; p++)
    {
        fprintf(f, "%s\n  \"%s\": [%lu, ", p ? "," : "", tot.sigs[p], (unsigned long)tot.sigN[p]);
        jsonStr(f, tot.sigMsg[p], strlen(tot.sigMsg[p]));
        fprintf(f, "]");
    }
    fprintf(f, "\n},\n\"samples\": [");
    for (int w = 0, first = 1; w < workers; w++)
        if (sh->wk[w].sampleLen)
        {
            if (!first) fprintf(f, ",");
            first = 0;
            jsonStr(f, sh->wk[w].sample, sh->wk[w].sampleLen);
        }
    fprintf(f, "],\n\"failed\": %s", failed ? "true" : "false");
    if (fr)
    {
        fprintf(f, ",\n\"fail_run\": %lu,\n\"kind\": \"%s\",\n\"minimiser_runs\": %d,\n\"replay\": \"%s\",\n\"message\": ", (unsigned long)sh->minFail, fr->kind, tries, replayOut);
        jsonStr(f, fr->msg, strlen(fr->msg));
    }
    fprintf(f, "\n}\n");
    if (out) fclose(f);
    return 0;
}
