// NeoSim: deterministic simulator. Public interface for harnesses and for the stub libraries.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <any>
#include <csetjmp>
#include <utility>
#include <type_traits>

#define SIM_NOINST __attribute__((no_sanitize("thread")))

namespace sim
{
// ---------------------------------------------------------------- choices
enum Stream
{
    W = 0, ///< workload
    S = 1, ///< schedule
    F = 2  ///< faults
};
/// one recorded choice in [0,n); 0 is by convention the simplest alternative
uint32_t choose(Stream s, uint32_t n);
/// as choose(), but in generation mode the value is `gen` (already drawn from rnd())
uint32_t chooseAs(Stream s, uint32_t n, uint32_t gen);
/// raw generator output of a stream (generation mode only; 0 in replay mode); not recorded
uint32_t rnd(Stream s, uint32_t n);
/// true with probability num/den; false is the simple alternative
bool flip(Stream s, uint32_t num, uint32_t den);
/// marks the start of one deletable unit of workload; false ends the workload
bool nextOp(uint32_t softMax);
/// in [0,n) but small values more likely; 0 simplest
uint32_t small(uint32_t n);

// ---------------------------------------------------------------- reporting
[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
/// a deviation the oracle recognises as one specific defect: fatal unless `sig` is listed as known
void finding(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void probe(const char* name, uint64_t n = 1);
/// from here on the run judges only these kinds of failure (",a,b,c,"); others end it early
void onlyKinds(const char* kinds);
/// operations of this run that ended in a process exit
uint32_t exits();
/// body of a registered property, to be run as part of another one
void (*propFn(const char* name))();
/// mark the run as having reached non-trivial behaviour
void nontrivial();
void require(bool cond, const char* kind, const char* fmt, ...) __attribute__((format(printf, 3, 4)));

// ---------------------------------------------------------------- instrumentation control
/// while alive: no yields, no race/bounds checks, no injected failures (oracle code)
struct Quiet
{
    Quiet();
    ~Quiet();
    Quiet(const Quiet&) = delete;
};
void quietInc();
void quietDec();
bool isQuiet();

// ---------------------------------------------------------------- attempt
enum class Res
{
    Ok,
    BadAlloc,
    Injected,
    OutOfRange,
    BadAnyCast,
    BadCast,
    NeoFoam,
    StdOther,
    Unknown,
    Exited,
    Aborted
};
const char* resName(Res r);
/// thrown by callbacks the simulator supplies (validators, predicates, creators)
struct Injected
{
    int code;
};
struct Outcome
{
    Res res = Res::Ok;
    bool faultFired = false; ///< an allocation failed during the operation
    uint32_t allocs = 0;     ///< allocations the operation made
    int exitCode = 0;
    char what[200] = {0};
    bool ok() const { return res == Res::Ok; }
};
struct AttemptFrame
{
    jmp_buf jb;
    AttemptFrame* prev;
    void* eh[2];
    int exitKind; // 1 exit, 2 abort/terminate
    int exitCode;
    int quiet;
};
void attemptPush(AttemptFrame&);
void attemptPop(AttemptFrame&);
void armAlloc(uint32_t span);          ///< maybe arm an allocation failure (F stream)
void armAllocAt(uint32_t k, bool persistent);
void disarmAlloc(Outcome&);
void classify(Outcome&);               ///< call inside catch(...)
void allowFaults(bool on);             ///< fault-free configuration when false
bool faultsEnabled();

/// run fn as one operation, possibly with an allocation failure inside it; span: how many
/// allocations deep a failure may be placed (0: never)
template<class Fn>
SIM_NOINST Outcome attempt(Fn&& fn, uint32_t span = 12)
{
    Outcome out;
    AttemptFrame fr;
    attemptPush(fr);
    if (setjmp(fr.jb) == 0)
    {
        if (span) armAlloc(span);
        try
        {
            fn();
        }
        catch (...)
        {
            classify(out);
        }
    }
    else
    {
        out.res = fr.exitKind == 1 ? Res::Exited : Res::Aborted;
        out.exitCode = fr.exitCode;
    }
    disarmAlloc(out);
    attemptPop(fr);
    return out;
}

// ---------------------------------------------------------------- fibers
using FiberFn = void (*)(void*);
int spawn(FiberFn fn, void* arg, const char* name);
void joinAll();               ///< run all fibers spawned since the last joinAll to completion
void yieldPoint();            ///< voluntary scheduling point
int tid();                    ///< id of the current fiber in this group (-1: main)
void blockOn(const void* obj);///< block current fiber until wake(obj)
void wake(const void* obj);
void pollYield();             ///< yield in a polling loop: others must get a turn
void enableYields(bool on);   ///< preemption at memory accesses (thread mode)
void raceDetect(bool on);

struct FnBox
{
    void (*call)(void*);
    void* obj;
};
template<class Fn>
int spawnFn(Fn& fn, const char* name)
{
    return spawn([](void* p) { (*static_cast<Fn*>(p))(); }, const_cast<void*>(static_cast<const void*>(&fn)), name);
}

// virtual time
uint64_t now();
void advance(uint64_t dt);
/// until then a poll that fails is only a poll: time does not jump and no draws are made for it
void waitLong(uint64_t until);
bool waitingLong();
void at(uint64_t when, void (*fn)(void*), void* arg);
bool runDueEvents();          ///< deliver events with time <= now
bool advanceToNextEvent();    ///< false if none
bool eventsPending();

// ---------------------------------------------------------------- kernels
enum class Space
{
    Host,
    Device
};
struct KernelBody
{
    void (*call)(void* ctx, size_t i);
    void* ctx;
};
/// run body(i) for i in [0,n) as one parallel kernel on a chosen number of workers
void kernel(size_t n, KernelBody body, Space space);
/// split [0,n) into chunks as the simulated backend would (for reductions and scans)
size_t kernelChunks(size_t n, size_t* bounds, size_t maxChunks);
bool inKernel();
void setKernelPreempt(bool);
void atomicSync(void* p, size_t n, bool write); ///< a Kokkos atomic on p is about to happen

// ---------------------------------------------------------------- memory
void* hostAlloc(size_t n, size_t align, const char* tag);
void hostFree(void* p);
void* devAlloc(size_t n, const char* tag);
void devFree(void* p);
size_t allocSize(void* p);            ///< size of the live block at p, or 0
bool isDevicePtr(const void* p);
bool isLiveBlock(const void* p);
struct MemStat
{
    uint64_t hostBlocks, hostBytes, devBlocks, devBytes, kkBlocks;
};
MemStat memStat();
/// explicit access check used by stubs (deep_copy, MPI buffers): space is where the access runs
void checkRange(const void* p, size_t n, bool write, Space space, const char* what);
void markPendingRecv(const void* p, size_t n, bool pending);
void suspendPending(bool on);         ///< the message layer itself touches pending buffers
uint64_t hashBytes(const void* p, size_t n);

// captured stdout/stderr of the code under test
const char* captured();
void clearCaptured();

// ---------------------------------------------------------------- registration
using PropFn = void (*)();
struct Register
{
    Register(const char* prop, PropFn fn, const char* rule, bool timed = false);
};
#define SIM_PROPERTY(id, rule)                                                                     \
    static void simprop_##id();                                                                    \
    static ::sim::Register simreg_##id(#id, simprop_##id, rule);                                   \
    static void simprop_##id()

/// classification of repository specific exceptions; set by harness groups that know them
extern bool (*classifyHook)(Outcome&, const std::exception&);
}
