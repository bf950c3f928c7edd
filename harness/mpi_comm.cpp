// M01 halo exchange, M02 message buffers, M03 global reductions: several ranks in one process
#include "kk.hpp"
#include "../sim/mpi/mpi.h"

#include <complex>
#include <functional>
#include <limits>
#include <memory>

#include "NeoFOAM/mesh/unstructured/communicator.hpp"

using namespace NeoFOAM;
using namespace hk;

namespace
{
// none of these share a tag; the last pair does
const char* NAMES[] = {"p", "U", "T", "phi.cpp:120", "phi.cpp:121", "", "velocityField_sync", "k", "omega", "a rather long name of an exchange that is in no way special",
    "/src/finiteVolume/cellCentred/fields/volumeField.cpp:1042", "/src/finiteVolume/cellCentred/fields/volumeField.cpp:1043", "/lib/finiteVolume/cellCentred/fields/volumeField.cpp:1042",
    "/src/finiteVolume/cellCentred/fields/surfaceField.cpp:1042", "velocityField_synk", "Velocityfield_sync", "pp", "Up", "pU", "phi.cpp:021"};
constexpr int NNAMES = 20;
extern const char* TWIN[2];

constexpr int NTYPES = 5;
template<class T>
T val(int id);
template<>
label val<label>(int id)
{
    return id * 7919 + 1;
}
template<>
scalar val<scalar>(int id)
{
    return id + 0.5;
}
template<>
Vector val<Vector>(int id)
{
    return Vector(id, -2 * id, 0.25 * id);
}
template<>
localIdx val<localIdx>(int id)
{
    return (localIdx)id * 3u + 2u;
}
template<>
uint8_t val<uint8_t>(int id)
{
    return (uint8_t)(id % 251);
}
template<class F>
void withType(int t, F&& f)
{
    switch (t)
    {
    case 0: f.template operator()<label>(); break;
    case 1: f.template operator()<scalar>(); break;
    case 2: f.template operator()<Vector>(); break;
    case 3: f.template operator()<localIdx>(); break;
    default: f.template operator()<uint8_t>(); break;
    }
}

struct Use
{
    int name, type, slot, window;
    std::string text;
};
/// often one that differs little from the one before
int nextName(int before)
{
    uint32_t gen = before >= 0 && sim::rnd(sim::W, 2) ? (before + 1) % NNAMES : sim::rnd(sim::W, NNAMES);
    return (int)sim::chooseAs(sim::W, NNAMES, gen);
}

struct Order
{
    std::vector<int> start, finish;
};
/// each rank works through the windows in its own order; nothing of a window is finished before
/// all of it is started, so the program itself cannot deadlock
template<class Start, class Poll, class Finish>
void runRank(const std::vector<Use>& uses, bool lag, Start start, Poll poll, Finish finish)
{
    std::vector<int> flying;
    auto pickFly = [&]() {
        size_t k = sim::choose(sim::W, (uint32_t)flying.size());
        int e = flying[k];
        flying.erase(flying.begin() + k);
        return e;
    };
    size_t i = 0;
    while (i < uses.size())
    {
        std::vector<int> todo;
        int w = uses[i].window;
        for (; i < uses.size() && uses[i].window == w; i++) todo.push_back((int)i);
        std::vector<int> old = flying;
        while (!todo.empty())
        {
            size_t k = sim::choose(sim::W, (uint32_t)todo.size());
            int e = todo[k];
            todo.erase(todo.begin() + k);
            // only what was started in earlier windows may be finished here
            for (;;)
            {
                int c = -1;
                for (size_t j = 0; j < flying.size(); j++)
                    if (uses[flying[j]].window < w && (uses[flying[j]].slot == uses[e].slot || uses[flying[j]].text == uses[e].text)) c = (int)j;
                if (c < 0) break;
                int f = flying[c];
                flying.erase(flying.begin() + c);
                finish(f);
            }
            simmpi::maybeStall();
            start(e);
            flying.push_back(e);
            if (sim::flip(sim::W, 1, 3))
                poll(flying[sim::choose(sim::W, (uint32_t)flying.size())]);
        }
        bool last = i >= uses.size();
        while (!flying.empty() && (last || !lag || !sim::flip(sim::W, 1, 3)))
        {
            if (sim::flip(sim::W, 1, 4)) poll(flying[sim::choose(sim::W, (uint32_t)flying.size())]);
            simmpi::maybeStall();
            finish(pickFly());
        }
    }
}
int pickRanks()
{
    uint32_t r = sim::rnd(sim::W, 32);
    return 1 + (int)sim::chooseAs(sim::W, 12, r < 4 ? 0 : r == 4 ? 5 + sim::rnd(sim::W, 7) : 1 + sim::rnd(sim::W, 4));
}

/// how many entries rank s sends to rank d
using Counts = std::vector<std::vector<size_t>>;
Counts rndCounts(int n)
{
    Counts c(n, std::vector<size_t>(n, 0));
    uint32_t dens = sim::choose(sim::W, 4); // 0: nothing at all
    uint32_t of = n > 5 ? 16 : 4;
    for (auto& r : c)
        for (auto& x : r)
            if (dens && sim::choose(sim::W, of) < dens + 1) x = sim::choose(sim::W, 24) == 23 ? 4 + sim::choose(sim::W, 40) : sim::choose(sim::W, 4);
    // rarely one message of many thousand bytes
    uint32_t big = sim::chooseAs(sim::W, 6000, sim::rnd(sim::W, 40) == 0 ? 100 + sim::rnd(sim::W, sim::rnd(sim::W, 2) ? 400 : 5900) : 0);
    if (big)
    {
        c[sim::choose(sim::W, (uint32_t)n)][sim::choose(sim::W, (uint32_t)n)] = big;
        sim::probe("large-halo");
    }
    return c;
}
constexpr size_t MANY = 64;

// ------------------------------------------------------------------ M01
struct FieldSet
{
    std::unique_ptr<Field<label>> l;
    std::unique_ptr<Field<scalar>> s;
    std::unique_ptr<Field<Vector>> v;
    std::unique_ptr<Field<localIdx>> i;
    std::unique_ptr<Field<uint8_t>> b;
    template<class T>
    auto& get()
    {
        if constexpr (std::is_same_v<T, label>) return l;
        else if constexpr (std::is_same_v<T, scalar>)
            return s;
        else if constexpr (std::is_same_v<T, Vector>)
            return v;
        else if constexpr (std::is_same_v<T, localIdx>)
            return i;
        else
            return b;
    }
};
struct Halo
{
    int n;
    bool collide, own;
    int steady = 0; // exchanges one after the other at the end
    std::vector<size_t> size;                      // field size per rank
    std::vector<std::vector<std::vector<int>>> snd, rcv; // [rank][peer] -> local indices
    std::vector<Use> uses;
    // one entry per use and rank: identity of each field entry when the exchange was started
    std::vector<std::vector<std::vector<int>>> atStart;
};
constexpr int SLOTS = 8; // fields per rank, each of one type

void haloRank(Halo& h, int rank, bool lag, int& ids)
{
    MPI_Comm world = MPI_COMM_WORLD;
    if (h.own) MPI_Comm_dup(MPI_COMM_WORLD, &world);
    mpi::MPIEnvironment env(world);
    if (env.rank() != (size_t)rank || env.sizeRank() != (size_t)h.n) sim::fail("wrong-environment", "rank %zu of %zu instead of %d of %d", env.rank(), env.sizeRank(), rank, h.n);
    Communicator comm;
    {
        CommMap sm(h.n), rm(h.n);
        for (int p = 0; p < h.n; p++)
        {
            for (int i : h.snd[rank][p]) sm[p].push_back(NodeCommMap {.local_idx = (label)i});
            for (int i : h.rcv[rank][p]) rm[p].push_back(NodeCommMap {.local_idx = (label)i});
        }
        comm = Communicator(env, sm, rm);
    }
    // slot k holds a field of type k (one per slot); values are identified by running numbers
    FieldSet fs[SLOTS * NTYPES];
    std::vector<int> shadow[SLOTS * NTYPES];
    auto fieldOf = [&](const Use& u) { return u.slot * NTYPES + u.type; };
    Executor exec = pickExec();
    for (auto& u : h.uses)
    {
        int f = fieldOf(u);
        if (!shadow[f].empty() || h.size[rank] == 0) continue;
        withType(u.type, [&]<class T>() {
            Quiet q;
            std::vector<T> init;
            for (size_t i = 0; i < h.size[rank]; i++)
            {
                shadow[f].push_back(ids++);
                init.push_back(val<T>(shadow[f].back()));
            }
            fs[f].get<T>() = std::make_unique<Field<T>>(exec, init);
        });
    }
    auto check = [&](int f, int type, const char* when, int e) {
        withType(type, [&]<class T>() {
            Quiet q;
            auto& fld = fs[f].get<T>();
            if (!fld) return;
            auto got = content(*fld);
            if (got.size() != shadow[f].size()) sim::fail("wrong-content", "rank %d: the field has %zu entries instead of %zu %s", rank, got.size(), shadow[f].size(), when);
            for (size_t i = 0; i < got.size(); i++)
                if (!same(got[i], val<T>(shadow[f][i])))
                    sim::fail("wrong-content", "rank %d, %s exchange %d (\"%s\", type %d): entry %zu is %s instead of %s", rank, when, e, h.uses[e].text.c_str(), type, i, str(got[i]).c_str(), str(val<T>(shadow[f][i])).c_str());
        });
    };
    auto change = [&](int f, int type) {
        // the application goes on using the field while the exchange is in flight
        if (shadow[f].empty()) return;
        uint32_t k = sim::choose(sim::W, 3);
        for (uint32_t j = 0; j < k; j++)
        {
            size_t i = sim::choose(sim::W, (uint32_t)shadow[f].size());
            shadow[f][i] = ids++;
            withType(type, [&]<class T>() {
                Quiet q;
                fs[f].get<T>()->data()[i] = val<T>(shadow[f][i]);
            });
        }
    };
    auto ensure = [&](int f, int type) {
        withType(type, [&]<class T>() {
            if (!fs[f].get<T>())
            {
                Quiet q;
                fs[f].get<T>() = std::make_unique<Field<T>>(exec, (size_t)0);
            }
        });
    };
    runRank(
        h.uses, lag,
        [&](int e) {
            const Use& u = h.uses[e];
            int f = fieldOf(u);
            ensure(f, u.type);
            h.atStart[e][rank] = shadow[f];
            sim::log("rank %d starts %d", rank, e);
            withType(u.type, [&]<class T>() { comm.startComm(*fs[f].get<T>(), u.text); });
            check(f, u.type, "after starting", e);
            change(f, u.type);
        },
        [&](int e) {
            uint32_t k = 1 + sim::choose(sim::W, 3);
            bool was = false;
            for (uint32_t j = 0; j < k; j++)
            {
                bool is = comm.isComplete(h.uses[e].text);
                if (was && !is) sim::fail("completion-lost", "rank %d: exchange %d was complete and is no longer", rank, e);
                was = is;
            }
            check(fieldOf(h.uses[e]), h.uses[e].type, "after polling", e);
        },
        [&](int e) {
            const Use& u = h.uses[e];
            int f = fieldOf(u);
            uint32_t mode = sim::choose(sim::W, 3);
            if (mode == 1) comm.isComplete(u.text);
            if (mode == 2)
                while (!comm.isComplete(u.text)) {}
            change(f, u.type);
            sim::log("rank %d finishes %d", rank, e);
            withType(u.type, [&]<class T>() { comm.finaliseComm(*fs[f].get<T>(), u.text); });
            // what must have arrived
            std::vector<int> other = shadow[f];
            for (int p = 0; p < h.n; p++)
                for (size_t k = 0; k < h.rcv[rank][p].size(); k++)
                {
                    if (h.collide && h.atStart[e][p].empty() && !h.atStart[1 - e][p].empty()) continue; // judged below
                    if (h.atStart[e][p].empty()) sim::fail("phantom-data", "rank %d: exchange %d completed before rank %d started it", rank, e, p);
                    shadow[f][h.rcv[rank][p][k]] = h.atStart[e][p][h.snd[p][rank][k]];
                }
            if (h.collide)
            {
                // do entries hold the values of the exchange with the same tag?
                bool swapped = false;
                withType(u.type, [&]<class T>() {
                    Quiet q;
                    auto got = content(*fs[f].get<T>());
                    for (int p = 0; p < h.n; p++)
                    {
                        bool sw = !h.atStart[1 - e][p].empty();
                        bool ok = !h.atStart[e][p].empty();
                        for (size_t k = 0; k < h.rcv[rank][p].size(); k++)
                        {
                            size_t at = h.rcv[rank][p][k];
                            if (ok && !same(got[at], val<T>(shadow[f][at]))) ok = false;
                            if (sw && !same(got[at], val<T>(h.atStart[1 - e][p][h.snd[p][rank][k]]))) sw = false;
                        }
                        if (!ok && sw)
                        {
                            swapped = true;
                            for (size_t k = 0; k < h.rcv[rank][p].size(); k++) shadow[f][h.rcv[rank][p][k]] = h.atStart[1 - e][p][h.snd[p][rank][k]];
                        }
                    }
                });
                if (swapped) sim::finding("tag-collision", "rank %d: the exchanges \"%s\" and \"%s\" share a message tag; started in different orders on two ranks, each received the other's values", rank, TWIN[0], TWIN[1]);
            }
            check(f, u.type, "after finishing", e);
            change(f, u.type);
        }
    );
    for (size_t e = 0; e < h.uses.size(); e++) check(fieldOf(h.uses[e]), h.uses[e].type, "at the end, field of", (int)e);
    if (!h.steady) return;
    // one exchange after the other, each finished before the next is started: the same buffer serves all of them
    const Use& u = h.uses[0];
    int f = fieldOf(u);
    ensure(f, u.type);
    size_t blocks = 0, bytes = 0;
    for (int k = 0; k < h.steady; k++)
    {
        withType(u.type, [&]<class T>() {
            comm.startComm(*fs[f].get<T>(), u.text);
            comm.finaliseComm(*fs[f].get<T>(), u.text);
        });
        MPI_Barrier(MPI_COMM_WORLD);
        auto m = sim::memStat();
        MPI_Barrier(MPI_COMM_WORLD);
        if (k == 1) blocks = m.hostBlocks, bytes = m.hostBytes;
        if (k > 1 && (m.hostBlocks > blocks || m.hostBytes > bytes))
            sim::fail("leak", "rank %d: each exchange that follows a finished one holds on to more memory (%zu bytes in %zu blocks after 2, %zu in %zu after %d)", rank, bytes, blocks, (size_t)m.hostBytes, (size_t)m.hostBlocks, k + 1);
    }
    sim::probe("steady-exchanges");
}
void halo(bool strict)
{
    KernelMode km(false);
    Halo h;
    h.n = pickRanks();
    h.collide = !strict && sim::chooseAs(sim::W, 16, sim::rnd(sim::W, 16) == 0 ? 15 : 0) == 15;
    h.own = sim::flip(sim::W, 1, 3);
    bool lag = !h.collide && sim::flip(sim::W, 1, 2);
    Counts c = rndCounts(h.n);
    h.snd.resize(h.n);
    h.rcv.resize(h.n);
    h.size.resize(h.n);
    for (int r = 0; r < h.n; r++)
    {
        size_t need = 0, sends = 0;
        for (int p = 0; p < h.n; p++)
        {
            need += c[p][r];
            sends += c[r][p];
        }
        size_t n = need + sim::choose(sim::W, 5);
        if (n == 0 && sends) n = 1;
        h.size[r] = n;
        std::vector<int> freeIdx(n);
        for (size_t i = 0; i < n; i++) freeIdx[i] = (int)i;
        h.snd[r].resize(h.n);
        h.rcv[r].resize(h.n);
        for (int p = 0; p < h.n; p++)
        {
            size_t from = c[r][p] > MANY ? sim::choose(sim::W, (uint32_t)n) : 0;
            for (size_t k = 0; k < c[r][p]; k++) h.snd[r][p].push_back((int)(c[r][p] > MANY ? (from + k) % n : sim::choose(sim::W, (uint32_t)n)));
            for (size_t k = 0; k < c[p][r]; k++)
            {
                size_t j = c[p][r] > MANY ? 0 : sim::choose(sim::W, (uint32_t)freeIdx.size());
                h.rcv[r][p].push_back(freeIdx[j]);
                freeIdx[j] = freeIdx.back();
                freeIdx.pop_back();
            }
        }
    }
    int window = 0;
    if (h.collide)
    {
        int t = (int)sim::choose(sim::W, NTYPES);
        h.uses.push_back({0, t, 0, 0, TWIN[0]});
        h.uses.push_back({1, t, 1, 0, TWIN[1]});
    }
    else
    {
        const unsigned ops = sim::chooseAs(sim::W, 10, sim::rnd(sim::W, 12) == 0 ? 9 : 0) == 9 ? 16 : 5;
        while (sim::nextOp(ops))
        {
            Use u;
            u.name = nextName(h.uses.empty() ? -1 : h.uses.back().name);
            u.text = NAMES[u.name];
            u.type = (int)sim::choose(sim::W, NTYPES);
            u.slot = (int)sim::choose(sim::W, SLOTS);
            bool next = sim::flip(sim::W, 1, 3);
            for (auto& v : h.uses)
                if (v.window == window && (v.text == u.text || v.slot == u.slot)) next = true;
            if (next) window++;
            u.window = window;
            h.uses.push_back(u);
        }
    }
    if (h.uses.empty()) return;
    h.atStart.assign(h.uses.size(), std::vector<std::vector<int>>(h.n));
    for (size_t e = 0; e < h.uses.size(); e++) sim::log("exchange %zu: \"%s\" type %d slot %d window %d", e, h.uses[e].text.c_str(), h.uses[e].type, h.uses[e].slot, h.uses[e].window);
    sim::log("%d ranks%s", h.n, lag ? ", finishing late" : "");
    size_t total = 0;
    for (auto& r : c)
        for (auto x : r) total += x;
    if (h.n > 1 && total && h.uses.size() > 1) sim::nontrivial();
    if (h.uses.size() > 1 && h.uses[1].window == h.uses[0].window) sim::probe("overlapping-exchanges");
    h.steady = strict && sim::flip(sim::W, 1, 2) ? 2 + (int)sim::choose(sim::W, 5) : 0;
    auto before = sim::memStat();
    {
        int ids = 1;
        simmpi::start(h.n, strict);
        std::vector<std::function<void()>> body;
        {
            Quiet q;
            for (int r = 0; r < h.n; r++) body.push_back([&h, r, lag, &ids] { haloRank(h, r, lag, ids); });
        }
        for (auto& b : body) sim::spawnFn(b, "rank");
        sim::joinAll();
        simmpi::finish();
    }
    auto after = sim::memStat();
    if (after.kkBlocks != before.kkBlocks || after.devBlocks != before.devBlocks) sim::fail("leak", "field storage was leaked by an exchange");
}

// ------------------------------------------------------------------ M02
struct BufUse : Use
{
    Counts cnt; // of this use
    bool resize;
};
struct BufPlan
{
    int n, nb;
    std::vector<int> half; // per buffer: two half duplex buffers instead of one full duplex
    std::vector<Counts> cnt0;
    std::vector<BufUse> uses;
    std::vector<Use> plain;
    std::vector<std::vector<char>> started; // per use and rank
};
int elemId(int e, int s, int d, size_t k) { return 1 + ((e * 12 + s) * 12 + d) * 47 + (int)(k % 47); }

void bufRank(BufPlan& h, int rank)
{
    mpi::MPIEnvironment env;
    struct Buf
    {
        bool half = false;
        std::unique_ptr<mpi::FullDuplexCommBuffer> f;
        std::unique_ptr<mpi::HalfDuplexCommBuffer> s, r;
    };
    std::vector<Buf> bufs(h.nb);
    auto sendSizes = [&](const Counts& c) { return c[rank]; };
    auto recvSizes = [&](const Counts& c) {
        std::vector<size_t> v(h.n);
        for (int p = 0; p < h.n; p++) v[p] = c[p][rank];
        return v;
    };
    for (int b = 0; b < h.nb; b++)
    {
        bufs[b].half = h.half[b];
        if (bufs[b].half)
        {
            bufs[b].s = std::make_unique<mpi::HalfDuplexCommBuffer>(env, sendSizes(h.cnt0[b]));
            bufs[b].r = std::make_unique<mpi::HalfDuplexCommBuffer>(env, recvSizes(h.cnt0[b]));
        }
        else
            bufs[b].f = std::make_unique<mpi::FullDuplexCommBuffer>(env, sendSizes(h.cnt0[b]), recvSizes(h.cnt0[b]));
    }
    std::vector<char> done(h.uses.size(), 0);
    auto sendSpan = [&]<class T>(Buf& b, int p) { return b.half ? b.s->get<T>(p) : b.f->getSend<T>(p); };
    auto recvSpan = [&]<class T>(Buf& b, int p) { return b.half ? b.r->get<T>(p) : b.f->getReceive<T>(p); };
    auto isInit = [&](Buf& b) { return b.half ? b.s->isCommInit() && b.r->isCommInit() : b.f->isCommInit(); };
    auto complete = [&](Buf& b) {
        if (!b.half) return b.f->isComplete();
        bool x = b.s->isComplete();
        return b.r->isComplete() && x;
    };
    /// what must hold at the moment completion is reported
    auto reported = [&](int e, const char* how) {
        const BufUse& u = h.uses[e];
        Buf& b = bufs[u.slot];
        withType(u.type, [&]<class T>() {
            for (int p = 0; p < h.n; p++)
            {
                auto s = sendSpan.template operator()<T>(b, p);
                auto r = recvSpan.template operator()<T>(b, p);
                Quiet q;
                if (int k = simmpi::pendingIn(s.data(), s.size_bytes())) sim::fail("early-completion", "rank %d: %s reports exchange %d complete with %d send(s) to rank %d outstanding", rank, how, e, k, p);
                if (int k = simmpi::pendingIn(r.data(), r.size_bytes())) sim::fail("early-completion", "rank %d: %s reports exchange %d complete with %d receive(s) from rank %d outstanding", rank, how, e, k, p);
                for (size_t k = 0; k < r.size(); k++)
                    if (!same(r[k], val<T>(elemId(e, p, rank, k))))
                        sim::fail("wrong-content", "rank %d: after %s, element %zu of exchange %d from rank %d is %s instead of %s", rank, how, k, e, p, str(r[k]).c_str(), str(val<T>(elemId(e, p, rank, k))).c_str());
                for (size_t k = 0; k < s.size(); k++)
                    if (!same(s[k], val<T>(elemId(e, rank, p, k)))) sim::fail("wrong-content", "rank %d: after %s, the data sent in exchange %d changed", rank, how, e);
            }
        });
    };
    runRank(
        h.plain, true,
        [&](int e) {
            const BufUse& u = h.uses[e];
            Buf& b = bufs[u.slot];
            withType(u.type, [&]<class T>() {
                if (isInit(b)) sim::fail("wrong-state", "rank %d: buffer %d says it is in use before exchange %d", rank, u.slot, e);
                if (b.half)
                {
                    if (u.resize)
                    {
                        b.s->setCommRankSize<T>(sendSizes(u.cnt));
                        b.r->setCommRankSize<T>(recvSizes(u.cnt));
                    }
                    b.s->initComm<T>(u.text);
                    b.r->initComm<T>(u.text);
                    if (b.s->getCommName() != u.text || b.r->getCommName() != u.text) sim::fail("wrong-state", "rank %d: the buffer does not carry the name of the exchange", rank);
                }
                else
                    b.f->initComm<T>(u.text);
                if (!isInit(b)) sim::fail("wrong-state", "rank %d: buffer %d is not in use after initialisation", rank, u.slot);
                for (int p = 0; p < h.n; p++)
                {
                    auto s = sendSpan.template operator()<T>(b, p);
                    auto r = recvSpan.template operator()<T>(b, p);
                    if (s.size() != u.cnt[rank][p] || r.size() != u.cnt[p][rank]) sim::fail("wrong-size", "rank %d, exchange %d, peer %d: buffers of %zu and %zu elements instead of %zu and %zu", rank, e, p, s.size(), r.size(), u.cnt[rank][p], u.cnt[p][rank]);
                    for (size_t k = 0; k < s.size(); k++) s[k] = val<T>(elemId(e, rank, p, k));
                }
                // the regions of all ranks are disjoint
                for (int p = 0; p < h.n; p++)
                {
                    auto s = sendSpan.template operator()<T>(b, p);
                    for (size_t k = 0; k < s.size(); k++)
                        if (!same(s[k], val<T>(elemId(e, rank, p, k)))) sim::fail("wrong-content", "rank %d: the send regions of two ranks overlap", rank);
                }
            });
            sim::log("rank %d starts %d", rank, e);
            h.started[e][rank] = 1;
            if (b.half)
            {
                if (sim::flip(sim::W, 1, 2))
                {
                    b.r->receive();
                    b.s->send();
                }
                else
                {
                    b.s->send();
                    b.r->receive();
                }
            }
            else
                b.f->startComm();
        },
        [&](int e) {
            Buf& b = bufs[h.uses[e].slot];
            uint32_t k = 1 + sim::choose(sim::W, 3);
            for (uint32_t j = 0; j < k; j++)
            {
                bool is = complete(b);
                if (done[e] && !is) sim::fail("completion-lost", "rank %d: exchange %d was complete and is no longer", rank, e);
                if (is)
                {
                    done[e] = 1;
                    reported(e, "isComplete");
                }
            }
        },
        [&](int e) {
            const BufUse& u = h.uses[e];
            Buf& b = bufs[u.slot];
            if (sim::flip(sim::W, 1, 2))
            {
                if (b.half)
                {
                    b.s->waitComplete();
                    b.r->waitComplete();
                }
                else
                    b.f->waitComplete();
                reported(e, "waitComplete");
            }
            else
            {
                while (!complete(b)) {}
                reported(e, "isComplete");
            }
            sim::log("rank %d finishes %d", rank, e);
            if (b.half)
            {
                b.s->finaliseComm();
                b.r->finaliseComm();
            }
            else
                b.f->finaliseComm();
            if (isInit(b)) sim::fail("wrong-state", "rank %d: buffer %d is still in use after finishing exchange %d", rank, u.slot, e);
        }
    );
}
void buffers()
{
    KernelMode km(false);
    BufPlan h;
    h.n = pickRanks();
    h.nb = 1 + (int)sim::choose(sim::W, 3);
    for (int b = 0; b < h.nb; b++)
    {
        h.half.push_back(sim::flip(sim::W, 1, 2));
        h.cnt0.push_back(rndCounts(h.n));
    }
    std::vector<Counts> cur = h.cnt0;
    int window = 0;
    while (sim::nextOp(6))
    {
        BufUse u;
        u.name = nextName(h.uses.empty() ? -1 : h.uses.back().name);
        u.text = NAMES[u.name];
        u.type = (int)sim::choose(sim::W, NTYPES);
        u.slot = (int)sim::choose(sim::W, (uint32_t)h.nb);
        u.resize = h.half[u.slot] && sim::flip(sim::W, 1, 2);
        if (u.resize) cur[u.slot] = rndCounts(h.n);
        u.cnt = cur[u.slot];
        bool next = sim::flip(sim::W, 1, 3);
        for (auto& v : h.uses)
            if (v.window == window && (v.text == u.text || v.slot == u.slot)) next = true;
        if (next) window++;
        u.window = window;
        sim::log("exchange %zu: \"%s\" type %d buffer %d%s window %d", h.uses.size(), u.text.c_str(), u.type, u.slot, u.resize ? " resized" : "", u.window);
        h.uses.push_back(u);
        h.plain.push_back(u);
        if (h.uses.size() >= 9) break;
    }
    if (h.uses.empty()) return;
    h.started.assign(h.uses.size(), std::vector<char>(h.n, 0));
    sim::log("%d ranks, %d buffers", h.n, h.nb);
    if (h.n > 1 && h.uses.size() > 1) sim::nontrivial();
    simmpi::start(h.n, true);
    std::vector<std::function<void()>> body;
    for (int r = 0; r < h.n; r++) body.push_back([&h, r] { bufRank(h, r); });
    for (auto& b : body) sim::spawnFn(b, "rank");
    sim::joinAll();
    simmpi::finish();
}

// ------------------------------------------------------------------ M03
template<class T>
struct IsComplex : std::false_type
{
};
template<class T>
struct IsComplex<std::complex<T>> : std::true_type
{
};
/// 100 and above: values at the ends of the type and such that need its full precision
constexpr int ODD_SUM = 100, ODD_ANY = 104;
template<class T>
T oddVal(int v)
{
    using L = std::numeric_limits<T>;
    if constexpr (std::is_floating_point_v<T>)
    {
        switch (v)
        {
        case 100: return (T)0.25;
        // sums of twelve of these are exact in any order
        case 101: return sizeof(T) == 4 ? (T)-1024.25 : (T)-65536.25;
        case 102: return (T)1 / (T)(sizeof(T) > 8 ? 1ll << 40 : sizeof(T) == 8 ? 1ll << 28 : 1ll << 6);
        case 103: return (T)1 / (1 << 4);
        case 104: return L::max();
        case 105: return L::lowest();
        case 106: return L::min();
        case 107: return L::denorm_min();
        // digits only this type has
        default: return (T)1 + (sizeof(T) > 8 ? (T)1 / (T)(1ll << 60) : sizeof(T) == 8 ? (T)1 / (T)(1ll << 44) : (T)1 / (T)(1 << 18));
        }
    }
    else
    {
        switch (v)
        {
        case 100: return (T)((L::max() >> 8) + 1);
        case 101: return std::is_unsigned_v<T> ? L::max() : (T)(-(L::max() >> 6));
        case 102: return std::is_unsigned_v<T> ? (T)((L::max() >> 1) + 1) : (T)(L::max() >> 7);
        case 103: return (T)77;
        case 104: return L::max();
        case 105: return L::min();
        case 106: return (T)((L::max() >> 1) + 1);
        case 107: return (T)(L::max() - 1);
        default: return (T)(L::max() >> 1);
        }
    }
}
template<class T>
T redVal(int v)
{
    if constexpr (std::is_arithmetic_v<T> && !std::is_same_v<T, bool>)
        if (v >= ODD_SUM) return oddVal<T>(v);
    if constexpr (std::is_same_v<T, bool>) return v % 2 != 0;
    else if constexpr (std::is_unsigned_v<T>)
        return (T)(v < 0 ? -v : v);
    else if constexpr (IsComplex<T>::value)
        return T((typename T::value_type)v, (typename T::value_type)(v / 2));
    else
        return (T)v;
}
template<class T>
T model(mpi::ReduceOp op, T a, T b)
{
    using mpi::ReduceOp;
    if constexpr (IsComplex<T>::value) return op == ReduceOp::Sum ? a + b : a * b;
    else
    {
        switch (op)
        {
        case ReduceOp::Sum: return (T)(a + b);
        case ReduceOp::Prod: return (T)(a * b);
        case ReduceOp::Max: return a < b ? b : a;
        case ReduceOp::Min: return b < a ? b : a;
        default: break;
        }
        if constexpr (std::is_integral_v<T>)
        {
            switch (op)
            {
            case ReduceOp::Land: return (T)(a && b);
            case ReduceOp::Lor: return (T)(a || b);
            case ReduceOp::Band: return (T)(a & b);
            case ReduceOp::Bor: return (T)(a | b);
            default: break;
            }
        }
        return a;
    }
}
template<class T>
std::string show(const T& v)
{
    if constexpr (IsComplex<T>::value) return str((scalar)v.real()) + "+" + str((scalar)v.imag()) + "i";
    else
        return str((scalar)v);
}
struct Red
{
    int type, comm, p2p;
    mpi::ReduceOp op;
    std::vector<int> in; // one small value per rank and component
};
using mpi::ReduceOp;
template<class F>
void withRedType(int t, F&& f)
{
    switch (t)
    {
    case 0: f.template operator()<int>(); break;
    case 1: f.template operator()<double>(); break;
    case 2: f.template operator()<float>(); break;
    case 3: f.template operator()<long>(); break;
    case 4: f.template operator()<unsigned>(); break;
    case 5: f.template operator()<unsigned long>(); break;
    case 6: f.template operator()<short>(); break;
    case 7: f.template operator()<unsigned short>(); break;
    case 8: f.template operator()<long long>(); break;
    case 9: f.template operator()<unsigned long long>(); break;
    case 10: f.template operator()<long double>(); break;
    case 11: f.template operator()<bool>(); break;
    case 12: f.template operator()<std::complex<float>>(); break;
    case 13: f.template operator()<std::complex<double>>(); break;
    case 14: f.template operator()<std::complex<long double>>(); break;
    case 15: f.template operator()<wchar_t>(); break;
    default: f.template operator()<char>(); break;
    }
}
constexpr int REDTYPES = 17;

template<class T>
void p2p(int rank, int n, int step, MPI_Comm comm)
{
    // a ring of plain messages around the reductions
    int to = (rank + 1) % n, from = (rank + n - 1) % n;
    T out[3], in[3] = {};
    for (int k = 0; k < 3; k++) out[k] = redVal<T>(10 * step + rank * 3 + k);
    MPI_Request rq[2] = {MPI_REQUEST_NULL, MPI_REQUEST_NULL};
    int cnt = 1 + step % 3;
    mpi::irecv<T>(in, cnt, from, 11 + step, comm, &rq[0]);
    mpi::isend<T>(out, cnt, to, 11 + step, comm, &rq[1]);
    while (!mpi::test(&rq[0]) || !mpi::test(&rq[1])) {}
    for (int k = 0; k < 3; k++)
    {
        T want = k < cnt ? redVal<T>(10 * step + from * 3 + k) : T {};
        if (!(in[k] == want)) sim::fail("wrong-content", "rank %d: component %d of the message from rank %d is %s instead of %s", rank, k, from, show(in[k]).c_str(), show(want).c_str());
    }
}
const char* opName(ReduceOp o)
{
    static const char* n[] = {"max", "min", "sum", "prod", "land", "band", "lor", "bor", "maxloc", "minloc"};
    return n[(int)o];
}
void redRank(const std::vector<Red>& reds, int rank, int n)
{
    mpi::MPIEnvironment env;
    MPI_Comm dup;
    MPI_Comm_dup(env.comm(), &dup);
    mpi::MPIEnvironment env2(dup), self(MPI_COMM_SELF);
    if (self.sizeRank() != 1 || self.rank() != 0 || env2.rank() != (size_t)rank || env2.sizeRank() != (size_t)n || env2.comm() != dup) sim::fail("wrong-environment", "rank data of a communicator are wrong");
    int step = 0;
    for (auto& r : reds)
    {
        step++;
        simmpi::maybeStall();
        MPI_Comm c = r.comm == 0 ? env.comm() : r.comm == 1 ? env2.comm() : self.comm();
        if (r.p2p) withRedType(r.type == REDTYPES ? 1 : r.type, [&]<class T>() { p2p<T>(rank, n, step, env.comm()); });
        if (r.type == REDTYPES)
        {
            Vector v(r.in[rank * 3], r.in[rank * 3 + 1], r.in[rank * 3 + 2]);
            mpi::allReduce(v, r.op, c);
            for (int k = 0; k < 3; k++)
            {
                double want = r.comm == 2 ? r.in[rank * 3 + k] : r.in[k];
                if (r.comm != 2)
                    for (int q = 1; q < n; q++) want = model<double>(r.op, want, r.in[q * 3 + k]);
                if (v[k] != want) sim::fail("wrong-reduction", "rank %d: component %d of the %s of a vector is %g instead of %g (step %d)", rank, k, opName(r.op), v[k], want, step);
            }
            continue;
        }
        withRedType(r.type, [&]<class T>() {
            T buf[3] = {redVal<T>(3), redVal<T>(r.in[rank * 3]), redVal<T>(5)};
            mpi::allReduce(buf[1], r.op, c);
            T want = redVal<T>(r.comm == 2 ? r.in[rank * 3] : r.in[0]);
            if (r.comm != 2)
                for (int q = 1; q < n; q++) want = model<T>(r.op, want, redVal<T>(r.in[q * 3]));
            if (!(buf[1] == want)) sim::fail("wrong-reduction", "rank %d: the %s of type %d is %s instead of %s (step %d)", rank, opName(r.op), r.type, show(buf[1]).c_str(), show(want).c_str(), step);
            if (!(buf[0] == redVal<T>(3)) || !(buf[2] == redVal<T>(5))) sim::fail("wrong-reduction", "rank %d: the reduction of one value changed its neighbours", rank);
        });
    }
}
void reductions()
{
    int n = pickRanks();
    std::vector<Red> reds;
    const size_t most = sim::chooseAs(sim::W, 6, sim::rnd(sim::W, 8) == 0 ? 5 : 0) == 5 ? 60 : 12;
    while (sim::nextOp(most == 12 ? 8 : 48))
    {
        Red r;
        r.type = (int)sim::choose(sim::W, REDTYPES + 3);
        if (r.type > REDTYPES) r.type = r.type == REDTYPES + 1 ? REDTYPES : 1;
        bool complex = r.type >= 12 && r.type <= 14, flt = r.type == 1 || r.type == 2 || r.type == 10 || r.type == REDTYPES;
        static const ReduceOp all[] = {ReduceOp::Sum, ReduceOp::Prod, ReduceOp::Max, ReduceOp::Min, ReduceOp::Land, ReduceOp::Lor, ReduceOp::Band, ReduceOp::Bor};
        if (r.type == 11) r.op = sim::flip(sim::W, 1, 2) ? ReduceOp::Land : ReduceOp::Lor;
        else if (r.type >= 15 && r.type != REDTYPES) r.op = all[sim::choose(sim::W, 4)];
        else
            r.op = all[sim::choose(sim::W, complex ? 2 : flt ? 4 : 8)];
        r.comm = (int)sim::choose(sim::W, 4);
        if (r.comm == 3) r.comm = 0;
        r.p2p = sim::flip(sim::W, 1, 3);
        for (int k = 0; k < n * 3; k++)
        {
            int v = (int)sim::choose(sim::W, 9) - 3;
            if (sim::choose(sim::W, 6) == 5) v += 3 * (int)sim::choose(sim::W, 5);
            if (r.op == ReduceOp::Prod) v = v % 3;
            if (r.type == 16) v = v < 0 ? -v : v;
            bool small = (r.type >= 11 && r.type <= 14) || r.type >= 15;
            if (uint32_t odd = sim::chooseAs(sim::W, 10, sim::rnd(sim::W, 5) == 0 ? 1 + sim::rnd(sim::W, 9) : 0); odd && !small)
            {
                if (r.op == ReduceOp::Sum) v = ODD_SUM + (int)odd % 4;
                else if (r.op != ReduceOp::Prod)
                    v = ODD_SUM + (int)odd - 1;
            }
            r.in.push_back(v);
        }
        sim::log("reduction %zu: %s of type %d on communicator %d%s", reds.size(), opName(r.op), r.type, r.comm, r.p2p ? " after messages" : "");
        reds.push_back(r);
        if (reds.size() >= most) break;
    }
    if (reds.empty()) return;
    sim::log("%d ranks", n);
    if (n > 1 && reds.size() > 1) sim::nontrivial();
    simmpi::start(n, true);
    std::vector<std::function<void()>> body;
    for (int r = 0; r < n; r++) body.push_back([&reds, r, n] { redRank(reds, r, n); });
    for (auto& b : body) sim::spawnFn(b, "rank");
    sim::joinAll();
    simmpi::finish();
}
const char* TWIN[2] = {"field30", "field58"};
}

namespace
{
/// one program, sometimes followed by another one
void again(void (*w)())
{
    w();
    if (sim::exits() || !sim::chooseAs(sim::W, 2, sim::rnd(sim::W, 6) == 0)) return;
    sim::probe("another-history");
    w();
}
}
SIM_PROPERTY(M01, "at least two ranks, a non-empty map and two or more exchanges")
{
    again([] { halo(false); });
}
SIM_PROPERTY(M02, "at least two ranks and two or more exchanges")
{
    again([] {
        if (sim::flip(sim::W, 1, 2)) halo(true);
        else
            buffers();
    });
}
SIM_PROPERTY(M03, "at least two ranks and two or more reductions")
{
    again(reductions);
}
