// F04 segmented storage
#include "kk.hpp"

#include <memory>

#include "NeoFOAM/core/parallelAlgorithms.hpp"
#include "NeoFOAM/fields/fieldTypeDefs.hpp"
#include "NeoFOAM/fields/segmentedField.hpp"

using namespace NeoFOAM;
using namespace hk;

namespace
{
template<class I>
std::vector<I> rndLengths()
{
    static const size_t tab[] = {0, 1, 2, 3, 5, 9, 17};
    size_t n = tab[sim::choose(sim::W, 7)];
    // rarely many, and long ones
    uint32_t r = sim::chooseAs(sim::W, 3, sim::rnd(sim::W, 40) == 0 ? 1 + sim::rnd(sim::W, 2) : 0);
    if (r == 1) n = 60 + 13 * n;
    if (r) sim::probe(r == 1 ? "many-segments" : "long-segments");
    std::vector<I> l(n);
    for (auto& x : l) x = (I)(sim::choose(sim::W, 5) * (r == 2 ? 70 : 1));
    return l;
}
template<class I>
std::vector<I> prefix(const std::vector<I>& l)
{
    std::vector<I> o(l.size() + 1, 0);
    for (size_t i = 0; i < l.size(); i++) o[i + 1] = o[i] + l[i];
    return o;
}

/// every segment is written and read in parallel through the view
template<class T, class I>
void useSegments(SegmentedField<T, I>& s, const std::vector<I>& off)
{
    size_t n = off.size() - 1, total = off.back();
    Executor e = s.exec();
    if (s.numSegments() != n) sim::fail("wrong-segments", "numSegments is %zu instead of %zu", s.numSegments(), n);
    if (s.size() != total) sim::fail("wrong-segments", "size is %zu instead of %zu", s.size(), total);
    expectPlaced("segment values", s.values());
    expectPlaced("segment offsets", s.segments());
    expectContent("segment offsets", s.segments(), off);
    {
        auto [v, g] = s.spans();
        if (v.size() != total || g.size() != n + 1 || v.data() != s.values().data() || g.data() != s.segments().data()) sim::fail("wrong-segments", "spans() do not show the stored values and offsets");
    }
    auto view = s.view();
    Field<I> start(e, n), stop(e, n), len(e, n), at(e, n + 1);
    Field<label> hits(e, total, 0);
    auto vs = start.view();
    auto vp = stop.view();
    auto vl = len.view();
    auto va = at.view();
    auto* base = s.values().data();
    auto vh = hits.view();
    parallelFor(
        e,
        {0, n},
        KOKKOS_LAMBDA(const size_t i) {
            auto b = view.bounds(i);
            auto r = view.range(i);
            vs[i] = b.first;
            vp[i] = b.second;
            vl[i] = r.second == b.second - b.first && r.first == b.first ? r.second : I(9999);
            va[i] = view[i];
            auto sp = view.span(i);
            if (sp.size() != (size_t)r.second) vl[i] = I(8888);
            for (size_t k = 0; k < sp.size(); k++)
            {
                sp[k] = T(i * 16 + k);
                vh[(size_t)(&sp[k] - base)] += 1;
            }
        }
    );
    std::vector<I> ws(n), wp(n), wl(n);
    std::vector<T> wv(total);
    for (size_t i = 0; i < n; i++)
    {
        ws[i] = off[i];
        wp[i] = off[i + 1];
        wl[i] = off[i + 1] - off[i];
        for (size_t k = 0; k < (size_t)wl[i]; k++) wv[off[i] + k] = T(i * 16 + k);
    }
    expectContent("start of each segment", start, ws);
    expectContent("end of each segment", stop, wp);
    expectContent("length of each segment", len, wl);
    expectContent("segments cover every value exactly once", hits, std::vector<label>(total, 1));
    expectContent("values written per segment", s.values(), wv);
    // writing one segment changes no other
    if (n && total)
    {
        size_t one = sim::choose(sim::W, (uint32_t)n);
        parallelFor(
            e,
            {one, one + 1},
            KOKKOS_LAMBDA(const size_t i) {
                for (auto& x : view.span(i)) x = T(-1);
            }
        );
        for (size_t k = 0; k < (size_t)wl[one]; k++) wv[off[one] + k] = T(-1);
        expectContent("one segment rewritten", s.values(), wv);
        expectContent("segment offsets", s.segments(), off);
    }
}
template<class T, class I>
void segRun()
{
    uint32_t span = 8;
    while (sim::nextOp(6))
    {
        Executor e = pickExec();
        auto len = rndLengths<I>();
        auto off = prefix(len);
        uint32_t k = sim::choose(sim::W, 4);
        sim::log("segments op %u: %zu segments, %zu values on %s", k, len.size(), (size_t)off.back(), execName(e));
        if (len.size() > 1 && e.index()) sim::nontrivial();
        switch (k)
        {
        case 0:
        case 1: // from lengths
        {
            Field<I> li(e, len);
            std::unique_ptr<SegmentedField<T, I>> s;
            Outcome o = sim::attempt([&] { s = std::make_unique<SegmentedField<T, I>>(li); }, span);
            expectOk("construct from lengths", o);
            expectContent("lengths", li, len);
            if (s)
            {
                useSegments(*s, off);
                expectContent("lengths", li, len);
            }
            break;
        }
        case 2: // from values and offsets; the copy is independent
        {
            std::vector<T> v(off.back());
            for (auto& x : v) x = rndVal<T>();
            Field<T> fv(e, v);
            Field<I> fo(e, off);
            Executor e2 = sim::flip(sim::W, 1, 4) ? pickExec() : e;
            Field<I> fo2(e2, fo);
            std::unique_ptr<SegmentedField<T, I>> s;
            Outcome o = sim::attempt([&] { s = std::make_unique<SegmentedField<T, I>>(fv, fo2); }, span);
            if (!(e2 == e))
            {
                if (o.ok()) sim::fail("wrong-outcome", "values and offsets on different executors were accepted");
                if (o.res == Res::Exited) return;
            }
            expectOk("construct from values and offsets", o);
            if (s)
            {
                expectContent("values", s->values(), v);
                useSegments(*s, off);
                expectContent("source values", fv, v);
                expectContent("source offsets", fo2, off);
            }
            break;
        }
        default: // the free function on prepared offsets
        {
            Field<I> li(e, len);
            Field<I> fo(e, len.size() + 1, I(0));
            I total = I(77);
            Outcome o = sim::attempt([&] { total = segmentsFromIntervals(li, fo); }, 0);
            expectOk("segmentsFromIntervals", o);
            if (total != off.back()) sim::fail("wrong-total", "segmentsFromIntervals returned %zu instead of %zu", (size_t)total, (size_t)off.back());
            expectContent("offsets from lengths", fo, off);
            expectContent("lengths", li, len);
            // and back again
            Field<I> back(e, len.size());
            auto vb = back.view();
            auto vo = fo.view();
            parallelFor(
                e, {0, len.size()}, KOKKOS_LAMBDA(const size_t i) { vb[i] = vo[i + 1] - vo[i]; }
            );
            expectContent("lengths recovered from offsets", back, len);
            SegmentedField<T, I> s(e, off.back(), len.size());
            if (s.size() != (size_t)off.back() || s.numSegments() != len.size() || !(s.exec() == e)) sim::fail("wrong-segments", "construction from counts");
            break;
        }
        }
        auto st = sim::memStat();
        if (st.kkBlocks + st.devBlocks) sim::fail("storage-leak", "%llu storage blocks left behind", (unsigned long long)(st.kkBlocks + st.devBlocks));
    }
}
}
SIM_PROPERTY(F04, "a run counts as non-trivial when a segmented field with two or more segments was built on a parallel executor")
{
    KernelMode km(true);
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    switch (sim::choose(sim::W, 3))
    {
    case 0: segRun<label, localIdx>(); break;
    case 1: segRun<scalar, localIdx>(); break;
    default: segRun<scalar, label>(); break;
    }
}
