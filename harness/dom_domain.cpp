// F05 boundary and domain data
#include "kk.hpp"

#include <memory>

#include "NeoFOAM/fields/fieldTypeDefs.hpp"
#include "NeoFOAM/fields/boundaryFields.hpp"
#include "NeoFOAM/fields/domainField.hpp"

using namespace NeoFOAM;
using namespace hk;

namespace
{
template<class T>
struct BModel
{
    std::vector<T> value, refValue, refGrad;
    std::vector<scalar> frac;
    std::vector<int> types;
    std::vector<localIdx> off;
};
template<class T>
struct DModel
{
    std::vector<T> in;
    BModel<T> b;
};
std::vector<localIdx> rndOffsets()
{
    size_t n = sim::choose(sim::W, 5);
    std::vector<localIdx> o(1, 0);
    for (size_t i = 0; i < n; i++) o.push_back(o.back() + sim::choose(sim::W, 4));
    return o;
}
template<class T>
void randomise(const Field<T>& f, std::vector<T>& m, T (*gen)())
{
    m.resize(f.size());
    for (auto& x : m) x = gen();
    Quiet q;
    for (size_t i = 0; i < m.size(); i++) const_cast<T*>(f.data())[i] = m[i];
}
int genType() { return (int)sim::choose(sim::W, 5); }
template<class T>
void fillB(BoundaryFields<T>& b, BModel<T>& m)
{
    randomise(b.value(), m.value, &rndVal<T>);
    randomise(b.refValue(), m.refValue, &rndVal<T>);
    randomise(b.refGrad(), m.refGrad, &rndVal<T>);
    randomise(b.valueFraction(), m.frac, &rndVal<scalar>);
    randomise(b.boundaryTypes(), m.types, &genType);
}
template<class F>
void onExec(const char* what, const F& f, const Executor& e)
{
    if (!(f.exec() == e)) sim::fail("wrong-executor", "%s is on %s instead of %s", what, execName(f.exec()), execName(e));
    expectPlaced(what, f);
}
template<class T>
void checkB(const char* after, BoundaryFields<T>& b, const BModel<T>& m, const Executor& e, bool ranges)
{
    {
        Quiet q;
        if (!(b.exec() == e)) sim::fail("wrong-executor", "after %s: boundary data says it is on %s instead of %s", after, execName(b.exec()), execName(e));
        onExec("boundary values", b.value(), e);
        onExec("reference values", b.refValue(), e);
        onExec("reference gradients", b.refGrad(), e);
        onExec("value fractions", b.valueFraction(), e);
        onExec("patch types", b.boundaryTypes(), e);
        onExec("patch offsets", b.offset(), e);
        expectContent("boundary values", b.value(), m.value);
        expectContent("reference values", b.refValue(), m.refValue);
        expectContent("reference gradients", b.refGrad(), m.refGrad);
        expectContent("value fractions", b.valueFraction(), m.frac);
        expectContent("patch types", b.boundaryTypes(), m.types);
        expectContent("patch offsets", b.offset(), m.off);
        if (b.nBoundaries() != m.off.size() - 1 || b.nBoundaryFaces() != m.off.back()) sim::fail("wrong-count", "after %s: %zu patches and %zu faces", after, b.nBoundaries(), b.nBoundaryFaces());
    }
    if (!ranges) return;
    const auto& c = b;
    for (size_t p = 0; p + 1 < m.off.size(); p++)
    {
        auto r = c.range((localIdx)p);
        if (r.first != m.off[p] || r.second != m.off[p + 1]) sim::fail("wrong-range", "range of patch %zu is [%u,%u) instead of [%u,%u)", p, r.first, r.second, m.off[p], m.off[p + 1]);
    }
}
constexpr int N = 3;
template<class T>
struct World
{
    std::unique_ptr<DomainField<T>> d[N];
    DModel<T> m[N];
    Executor e[N] = {execOf(0), execOf(0), execOf(0)};
    std::unique_ptr<BoundaryFields<T>> b[N];
    BModel<T> bm[N];
    Executor be[N] = {execOf(0), execOf(0), execOf(0)};

    void checkAll(const char* after)
    {
        uint64_t blocks = 0;
        auto count = [&](const auto& f)
        { blocks += f.data() != nullptr; };
        auto countB = [&](auto& x)
        {
            count(x.value());
            count(x.refValue());
            count(x.refGrad());
            count(x.valueFraction());
            count(x.boundaryTypes());
            count(x.offset());
        };
        bool ranges = sim::flip(sim::W, 1, 3);
        for (int i = 0; i < N; i++)
        {
            if (d[i])
            {
                {
                    Quiet q;
                    if (!(d[i]->exec() == e[i])) sim::fail("wrong-executor", "after %s: domain field says it is on %s instead of %s", after, execName(d[i]->exec()), execName(e[i]));
                    onExec("interior", d[i]->internalField(), e[i]);
                    expectContent("interior", d[i]->internalField(), m[i].in);
                    count(d[i]->internalField());
                    countB(d[i]->boundaryField());
                }
                checkB(after, d[i]->boundaryField(), m[i].b, e[i], ranges);
            }
            if (b[i])
            {
                {
                    Quiet q;
                    countB(*b[i]);
                }
                checkB(after, *b[i], bm[i], be[i], ranges);
            }
        }
        auto st = sim::memStat();
        if (st.kkBlocks + st.devBlocks != blocks) sim::fail("storage-leak", "after %s: %llu storage blocks live instead of %llu", after, (unsigned long long)(st.kkBlocks + st.devBlocks), (unsigned long long)blocks);
    }
    template<class A>
    int have(A& a)
    {
        int c[N], n = 0;
        for (int i = 0; i < N; i++)
            if (a[i]) c[n++] = i;
        return n ? c[sim::choose(sim::W, n)] : -1;
    }
};
template<class T>
void run()
{
    World<T> w;
    uint32_t span = 16;
    while (sim::nextOp(12))
    {
        int s = (int)sim::choose(sim::W, N);
        uint32_t k = sim::choose(sim::W, 15);
        int od = w.have(w.d), ob = w.have(w.b);
        if (k >= 3 && k < 9 && od < 0) k = 0;
        if (k >= 9 && ob < 0) k = 2;
        Executor e = pickExec();
        if (e.index() == 2) sim::nontrivial();
        const char* name = "";
        Outcome o;
        std::unique_ptr<DomainField<T>> nd;
        std::unique_ptr<BoundaryFields<T>> nb;
        sim::log("domain op %u slot %d from %d/%d on %s", k, s, od, ob, execName(e));
        switch (k)
        {
        case 0:
        case 1: // fresh
        {
            auto off = rndOffsets();
            size_t n = sim::choose(sim::W, 5);
            name = "construct domain field";
            w.d[s].reset();
            bool withIn = k == 1;
            bool empty = k == 0 && sim::flip(sim::W, 1, 6); // no cells, no patches
            if (empty)
            {
                n = 0;
                off.assign(1, 0);
            }
            std::vector<T> in(n);
            for (auto& x : in) x = rndVal<T>();
            Executor ie = pickExec();
            Field<T> f(ie, in);
            o = sim::attempt(
                [&]
                {
                    if (withIn) nd = std::make_unique<DomainField<T>>(e, f, off);
                    else if (empty)
                        nd = std::make_unique<DomainField<T>>(e);
                    else
                        nd = std::make_unique<DomainField<T>>(e, n, off);
                },
                span
            );
            if (o.ok())
            {
                w.d[s] = std::move(nd);
                w.e[s] = e;
                w.m[s].b.off = off;
                if (withIn) w.m[s].in = in;
                else
                    randomise(w.d[s]->internalField(), w.m[s].in, &rndVal<T>);
                fillB(w.d[s]->boundaryField(), w.m[s].b);
            }
            break;
        }
        case 2:
        {
            auto off = rndOffsets();
            name = "construct boundary data";
            w.b[s].reset();
            o = sim::attempt([&] { nb = std::make_unique<BoundaryFields<T>>(e, off); }, span);
            if (o.ok())
            {
                w.b[s] = std::move(nb);
                w.be[s] = e;
                w.bm[s].off = off;
                fillB(*w.b[s], w.bm[s]);
            }
            break;
        }
        case 3: // copy / move
        case 4:
        {
            name = k == 3 ? "copy domain field" : "move domain field";
            auto m = w.m[od];
            e = w.e[od];
            if (k == 4 && s == od) s = (s + 1) % N;
            o = sim::attempt(
                [&]
                {
                    if (k == 3) nd = std::make_unique<DomainField<T>>(*w.d[od]);
                    else
                        nd = std::make_unique<DomainField<T>>(std::move(*w.d[od]));
                },
                span
            );
            if (k == 4) w.d[od].reset(); // a moved-from field may only be destroyed
            if (o.ok())
            {
                w.d[s] = std::move(nd);
                w.m[s] = m;
                w.e[s] = e;
            }
            break;
        }
        case 5: // parts of existing data, possibly from another executor
        {
            if (ob < 0) break;
            name = "construct domain field from parts";
            auto m = w.m[od];
            auto bm = w.bm[ob];
            o = sim::attempt([&] { nd = std::make_unique<DomainField<T>>(e, w.d[od]->internalField(), *w.b[ob]); }, span);
            if (o.ok())
            {
                w.d[s] = std::move(nd);
                w.m[s] = m;
                w.m[s].b = bm;
                w.e[s] = e;
            }
            break;
        }
        case 6: // transfer of a whole domain field
        {
            name = "transfer domain field";
            auto m = w.m[od];
            o = sim::attempt([&] { nd = std::make_unique<DomainField<T>>(e, w.d[od]->internalField(), w.d[od]->boundaryField()); }, span);
            if (o.ok())
            {
                w.d[s] = std::move(nd);
                w.m[s] = m;
                w.e[s] = e;
            }
            break;
        }
        case 7: // assignment
        {
            if (!w.d[s] || !(w.e[s] == w.e[od])) break;
            name = "assign domain field";
            bool mv = sim::flip(sim::W, 1, 3) && s != od;
            auto m = w.m[od];
            o = sim::attempt(
                [&]
                {
                    if (mv) *w.d[s] = std::move(*w.d[od]);
                    else
                        *w.d[s] = *w.d[od];
                },
                0
            );
            w.m[s] = m;
            if (mv) w.d[od].reset();
            break;
        }
        case 8: // change one; the others must not follow
        {
            name = "overwrite domain field";
            randomise(w.d[od]->internalField(), w.m[od].in, &rndVal<T>);
            fillB(w.d[od]->boundaryField(), w.m[od].b);
            break;
        }
        case 9:
        {
            name = "copy boundary data";
            auto m = w.bm[ob];
            e = w.be[ob];
            o = sim::attempt([&] { nb = std::make_unique<BoundaryFields<T>>(*w.b[ob]); }, span);
            if (o.ok()) w.b[s] = std::move(nb), w.bm[s] = m, w.be[s] = e;
            break;
        }
        case 10:
        case 11:
        {
            name = "transfer boundary data";
            auto m = w.bm[ob];
            o = sim::attempt([&] { nb = std::make_unique<BoundaryFields<T>>(e, *w.b[ob]); }, span);
            if (o.ok()) w.b[s] = std::move(nb), w.bm[s] = m, w.be[s] = e;
            break;
        }
        case 12:
        {
            name = "overwrite boundary data";
            fillB(*w.b[ob], w.bm[ob]);
            break;
        }
        case 13:
        {
            if (!w.b[s] || !(w.be[s] == w.be[ob])) break;
            name = "assign boundary data";
            o = sim::attempt([&] { *w.b[s] = *w.b[ob]; }, 0);
            auto m = w.bm[ob];
            w.bm[s] = m;
            break;
        }
        default:
            name = "destroy";
            w.d[s].reset();
            w.b[s].reset();
            break;
        }
        if (!*name) continue;
        expectOk(name, o);
        if (o.faultFired) sim::nontrivial();
        w.checkAll(name);
    }
}
}
SIM_PROPERTY(F05, "a run counts as non-trivial when device executors took part or an allocation failed")
{
    KernelMode km(true);
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    if (sim::flip(sim::W, 1, 2)) run<Vector>();
    else
        run<scalar>();
}
