// V06 boundary conditions
#include "fv.hpp"

using namespace fv;

namespace
{
enum Kind
{
    Calc,
    Empty,
    FixedValue,
    FixedGradient,
    Extrapolated
};
const char* kindName[] = {"calculated", "empty", "fixedValue", "fixedGradient", "extrapolated"};
struct Bc
{
    Kind k;
    size_t patch;
    double v[3];
};
template<class T>
Dictionary dictOf(const Bc& b)
{
    Dictionary d({{"type", std::string(kindName[b.k])}});
    if (b.k == FixedValue) d.insert("fixedValue", pack<T>(b.v));
    if (b.k == FixedGradient) d.insert("fixedGradient", pack<T>(b.v));
    return d;
}
/// flattened content of a field and its boundary
struct Model
{
    Flat in, val, rv, rg, vf;
    void correct(const HM& h, const Bc& b, int nc, bool surface)
    {
        for (size_t i = h.off[b.patch]; i < h.off[b.patch + 1]; i++)
        {
            for (int c = 0; c < nc; c++)
            {
                size_t k = i * nc + c;
                if (surface)
                {
                    if (b.k == FixedValue) val[k] = rv[k] = in[h.ni * nc + k] = b.v[c];
                    continue;
                }
                double cell = in[(size_t)h.fc(i) * nc + c];
                if (b.k == FixedValue) val[k] = rv[k] = rg[k] = b.v[c];
                if (b.k == FixedGradient) rg[k] = b.v[c], rv[k] = 0, val[k] = cell + b.v[c] / h.bdc[i];
                if (b.k == Extrapolated) val[k] = rv[k] = cell, rg[k] = 0;
            }
            if (!surface && (b.k == FixedValue || b.k == Extrapolated)) vf[i] = 1;
            if (!surface && b.k == FixedGradient) vf[i] = 0;
        }
    }
};
template<class FieldT, class BoundaryT, class T, bool Surface>
struct Scenario
{
    TestMesh t;
    std::vector<BoundaryT> bcs;
    std::vector<Bc> model;
    Scenario() : t(pickExec()) {}
    struct Obj
    {
        std::unique_ptr<FieldT> f;
        Model m;
    };
    std::vector<Obj> objs;

    bool create(const Bc& b)
    {
        std::unique_ptr<BoundaryT> made;
        auto o = sim::attempt([&] { made.reset(new BoundaryT(*t.m, dictOf<T>(b), b.patch)); }, 16);
        expectOk("construct boundary condition", o);
        if (o.faultFired) sim::nontrivial();
        if (!o.ok()) return false;
        if (made->patchID() != b.patch || made->patchStart() != (label)t.h.off[b.patch] || made->patchEnd() != (label)t.h.off[b.patch + 1] || made->patchSize() != t.h.off[b.patch + 1] - t.h.off[b.patch])
            sim::fail("wrong-patch", "condition of patch %zu says patch %zu, entries %d to %d, size %zu instead of %u to %u", b.patch, made->patchID(), made->patchStart(), made->patchEnd(), made->patchSize(), (unsigned)t.h.off[b.patch], (unsigned)t.h.off[b.patch + 1]);
        auto r = made->range();
        if (r.first != t.h.off[b.patch] || r.second != t.h.off[b.patch + 1]) sim::fail("wrong-patch", "range of patch %zu is [%zu,%zu)", b.patch, r.first, r.second);
        bcs.push_back(*made);
        model.push_back(b);
        sim::log("  %s on patch %zu [%u,%u) value %g", kindName[b.k], b.patch, (unsigned)t.h.off[b.patch], (unsigned)t.h.off[b.patch + 1], b.v[0]);
        return true;
    }
    Bc rndBc(size_t patch)
    {
        Bc b {Calc, patch, {0, 0, 0}};
        b.k = (Kind)sim::choose(sim::W, Surface ? 3 : 5);
        for (double& x : b.v) x = rndInt();
        return b;
    }
    void fill(Obj& x)
    {
        x.m.in = randomise(x.f->internalField());
        auto& b = x.f->boundaryField();
        x.m.val = randomise(b.value());
        x.m.rv = randomise(b.refValue());
        x.m.rg = randomise(b.refGrad());
        x.m.vf.clear();
        for (size_t i = 0; i < b.valueFraction().size(); i++) x.m.vf.push_back(0.5 * sim::choose(sim::W, 3));
        put(b.valueFraction(), x.m.vf);
    }
    void check(const char* what, Obj& x)
    {
        Quiet q;
        expectFlat(what, x.f->internalField(), x.m.in);
        auto& b = x.f->boundaryField();
        auto part = [&](const char* n, const auto& f, const Flat& want) { expectFlat((std::string(what) + ": " + n).c_str(), f, want); };
        part("value", b.value(), x.m.val);
        part("reference value", b.refValue(), x.m.rv);
        part("reference gradient", b.refGrad(), x.m.rg);
        part("value fraction", b.valueFraction(), x.m.vf);
    }
    void newField()
    {
        Obj x;
        auto o = sim::attempt([&] { x.f.reset(new FieldT(t.e, "f", *t.m, bcs)); }, 30);
        expectOk("construct field", o);
        if (!o.ok()) return;
        fill(x);
        objs.push_back(std::move(x));
    }
    void run()
    {
        std::vector<size_t> order;
        for (size_t p = 0; p < t.h.nPatches(); p++) order.push_back(p);
        for (size_t i = 1; i < order.size(); i++) std::swap(order[i], order[i - sim::choose(sim::W, (uint32_t)i + 1)]);
        for (size_t p : order)
            if (!sim::flip(sim::W, 1, 6)) create(rndBc(p)); // some patches may have no condition at all
        if (!order.empty() && sim::flip(sim::W, 1, 6)) create(rndBc(order[0])); // a later condition on the same patch wins
        int used = 0;
        for (auto& b : model) used += b.k >= FixedValue && t.h.off[b.patch + 1] > t.h.off[b.patch];
        if (used > 1) sim::nontrivial();
        newField();
        while (sim::nextOp(6))
        {
            if (objs.empty())
            {
                newField();
                continue;
            }
            Obj& x = objs[sim::choose(sim::W, (uint32_t)objs.size())];
            switch (sim::choose(sim::W, 6))
            {
            case 0:
            case 1:
            {
                auto o = sim::attempt([&] { x.f->correctBoundaryConditions(); }, 8);
                expectOk("correctBoundaryConditions", o);
                if (!o.ok()) // failed part way: the next correction completes it
                {
                    sim::nontrivial();
                    o = sim::attempt([&] { x.f->correctBoundaryConditions(); }, 0);
                    expectOk("correctBoundaryConditions after a failed one", o);
                }
                    for (auto& b : model) x.m.correct(t.h, b, NC<T>, Surface);
                break;
            }
            case 2: // nothing changed in between: the same values again
            {
                auto o = sim::attempt([&] { x.f->correctBoundaryConditions(), x.f->correctBoundaryConditions(); }, 0);
                expectOk("correctBoundaryConditions twice", o);
                for (auto& b : model) x.m.correct(t.h, b, NC<T>, Surface);
                break;
            }
            case 3: fill(x); break;
            case 4:
                if (!model.empty()) // one condition alone
                {
                    size_t k = sim::choose(sim::W, (uint32_t)bcs.size());
                    if constexpr (!Surface)
                    {
                        auto all = x.f->boundaryConditions();
                        if (all.size() != bcs.size()) sim::fail("wrong-conditions", "field has %zu conditions instead of %zu", all.size(), bcs.size());
                        if (all[k].patchID() != model[k].patch) sim::fail("wrong-conditions", "condition %zu is of patch %zu instead of %zu", k, all[k].patchID(), model[k].patch);
                    }
                }
                break;
            case 5:
                if (objs.size() < 3)
                {
                    Obj y;
                    uint32_t how = sim::choose(sim::W, Surface ? 3 : 2);
                    auto o = sim::attempt(
                        [&]
                        {
                            if (how == 0) y.f.reset(new FieldT(*x.f));
                            if (how == 1) y.f.reset(new FieldT(t.e, "of parts", *t.m, x.f->internalField(), x.f->boundaryField(), bcs));
                            if constexpr (Surface)
                                if (how == 2) y.f.reset(new FieldT(t.e, "of parts", *t.m, DomainField<T>(t.e, x.f->internalField(), x.f->boundaryField()), bcs));
                        },
                        30
                    );
                    expectOk("copy field", o);
                    if (!o.ok()) break;
                    if (y.f->name != (how ? "of parts" : x.f->name.c_str())) sim::fail("wrong-name", "a copy of a field is named %s", y.f->name.c_str());
                    if (&y.f->mesh() != t.m.get()) sim::fail("wrong-mesh", "a copy of a field is on another mesh");
                    y.m = x.m;
                    objs.push_back(std::move(y));
                }
                break;
            }
            for (auto& y : objs) check("field with boundary conditions", y);
        }
    }
};
}
FV_PROPERTY(V06, "a run counts as non-trivial when at least two patches with entries declared values or an allocation failed")
{
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    auto before = sim::memStat();
    switch (sim::choose(sim::W, 4))
    {
    case 0:
    {
        Scenario<fvcc::VolumeField<scalar>, fvcc::VolumeBoundary<scalar>, scalar, false> s;
        s.run();
        break;
    }
    case 1:
    {
        Scenario<fvcc::VolumeField<Vector>, fvcc::VolumeBoundary<Vector>, Vector, false> s;
        s.run();
        break;
    }
    case 2:
    {
        Scenario<fvcc::SurfaceField<scalar>, fvcc::SurfaceBoundary<scalar>, scalar, true> s;
        s.run();
        break;
    }
    case 3:
    {
        Scenario<fvcc::SurfaceField<Vector>, fvcc::SurfaceBoundary<Vector>, Vector, true> s;
        s.run();
        break;
    }
    }
    auto after = sim::memStat();
    if (after.kkBlocks != before.kkBlocks) sim::fail("leak", "%lld field storage blocks left", (long long)(after.kkBlocks - before.kkBlocks));
}
