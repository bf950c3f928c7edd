// V07 mesh geometry, V08 shared derived data
#include "fv.hpp"

#include "NeoFOAM/finiteVolume/cellCentred/stencil/geometryScheme.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/basicGeometryScheme.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenGrad.hpp"

using namespace fv;

namespace
{
Flat flatOf(const std::vector<V3>& v)
{
    Flat r;
    for (auto& p : v) r.insert(r.end(), p.x, p.x + 3);
    return r;
}
Flat flatOf(const std::vector<int>& v, size_t from = 0) { return Flat(v.begin() + from, v.end()); }

template<class T>
void patchView(const char* what, const Field<T>& whole, View<const T> part, size_t from, size_t to)
{
    if (part.size() != to - from || (to > from && part.data() != whole.data() + from)) sim::fail("wrong-patch", "%s of a patch shows %zu entries instead of [%zu,%zu) of the boundary", what, (size_t)part.size(), from, to);
}
/// everything a mesh stores, and that its boundary data agrees with its face data
void checkMesh(const HM& h, const UnstructuredMesh& m)
{
    Quiet q;
    if (m.nCells() != h.nc || m.nInternalFaces() != h.ni || m.nBoundaryFaces() != h.nb || m.nFaces() != h.ni + h.nb || m.nBoundaries() != h.nPatches()) sim::fail("wrong-mesh", "mesh says %zu cells %zu+%zu of %zu faces %zu patches", m.nCells(), m.nInternalFaces(), m.nBoundaryFaces(), m.nFaces(), m.nBoundaries());
    expectFlat("cell centres", m.cellCentres(), flatOf(h.C));
    expectFlat("cell volumes", m.cellVolumes(), h.V);
    expectFlat("face areas", m.faceAreas(), flatOf(h.Sf));
    expectFlat("face centres", m.faceCentres(), flatOf(h.Cf));
    expectFlat("face area magnitudes", m.magFaceAreas(), h.mag);
    expectFlat("face owners", m.faceOwner(), flatOf(h.own));
    expectFlat("face neighbours", m.faceNeighbour(), flatOf(h.nei));
    expectFlat("points", m.points(), flatOf(h.pts));
    auto& b = m.boundaryMesh();
    expectFlat("boundary face cells", b.faceCells(), flatOf(h.own, h.ni));
    expectFlat("boundary face centres", b.cf(), flatOf(h.bcf));
    if (h.kind != 0) expectFlat("boundary cell centres", b.cn(), flatOf(h.bcn)); // the single-cell mesh stores its face areas there
    expectFlat("boundary areas", b.sf(), flatOf(h.bsf));
    expectFlat("boundary area magnitudes", b.magSf(), h.bmag);
    expectFlat("boundary normals", b.nf(), flatOf(h.bnf));
    expectFlat("boundary deltas", b.delta(), flatOf(h.bdelta));
    expectFlat("boundary weights", b.weights(), h.bw);
    expectFlat("boundary delta coefficients", b.deltaCoeffs(), h.bdc);
    if (b.offset() != h.off) sim::fail("wrong-mesh", "wrong patch offsets");
    for (size_t p = 0; p < h.nPatches(); p++)
    {
        size_t f = h.off[p], t = h.off[p + 1];
        localIdx i = (localIdx)p;
        patchView("face cells", b.faceCells(), b.faceCells(i), f, t);
        patchView("centres", b.cf(), b.cf(i), f, t);
        patchView("cell centres", b.cn(), b.cn(i), f, t);
        patchView("areas", b.sf(), b.sf(i), f, t);
        patchView("magnitudes", b.magSf(), b.magSf(i), f, t);
        patchView("normals", b.nf(), b.nf(i), f, t);
        patchView("deltas", b.delta(), b.delta(i), f, t);
        patchView("weights", b.weights(), b.weights(i), f, t);
        patchView("delta coefficients", b.deltaCoeffs(), b.deltaCoeffs(i), f, t);
    }
    expectPlaced("cell volumes", m.cellVolumes());
    expectPlaced("face owners", m.faceOwner());
    expectPlaced("boundary cells", b.faceCells());
    if (h.kind > 1) return;
    // generated meshes are closed
    Flat sf = flat(m.faceAreas()), own = flat(m.faceOwner()), nei = flat(m.faceNeighbour()), vol = flat(m.cellVolumes());
    std::vector<V3> sum(h.nc, V3 {0, 0, 0});
    double total = 0;
    for (double v : vol) total += v;
    for (size_t i = 0; i < m.nFaces(); i++)
        for (int c = 0; c < 3; c++)
        {
            sum[(size_t)own[i]].x[c] += sf[i * 3 + c];
            if (i < m.nInternalFaces()) sum[(size_t)nei[i]].x[c] -= sf[i * 3 + c];
        }
    for (size_t c = 0; c < h.nc; c++)
        if (len(sum[c]) > 1e-12) sim::fail("open-cell", "face areas of cell %zu of a generated mesh do not cancel", c);
    if (std::fabs(total - 1) > 1e-9) sim::fail("wrong-mesh", "volumes of a generated mesh add up to %g", total);
}
void checkScheme(const HM& h, const fvcc::GeometryScheme& s)
{
    Quiet q;
    Flat w = flat(s.weights().internalField());
    for (double x : w)
        if (!(x >= 0 && x <= 1)) sim::fail("wrong-geometry", "interpolation weight %g", x);
    expectFlat("interpolation weights", s.weights().internalField(), weightsOf(h));
    expectFlat("distance coefficients", s.deltaCoeffs().internalField(), deltaCoeffsOf(h));
    expectFlat("non-orthogonal distance coefficients", s.nonOrthDeltaCoeffs().internalField(), nonOrthOf(h));
    for (double x : flat(s.deltaCoeffs().internalField()))
        if (!(x > 0)) sim::fail("wrong-geometry", "distance coefficient %g", x);
}
/// fields of one mesh moved to another executor, put together again
std::unique_ptr<UnstructuredMesh> transferred(const UnstructuredMesh& m, const Executor& e)
{
    auto& b = m.boundaryMesh();
    return std::make_unique<UnstructuredMesh>(
        m.points().copyToExecutor(e),
        m.cellVolumes().copyToExecutor(e),
        m.cellCentres().copyToExecutor(e),
        m.faceAreas().copyToExecutor(e),
        m.faceCentres().copyToExecutor(e),
        m.magFaceAreas().copyToExecutor(e),
        m.faceOwner().copyToExecutor(e),
        m.faceNeighbour().copyToExecutor(e),
        m.nCells(),
        m.nInternalFaces(),
        m.nBoundaryFaces(),
        m.nBoundaries(),
        m.nFaces(),
        BoundaryMesh(
            e,
            b.faceCells().copyToExecutor(e),
            b.cf().copyToExecutor(e),
            b.cn().copyToExecutor(e),
            b.sf().copyToExecutor(e),
            b.magSf().copyToExecutor(e),
            b.nf().copyToExecutor(e),
            b.delta().copyToExecutor(e),
            b.weights().copyToExecutor(e),
            b.deltaCoeffs().copyToExecutor(e),
            b.offset()
        )
    );
}
}
FV_PROPERTY(V07, "a run counts as non-trivial when a copied or transferred mesh was checked, or an allocation failed")
{
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    auto before = sim::memStat();
    {
        HM h;
        std::vector<std::unique_ptr<UnstructuredMesh>> ms;
        {
            TestMesh t(pickExec());
            h = t.h;
            ms.push_back(std::move(t.m));
        }
        // generated with failures on the way
        if (h.kind <= 1)
        {
            std::unique_ptr<UnstructuredMesh> again;
            Executor e = pickExec();
            auto o = sim::attempt([&] { again.reset(h.kind == 0 ? new UnstructuredMesh(createSingleCellMesh(e)) : new UnstructuredMesh(create1DUniformMesh(e, h.nc))); }, 60);
            expectOk("generate mesh", o);
            if (o.ok()) ms.push_back(std::move(again));
            else
                sim::nontrivial();
        }
        while (sim::nextOp(5))
        {
            size_t k = sim::choose(sim::W, (uint32_t)ms.size());
            switch (sim::choose(sim::W, 4))
            {
            case 0: checkMesh(h, *ms[k]); break;
            case 1:
            {
                std::unique_ptr<fvcc::GeometryScheme> s;
                bool own = sim::flip(sim::W, 1, 3);
                bool upd = sim::flip(sim::W, 1, 3);
                auto o = sim::attempt(
                    [&]
                    {
                        if (own) s.reset(new fvcc::GeometryScheme(ms[k]->exec(), *ms[k], std::make_unique<fvcc::BasicGeometryScheme>(*ms[k])));
                        else
                            s.reset(new fvcc::GeometryScheme(*ms[k]));
                        if (upd) s->update();
                    },
                    40
                );
                expectOk("GeometryScheme", o);
                if (o.ok()) checkScheme(h, *s);
                break;
            }
            case 2:
            case 3:
                if (ms.size() < 4)
                {
                    std::unique_ptr<UnstructuredMesh> c;
                    bool copy = sim::flip(sim::W, 1, 2);
                    Executor e = pickExec();
                    auto o = sim::attempt(
                        [&]
                        {
                            if (copy) c.reset(new UnstructuredMesh(*ms[k]));
                            else
                                c = transferred(*ms[k], e);
                        },
                        40
                    );
                    expectOk("copy mesh", o);
                    sim::nontrivial();
                    if (!o.ok()) break;
                    if (c->exec().index() != (copy ? ms[k]->exec() : e).index()) sim::fail("wrong-executor", "copied mesh is on the %s executor", execName(c->exec()));
                    if (sim::flip(sim::W, 1, 3) && ms.size() > 1) ms.erase(ms.begin() + k); // the copy stands alone
                    ms.push_back(std::move(c));
                    checkMesh(h, *ms.back());
                    checkScheme(h, *fvcc::GeometryScheme::readOrCreate(*ms.back()));
                }
                break;
            }
        }
        for (auto& m : ms) checkMesh(h, *m);
        ms.clear();
    }
    auto after = sim::memStat();
    if (after.kkBlocks != before.kkBlocks) sim::fail("leak", "%lld field storage blocks left", (long long)(after.kkBlocks - before.kkBlocks));
}

namespace
{
struct Entry
{
    HM h;
    std::unique_ptr<UnstructuredMesh> m;
    std::shared_ptr<fvcc::GeometryScheme> gs;
    std::shared_ptr<fvcc::SparsityPattern> sp;
    // seen once and held by the mesh alone since
    const fvcc::GeometryScheme* gsAt = nullptr;
    const fvcc::SparsityPattern* spAt = nullptr;
    std::vector<std::shared_ptr<void>> users;
    Flat mark; // weights the harness wrote into the shared instance
};
template<class T, class Make>
void throughUser(Entry& x, const char* what, Make make)
{
    // every user of the mesh works with the shared instance: it sees the marked weights
    std::unique_ptr<fvcc::VolumeField<T>> phi;
    std::unique_ptr<fvcc::SurfaceField<T>> dst;
    Flat in, val;
    {
        Quiet q;
        VF<T> v(x.m->exec(), *x.m, "phi");
        in = v.in, val = v.val;
        phi = std::move(v.f);
        SF<T> s(x.m->exec(), *x.m, "dst");
        dst = std::move(s.f);
    }
    auto o = sim::attempt([&] { make(*phi, *dst); }, 30);
    expectOk(what, o);
    if (o.faultFired) sim::nontrivial();
    if (!o.ok()) return;
    Quiet q;
    Flat w = x.mark.empty() ? weightsOf(x.h) : x.mark, want;
    for (size_t i = 0; i < x.h.ni + x.h.nb; i++)
        for (int c = 0; c < NC<T>; c++)
        {
            if (i < x.h.ni) want.push_back(w[i] * in[(size_t)x.h.own[i] * NC<T> + c] + (1 - w[i]) * in[(size_t)x.h.nei[i] * NC<T> + c]);
            else
                want.push_back(w[i] * val[(i - x.h.ni) * NC<T> + c]);
        }
    std::string d = diffFlat(flat(dst->internalField()), want, NC<T>);
    if (!d.empty()) sim::fail("not-shared", "%s does not work with the geometry data shared by the mesh: %s", what, d.c_str());
}
}
FV_PROPERTY(V08, "a run counts as non-trivial when derived data was requested from a copied mesh or after a failed request")
{
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    std::vector<Entry> ms;
    auto checkAll = [&]
    {
        Quiet q;
        for (size_t i = 0; i < ms.size(); i++)
            for (size_t j = 0; j < i; j++)
            {
                if (ms[i].gsAt && ms[i].gsAt == ms[j].gsAt) sim::fail("shared-across-meshes", "two meshes share one geometry scheme");
                if (ms[i].spAt && ms[i].spAt == ms[j].spAt) sim::fail("shared-across-meshes", "two meshes share one sparsity pattern");
            }
    };
    // derived data is kept by many, or by the mesh alone
    auto release = [&](Entry& x)
    {
        Quiet q;
        if (uint32_t n = sim::chooseAs(sim::W, 40, sim::rnd(sim::W, 12) == 0 ? sim::rnd(sim::W, 40) : 0))
            for (uint32_t i = 0; i < n; i++)
            {
                if (x.gs) x.users.push_back(x.gs);
                if (x.sp) x.users.push_back(x.sp);
            }
        if (!sim::flip(sim::W, 1, 3)) return;
        x.users.clear();
        x.gs.reset();
        x.sp.reset();
    };
    auto newMesh = [&]
    {
        Entry x;
        TestMesh t(pickExec());
        x.h = t.h;
        x.m = std::move(t.m);
        ms.push_back(std::move(x));
    };
    newMesh();
    while (sim::nextOp(9))
    {
        size_t k = sim::choose(sim::W, (uint32_t)ms.size());
        Entry& x = ms[k];
        switch (sim::choose(sim::W, 9))
        {
        case 0:
        case 1:
        {
            std::shared_ptr<fvcc::GeometryScheme> s;
            auto o = sim::attempt([&] { s = fvcc::GeometryScheme::readOrCreate(*x.m); }, 60);
            expectOk("GeometryScheme::readOrCreate", o);
            if (o.faultFired) sim::nontrivial();
            if (!o.ok()) break;
            if (x.gsAt && s.get() != x.gsAt) sim::fail("not-shared", "a later request returned another geometry scheme");
            if (&s->weights().mesh() != x.m.get()) sim::fail("wrong-mesh", "the geometry scheme refers to another mesh");
            if (!x.gsAt && x.mark.empty()) checkScheme(x.h, *s);
            x.gs = s;
            x.gsAt = s.get();
            release(x);
            break;
        }
        case 2:
        {
            std::shared_ptr<fvcc::SparsityPattern> s;
            auto o = sim::attempt([&] { s = fvcc::SparsityPattern::readOrCreate(*x.m); }, 30);
            expectOk("SparsityPattern::readOrCreate", o);
            if (o.faultFired) sim::nontrivial();
            if (!o.ok()) break;
            if (x.spAt && s.get() != x.spAt) sim::fail("not-shared", "a later request returned another sparsity pattern");
            if (&s->mesh() != x.m.get()) sim::fail("wrong-mesh", "the sparsity pattern refers to another mesh");
            {
                Quiet q;
                Flat ptr = flat(s->rowPtrs());
                if (ptr.size() != x.h.nc + 1 || ptr.back() != (double)(x.h.nc + 2 * x.h.ni) || s->diagOffset().size() != x.h.nc || s->ownerOffset().size() != x.h.ni) sim::fail("incomplete", "the sparsity pattern is not that of the mesh");
            }
            x.sp = s;
            x.spAt = s.get();
            release(x);
            break;
        }
        case 3: // mark the shared weights
            if (x.gs)
            {
                Quiet q;
                Flat w;
                for (size_t i = 0; i < x.h.ni + x.h.nb; i++) w.push_back(0.25 * sim::choose(sim::W, 5));
                put(x.gs->weights().internalField(), w);
                x.mark = w;
            }
            break;
        case 4:
            throughUser<scalar>(x, "linear interpolation", [&](const auto& phi, auto& dst) { fvcc::Linear<scalar>(x.m->exec(), *x.m).interpolate(phi, dst); });
            break;
        case 5:
            throughUser<Vector>(x, "selected interpolation", [&](const auto& phi, auto& dst) { fvcc::SurfaceInterpolation<Vector>(x.m->exec(), *x.m, TokenList(std::vector<std::any> {std::string("linear")})).interpolate(phi, dst); });
            break;
        case 6: // other users leave the shared data alone
        {
            auto o = sim::attempt(
                [&]
                {
                    fvcc::FaceNormalGradient<scalar> f(x.m->exec(), *x.m, TokenList(std::vector<std::any> {std::string("uncorrected")}));
                    fvcc::GaussGreenGrad g(x.m->exec(), *x.m);
                    if (x.gs && &f.deltaCoeffs() != &x.gs->nonOrthDeltaCoeffs()) sim::fail("not-shared", "face normal gradients use their own distance coefficients");
                },
                60
            );
            expectOk("other users", o);
            if (o.faultFired) sim::nontrivial();
            break;
        }
        case 7:
            if (ms.size() < 4)
            {
                if (sim::flip(sim::W, 1, 3))
                {
                    newMesh();
                    break;
                }
                Entry y;
                auto o = sim::attempt([&] { y.m.reset(new UnstructuredMesh(*x.m)); }, 40);
                expectOk("copy mesh", o);
                if (!o.ok()) break;
                y.h = x.h;
                ms.push_back(std::move(y));
                sim::nontrivial();
            }
            break;
        case 8:
            if (ms.size() > 1) ms.erase(ms.begin() + k); // its derived data must not be needed by the others
            break;
        }
        checkAll();
    }
}
