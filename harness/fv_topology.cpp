// V01 cell-to-face stencil, V02 sparsity pattern
#include "fv.hpp"

#include "NeoFOAM/finiteVolume/cellCentred/stencil/cellToFaceStencil.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"

using namespace fv;

FV_PROPERTY(V01, "a run counts as non-trivial when several faces of one cell were handled concurrently or an allocation failed")
{
    WideCells wide;
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    TestMesh t(pickExec());
    std::vector<std::vector<size_t>> want(t.h.nc);
    for (size_t i = 0; i < t.h.ni; i++)
    {
        want[t.h.own[i]].push_back(i);
        want[t.h.nei[i]].push_back(i);
    }
    for (size_t b = 0; b < t.h.nb; b++) want[t.h.fc(b)].push_back(t.h.ni + b);
    std::unique_ptr<fvcc::CellToFaceStencil> s(new fvcc::CellToFaceStencil(*t.m));
    while (sim::nextOp(3))
    {
        std::unique_ptr<SegmentedField<localIdx, localIdx>> r;
        auto o = sim::attempt([&] { r.reset(new SegmentedField<localIdx, localIdx>(s->computeStencil())); }, 10);
        expectOk("computeStencil", o);
        if (o.faultFired) sim::nontrivial();
        if (!o.ok()) continue;
        Quiet q;
        Flat val = flat(r->values()), seg = flat(r->segments());
        if (r->numSegments() != t.h.nc) sim::fail("wrong-stencil", "stencil has %zu cells instead of %zu", (size_t)r->numSegments(), t.h.nc);
        for (size_t c = 0; c < t.h.nc; c++)
        {
            if (seg[c] > seg[c + 1] || seg[c + 1] > val.size()) sim::fail("wrong-stencil", "extent of cell %zu is [%g,%g) of %zu entries", c, seg[c], seg[c + 1], val.size());
            std::vector<size_t> got;
            for (size_t k = (size_t)seg[c]; k < (size_t)seg[c + 1]; k++) got.push_back((size_t)val[k]);
            std::sort(got.begin(), got.end());
            if (got != want[c])
            {
                std::string g, w;
                for (auto x : got) g += " " + std::to_string(x);
                for (auto x : want[c]) w += " " + std::to_string(x);
                sim::fail("wrong-stencil", "cell %zu on %s lists faces [%s ] instead of [%s ]", c, execName(t.e), g.c_str(), w.c_str());
            }
        }
        if (seg[0] != 0 || (size_t)seg[t.h.nc] != val.size()) sim::fail("wrong-stencil", "stencil covers %g of %zu entries", seg[t.h.nc], val.size());
    }
}

static void checkPattern(const HM& h, const Executor& e, const fvcc::SparsityPattern& s)
{
    Quiet q;
    Flat ptr = flat(s.rowPtrs()), col = flat(s.colIdxs()), oo = flat(s.ownerOffset()), no = flat(s.neighbourOffset()), dd = flat(s.diagOffset());
    std::vector<std::vector<int>> want(h.nc);
    for (size_t c = 0; c < h.nc; c++) want[c].push_back((int)c);
    size_t most = 0;
    for (size_t i = 0; i < h.ni; i++)
    {
        want[h.own[i]].push_back(h.nei[i]);
        want[h.nei[i]].push_back(h.own[i]);
    }
    for (auto& w : want) most = std::max(most, w.size());
    if (ptr.size() != h.nc + 1 || col.size() != h.nc + 2 * h.ni || (size_t)s.rows() != h.nc || (size_t)s.nnz() != col.size()) sim::fail("wrong-pattern", "%zu row extents and %zu entries for %zu cells and %zu internal faces", ptr.size(), col.size(), h.nc, h.ni);
    if (ptr[0] != 0 || ptr[h.nc] != (double)col.size()) sim::fail("wrong-pattern", "row extents run from %g to %g of %zu entries", ptr[0], ptr[h.nc], col.size());
    for (size_t c = 0; c < h.nc; c++)
    {
        if (ptr[c] > ptr[c + 1] || ptr[c + 1] > (double)col.size()) sim::fail("wrong-pattern", "row %zu is [%g,%g)", c, ptr[c], ptr[c + 1]);
        std::vector<int> got;
        for (size_t k = (size_t)ptr[c]; k < (size_t)ptr[c + 1]; k++) got.push_back((int)col[k]);
        std::sort(got.begin(), got.end());
        std::sort(want[c].begin(), want[c].end());
        if (got != want[c])
        {
            std::string g, w;
            for (auto x : got) g += " " + std::to_string(x);
            for (auto x : want[c]) w += " " + std::to_string(x);
            sim::fail("wrong-pattern", "row %zu on %s has columns [%s ] instead of [%s ]", c, execName(e), g.c_str(), w.c_str());
        }
    }
    if (oo.size() != h.ni || no.size() != h.ni || dd.size() != h.nc) sim::fail("wrong-offset", "%zu/%zu/%zu offsets", oo.size(), no.size(), dd.size());
    // each offset points at the entry it stands for, and no two faces share one
    std::vector<char> used(col.size(), 0);
    auto look = [&](const char* what, size_t id, size_t row, double off, int column)
    {
        double k = ptr[row] + off;
        if (k < ptr[row + 1] && (int)col[(size_t)k] == column && !used[(size_t)k])
        {
            used[(size_t)k] = 1;
            return true;
        }
        if (most > 256)
        {
            sim::finding("offset-overflow", "%s offset %zu does not fit: row %zu has %zu entries and offsets are bytes", what, id, row, most);
            return false;
        }
        sim::fail("wrong-offset", "%s offset of %zu on %s points at column %g of row %zu instead of column %d", what, id, execName(e), k < (double)col.size() ? col[(size_t)k] : -1.0, row, column);
        return false;
    };
    for (size_t c = 0; c < h.nc; c++)
        if (!look("diagonal", c, c, dd[c], (int)c)) return;
    for (size_t i = 0; i < h.ni; i++)
        if (!look("owner", i, h.own[i], oo[i], h.nei[i]) || !look("neighbour", i, h.nei[i], no[i], h.own[i])) return;
}
FV_PROPERTY(V02, "a run counts as non-trivial when several faces of one cell were handled concurrently, a cell had more neighbours than fit into a byte, or an allocation failed")
{
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    std::unique_ptr<TestMesh> t;
    std::unique_ptr<UnstructuredMesh> star;
    HM h;
    Executor e = pickExec();
    const UnstructuredMesh* m;
    if (sim::chooseAs(sim::W, 2, sim::rnd(sim::W, 128) == 0))
    {
        h = starMesh(250 + sim::choose(sim::W, 12));
        star.reset(new UnstructuredMesh(build(e, h)));
        m = star.get();
        sim::nontrivial();
    }
    else
    {
        t.reset(new TestMesh(e));
        h = t->h;
        m = t->m.get();
    }
    while (sim::nextOp(3))
    {
        std::shared_ptr<fvcc::SparsityPattern> s;
        bool again = sim::flip(sim::W, 1, 4);
        bool cached = sim::flip(sim::W, 1, 3);
        auto o = sim::attempt(
            [&]
            {
                if (cached) s = fvcc::SparsityPattern::readOrCreate(*m);
                else
                    s = std::make_shared<fvcc::SparsityPattern>(*m);
            },
            16
        );
        expectOk("SparsityPattern", o);
        if (o.faultFired) sim::nontrivial();
        if (!o.ok()) continue;
        checkPattern(h, e, *s);
        if (again)
        {
            o = sim::attempt([&] { s->update(); }, 0);
            expectOk("SparsityPattern::update", o);
            checkPattern(h, e, *s);
        }
        if (&s->mesh() != m) sim::fail("wrong-mesh", "the pattern refers to another mesh");
    }
}
