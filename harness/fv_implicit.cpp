// V05 implicit operators, V13 sparse matrices and linear systems
#include "fv_ls.hpp"

#include <numeric>

#include "NeoFOAM/core/parallelAlgorithms.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
#include "NeoFOAM/dsl/implicit.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/ddtOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/sourceTerm.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenLaplacian.hpp"

using namespace fv;
using OpType = dsl::Operator::Type;

namespace
{
template<class T>
struct Implicit
{
    TestMesh t;
    Database db;
    std::shared_ptr<fvcc::SparsityPattern> sp;
    VF<T> phi;
    VF<scalar> coef;
    SF<scalar> flux;
    Flat bcoef; // 1/distance of boundary faces
    bool consistent = false;
    fvcc::VolumeField<T>* reg = nullptr;
    fvcc::VolumeField<T>* old = nullptr;
    Flat oldIn;
    static std::vector<fvcc::VolumeBoundary<T>> bcsOf(TestMesh& t, bool real)
    {
        if (real) return Bcs<T>(t).b;
        return fvcc::createCalculatedBCs<fvcc::VolumeBoundary<T>>(*t.m);
    }
    Implicit() : Implicit(sim::flip(sim::W, 1, 2)) {}
    explicit Implicit(bool real)
        : t(pickExec()), sp(fvcc::SparsityPattern::readOrCreate(*t.m)), phi(t.e, *t.m, "phi", bcsOf(t, real)), coef(t.e, *t.m, "coef"), flux(t.e, *t.m, "flux"), consistent(real)
    {
        if (real)
        {
            phi.f->correctBoundaryConditions();
            readBack();
        }
    }
    void readBack()
    {
        auto& b = phi.f->boundaryField();
        phi.val = flat(b.value()), phi.rv = flat(b.refValue()), phi.rg = flat(b.refGrad()), phi.vf = flat(b.valueFraction());
    }
    void registerPhi()
    {
        if (reg) return;
        fvcc::FieldCollection& fc = fvcc::FieldCollection::instance(db, "fields");
        reg = &fc.registerField<fvcc::VolumeField<T>>(fvcc::CreateFromExistingField<fvcc::VolumeField<T>> {.name = "phi", .field = *phi.f, .timeIndex = 1, .iterationIndex = 1, .subCycleIndex = 1});
        old = &fvcc::oldTime(*reg);
        oldIn = randomise(old->internalField());
    }
    /// where the gradient condition and the face gradient measure the same distance
    bool orthogonalGradients()
    {
        Flat dc = nonOrthOf(t.h);
        for (size_t b = 0; b < t.h.nb; b++)
            if (phi.vf[b] != 1 && std::fabs(dc[t.h.ni + b] - t.h.bdc[b]) > 1e-9 * std::fabs(dc[t.h.ni + b])) return false;
        return true;
    }
    void run()
    {
        using LS = la::LinearSystem<T, localIdx>;
        std::unique_ptr<LS> ls;
        auto o = sim::attempt([&] { ls.reset(new LS(la::createEmptyLinearSystem<T, localIdx, fvcc::SparsityPattern>(*sp))); }, 20);
        expectOk("createEmptyLinearSystem", o);
        if (!o.ok()) ls.reset(new LS(la::createEmptyLinearSystem<T, localIdx, fvcc::SparsityPattern>(*sp)));
        Flat ptr = flat(ls->matrix().rowPtrs()), col = flat(Field<localIdx>(ls->matrix().colIdxs()));
        Dense want(t.h.nc, NC<T>);
        expectSystem("new system", *ls, want, ptr, col);
        if (ls->exec().index() != t.e.index()) sim::fail("wrong-executor", "new system is on the %s executor", execName(ls->exec()));
        if (sim::flip(sim::W, 1, 3))
        {
            randomise(ls->matrix().values());
            randomise(ls->rhs());
            want = denseOf(*ls);
        }
        while (sim::nextOp(4))
        {
            RC k(t.e, t.h.nc, sim::choose(sim::W, 4));
            uint32_t how = sim::choose(sim::W, 3);
            uint32_t what = sim::choose(sim::W, 5);
            if (what == 2) registerPhi();
            Flat v0 = flat(ls->matrix().values()), b0 = flat(ls->rhs());
            const char* name[] = {"implicit divergence", "implicit Laplacian", "implicit time derivative", "implicit source", "reset"};
            double dt = rndDt();
            auto op = [&]
            {
                if (what == 0)
                {
                    TokenList tok = tokens({"Gauss", sim::flip(sim::W, 1, 2) ? "upwind" : "linear"});
                    if (how == 0)
                    {
                        fvcc::DivOperator<T> d(OpType::Implicit, *flux.f, *phi.f, tok);
                        d.getCoefficient() = k.c;
                        d.implicitOperation(*ls);
                    }
                    else if (how == 1)
                    {
                        fvcc::DivOperator<T> d(OpType::Implicit, *flux.f, *phi.f);
                        d.build(tok);
                        d.getCoefficient() = k.c;
                        fvcc::DivOperator<T>(d).div(*ls);
                    }
                    else
                        fvcc::DivOperatorFactory<T>::create(t.e, *t.m, tok)->clone()->div(*ls, *flux.f, *phi.f, k.c);
                }
                else if (what == 1)
                {
                    TokenList tok = tokens({"Gauss", "linear", "uncorrected"});
                    if (how == 0)
                    {
                        fvcc::LaplacianOperator<T> d(OpType::Implicit, *flux.f, *phi.f, tok);
                        d.getCoefficient() = k.c;
                        d.implicitOperation(*ls);
                    }
                    else if (how == 1)
                    {
                        fvcc::LaplacianOperator<T> d(OpType::Implicit, *flux.f, *phi.f);
                        d.build(tok);
                        d.getCoefficient() = k.c;
                        fvcc::LaplacianOperator<T>(d).implicitOperation(*ls);
                    }
                    else
                        fvcc::LaplacianOperatorFactory<T>::create(t.e, *t.m, tok)->clone()->laplacian(*ls, *flux.f, *phi.f, k.c);
                }
                else if (what == 2)
                {
                    fvcc::DdtOperator<T> d(OpType::Implicit, *reg);
                    d.getCoefficient() = k.c;
                    if (how == 0) d.implicitOperation(*ls, 3.0, dt);
                    else
                        fvcc::DdtOperator<T>(d).implicitOperation(*ls, 0.0, dt);
                }
                else if (what == 3)
                {
                    fvcc::SourceTerm<T> d(OpType::Implicit, *coef.f, *phi.f);
                    d.getCoefficient() = k.c;
                    if (how == 0) d.implicitOperation(*ls);
                    else
                        fvcc::SourceTerm<T>(d).implicitOperation(*ls);
                }
                else
                    ls->reset();
            };
            auto o = sim::attempt(op, 30);
            expectOk(name[what], o);
            if (!o.ok())
            {
                sim::nontrivial();
                put(ls->matrix().values(), v0);
                put(ls->rhs(), b0);
                o = sim::attempt(op, 0);
                expectOk(name[what], o);
            }
            Dense part(t.h.nc, NC<T>);
            if (what == 0) addDiv(part, t.h, flux.in, phi, k.v);
            if (what == 1) addLaplacian(part, t.h, flux.in, phi, k.v);
            for (size_t c = 0; c < t.h.nc; c++)
            {
                if (what == 2)
                {
                    part.a(c, c, k.v[c] * t.h.V[c] / dt);
                    for (int i = 0; i < NC<T>; i++) part.b[c * NC<T> + i] += k.v[c] * t.h.V[c] / dt * oldIn[c * NC<T> + i];
                }
                if (what == 3) part.a(c, c, k.v[c] * coef.in[c] * t.h.V[c]);
            }
            if (what == 4) want = Dense(t.h.nc, NC<T>);
            addTo(want.A, part.A);
            addTo(want.b, part.b);
            expectSystem(name[what], *ls, want, ptr, col);
            sim::probe(name[what]);
            // the assembled operator applied to the field is the explicit operator
            if (what < 2 && consistent && (what == 0 || orthogonalGradients()))
            {
                Field<T> ex(t.e, t.h.nc);
                randomise(ex);
                if (what == 0) fvcc::DivOperatorFactory<T>::create(t.e, *t.m, tokens({"Gauss", "upwind"}))->div(ex, *flux.f, *phi.f, k.c);
                else
                    fvcc::LaplacianOperatorFactory<T>::create(t.e, *t.m, tokens({"Gauss", "linear", "uncorrected"}))->laplacian(ex, *flux.f, *phi.f, k.c);
                Quiet q;
                Flat got = part.residual(phi.in), e = flat(ex);
                for (size_t i = 0; i < e.size(); i++) e[i] *= t.h.V[i / NC<T>];
                std::string d = diffFlat(got, e, NC<T>);
                if (!d.empty()) sim::fail("implicit-differs", "%s (%s): the matrix applied to the field and the explicit operator differ: %s", name[what], execName(t.e), d.c_str());
                sim::probe("implicit equals explicit");
            }
            phi.same("field of an implicit operator");
            coef.same("coefficients of an implicit operator");
            expectFlat("flux of an implicit operator", flux.f->internalField(), flux.in);
            if (old) expectFlat("old field of an implicit operator", old->internalField(), oldIn);
        }
    }
};
}
FV_PROPERTY(V05, "a run counts as non-trivial when several faces of one cell were assembled concurrently or an allocation failed")
{
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    if (sim::flip(sim::W, 1, 2)) Implicit<Vector>().run();
    else
        Implicit<scalar>().run();
}

namespace
{
/// any structure: rows may be empty, unsorted, full
struct Sparse
{
    size_t n;
    std::vector<localIdx> ptr {0}, col;
    Sparse()
    {
        n = sim::small(6);
        // rarely many rows of which some are long
        const uint32_t big = sim::chooseAs(sim::W, 4, sim::rnd(sim::W, 25) == 0 ? 1 + sim::rnd(sim::W, 3) : 0);
        if (big) wide(big);
        for (size_t i = 0; !big && i < n; i++)
        {
            std::vector<localIdx> row;
            for (size_t j = 0; j < n; j++)
                if (sim::flip(sim::W, 1, 2)) row.insert(row.begin() + sim::choose(sim::W, (uint32_t)row.size() + 1), (localIdx)j);
            if (sim::flip(sim::W, 1, 2)) std::sort(row.begin(), row.end());
            col.insert(col.end(), row.begin(), row.end());
            ptr.push_back((localIdx)col.size());
        }
    }
    void wide(uint32_t how)
    {
        n = how == 1 ? 20 + sim::choose(sim::W, 40) : 250 + sim::choose(sim::W, 60);
        for (size_t i = 0; i < n; i++)
        {
            // start, step and number of the columns in a row; a step that is coprime to n gives each column at most once
            size_t most = sim::choose(sim::W, 8) == 0 ? n : 4;
            size_t len = sim::choose(sim::W, (uint32_t)most + 1), at = sim::choose(sim::W, (uint32_t)n), step = 1 + sim::choose(sim::W, (uint32_t)n - 1);
            while (std::gcd(step, n) != 1) step--;
            std::vector<localIdx> row;
            for (size_t k = 0; k < len; k++, at = (at + step) % n) row.push_back((localIdx)at);
            if (sim::flip(sim::W, 1, 2)) std::sort(row.begin(), row.end());
            col.insert(col.end(), row.begin(), row.end());
            ptr.push_back((localIdx)col.size());
        }
        sim::probe("large matrix");
    }
    long find(size_t i, size_t j) const
    {
        for (size_t k = ptr[i]; k < ptr[i + 1]; k++)
            if (col[k] == j) return (long)k;
        return -1;
    }
};
template<class T>
struct Matrices
{
    using M = la::CSRMatrix<T, localIdx>;
    using LS = la::LinearSystem<T, localIdx>;
    Executor e;
    Sparse s;
    Flat fp, fc;
    struct Obj
    {
        std::unique_ptr<LS> ls;
        Flat val, b;
        unsigned ex;
    };
    std::vector<Obj> objs;

    void check(const char* what, const Obj& o)
    {
        Quiet q;
        const M& m = std::as_const(*o.ls).matrix();
        auto cols = m.colIdxs();
        if (m.exec().index() != o.ex || o.ls->exec().index() != o.ex || cols.exec().index() != o.ex || m.rowPtrs().exec().index() != o.ex || o.ls->rhs().exec().index() != o.ex)
            sim::fail("wrong-executor", "%s: system should be on the %s executor; values %s, columns %s, rows %s, right-hand side %s", what, execName(execOf(o.ex)), execName(m.exec()), execName(cols.exec()), execName(m.rowPtrs().exec()), execName(o.ls->rhs().exec()));
        expectFlat(what, m.values(), o.val);
        expectFlat(what, cols, fc);
        expectFlat(what, m.rowPtrs(), fp);
        expectFlat(what, o.ls->rhs(), o.b);
        expectPlaced(what, m.values());
        expectPlaced(what, cols);
        expectPlaced(what, m.rowPtrs());
        expectPlaced(what, o.ls->rhs());
        if (m.nRows() != s.n || m.nNonZeros() != s.col.size()) sim::fail("wrong-content", "%s: %u rows and %u entries instead of %zu and %zu", what, (unsigned)m.nRows(), (unsigned)m.nNonZeros(), s.n, s.col.size());
    }
    template<class Fn>
    bool op(const char* what, Fn fn, bool retry = true)
    {
        auto o = sim::attempt(fn, 12);
        expectOk(what, o);
        if (o.ok()) return true;
        sim::nontrivial();
        for (auto& x : objs) check("system after a failed operation", x);
        if (!retry) return false;
        o = sim::attempt(fn, 0);
        expectOk(what, o);
        return true;
    }
    void add(LS* p, const Flat& v, const Flat& b, unsigned ex)
    {
        Obj o;
        o.ls.reset(p);
        o.val = v, o.b = b, o.ex = ex;
        objs.push_back(std::move(o));
    }
    void run()
    {
        e = pickExec();
        for (auto p : s.ptr) fp.push_back(p);
        for (auto c : s.col) fc.push_back(c);
        sim::log("matrix %zu rows %zu entries on %s", s.n, s.col.size(), execName(e));
        {
            Field<T> v(e, s.col.size()), b(e, s.n);
            Field<localIdx> c(e, s.col), p(e, s.ptr);
            Flat fv = randomise(v), fb = randomise(b);
            LS* l = nullptr;
            op("construct", [&] { l = new LS(M(v, c, p), b); });
            add(l, fv, fb, e.index());
            // independent of the fields it was made from
            randomise(v), randomise(b);
            randomise(c), randomise(p);
        }
        check("new system", objs[0]);
        while (sim::nextOp(6))
        {
            size_t i = sim::choose(sim::W, (uint32_t)objs.size());
            LS& l = *objs[i].ls;
            const Executor ex = execOf(objs[i].ex);
            switch (sim::choose(sim::W, 9))
            {
            case 0:
                if (objs.size() < 5)
                {
                    LS* p = nullptr;
                    op("copy", [&] { p = new LS(std::as_const(l)); });
                    add(p, objs[i].val, objs[i].b, objs[i].ex);
                }
                break;
            case 1:
                if (objs.size() < 5)
                {
                    LS* p = nullptr;
                    op("copyToHost", [&] { p = new LS(l.copyToHost()); });
                    add(p, objs[i].val, objs[i].b, 0);
                }
                break;
            case 2:
                if (objs.size() < 5)
                {
                    unsigned d = sim::choose(sim::W, 3);
                    LS* p = nullptr;
                    op("copyToExecutor", [&] { p = new LS(l.matrix().copyToExecutor(execOf(d)), l.rhs().copyToExecutor(execOf(d))); });
                    add(p, objs[i].val, objs[i].b, d);
                    sim::probe("copyToExecutor");
                }
                break;
            case 3: // write entries concurrently
            {
                Flat neu = rndFlat(s.col.size() * NC<T>);
                Field<T> in(ex, s.col.size());
                put(in, neu);
                Field<localIdx> rows(ex, s.col.size());
                Flat r;
                for (size_t k = 0; k < s.n; k++) r.resize(s.ptr[k + 1], (double)k);
                put(rows, r);
                Field<localIdx> cols(ex, s.col);
                bool direct = sim::flip(sim::W, 1, 3);
                op(
                    "write entries",
                    [&]
                    {
                        auto v = l.view();
                        auto m = v.matrix;
                        auto [iv, rv, cv] = spans(std::as_const(in), std::as_const(rows), std::as_const(cols));
                        parallelFor(
                            ex, {0, s.col.size()}, KOKKOS_LAMBDA(const size_t k) {
                                if (direct) m.entry((localIdx)k) = iv[k];
                                else
                                    m.entry(rv[k], cv[k]) = iv[k];
                            }
                        );
                    }
                );
                objs[i].val = neu;
                if (s.col.size() > 1 && objs[i].ex) sim::nontrivial();
                break;
            }
            case 4: // read entries
            {
                Field<T> out(ex, s.col.size());
                Field<localIdx> rows(ex, s.col.size());
                Flat r;
                for (size_t k = 0; k < s.n; k++) r.resize(s.ptr[k + 1], (double)k);
                put(rows, r);
                Field<localIdx> cols(ex, s.col);
                op(
                    "read entries",
                    [&]
                    {
                        const LS& cl = l;
                        auto m = cl.matrix().view();
                        auto ov = out.view();
                        auto [rv, cv] = spans(std::as_const(rows), std::as_const(cols));
                        parallelFor(
                            ex, {0, s.col.size()}, KOKKOS_LAMBDA(const size_t k) { ov[k] = m.entry(rv[k], cv[k]); }
                        );
                    }
                );
                expectFlat("entries read by row and column", out, objs[i].val);
                break;
            }
            case 5:
                op("reset", [&] { l.reset(); }, true);
                objs[i].val.assign(objs[i].val.size(), 0.0);
                objs[i].b.assign(objs[i].b.size(), 0.0);
                break;
            case 6:
                if constexpr (NC<T> == 1)
                {
                    Field<T> x(ex, s.n);
                    Flat fx = randomise(x);
                    std::unique_ptr<Field<T>> r;
                    op("spmv", [&] { r.reset(new Field<T>(la::spmv(l, x))); });
                    Flat want;
                    for (size_t k = 0; k < s.n; k++)
                    {
                        double sum = -objs[i].b[k];
                        for (size_t q = s.ptr[k]; q < s.ptr[k + 1]; q++) sum += objs[i].val[q] * fx[s.col[q]];
                        want.push_back(sum);
                    }
                    expectFlat("residual", *r, want);
                    if (r->exec().index() != objs[i].ex) sim::fail("wrong-executor", "residual of a system on %s is on %s", execName(ex), execName(r->exec()));
                    expectFlat("solution after computing the residual", x, fx);
                    if (s.n > 1 && objs[i].ex) sim::nontrivial();
                    sim::probe("spmv");
                }
                break;
            case 7:
            {
                std::unique_ptr<la::CSRMatrix<T, label>> m;
                op("convert", [&] { m.reset(new la::CSRMatrix<T, label>(la::convert<T, localIdx, T, label>(ex, std::as_const(l).view().matrix))); });
                expectFlat("values of a converted matrix", std::as_const(*m).values(), objs[i].val);
                expectFlat("columns of a converted matrix", Field<label>(std::as_const(*m).colIdxs()), fc);
                expectFlat("rows of a converted matrix", std::as_const(*m).rowPtrs(), fp);
                std::unique_ptr<la::LinearSystem<T, label>> sys;
                op("convertLinearSystem", [&] { sys.reset(new la::LinearSystem<T, label>(la::convertLinearSystem<T, localIdx, T, label>(l))); });
                expectFlat("values of a converted system", std::as_const(*sys).matrix().values(), objs[i].val);
                expectFlat("columns of a converted system", Field<label>(std::as_const(*sys).matrix().colIdxs()), fc);
                expectFlat("rows of a converted system", std::as_const(*sys).matrix().rowPtrs(), fp);
                expectFlat("right-hand side of a converted system", std::as_const(*sys).rhs(), objs[i].b);
                if (sys->exec().index() != objs[i].ex || sys->rhs().exec().index() != objs[i].ex) sim::fail("wrong-executor", "converted system of a system on %s is on %s", execName(ex), execName(sys->exec()));
                if (m->exec().index() != objs[i].ex) sim::fail("wrong-executor", "converted matrix of a system on %s is on %s", execName(ex), execName(m->exec()));
                break;
            }
            case 8: // an entry that is not stored is refused, not written elsewhere
            {
                size_t a = s.n ? sim::choose(sim::W, (uint32_t)s.n) : 0, b = s.n ? sim::choose(sim::W, (uint32_t)s.n) : 0;
                if (!s.n || s.find(a, b) >= 0 || !sim::flip(sim::W, 1, 4)) break;
                auto o = sim::attempt(
                    [&]
                    {
                        auto m = l.matrix().view();
                        parallelFor(
                            ex, {0, 1}, KOKKOS_LAMBDA(const size_t) { m.entry((localIdx)a, (localIdx)b) = T(); }
                        );
                    },
                    0
                );
                if (o.res != Res::Aborted) sim::fail("wrong-outcome", "writing entry (%zu,%zu), which is not stored: %s", a, b, sim::resName(o.res));
                for (auto& x : objs) check("system after a refused access", x);
                sim::probe("refused entry");
                return;
            }
            }
            for (auto& x : objs) check("system", x);
            if (objs.size() > 2 && sim::flip(sim::W, 1, 3)) objs.erase(objs.begin() + sim::choose(sim::W, (uint32_t)objs.size()));
        }
    }
};
}
FV_PROPERTY(V13, "a run counts as non-trivial when entries or rows were handled concurrently or an allocation failed")
{
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    if (sim::flip(sim::W, 1, 3)) Matrices<Vector>().run();
    else
        Matrices<scalar>().run();
}
