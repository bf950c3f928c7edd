// V10 expressions and time stepping, V09 field registry and time history
#include "fv_ls.hpp"

#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
#include "NeoFOAM/linearAlgebra/solver.hpp"
#include "NeoFOAM/dsl/expression.hpp"
#include "NeoFOAM/dsl/explicit.hpp"
#include "NeoFOAM/dsl/implicit.hpp"
#include "NeoFOAM/dsl/solver.hpp"
#include "NeoFOAM/timeIntegration/timeIntegration.hpp"
#include "NeoFOAM/timeIntegration/forwardEuler.hpp"
#include "NeoFOAM/timeIntegration/backwardEuler.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenLaplacian.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/dsl/expression.hpp"

#ifdef FV_EXT
#include "NeoFOAM/timeIntegration/rungeKutta.hpp"
#endif

using namespace fv;
using OpType = dsl::Operator::Type;

// the library instantiates these for scalar fields only
template class NeoFOAM::timeIntegration::ForwardEuler<fvcc::VolumeField<Vector>>;

namespace
{
/// stands in for a linear solver: keeps the system it was given, answers with the values it was told
struct Captured
{
    std::unique_ptr<Dense> sys;
    Flat answer;
    int calls = 0;
    std::string text;
};
Captured* cap = nullptr;
struct CaptureSolver : public la::SolverFactory::template Register<CaptureSolver>
{
    using Base = la::SolverFactory::template Register<CaptureSolver>;
    std::string tag;
    CaptureSolver(const Executor& e, const Dictionary& d) : Base(e), tag(d.contains("tag") ? d.get<std::string>("tag") : std::string("?")) {}
    static std::string name() { return "capture"; }
    static std::string doc() { return "harness"; }
    static std::string schema() { return "none"; }
    void solve(const la::LinearSystem<scalar, localIdx>& ls, Field<scalar>& x) const override
    {
        Quiet q;
        cap->calls++;
        cap->text = tag;
        if (!x.size() || x.size() != ls.rhs().size()) sim::fail("wrong-content", "solver got a solution of %zu entries for %zu rows", x.size(), ls.rhs().size());
        cap->sys.reset(new Dense(denseOf(ls)));
        put(x, cap->answer);
    }
    std::unique_ptr<la::SolverFactory> clone() const override { return std::make_unique<CaptureSolver>(*this); }
};

enum Kind
{
    ExpDiv,
    ExpSurf,
    ExpSource,
    ExpLap,
    ImpSource,
    ImpDiv,
    ImpLap,
    ImpDdt,
    ExpDdt
};
struct Term
{
    Kind k;
    bool second; // acts on psi instead of phi
    Flat s;
    bool view;
    bool implicitOp() const { return k == ImpSource || k == ImpDiv || k == ImpLap || k == ImpDdt; }
    bool temporal() const { return k == ImpDdt || k == ExpDdt; }
    double maxScale() const
    {
        double m = 0;
        for (double x : s) m = std::max(m, std::fabs(x));
        return m;
    }
};
double maxAbs(const Flat& f)
{
    double m = 0;
    for (double x : f) m = std::max(m, std::fabs(x));
    return m;
}
/// a sum and the size of what went into it: entries that cancel are compared on that scale
struct Sum
{
    Flat v;
    double scale = 0;
    explicit Sum(size_t n) : v(n, 0.0) {}
    void add(const Flat& f)
    {
        addTo(v, f);
        scale += maxAbs(f);
    }
};
void expectNear(const char* kind, const char* what, const Flat& got, const Flat& want, double scale, int nc)
{
    if (got.size() != want.size()) sim::fail(kind, "%s: %zu entries instead of %zu", what, got.size() / nc, want.size() / nc);
    for (size_t i = 0; i < got.size(); i++)
        if (!near(got[i], want[i], scale)) sim::fail(kind, "%s: entry %zu component %zu is %.12g instead of %.12g", what, i / nc, i % nc, got[i], want[i]);
}

template<class T>
struct Stepping
{
    using E = dsl::Expression<T>;
    using VolF = fvcc::VolumeField<T>;
    using LS = la::LinearSystem<T, localIdx>;
    struct Expr
    {
        E e;
        std::vector<Term> m;
        bool built = false;
    };
    TestMesh t;
    Database db;
    Bcs<T> bcs, bcs2;
    VF<T> phi, psi; // models; the fields themselves live in the database
    VF<scalar> coef;
    SF<scalar> flux, gamma;
    SF<T> face;
    std::shared_ptr<fvcc::SparsityPattern> sp;
    VolF *p = nullptr, *q = nullptr;
    bool oldKnown = false;
    Flat old; // previous solution of phi
    Flat old2;
    bool up[2];
    Dictionary schemes, solution;
    std::vector<std::unique_ptr<Field<scalar>>> coefs;
    std::vector<std::unique_ptr<Expr>> pool;
    using TI = timeIntegration::TimeIntegration<VolF>;
    std::vector<std::unique_ptr<TI>> kept; // integrators that are used for more than one step
    double now = 0.5;

    Stepping()
        : t(pickExec()), bcs(t), bcs2(t), phi(t.e, *t.m, "phi", bcs.b), psi(t.e, *t.m, "psi", bcs2.b), coef(t.e, *t.m, "coef"), flux(t.e, *t.m, "flux"), gamma(t.e, *t.m, "gamma"), face(t.e, *t.m, "face"),
          sp(fvcc::SparsityPattern::readOrCreate(*t.m))
    {
        fvcc::FieldCollection& fc = fvcc::FieldCollection::instance(db, "fields");
        p = &fc.registerField<VolF>(fvcc::CreateFromExistingField<VolF> {.name = "phi", .field = *phi.f, .timeIndex = 5, .iterationIndex = 1, .subCycleIndex = 1});
        q = &fc.registerField<VolF>(fvcc::CreateFromExistingField<VolF> {.name = "psi", .field = *psi.f, .timeIndex = 5, .iterationIndex = 1, .subCycleIndex = 1});
        if (sim::flip(sim::W, 1, 2)) touchOld();
        if (sim::flip(sim::W, 1, 3)) old2 = randomise(fvcc::oldTime(*q).internalField());
        Dictionary div, lap, ddt;
        up[0] = sim::flip(sim::W, 1, 2), up[1] = sim::flip(sim::W, 1, 2);
        div.insert("div(flux,phi)", tokens({"Gauss", up[0] ? "upwind" : "linear"}));
        div.insert("div(flux,psi)", tokens({"Gauss", up[1] ? "upwind" : "linear"}));
        for (auto n : {"laplacian(gamma,phi)", "laplacian(gamma,psi)"}) lap.insert(n, tokens({"Gauss", "linear", "uncorrected"}));
        ddt.insert("type", std::string("forwardEuler"));
#ifdef FV_EXT
        ddt.insert("Runge-Kutta-Method", std::string("Forward-Euler"));
#endif
        schemes.insert("divSchemes", div);
        schemes.insert("laplacianSchemes", lap);
        schemes.insert("ddtSchemes", ddt);
        solution.insert("solver", std::string("capture"));
        solution.insert("tag", std::string("solution"));
    }
    void touchOld()
    {
        fvcc::oldTime(*p);
        oldKnown = true;
        old = phi.in;
        if (sim::flip(sim::W, 1, 2)) old = randomise(fvcc::oldTime(*p).internalField());
    }
    // ---- operators
    double scaleOf()
    {
        static const double k[] = {2, -1, 0.5, -3, 0, 1};
        return k[sim::choose(sim::W, 6)];
    }
    template<class Op>
    Op scaled(Op op, Term& m)
    {
        size_t n = sim::choose(sim::W, 3);
        for (size_t i = 0; i < n; i++)
        {
            uint32_t how = sim::choose(sim::W, 4);
            double s = scaleOf();
            if (m.view && how > 1) how = 1;
            if (how == 0) op = mul(s, op);
            if (how == 1) op = mul(dsl::Coeff(s), op);
            if (how < 2)
            {
                for (auto& x : m.s) x *= s;
                continue;
            }
            coefs.emplace_back(new Field<scalar>(t.e, t.h.nc));
            Flat f = randomise(*coefs.back());
            m.view = true;
            if (how == 2) op = mul(*coefs.back(), op), s = 1;
            else
                op = mul(dsl::Coeff(s, *coefs.back()), op);
            for (size_t c = 0; c < m.s.size(); c++) m.s[c] *= s * f[c];
        }
        return op;
    }
    // temporal operators cannot be assigned
    template<class C>
    static dsl::SpatialOperator<T> mul(const C& c, const dsl::SpatialOperator<T>& o)
    {
        return c * o;
    }
    dsl::SpatialOperator<T> spatial(Term& m)
    {
        static const Kind ks[] = {ExpSource, ExpDiv, ExpSurf, ExpLap, ImpSource, ImpDiv, ImpLap};
        m.k = ks[sim::choose(sim::W, 7)];
        m.second = sim::flip(sim::W, 1, 4);
        m.s.assign(t.h.nc, 1.0);
        m.view = false;
        VolF& f = m.second ? *q : *p;
        bool viaDsl = sim::flip(sim::W, 1, 2);
        switch (m.k)
        {
        case ExpDiv:
            if constexpr (NC<T> == 1)
                if (viaDsl) return scaled(dsl::exp::div(*flux.f, f), m);
            return scaled(dsl::SpatialOperator<T>(fvcc::DivOperator<T>(OpType::Explicit, *flux.f, f)), m);
        case ExpSurf:
            if constexpr (NC<T> == 1)
                if (viaDsl) return scaled(dsl::exp::div(*face.f), m);
            return scaled(dsl::SpatialOperator<T>(fvcc::SurfaceIntegrate<T>(*face.f)), m);
        case ExpSource:
            if constexpr (NC<T> == 1)
                if (viaDsl) return scaled(dsl::exp::source(*coef.f, f), m);
            return scaled(dsl::SpatialOperator<T>(fvcc::SourceTerm<T>(OpType::Explicit, *coef.f, f)), m);
        case ExpLap:
            return scaled(dsl::SpatialOperator<T>(fvcc::LaplacianOperator<T>(OpType::Explicit, *gamma.f, f)), m);
        case ImpSource:
            return scaled(dsl::imp::source<T>(*coef.f, f), m);
        case ImpDiv:
            return scaled(dsl::imp::div<T>(*flux.f, f), m);
        default:
            return scaled(dsl::imp::laplacian<T>(*gamma.f, f), m);
        }
    }
    dsl::TemporalOperator<T> temporal(Term& m, bool plain)
    {
        m.k = sim::flip(sim::W, 1, 4) && !plain ? ExpDdt : ImpDdt;
        m.second = false;
        m.s.assign(t.h.nc, 1.0);
        m.view = false;
        dsl::TemporalOperator<T> op = m.k == ImpDdt && sim::flip(sim::W, 1, 2) ? dsl::imp::ddt<T>(*p) : dsl::TemporalOperator<T>(fvcc::DdtOperator<T>(m.k == ImpDdt ? OpType::Implicit : OpType::Explicit, *p));
        if (plain) return op;
        uint32_t how = sim::choose(sim::W, 4);
        double s = scaleOf();
        if (how == 0) return op;
        if (how == 3)
        {
            coefs.emplace_back(new Field<scalar>(t.e, t.h.nc));
            Flat f = randomise(*coefs.back());
            m.view = true;
            m.s = f;
            return *coefs.back() * op;
        }
        for (auto& x : m.s) x *= s;
        if (how == 1) return s * op;
        return dsl::Coeff(s) * op;
    }
    static void neg(std::vector<Term>& to, const std::vector<Term>& from, double s)
    {
        for (auto m : from)
        {
            for (auto& x : m.s) x *= s;
            to.push_back(m);
        }
    }
    /// order of the terms follows the two lists of an expression; it does not matter for sums
    void grow()
    {
        auto add = [&](E e, std::vector<Term> m) { pool.emplace_back(new Expr {std::move(e), std::move(m)}); };
        auto pick = [&]() -> Expr& { return *pool[sim::choose(sim::W, (uint32_t)pool.size())]; };
        uint32_t what = pool.empty() ? sim::choose(sim::W, 2) : sim::choose(sim::W, 10);
        Term a, b;
        double big = 0;
        if (what >= 3)
            for (auto& x : pool)
                for (auto& m : x->m) big = std::max(big, m.maxScale());
        switch (what)
        {
        case 0: // two operators
        {
            uint32_t k = sim::choose(sim::W, 6);
            if (k == 4)
            {
                auto x = temporal(a, false);
                auto y = spatial(b);
                bool minus = sim::flip(sim::W, 1, 2);
                std::vector<Term> m {a};
                neg(m, {b}, minus ? -1 : 1);
                if (minus) add(x - y, m);
                else
                    add(x + y, m);
            }
            else if (k == 5)
            {
                auto x = spatial(a);
                auto y = temporal(b, false);
                bool minus = sim::flip(sim::W, 1, 2);
                std::vector<Term> m {a};
                neg(m, {b}, minus ? -1 : 1);
                if (minus) add(x - y, m);
                else
                    add(x + y, m);
            }
            else
            {
                auto x = spatial(a);
                auto y = spatial(b);
                bool minus = k == 1;
                std::vector<Term> m {a};
                neg(m, {b}, minus ? -1 : 1);
                if (minus) add(x - y, m);
                else
                    add(x + y, m);
            }
            break;
        }
        case 1: // empty
            add(E(t.e), {});
            break;
        case 2: // copy
        {
            auto& x = pick();
            add(E(x.e), x.m);
            pool.back()->built = x.built;
            break;
        }
        case 3:
        case 4: // sum or difference of expressions
        {
            auto &x = pick(), &y = pick();
            if (x.m.size() + y.m.size() > 8) break;
            auto m = x.m;
            neg(m, y.m, what == 3 ? 1 : -1);
            if (what == 3) add(x.e + y.e, m);
            else
                add(x.e - y.e, m);
            break;
        }
        case 5: // expression and operator
        {
            auto& x = pick();
            auto y = spatial(b);
            bool minus = sim::flip(sim::W, 1, 2);
            auto m = x.m;
            neg(m, {b}, minus ? -1 : 1);
            if (minus) add(x.e - y, m);
            else
                add(x.e + y, m);
            break;
        }
        case 6: // scaled
        {
            auto& x = pick();
            if (big > 200) break;
            double s = scaleOf();
            std::vector<Term> m;
            neg(m, x.m, s);
            add(s * x.e, m);
            break;
        }
        case 7:
        {
            auto& x = pick();
            auto y = spatial(b);
            x.e.addOperator(y);
            x.m.push_back(b);
            x.built = false;
            break;
        }
        case 8:
        {
            auto& x = pick();
            auto y = temporal(b, false);
            x.e.addOperator(y);
            x.m.push_back(b);
            x.built = false;
            break;
        }
        case 9:
        {
            auto &x = pick(), &y = pick();
            if (x.m.size() + y.m.size() > 8) break;
            x.e.addExpression(y.e);
            std::vector<Term> m = y.m;
            x.m.insert(x.m.end(), m.begin(), m.end());
            x.built = x.built && y.built;
            if (&x == &y) sim::probe("expression added to itself");
            break;
        }
        }
    }
    /// coefficients by themselves: products of numbers and at most one field, evaluated by entry or to a field
    void coefficients()
    {
        const size_t n = sim::choose(sim::W, 3) ? t.h.nc : sim::choose(sim::W, 9);
        Field<scalar> f(t.e, n);
        const Flat v = randomise(f);
        double c = 1;
        bool has = false;
        dsl::Coeff k;
        auto part = [&]
        {
            double s = scaleOf();
            switch (sim::choose(sim::W, has ? 2 : 4))
            {
            case 0:
                c *= s;
                return dsl::Coeff(s);
            case 1:
                return dsl::Coeff();
            case 2:
                has = true;
                return dsl::Coeff(f);
            default:
                has = true, c *= s;
                return dsl::Coeff(s, f);
            }
        };
        size_t parts = 1 + sim::choose(sim::W, 4);
        for (size_t i = 0; i < parts; i++)
        {
            uint32_t how = i ? sim::choose(sim::W, 4) : 0;
            if (how == 0) k = i ? k * part() : part();
            else if (how == 1)
                k *= part();
            else if (how == 2)
            {
                double s = scaleOf();
                c *= s, k *= s;
            }
            else
                k = part() * k;
        }
        if (k.hasSpan() != has) sim::fail("wrong-content", "a coefficient %s a field of values", has ? "lost" : "made up");
        const size_t m = has ? n : 1;
        Flat want(m), got(m);
        for (size_t i = 0; i < m; i++) want[i] = has ? c * v[i] : c;
        if (k.view().size() != (has ? n : 0)) sim::fail("wrong-content", "a coefficient shows %zu values instead of %zu", (size_t)k.view().size(), has ? n : 0);
        {
            Quiet qq;
            for (size_t i = 0; i < m; i++) got[i] = std::as_const(k)[i];
        }
        for (size_t i = 0; i < m; i++)
            if (!near(got[i], want[i], std::fabs(want[i]))) sim::fail("wrong-content", "entry %zu of a coefficient is %g instead of %g", i, got[i], want[i]);
        Field<scalar> r(t.e, sim::choose(sim::W, 9));
        retried("a coefficient as a field", [&] { dsl::detail::toField(k, r); });
        expectFlat("field of a coefficient", r, want);
        expectFlat("field behind a coefficient", f, v);
        if (has && sim::flip(sim::W, 1, 10))
        {
            dsl::Coeff l(f);
            auto o = sim::attempt([&] { l *= k; }, 0);
            if (o.res != Res::Aborted && o.res != Res::Exited) sim::fail("wrong-outcome", "the product of two fields of coefficients: %s", sim::resName(o.res));
        }
        sim::probe("coefficients");
    }
    // ---- reference
    Flat explicitOf(const Term& m)
    {
        VF<T>& f = m.second ? psi : phi;
        const HM& h = t.h;
        switch (m.k)
        {
        case ExpDiv:
            return sumFaces(h, timesFace(flux.in, interpOf(h, up[m.second], flux.in, f.in, f.val, NC<T>), NC<T>), m.s, NC<T>);
        case ExpSurf:
            return sumFaces(h, face.in, m.s, NC<T>);
        case ExpSource:
        {
            Flat r = f.in;
            for (size_t i = 0; i < r.size(); i++) r[i] *= m.s[i / NC<T>] * coef.in[i / NC<T>];
            return r;
        }
        default:
        {
            Flat g = gamma.in;
            for (size_t i = 0; i < g.size(); i++) g[i] *= h.mag[i];
            return sumFaces(h, timesFace(g, fngOf(h, f.in, f.val, NC<T>), NC<T>), m.s, NC<T>);
        }
        }
    }
    Flat explicitDdt(const Term& m, double dt)
    {
        Flat r = phi.in;
        const Flat& o = oldKnown ? old : phi.in;
        for (size_t i = 0; i < r.size(); i++) r[i] = m.s[i / NC<T>] * t.h.V[i / NC<T>] * (phi.in[i] - o[i]) / dt;
        return r;
    }
    void implicitOf(Dense& d, const Term& m, double dt)
    {
        VF<T>& f = m.second ? psi : phi;
        const HM& h = t.h;
        switch (m.k)
        {
        case ImpDiv:
            addDiv(d, h, flux.in, f, m.s);
            break;
        case ImpLap:
            addLaplacian(d, h, gamma.in, f, m.s);
            break;
        case ImpSource:
            for (size_t i = 0; i < h.nc; i++) d.a(i, i, m.s[i] * coef.in[i] * h.V[i]);
            break;
        default:
        {
            const Flat& o = oldKnown ? old : phi.in;
            for (size_t i = 0; i < h.nc; i++)
            {
                double c = m.s[i] * h.V[i] / dt;
                d.a(i, i, c);
                for (int k = 0; k < NC<T>; k++) d.b[i * NC<T> + k] += c * o[i * NC<T> + k];
            }
        }
        }
    }
    Sum explicitSum(const std::vector<Term>& ms)
    {
        Sum r(t.h.nc * NC<T>);
        for (auto& m : ms)
            if (!m.implicitOp() && !m.temporal()) r.add(explicitOf(m));
        return r;
    }
    struct System
    {
        Dense d;
        double sa = 0, sb = 0;
    };
    System systemOf(const std::vector<Term>& ms, bool spatialOps, bool temporalOps, double dt)
    {
        System r {Dense(t.h.nc, NC<T>)};
        for (auto& m : ms)
        {
            if (!m.implicitOp() || (m.temporal() ? !temporalOps : !spatialOps)) continue;
            Dense one(t.h.nc, NC<T>);
            implicitOf(one, m, dt);
            addTo(r.d.A, one.A), addTo(r.d.b, one.b);
            r.sa += maxAbs(one.A), r.sb += maxAbs(one.b);
        }
        return r;
    }
    void moveExplicit(System& s, const std::vector<Term>& ms, double dt, bool temporalOps)
    {
        Sum e = explicitSum(ms);
        for (size_t i = 0; i < e.v.size(); i++) s.d.b[i] -= e.v[i] * t.h.V[i / NC<T>];
        s.sb += e.scale * maxAbs(t.h.V);
        if (!temporalOps) return;
        for (auto& m : ms)
            if (m.k == ExpDdt)
            {
                Flat x = explicitDdt(m, dt);
                for (size_t i = 0; i < x.size(); i++) s.d.b[i] -= x[i];
                s.sb += maxAbs(x);
            }
    }
    static void compare(const char* what, const Dense& got, const System& want)
    {
        Quiet qq;
        std::string a = std::string(what) + ": matrix", b = std::string(what) + ": right-hand side";
        expectNear("wrong-matrix", a.c_str(), got.A, want.d.A, want.sa, NC<T>);
        expectNear("wrong-matrix", b.c_str(), got.b, want.d.b, want.sb, NC<T>);
    }
    // ---- state
    void same(const char* what, const VolF& f, const VF<T>& m)
    {
        expectFlat(what, f.internalField(), m.in);
        auto& b = f.boundaryField();
        expectFlat(what, b.value(), m.val);
        expectFlat(what, b.refValue(), m.rv);
        expectFlat(what, b.refGrad(), m.rg);
        expectFlat(what, b.valueFraction(), m.vf);
    }
    void restore(const VolF& f, const VF<T>& m)
    {
        put(f.internalField(), m.in);
        auto& b = f.boundaryField();
        put(b.value(), m.val), put(b.refValue(), m.rv), put(b.refGrad(), m.rg), put(b.valueFraction(), m.vf);
    }
    void checkState(const char* when)
    {
        Quiet qq;
        same(when, *p, phi);
        same(when, *q, psi);
        expectFlat(when, flux.f->internalField(), flux.in);
        expectFlat(when, gamma.f->internalField(), gamma.in);
        expectFlat(when, face.f->internalField(), face.in);
        expectFlat(when, coef.f->internalField(), coef.in);
        if (oldKnown) expectFlat("previous solution", fvcc::oldTime(*p).internalField(), old);
        if (!old2.empty()) expectFlat("previous solution of the other field", fvcc::oldTime(*q).internalField(), old2);
    }
    template<class Fn>
    void retried(const char* what, Fn fn, uint32_t span = 60)
    {
        auto o = sim::attempt(fn, span);
        expectOk(what, o);
        if (o.ok()) return;
        sim::nontrivial();
        o = sim::attempt(fn, 0);
        expectOk(what, o);
    }
    void build(Expr& x)
    {
        if (x.built) return;
        retried("Expression::build", [&] { x.e.build(schemes); });
        x.built = true;
    }
    static double dtOf()
    {
        return rndDt();
    }
    void describe(const char* what, const Expr& x)
    {
        static const char* n[] = {"exp::div", "exp::surf", "exp::source", "exp::laplacian", "imp::source", "imp::div", "imp::laplacian", "imp::ddt", "exp::ddt"};
        Quiet qq;
        std::string s;
        for (auto& m : x.m) s += std::string(" ") + n[m.k] + (m.second ? "(psi)" : "(phi)") + (m.view ? "*field" : "");
        sim::log("%s:%s", what, s.c_str());
    }
    void evaluate(Expr& x)
    {
        describe("evaluate", x);
        build(x);
        const E& ce = x.e;
        double dt = dtOf();
        bool usesOld = false;
        for (auto& m : x.m) usesOld |= m.temporal();
        Field<T> src(t.e, t.h.nc);
        Flat before = randomise(src);
        switch (sim::choose(sim::W, 6))
        {
        case 0:
        {
            std::unique_ptr<Field<T>> r;
            retried("Expression::explicitOperation", [&] { r.reset(new Field<T>(ce.explicitOperation(t.h.nc))); });
            Sum w = explicitSum(x.m);
            expectNear("wrong-content", "sum of the explicit operators", flat(*r), w.v, w.scale, NC<T>);
            if (r->exec().index() != t.e.index()) sim::fail("wrong-executor", "explicit operation is on the %s executor", execName(r->exec()));
            break;
        }
        case 1:
        {
            std::unique_ptr<Field<T>> r;
            retried(
                "Expression::explicitOperation",
                [&]
                {
                    put(src, before);
                    r.reset(new Field<T>(ce.explicitOperation(src)));
                }
            );
            Sum w = explicitSum(x.m);
            w.add(before);
            expectNear("wrong-content", "explicit operators added to a source", flat(src), w.v, w.scale, NC<T>);
            expectNear("wrong-content", "returned sum of the explicit operators", flat(*r), w.v, w.scale, NC<T>);
            break;
        }
        case 2:
        {
            std::unique_ptr<Field<T>> r;
            retried(
                "Expression::explicitOperation (temporal)",
                [&]
                {
                    put(src, before);
                    r.reset(new Field<T>(ce.explicitOperation(src, 0.0, dt)));
                }
            );
            Sum w(t.h.nc * NC<T>);
            w.add(before);
            for (auto& m : x.m)
                if (m.k == ExpDdt) w.add(explicitDdt(m, dt));
            expectNear("wrong-content", "explicit temporal operators", flat(src), w.v, w.scale, NC<T>);
            break;
        }
        case 3:
        case 4:
        {
            bool sOps = sim::flip(sim::W, 2, 3), tOps = sim::flip(sim::W, 1, 2);
            std::unique_ptr<LS> ls;
            retried(
                "Expression::implicitOperation",
                [&]
                {
                    ls.reset(new LS(la::createEmptyLinearSystem<T, localIdx, fvcc::SparsityPattern>(*sp)));
                    if (sOps) x.e.implicitOperation(*ls);
                    if (tOps) x.e.implicitOperation(*ls, 2.0, dt);
                },
                100
            );
            compare("implicit operators of an expression", denseOf(*ls), systemOf(x.m, sOps, tOps, dt));
            break;
        }
        case 5:
        {
            std::unique_ptr<fvcc::Expression<T>> fe;
            bool twice = sim::flip(sim::W, 1, 3);
            retried(
                "fvcc::Expression::assemble",
                [&]
                {
                    fe.reset(new fvcc::Expression<T>(x.e, *p, schemes, solution));
                    fe->assemble(1.0, dt);
                    if (twice) fe->assemble(1.0, dt);
                },
                120
            );
            System w = systemOf(x.m, true, true, dt);
            moveExplicit(w, x.m, dt, true);
            compare("assembled expression", denseOf(fe->linearSystem()), w);
            if (&fe->getField() != p) sim::fail("wrong-identity", "assembled expression is about another field");
            sim::probe("assembled");
            if constexpr (NC<T> == 1) assembled(*fe, x, w);
            break;
        }
        }
        // operators that look at the previous solution create it on first use
        if (usesOld && !oldKnown) adoptOld();
        // the number of terms
        if (ce.size() != x.m.size()) sim::fail("wrong-content", "an expression of %zu terms reports %zu", x.m.size(), ce.size());
    }
    /// an assembled system: again without time, with a fixed cell, copied, its residual
    void assembled(fvcc::Expression<T>& fe, const Expr& x, System w)
    {
        bool temporalOps = false;
        for (auto& m : x.m) temporalOps |= m.temporal();
        if (!temporalOps && !x.m.empty() && sim::flip(sim::W, 1, 3))
        {
            retried("fvcc::Expression::assemble without time", [&] { fe.assemble(); }, 80);
            compare("expression assembled without time", denseOf(fe.linearSystem()), w);
            sim::probe("assembled without time");
        }
        fvcc::Expression<T> cp(fe);
        if (&cp.getField() != p || &cp.sparsityPattern() != &fe.sparsityPattern()) sim::fail("wrong-identity", "the copy of an assembled expression is about something else");
        System was = w;
        for (int i = 0; i < 2 && sim::flip(sim::W, 1, 2); i++)
        {
            const uint32_t cell = sim::choose(sim::W, (uint32_t)t.h.nc);
            const double value = sim::choose(sim::W, 9) - 4.0;
            cp.setReference((localIdx)cell, value);
            double& diag = w.d.A[cell * t.h.nc + cell];
            w.d.b[cell] += diag * value;
            diag *= 2;
            w.sa *= 2, w.sb += 5 * w.sa;
            compare("system with a reference value", denseOf(cp.linearSystem()), w);
            sim::probe("reference value");
        }
        compare("system after its copy was changed", denseOf(fe.linearSystem()), was);
        if (!sim::flip(sim::W, 1, 2)) return;
        VF<T> psi(t.e, *t.m, "psi");
        std::unique_ptr<VolF> r;
        const bool own = sim::flip(sim::W, 1, 2);
        const VolF& arg = own ? *p : *psi.f;
        const Flat in = flat(arg.internalField());
        retried("residual of an assembled expression", [&] { r.reset(new VolF(cp & arg)); }, 60);
        const Flat want = w.d.residual(in);
        expectNear("wrong-content", "residual of an assembled expression", flat(r->internalField()), want, w.sa * maxAbs(in) * (double)t.h.nc + w.sb, 1);
        if (r->name != "ls_" + arg.name || &r->mesh() != t.m.get() || r->exec().index() != t.e.index()) sim::fail("wrong-identity", "the residual is called %s", r->name.c_str());
        expectFlat("boundary values of a residual", r->boundaryField().value(), flat(arg.boundaryField().value()));
        if (!own) psi.same("field multiplied by an assembled expression");
        compare("system after its residual was computed", denseOf(cp.linearSystem()), w);
        sim::probe("residual");
    }
    void adoptOld()
    {
        Flat o = flat(fvcc::oldTime(*p).internalField());
        Quiet qq;
        if (!diffFlat(o, phi.in, NC<T>).empty()) sim::fail("wrong-content", "the previous solution was created with other content than the current one");
        oldKnown = true;
        old = phi.in;
    }
    void resetFields()
    {
        restore(*p, phi);
        if (!oldKnown) adoptOld();
        put(fvcc::oldTime(*p).internalField(), old);
    }
    /// after a failure the solution is the old one or the new one, not a mixture
    void expectWhole(const Flat& before, const Flat& after, double scale)
    {
        Quiet qq;
        Flat got = flat(p->internalField());
        bool a = true, b = true;
        for (size_t i = 0; i < got.size(); i++)
        {
            if (!near(got[i], before[i], scale)) a = false;
            if (!near(got[i], after[i], scale)) b = false;
        }
        if (!a && !b) sim::fail("torn-solution", "a time step that failed left a mixture in the solution");
    }
    /// there is no linear solver for vector fields
    void solve(E& e, double dt)
    {
        if constexpr (NC<T> == 1) dsl::solve(e, *p, 0.5, dt, schemes, solution);
    }
    void dsl_solve(E& e, double dt)
    {
        if constexpr (NC<T> == 1) dsl::solve(e, *p, now, dt, schemes, solution);
    }
#ifdef FV_EXT
    /// the vectors of the integrator: filled from fields and read back, each one its own
    void vectors()
    {
        namespace sd = NeoFOAM::sundials;
        const size_t n = sim::choose(sim::W, 4) ? t.h.nc : 1 + sim::choose(sim::W, 40);
        Field<scalar> a(t.e, n), b(t.e, n), r(t.e, n);
        const Flat fa = randomise(a), fb = randomise(b);
        using SK = sd::SKVector<scalar>;
        auto op = [&]
        {
            std::shared_ptr<SUNContext> ctx(new SUNContext(), sd::SUN_CONTEXT_DELETER);
            if (SUNContext_Create(SUN_COMM_NULL, ctx.get())) throw std::bad_alloc();
            auto v = std::make_unique<SK>();
            v->setExecutor(t.e);
            v->initNVector(n, ctx);
            sd::fieldToSunNVector(a, v->sunNVector());
            SK w(*v);
            if (w.sunNVector() == v->sunNVector()) sim::fail("wrong-identity", "the copy of a vector is the vector itself");
            if (w.variant().index() != v->variant().index()) sim::fail("wrong-executor", "the copy of a vector lives elsewhere");
            if (N_VGetLength(std::as_const(w).sunNVector()) != (sunindextype)n) sim::fail("wrong-content", "a copied vector has %ld entries instead of %zu", (long)N_VGetLength(w.sunNVector()), n);
            sd::fieldToSunNVector(b, w.sunNVector());
            sd::sunNVectorToField(std::as_const(*v).sunNVector(), r);
            expectFlat("vector after its copy was written", r, fa);
            SK m(std::move(*v));
            v.reset();
            sd::sunNVectorToField(m.sunNVector(), r);
            expectFlat("moved vector", r, fa);
            sd::sunNVectorToField(w.sunNVector(), r);
            expectFlat("copied vector", r, fb);
            expectFlat("field given to a vector", b, fb);
        };
        const uint32_t failed = libraryFailures();
        auto o = sim::attempt(op, 60);
        if (libraryFailures() == failed) expectOk("vectors of the integrator", o);
        // neither these nor a step leave anything on the heap
        quietLibrary(true);
        E e(t.e);
        e.addOperator(dsl::imp::ddt<T>(*p));
        schemes.subDict("ddtSchemes").template get<std::string>("type") = "Runge-Kutta";
        const bool stepping = sim::flip(sim::W, 1, 2);
        auto again = [&]
        {
            if (!stepping) return op();
            TI ti(schemes.subDict("ddtSchemes"), solution);
            ti.solve(e, *p, now, 0.5);
            TI c(ti);
            c.solve(e, *p, now, 0.5);
        };
        uint64_t blocks[3];
        for (int i = 0; i < 3; i++)
        {
            expectOk("integrator without faults", sim::attempt(again, 0));
            blocks[i] = sim::memStat().hostBlocks;
        }
        if (blocks[2] > blocks[1]) sim::fail("leak", "%s leaves %llu block(s) on the heap", stepping ? "a step" : "a vector", (unsigned long long)(blocks[2] - blocks[1]));
        quietLibrary(false);
        sim::probe("integrator vectors");
    }
    bool savedFaults = false;
    static uint32_t libraryFailures() { return simext::st().failed; }
    void quietLibrary(bool on)
    {
        if (on) savedFaults = simext::st().faults, simext::st().faults = false;
        else
            simext::st().faults = savedFaults;
    }
#else
    static uint32_t libraryFailures() { return 0; }
    void quietLibrary(bool) {}
#endif
    void step()
    {
        Expr& x = *pool[sim::choose(sim::W, (uint32_t)pool.size())];
        double dt = dtOf();
        uint32_t mode = sim::choose(sim::W, NC<T> == 1 ? 4 : 1);
        bool temporalOps = false, other = false;
        for (auto& m : x.m) temporalOps |= m.temporal(), other |= m.k == ExpDdt;
        if (mode < 2 && !temporalOps)
        {
            Term m;
            auto op = temporal(m, true);
            x.e.addOperator(op);
            x.m.push_back(m);
            x.built = false;
        }
        if (mode >= 2 && temporalOps) return;
        if (mode == 1 && other) return; // explicit time derivatives are not part of an implicit step
        if (x.m.empty()) return;
        schemes.subDict("ddtSchemes").template get<std::string>("type") = mode == 1 ? "backwardEuler" : "forwardEuler";
        static const char* names[] = {"explicit step", "implicit step", "steady solve", "assemble and solve"};
        describe(names[mode], x);
        if (mode == 0)
        {
#ifdef FV_EXT
            const bool rk = sim::flip(sim::W, 4, 5);
            if (rk) schemes.subDict("ddtSchemes").template get<std::string>("type") = "Runge-Kutta";
            const uint32_t how = rk ? sim::choose(sim::W, 5) : 0;
            if (sim::flip(sim::W, 1, 3)) now = sim::choose(sim::W, 40) * 0.375;
            if (sim::flip(sim::W, 1, 3)) dt = 0.1 * (1 + sim::choose(sim::W, 4));
#else
            const bool rk = false;
            const uint32_t how = 0;
#endif
            double scale;
            Flat next = oldKnown ? old : phi.in;
            {
                Sum s = explicitSum(x.m);
                scale = s.scale * dt + maxAbs(next);
                for (size_t i = 0; i < next.size(); i++) next[i] -= s.v[i] * dt;
            }
            bool direct = NC<T> == 3 || sim::flip(sim::W, 1, 3);
            TI* user = nullptr;
            if (how == 3 && !kept.empty()) user = kept[sim::choose(sim::W, (uint32_t)kept.size())].get();
            auto op = [&]
            {
                if (user)
                {
                    x.e.build(schemes);
                    user->solve(x.e, *p, now, dt);
                    return;
                }
                if (!direct)
                {
                    dsl_solve(x.e, dt);
                    return;
                }
                x.e.build(schemes);
                TI ti(schemes.subDict("ddtSchemes"), solution);
                TI cp(ti);
                cp.solve(x.e, *p, now, dt);
            };
            auto more = [&]
            {
                if (!rk) return;
                std::unique_ptr<TI> n;
                auto make = [&]
                {
                    if (how == 1 && !kept.empty())
                    {
                        TI c(*kept[sim::choose(sim::W, (uint32_t)kept.size())]); // of an integrator that may have been used
                        n.reset(new TI(std::move(c)));
                    }
                    else
                        n.reset(new TI(schemes.subDict("ddtSchemes"), solution));
                };
                retried("making an integrator", make);
                if (kept.size() == 3) kept.erase(kept.begin() + sim::choose(sim::W, 3));
                kept.push_back(std::move(n));
            };
            if (how == 1 || how == 2 || (how == 3 && kept.empty())) more();
            uint32_t failed = libraryFailures();
            auto o = sim::attempt(op, 150);
            if (libraryFailures() != failed)
            {
                sim::nontrivial();
                if (o.ok()) sim::fail("silent-failure", "an explicit step succeeded although the library reported %u error(s)", libraryFailures() - failed);
                expectWhole(phi.in, next, scale);
                sim::probe("step ended by a library failure");
                if (sim::exits()) return;
            }
            else
                expectOk("explicit time step", o);
            if (!o.ok())
            {
                sim::nontrivial();
                expectWhole(phi.in, next, scale);
                restore(*p, phi);
                resetFields();
                quietLibrary(true);
                o = sim::attempt(op, 0);
                quietLibrary(false);
                expectOk("explicit time step", o);
            }
            now += dt;
            if (rk) sim::probe(user ? "Runge-Kutta step of a kept integrator" : "Runge-Kutta step");
            expectNear("wrong-solution", "solution of an explicit step", flat(p->internalField()), next, scale, NC<T>);
            oldKnown = true;
            sim::probe("explicit step");
            settle();
            return;
        }
        if constexpr (NC<T> == 1)
        {
            Captured c;
            c.answer = rndFlat(t.h.nc);
            {
                Quiet qq;
                cap = &c;
            }
            System w = systemOf(x.m, true, mode == 1, dt);
            moveExplicit(w, x.m, dt, false);
            const char* name = mode == 1 ? "implicit time step" : "steady solve";
            auto op = [&]
            {
                if (mode == 3)
                {
                    fvcc::Expression<T> fe(x.e, *p, schemes, solution);
                    fe.assemble(0.5, dt);
                    fe.solve(0.5, dt);
                }
                else
                    solve(x.e, dt);
            };
            auto o = sim::attempt(op, 150);
            expectOk(name, o);
            if (!o.ok())
            {
                sim::nontrivial();
                expectWhole(phi.in, c.answer, 1);
                restore(*p, phi);
                resetFields();
                c.calls = 0;
                o = sim::attempt(op, 0);
                expectOk(name, o);
            }
            if (c.calls != 1) sim::fail("wrong-solution", "%s called the linear solver %d times", name, c.calls);
            if (c.text != "solution") sim::fail("wrong-solution", "%s: the linear solver was not given the solution dictionary", name);
            compare(name, *c.sys, w);
            expectFlat("solution of an implicit step", p->internalField(), c.answer);
            sim::probe(name);
            if (mode == 1)
            {
                if (!oldKnown) old = phi.in;
                oldKnown = true;
                settle();
            }
            else
            {
                phi.in = c.answer;
                if (mode == 2) settleBoundary();
                readBack();
            }
        }
    }
    void readBack()
    {
        phi.in = flat(p->internalField());
        auto& b = p->boundaryField();
        phi.val = flat(b.value()), phi.rv = flat(b.refValue()), phi.rg = flat(b.refGrad()), phi.vf = flat(b.valueFraction());
    }
    void settleBoundary()
    {
        phi.in = flat(p->internalField());
        bcs.correct(t.h, phi);
        same("solution with corrected boundaries", *p, phi);
    }
    /// boundaries corrected, previous solution updated
    void settle()
    {
        settleBoundary();
        expectFlat("previous solution after a step", fvcc::oldTime(*p).internalField(), phi.in);
        readBack(); // no accumulation of rounding in the model
        old = phi.in;
        if (maxAbs(phi.in) > 1e6)
        {
            phi.in = randomise(p->internalField());
            old = randomise(fvcc::oldTime(*p).internalField());
        }
    }
    void run()
    {
        while (sim::nextOp(8))
        {
#ifdef FV_EXT
            uint32_t k = pool.empty() ? 0 : sim::choose(sim::W, 16);
            if (k >= 8) k = 6;
#else
            uint32_t k = pool.empty() ? 0 : sim::choose(sim::W, 8);
#endif
            if (k < 4 && pool.size() < 6)
            {
                size_t n = pool.size();
                grow();
                if (pool.size() > n && sim::flip(sim::W, 1, 3)) build(*pool.back());
            }
            else if (k < 6)
                evaluate(*pool[sim::choose(sim::W, (uint32_t)pool.size())]);
            else if (k == 6)
                step();
            else
            {
                if (sim::flip(sim::W, 1, 4)) coefficients();
                // the user changes the solution between steps
                phi.in = randomise(p->internalField());
                if (sim::flip(sim::W, 1, 2))
                {
                    p->correctBoundaryConditions();
                    bcs.correct(t.h, phi);
                }
            }
            if (sim::exits()) return;
            checkState("fields of the equation");
        }
        if (NC<T> == 1 && sim::flip(sim::W, 1, 12)) refused();
    }
    /// requests that cannot be fulfilled stop the program and leave the solution alone
    void refused()
    {
        uint32_t k = sim::choose(sim::W, 3);
        E e(t.e);
        Outcome o;
        if (k == 0) o = sim::attempt([&] { solve(e, 1); }, 0);
        if (k == 1)
        {
            e.addOperator(dsl::imp::ddt<T>(*p));
            schemes.subDict("ddtSchemes").template get<std::string>("type") = "noSuchIntegrator";
            o = sim::attempt([&] { solve(e, 1); }, 0);
        }
        if (k == 2)
        {
            Term m;
            e.addOperator(dsl::SpatialOperator<T>(fvcc::DivOperator<T>(OpType::Explicit, *flux.f, *p)));
            schemes.subDict("divSchemes").remove("div(flux,phi)");
            o = sim::attempt([&] { solve(e, 1); }, 0);
            if (o.res != Res::OutOfRange) sim::fail("wrong-outcome", "solving without a scheme for an operator: %s", sim::resName(o.res));
        }
        else if (o.res != Res::Aborted && o.res != Res::Exited)
            sim::fail("wrong-outcome", "solving an equation that cannot be solved: %s", sim::resName(o.res));
        checkState("fields after a refused solve");
        sim::probe("refused solve");
    }
};
}
#ifndef FV_EXT
FV_PROPERTY(V10, "a run counts as non-trivial when cells received concurrent contributions on a parallel executor or an allocation failed")
{
    fv::growing = true;
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    if (sim::flip(sim::W, 1, 3)) Stepping<Vector>().run();
    else
        Stepping<scalar>().run();
}
#endif
