// N02 external linear solvers, against stand-ins for their libraries
#include "fv_ls.hpp"

#include "NeoFOAM/linearAlgebra/solver.hpp"
#include "NeoFOAM/linearAlgebra/ginkgo.hpp"
#include "NeoFOAM/linearAlgebra/petsc.hpp"

using namespace fv;
using gko::config::pnode;

namespace
{
using Sys = la::LinearSystem<scalar, localIdx>;
/// what the library was asked for; the harness changes it between operations
struct Model
{
    size_t n = 0;
    Flat ptr, col, val, b;
    Dense dense() const
    {
        Dense d(n, 1);
        d.b = b;
        for (size_t i = 0; i < n; i++)
            for (size_t k = (size_t)ptr[i]; k < (size_t)ptr[i + 1]; k++) d.A[i * n + (size_t)col[k]] += val[k];
        return d;
    }
};
std::unique_ptr<Field<localIdx>> indices(const Executor& e, const Flat& v)
{
    std::unique_ptr<Field<localIdx>> f(new Field<localIdx>(e, v.size()));
    put(*f, v);
    return f;
}
struct Lib
{
    Executor e = pickExec();
    Model m;
    std::unique_ptr<Sys> sys;
    std::unique_ptr<Field<scalar>> x;
    Flat x0;
    bool petsc = false;
    Dictionary dict;
    pnode::map_type want;
    std::vector<std::unique_ptr<la::Solver>> pool;
    std::vector<pnode> made; // configuration each solver was made from

    /// strictly dominant diagonal: one solution, found without trouble; the rest of a row anywhere
    void newSystem()
    {
        m = Model();
        m.n = 1 + sim::small(6);
        m.ptr = {0};
        for (size_t i = 0; i < m.n; i++)
        {
            std::vector<size_t> cols;
            for (size_t j = 0; j < m.n; j++)
                if (j == i || sim::flip(sim::W, 1, 2)) cols.push_back(j);
            if (sim::flip(sim::W, 1, 3))
                for (size_t k = cols.size(); k > 1; k--) std::swap(cols[k - 1], cols[sim::choose(sim::W, (uint32_t)k)]);
            for (auto j : cols)
            {
                m.col.push_back((double)j);
                m.val.push_back(j == i ? (sim::flip(sim::W, 1, 2) ? 1 : -1) * (double)(64 + sim::choose(sim::W, 9)) : rndInt());
            }
            m.ptr.push_back((double)m.col.size());
        }
        m.b = rndFlat(m.n);
        materialise();
    }
    void materialise()
    {
        Quiet q;
        x.reset(), sys.reset();
        Field<scalar> v(e, m.val.size()), b(e, m.n);
        put(v, m.val), put(b, m.b);
        auto c = indices(e, m.col), p = indices(e, m.ptr);
        sys.reset(new Sys(la::CSRMatrix<scalar, localIdx>(v, *c, *p), b));
        x.reset(new Field<scalar>(e, m.n));
        x0 = randomise(*x);
    }
    void changeValues()
    {
        m.b = rndFlat(m.n);
        if (sim::flip(sim::W, 1, 2))
            for (size_t i = 0; i < m.n; i++)
                for (size_t k = (size_t)m.ptr[i]; k < (size_t)m.ptr[i + 1]; k++)
                    if ((size_t)m.col[k] != i) m.val[k] = rndInt();
        Quiet q;
        put(sys->matrix().values(), m.val), put(sys->rhs(), m.b);
    }
    // ---- configuration
    void fill(Dictionary& d, pnode::map_type& t, int depth)
    {
        static const char* keys[] = {"a", "criteria", "max_iters", "tolerance", "preconditioner", "b", "c"};
        uint32_t n = sim::choose(sim::W, 5);
        for (uint32_t i = 0; i < n; i++)
        {
            std::string k = keys[sim::choose(sim::W, 7)];
            if (t.count(k)) continue;
            int v = (int)sim::choose(sim::W, 2001) - 1000;
            switch (sim::choose(sim::W, depth ? 7 : 6))
            {
            case 0: d.insert(k, v), t.emplace(k, pnode(v)); break;
            case 1: d.insert(k, v * 0.25 + 1e-7), t.emplace(k, pnode(v * 0.25 + 1e-7)); break;
            case 2: d.insert(k, std::string("s") + std::to_string(v)), t.emplace(k, pnode(std::string("s") + std::to_string(v))); break;
            case 3: d.insert(k, "literal"), t.emplace(k, pnode("literal")); break;
            case 4: d.insert(k, 3000000000u + (unsigned)v), t.emplace(k, pnode(3000000000u + (unsigned)v)); break;
            case 5: d.insert(k, v * 0.5f), t.emplace(k, pnode(v * 0.5f)); break;
            default:
            {
                Dictionary sub;
                pnode::map_type st;
                fill(sub, st, depth - 1);
                d.insert(k, sub);
                t.emplace(k, pnode(st));
                break;
            }
            }
        }
    }
    void newConfiguration()
    {
        petsc = sim::flip(sim::W, 1, 2);
        Quiet q;
        dict = Dictionary();
        want.clear();
        fill(dict, want, 3);
        std::string s = petsc ? "Petsc" : "Ginkgo";
        dict.insert("solver", s);
        want.emplace("solver", pnode(s));
        if (!want.count("type"))
        {
            dict.insert("type", std::string("solver::Cg"));
            want.emplace("type", pnode("solver::Cg"));
        }
    }
    /// reports the failure of a library call or of an allocation; a success although something failed is not one
    bool settled(const char* what, const Outcome& o, uint32_t failedBefore)
    {
        auto failed = simext::st().failed - failedBefore;
        sim::log("%s: %s (%s), %u library failures", what, sim::resName(o.res), o.what, failed);
        if (failed || o.faultFired) sim::nontrivial();
        if (o.ok())
        {
            if (failed) sim::fail("silent-failure", "%s succeeded although the library reported %u error(s)", what, failed);
            return true;
        }
        if (o.res == Res::BadAlloc && o.faultFired) return false;
        if (!failed) sim::fail("wrong-outcome", "%s: outcome %s (%s)", what, sim::resName(o.res), o.what);
        return false;
    }
    void unchanged(const char* when)
    {
        Quiet q;
        if (flat(sys->matrix().values()) != m.val || flat(sys->rhs()) != m.b) sim::fail("wrong-content", "%s: the values of the system changed", when);
        if (flat(Field<localIdx>(sys->matrix().rowPtrs())) != m.ptr || flat(Field<localIdx>(sys->matrix().colIdxs())) != m.col) sim::fail("wrong-content", "%s: the structure of the system changed", when);
    }
    static double residual(const Dense& d, const Flat& x, bool transposed)
    {
        double r = 0;
        for (size_t i = 0; i < d.n; i++)
        {
            double s = -d.b[i];
            for (size_t j = 0; j < d.n; j++) s += (transposed ? d.A[j * d.n + i] : d.A[i * d.n + j]) * x[j];
            r = std::max(r, std::fabs(s));
        }
        return r;
    }
    void solve(la::Solver& s, bool isPetsc, const pnode& config)
    {
        auto before = simext::st().failed;
        auto solves = simext::st().solves;
        auto o = sim::attempt([&] { s.solve(*sys, *x); }, 40);
        bool ended = o.res == Res::Exited || o.res == Res::Aborted;
        bool done = settled(isPetsc ? "solve (PETSc)" : "solve (Ginkgo)", o, before);
        if (ended) return;
        unchanged("after a solve");
        if (!done)
        {
            // a later attempt is not spoilt by the failed one
            bool f = simext::st().faults;
            simext::st().faults = false;
            o = sim::attempt([&] { s.solve(*sys, *x); }, 0);
            simext::st().faults = f;
            expectOk("solve again after a failure", o);
            unchanged("after a repeated solve");
        }
        else if (simext::st().solves != solves + 1)
            sim::fail("wrong-content", "one solve asked the library %u times", simext::st().solves - solves);
        if (x->exec().index() != e.index()) sim::fail("wrong-executor", "the solution moved to the %s executor", execName(x->exec()));
        expectPlaced("solution", *x);
        Quiet q;
        Flat got = flat(*x);
        if (got.size() != m.n) sim::fail("wrong-content", "solution has %zu entries for %zu rows", got.size(), m.n);
        Dense d = m.dense();
        if (!(residual(d, got, false) <= 1e-9))
        {
            const char* lib = isPetsc ? "PETSc" : "Ginkgo";
            if (isPetsc && residual(d, got, true) <= 1e-9)
            {
                sim::finding("petsc-transposed-system", "the PETSc solver solves the transposed system (residual %g with %zu rows)", residual(d, got, false), m.n);
                sim::probe("solve:PETSc (transposed)");
                return;
            }
            sim::fail("wrong-solution", "%s on %s: residual %g with %zu rows, first entry %.12g (before: %.12g)", lib, execName(e), residual(d, got, false), m.n, got[0], x0[0]);
        }
        sim::probe(isPetsc ? "solve:PETSc" : "solve:Ginkgo");
        x0 = got;
    }
    std::vector<bool> isPetsc;
    void create()
    {
        auto before = simext::st().failed;
        newConfiguration();
        std::unique_ptr<la::Solver> s;
        auto op = [&] { s.reset(new la::Solver(e, dict)); };
        auto o = sim::attempt(op, 60);
        if (!settled("creating a solver", o, before))
        {
            if (o.res == Res::Exited || o.res == Res::Aborted) return;
            bool f = simext::st().faults;
            simext::st().faults = false;
            o = sim::attempt(op, 0);
            simext::st().faults = f;
            expectOk("creating a solver after a failure", o);
        }
        Quiet q;
        if (!petsc && gko::config::simLast() != pnode(want)) sim::fail("wrong-content", "the library got another configuration than the dictionary holds (%zu entries of %zu)", gko::config::simLast().get_map().size(), want.size());
        pool.push_back(std::move(s));
        isPetsc.push_back(petsc);
        made.push_back(pnode(want));
    }
    void copy(size_t i)
    {
        std::unique_ptr<la::Solver> s;
        auto op = [&]
        {
            la::Solver c(*pool[i]);
            if (sim::flip(sim::W, 1, 2)) s.reset(new la::Solver(std::move(c)));
            else
                s.reset(new la::Solver(c));
        };
        auto before = simext::st().failed;
        auto o = sim::attempt(op, 40);
        if (!settled("copying a solver", o, before))
        {
            o = sim::attempt(op, 0);
            expectOk("copying a solver", o);
        }
        Quiet q;
        if (sim::flip(sim::W, 1, 2)) pool[i] = std::move(s); // the original goes
        else
        {
            pool.push_back(std::move(s));
            isPetsc.push_back(isPetsc[i]);
            made.push_back(made[i]);
        }
        sim::probe("solver copied");
    }
    void refused()
    {
        Outcome o;
        uint32_t k = sim::choose(sim::W, 4);
        Dictionary d;
        pnode::map_type t;
        {
            Quiet q;
            fill(d, t, 2);
            if (k) d.insert("solver", std::string(k == 3 ? "noSuchSolver" : "Ginkgo"));
            if (k == 1)
            {
                Dictionary sub, *at = &d;
                if (sim::flip(sim::W, 1, 2))
                {
                    d.insert("nested", sub);
                    at = &d.subDict("nested");
                }
                at->insert("odd", std::pair<int, int>(1, 2));
            }
            // k == 2: no type
        }
        la::Solver* s = nullptr;
        simext::st().faults = false;
        o = sim::attempt([&] { s = new la::Solver(e, d); }, 0);
        if (s) sim::fail("wrong-outcome", "a solver was made from a dictionary without what it needs (%u)", k);
        const Res want[] = {Res::OutOfRange, Res::NeoFoam, Res::StdOther, Res::Aborted};
        bool ok = k == 3 ? o.res == Res::Aborted || o.res == Res::Exited : !o.ok() && o.res != Res::Aborted && o.res != Res::Exited;
        if (!ok) sim::fail("wrong-outcome", "making a solver from a dictionary without what it needs (%u): %s", k, sim::resName(o.res));
        sim::probe("refused configuration");
    }
    /// as many rows as a small mesh has cells: nothing may depend on the size of the stack
    void large()
    {
        simext::st().faults = false;
        {
            Quiet q;
            m = Model();
            m.n = 150000;
            m.ptr.resize(m.n + 1), m.col.resize(m.n), m.val.resize(m.n), m.b.resize(m.n);
            for (size_t i = 0; i < m.n; i++) m.ptr[i + 1] = (double)i + 1, m.col[i] = (double)i, m.val[i] = 1 + (double)(i % 7), m.b[i] = (double)(i % 11);
            materialise();
            dict = Dictionary();
            dict.insert("solver", std::string("Petsc"));
        }
        auto o = sim::attempt([&] { la::Solver(e, dict).solve(*sys, *x); }, 0);
        expectOk("solve of a large system", o);
        Quiet q;
        Flat got = flat(*x);
        for (size_t i = 0; i < m.n; i++)
            if (!near(got[i] * m.val[i], m.b[i], 1)) sim::fail("wrong-solution", "large system: entry %zu is %g", i, got[i]);
        sim::probe("large system");
    }
    void run()
    {
        newSystem();
        if (sim::chooseAs(sim::W, 2, sim::rnd(sim::W, 4000) == 0))
        {
            large();
            return;
        }
        while (sim::nextOp(8) && !sim::exits())
        {
            uint32_t k = pool.empty() ? 0 : sim::choose(sim::W, 8);
            size_t i = pool.empty() ? 0 : sim::choose(sim::W, (uint32_t)pool.size());
            if (k == 0 && pool.size() < 4) create();
            else if (k == 1 && pool.size() < 4)
                copy(i);
            else if (k == 2)
                newSystem();
            else if (k == 3)
                changeValues();
            else if (!pool.empty())
            {
                if (pool.size() == 1) sim::probe("repeated use");
                solve(*pool[i], isPetsc[i], made[i]);
            }
        }
        if (!sim::exits() && sim::flip(sim::W, 1, 10)) refused();
    }
};
}
SIM_PROPERTY(N02, "a run counts as non-trivial when a library call or an allocation failed, or more than one system was solved")
{
    fv::growing = true;
    hk::KernelMode km(true);
    simext::reset();
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    simext::st().faults = sim::flip(sim::F, 1, 3);
    auto m0 = sim::memStat();
    {
        Lib l;
        l.run();
        if (sim::exits()) return;
        simext::st().faults = false;
    }
    if (simext::st().solves > 1) sim::nontrivial();
    if (simext::st().live) sim::fail("leak", "%ld library objects were never released", simext::st().live);
    auto m1 = sim::memStat();
    if (m1.kkBlocks != m0.kkBlocks || m1.devBlocks != m0.devBlocks) sim::fail("leak", "%lld host and %lld device storage blocks were never released", (long long)(m1.kkBlocks - m0.kkBlocks), (long long)(m1.devBlocks - m0.devBlocks));
}
