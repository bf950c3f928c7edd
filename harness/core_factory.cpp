// C07 runtime selection.
#include "common.hpp"
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"

#include <algorithm>
#include <cstring>
#include <set>
#include <sstream>

using namespace hv;

namespace
{
int ctorThrowIn = 0;
long aliveShapes = 0;

/// argument whose copies and identity are observed
struct Arg
{
    static int copies;
    int id;
    explicit Arg(int i) : id(i) {}
    Arg(const Arg& o) : id(o.id)
    {
        Quiet q;
        ++copies;
    }
    Arg(Arg&& o) noexcept : id(o.id) { o.id = -1; }
};
int Arg::copies = 0;

class Shape : public NeoFOAM::RuntimeSelectionFactory<Shape, NeoFOAM::Parameters<const Arg&, int&, Arg, std::string>>
{
public:

    const Arg* refSeen;
    int* intSeen;
    int valSeen;
    std::string strSeen;
    Shape(const Arg& a, int& i, Arg b, std::string s) : refSeen(&a), intSeen(&i), valSeen(b.id), strSeen(std::move(s))
    {
        if (ctorThrowIn && --ctorThrowIn == 0)
        {
            sim::probe("fault:throwing-constructor");
            throw sim::Injected {3};
        }
        ++*intSeen;
        Quiet q;
        ++aliveShapes;
    }
    ~Shape() override
    {
        Quiet q;
        --aliveShapes;
    }
    static std::string name() { return "Shape"; }
    virtual std::string what() const = 0;
};
#define SHAPE(N)                                                                                   \
    class N : public Shape::Register<N>                                                            \
    {                                                                                              \
    public:                                                                                        \
                                                                                                   \
        N(const Arg& a, int& i, Arg b, std::string s)                                              \
            : Shape::Register<N>(a, i, std::move(b), std::move(s))                                 \
        {}                                                                                         \
        static std::string name() { return #N; }                                                   \
        static std::string doc() { return "documentation of " #N; }                                \
        static std::string schema() { return "schema of " #N; }                                    \
        std::string what() const override { return #N; }                                           \
    };
SHAPE(Square)
SHAPE(Circle)
SHAPE(TriangleWithAVeryLongClassName)
SHAPE(Empty)

/// a class whose constructor itself selects another one by name
class Composite : public Shape::Register<Composite>
{
    std::unique_ptr<Shape> inner_;

public:

    Composite(const Arg& a, int& i, Arg b, std::string s) : Shape::Register<Composite>(a, i, b, s)
    {
        int depth = i;
        std::string n;
        {
            Quiet q;
            n = depth < 3 ? "Composite" : "Circle";
        }
        int dummy = depth;
        inner_ = Shape::create(n, a, depth < 3 ? i : dummy, b, s);
        if (depth < 3) i = depth;
    }
    static std::string name() { return "Composite"; }
    static std::string doc() { return "documentation of Composite"; }
    static std::string schema() { return "schema of Composite"; }
    std::string what() const override
    {
        const Shape* p = inner_.get();
        while (auto* c = dynamic_cast<const Composite*>(p)) p = c->inner_.get();
        return p && p->what() == "Circle" ? "Composite" : "Composite holding something else";
    }
};

class Solver : public NeoFOAM::RuntimeSelectionFactory<Solver, NeoFOAM::Parameters<>>
{
public:

    Solver() {}
    static std::string name() { return "Solver"; }
    virtual int run() = 0;
};
class CG : public Solver::Register<CG>
{
public:

    CG() {}
    static std::string name() { return "CG"; }
    static std::string doc() { return "conjugate gradients"; }
    static std::string schema() { return "none"; }
    int run() override { return 1; }
};
// same derived name under another base: the tables must stay apart
class SolverSquare : public Solver::Register<SolverSquare>
{
public:

    SolverSquare() {}
    static std::string name() { return "Square"; }
    static std::string doc() { return "a solver called Square"; }
    static std::string schema() { return "square schema"; }
    int run() override { return 2; }
};

/// a class that is registered while the program runs, as the static initialisers of a library loaded
/// at run time do it
class LatePlugin : public Shape
{
public:

    LatePlugin(const Arg& a, int& i, Arg b, std::string s) : Shape(a, i, std::move(b), std::move(s)) {}
    static std::string name() { return "LatePlugin"; }
    static std::string doc() { return "documentation of LatePlugin"; }
    static std::string schema() { return "schema of LatePlugin"; }
    std::string what() const override { return "LatePlugin"; }
};

struct Entry
{
    const char *name, *doc, *schema;
};
size_t nShapes = 5;
const Entry shapes[] = {{"Square", "documentation of Square", "schema of Square"}, {"Circle", "documentation of Circle", "schema of Circle"}, {"TriangleWithAVeryLongClassName", "documentation of TriangleWithAVeryLongClassName", "schema of TriangleWithAVeryLongClassName"}, {"Empty", "documentation of Empty", "schema of Empty"}, {"Composite", "documentation of Composite", "schema of Composite"}, {"LatePlugin", "documentation of LatePlugin", "schema of LatePlugin"}};
const Entry solvers[] = {{"CG", "conjugate gradients", "none"}, {"Square", "a solver called Square", "square schema"}};

template<class B>
void checkTables(const char* base, const Entry* e, size_t n, const char* when)
{
    Quiet q;
    std::set<std::string> want;
    for (size_t i = 0; i < n; i++) want.insert(e[i].name);
    auto en = B::entries();
    std::set<std::string> got(en.begin(), en.end());
    sim::require(en.size() == n && got == want, "registry", "%s: entries of %s are not the %zu registered classes", when, base, n);
    sim::require(B::size() == n, "registry", "%s: size of %s is %zu", when, base, B::size());
    auto eb = NeoFOAM::BaseClassDocumentation::entries(base);
    std::set<std::string> gb(eb.begin(), eb.end());
    sim::require(gb == want && eb.size() == n, "registry", "%s: base-class registry disagrees for %s", when, base);
    for (size_t i = 0; i < n; i++)
    {
        sim::require(B::doc(e[i].name) == e[i].doc && B::schema(e[i].name) == e[i].schema, "registry", "%s: documentation of %s wrong", when, e[i].name);
        sim::require(NeoFOAM::BaseClassDocumentation::doc(base, e[i].name) == e[i].doc && NeoFOAM::BaseClassDocumentation::schema(base, e[i].name) == e[i].schema, "registry", "%s: base-class documentation of %s wrong", when, e[i].name);
    }
    std::ostringstream os;
    B::print(os);
    auto s = os.str();
    for (size_t i = 0; i < n; i++)
        sim::require(s.find(std::string(" - ") + e[i].name) != std::string::npos, "registry", "%s: printed table of %s misses %s", when, base, e[i].name);
    sim::require((size_t)std::count(s.begin(), s.end(), '\n') == n + 1 && s.find(base) != std::string::npos, "registry", "%s: printed table of %s has the wrong number of lines", when, base);
}

// registered before main: observed during static initialisation of main's first statement
struct FThread
{
    struct P
    {
        unsigned kind, which;
        bool keep;
    };
    std::vector<P> plan;
    std::vector<std::unique_ptr<Shape>> keep;
    int counter = 0;
    int created = 0;
    void operator()()
    {
        for (auto& p : plan)
        {
            if (p.kind < 5)
            {
                std::string nm, payload;
                {
                    Quiet q;
                    nm = shapes[p.which].name;
                    payload = "payload string that is long enough";
                }
                Arg a(5), b(9);
                std::unique_ptr<Shape> s;
                int before = counter;
                Outcome o = sim::attempt([&] { s = Shape::create(nm, a, counter, b, payload); }, 12);
                expectRes("create", o, Res::Ok);
                if (o.ok())
                {
                    created++;
                    sim::require(s && s->what() == nm, "wrong-class", "creating '%s' gave %s", nm.c_str(), s ? s->what().c_str() : "nothing");
                    sim::require(s->refSeen == &a && s->intSeen == &counter && counter == before + 1 && s->valSeen == 9, "arguments", "constructor arguments were not passed on unchanged");
                    bool strOk;
                    {
                        Quiet q;
                        strOk = s->strSeen == payload;
                    }
                    sim::require(strOk, "arguments", "string argument changed");
                    sim::require(b.id == 9, "arguments", "the caller's argument was consumed");
                }
                if (p.keep) { Quiet q; keep.push_back(std::move(s)); }
            }
            else if (p.kind < 6)
            {
                std::unique_ptr<Solver> s;
                Outcome o = sim::attempt([&] { s = Solver::create(solvers[p.which % 2].name); }, 6);
                expectRes("create", o, Res::Ok);
                if (o.ok()) sim::require(s->run() == (int)(p.which % 2) + 1, "wrong-class", "creating a solver gave another class");
            }
            else if (p.kind < 7)
            {
                if (!keep.empty()) keep.pop_back();
            }
            else
            {
                std::vector<std::string> e;
                std::string d;
                Outcome o = sim::attempt(
                    [&]
                    {
                        e = Shape::entries();
                        d = Shape::doc(shapes[p.which].name);
                    }
                );
                expectRes("entries", o, Res::Ok);
                if (o.ok()) sim::require(e.size() == nShapes && !strcmp(d.c_str(), shapes[p.which].doc), "registry", "entries/doc wrong");
            }
        }
        keep.clear();
    }
};
}

SIM_PROPERTY(C07, "a run creates and destroys run-time selected objects by known and unknown names with throwing "
                  "constructors and failing allocations, then from several threads; non-trivial if an unknown name, "
                  "a failure or two threads occurred")
{
    Inspection look; // some runs leave the tables alone until the threads do
    if (!look.rarely)
    {
        checkTables<Shape>("Shape", shapes, nShapes, "at start");
        checkTables<Solver>("Solver", solvers, 2, "at start");
    }
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    std::vector<std::unique_ptr<Shape>> pool;
    auto m0 = sim::memStat();
    while (sim::nextOp(12))
    {
        unsigned what = sim::choose(sim::W, 11);
        if (what == 10)
        {
            if (!sim::flip(sim::W, 1, 3)) continue;
            sim::log("register a late class");
            Quiet q;
            Shape::Register<LatePlugin>::addSubType();
            nShapes = 6;
        }
        else if (what < 5)
        {
            unsigned w = sim::choose(sim::W, (uint32_t)nShapes);
            ctorThrowIn = 0;
            callbackFaultFired = false;
            if (sim::faultsEnabled()) ctorThrowIn = (int)sim::chooseAs(sim::F, 2, sim::rnd(sim::F, 6) == 0);
            int armed = ctorThrowIn;
            std::string nm, payload;
            {
                Quiet q;
                nm = shapes[w].name;
                payload = w & 1 ? "short" : "payload string that is long enough";
            }
            int counter = 0;
            Arg a(5), b(9);
            Arg::copies = 0;
            auto before = sim::memStat();
            long alive = aliveShapes;
            std::unique_ptr<Shape> s;
            Outcome o = sim::attempt([&] { s = Shape::create(nm, a, counter, b, payload); }, 12);
            if (armed && ctorThrowIn == 0) callbackFaultFired = true;
            ctorThrowIn = 0;
            sim::log("create '%s' -> %s", nm.c_str(), sim::resName(o.res));
            expectRes("create", o, Res::Ok);
            if (o.ok())
            {
                sim::require(s && s->what() == nm, "wrong-class", "creating '%s' gave another class", nm.c_str());
                sim::require(s->refSeen == &a && s->intSeen == &counter && counter == 1 && s->valSeen == 9 && s->strSeen == payload, "arguments", "constructor arguments were not passed on unchanged");
                sim::require(b.id == 9 && (Arg::copies == 1 || w == 4), "arguments", "a by-value argument was copied %d times", Arg::copies);
                if (sim::flip(sim::W, 1, 2))
                {
                    Quiet q;
                    pool.push_back(std::move(s));
                }
            }
            else
            {
                sim::nontrivial();
                auto after = sim::memStat();
                sim::require(aliveShapes == alive && after.hostBlocks == before.hostBlocks, "leak", "a failed creation left %ld objects and %ld allocations behind", aliveShapes - alive, (long)(after.hostBlocks - before.hostBlocks));
            }
        }
        else if (what < 7)
        {
            // unknown name: must not return
            static const char* bad[] = {"", "square", "Squar", "Square ", "Hexagon that does not exist in the table", "Shape", "CG", " Square", "TriangleWithAVeryLongClassName2", "TriangleWithAVeryLongClassNam", "Square\n", "LatePlugin", "Square"};
            unsigned w = sim::choose(sim::W, 13);
            if (w == 11 && nShapes > 5) continue;
            bool nul = w == 12; // a name that continues after an embedded NUL
            sim::log("create unknown '%s'", bad[w]);
            sim::clearCaptured();
            std::string nm;
            {
                Quiet q;
                nm = bad[w];
                if (nul) nm += std::string("\0x", 2);
            }
            int counter = 0;
            Arg a(1), b(2);
            bool returned = false;
            Outcome o = sim::attempt(
                [&]
                {
                    auto s = Shape::create(nm, a, counter, b, std::string("x"));
                    returned = true;
                },
                12
            );
            sim::require(!returned, "unknown-name", "creating the unknown class '%s' returned", bad[w]);
            expectRes("creation of an unknown class", o, Res::Exited, Res::Aborted);
            sim::require(o.res != Res::Exited || o.exitCode != 0, "unknown-name", "the program ended successfully after an unknown class name");
            sim::require(counter == 0, "unknown-name", "a constructor ran for an unknown name");
            sim::nontrivial();
            if (o.res == Res::Exited || o.res == Res::Aborted)
            {
                const char* c = sim::captured();
                if (!o.faultFired && !nul)
                {
                    sim::require(strstr(c, bad[w]) != nullptr, "unknown-name", "the report does not name '%s'", bad[w]);
                    for (size_t i = 0; i < nShapes; i++) sim::require(strstr(c, shapes[i].name) != nullptr, "unknown-name", "the report does not list '%s'", shapes[i].name);
                }
            }
        }
        else if (what < 8)
        {
            if (!pool.empty())
            {
                sim::log("destroy");
                pool.pop_back();
            }
        }
        else
        {
            sim::log("lookup missing documentation");
            unsigned w = sim::choose(sim::W, 4);
            Outcome o = sim::attempt(
                [&]
                {
                    if (w == 0) (void)Shape::doc("CG");
                    else if (w == 1) (void)Shape::schema("nope");
                    else if (w == 2) (void)NeoFOAM::BaseClassDocumentation::doc("nope", "Square");
                    else (void)NeoFOAM::BaseClassDocumentation::schema("Shape", "CG");
                }
            );
            expectRes("documentation of an unknown class", o, Res::OutOfRange);
        }
        if (look.rarely) continue;
        checkTables<Shape>("Shape", shapes, nShapes, "during the run");
        checkTables<Solver>("Solver", solvers, 2, "during the run");
    }
    pool.clear();
    (void)m0;
    sim::require(aliveShapes == 0, "leak", "%ld selected objects were never destroyed", aliveShapes);
    // concurrent phase
    unsigned nt = sim::choose(sim::W, 4);
    if (nt >= 2)
    {
        std::vector<FThread> th;
        {
            Quiet q;
            th.resize(nt);
        }
        for (auto& t : th)
            while (sim::nextOp(4))
            {
                Quiet q;
                FThread::P p {sim::choose(sim::W, 8), sim::choose(sim::W, 5), sim::flip(sim::W, 1, 2)};
                if (t.plan.size() < 8) t.plan.push_back(p);
            }
        sim::nontrivial();
        sim::enableYields(true);
        for (auto& t : th) sim::spawnFn(t, "creator");
        aliveShapes = 0;
        sim::raceDetect(true);
        sim::joinAll();
        sim::enableYields(false);
        checkTables<Shape>("Shape", shapes, nShapes, "after concurrent creation");
        Quiet q;
        th.clear();
    }
    checkTables<Shape>("Shape", shapes, nShapes, "at the end");
    checkTables<Solver>("Solver", solvers, 2, "at the end");
}
