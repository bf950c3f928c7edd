// C09 concurrent read-only use of shared objects, and thread-private use of the library.
#include "common.hpp"
#include "coll.hpp"
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"

#include <algorithm>
#include <cstring>
#include <set>
#include <sstream>

using namespace NeoFOAM;
using namespace hv;


namespace
{
class Tool : public RuntimeSelectionFactory<Tool, Parameters<int>>
{
public:

    int n;
    explicit Tool(int i) : n(i) {}
    static std::string name() { return "Tool"; }
    virtual int twice() const { return 2 * n; }
};
class Hammer : public Tool::Register<Hammer>
{
public:

    explicit Hammer(int i) : Tool::Register<Hammer>(i) {}
    static std::string name() { return "Hammer"; }
    static std::string doc() { return "a hammer, for the documentation table"; }
    static std::string schema() { return "hammer schema"; }
};
class Saw : public Tool::Register<Saw>
{
public:

    explicit Saw(int i) : Tool::Register<Saw>(i) {}
    static std::string name() { return "Saw"; }
    static std::string doc() { return "a saw"; }
    static std::string schema() { return "saw schema"; }
    int twice() const override { return 2 * n + 1; }
};

struct Shared
{
    MDict model;
    Dictionary dict;
    std::vector<Document> docs;
    std::vector<std::string> docIds;
    Database db;
    std::vector<std::string> collNames, idsA, idsB;
    StencilDataBase cache;
    std::map<std::string, int> cacheInts;
    TokenList tokens; // int, string, double
};

struct P
{
    unsigned kind, arg, sub;
};

struct Reader
{
    Shared* s;
    std::vector<P> plan;
    int no;

    std::string key(unsigned a)
    {
        Quiet q;
        return keyName(a);
    }

    template<class T>
    void typedRead(const Dictionary& d, const std::string& k, const MVal* v, bool match)
    {
        bool right = false;
        Outcome o = sim::attempt(
            [&]
            {
                const T& r = d.get<T>(k);
                T copy(r);
                Quiet q;
                right = v && anyIs(std::any(copy), *v);
            },
            8
        );
        Res want = !v ? Res::OutOfRange : (match ? Res::Ok : Res::BadAnyCast);
        expectRes("concurrent get", o, want);
        if (o.ok()) sim::require(right, "wrong-value", "a concurrent read of '%s' returned another value", k.c_str());
    }
    void dictRead(const Dictionary& d, const MDict& m, unsigned a, unsigned sub)
    {
        std::string k = key(a);
        const MVal* v = nullptr;
        {
            Quiet q;
            auto it = m.m.find(k);
            if (it != m.m.end()) v = &it->second;
        }
        int kind = v ? v->kind : -1;
        switch (sub % 7)
        {
        case 0: typedRead<int>(d, k, v, kind == K_INT); break;
        case 1: typedRead<std::string>(d, k, v, kind == K_STR); break;
        case 2: typedRead<double>(d, k, v, kind == K_DOUBLE); break;
        case 3: typedRead<std::vector<int>>(d, k, v, kind == K_VEC); break;
        case 4: typedRead<TokenList>(d, k, v, kind == K_TOKENS); break;
        case 5: typedRead<Dictionary>(d, k, v, kind == K_DICT); break;
        case 6:
        {
            const Dictionary* sd = nullptr;
            Outcome o = sim::attempt([&] { sd = &d.subDict(k); }, 8);
            expectRes("concurrent subDict", o, !v ? Res::OutOfRange : (kind == K_DICT ? Res::Ok : Res::BadAnyCast));
            if (o.ok()) dictRead(*sd, *v->sub, a + 3, sub / 7);
            break;
        }
        }
    }

    void one(const P& p)
    {
        switch (p.kind)
        {
        case 0:
        case 1:
        case 2: dictRead(s->dict, s->model, p.arg, p.sub); break;
        case 3: // structure
        {
            const Dictionary& d = s->dict;
            std::string k = key(p.arg);
            bool c = false, isD = false, e = false, anyOk = true;
            std::vector<std::string> ks;
            size_t n = 0;
            Outcome o = sim::attempt(
                [&]
                {
                    c = d.contains(k);
                    isD = d.isDict(k);
                    e = d.empty();
                    ks = d.keys();
                    for (auto& x : d.getMap()) n += x.second.has_value();
                    if (c)
                    {
                        const std::any& a = d[k];
                        anyOk = a.has_value();
                    }
                },
                8
            );
            expectRes("concurrent listing", o, Res::Ok);
            if (!o.ok()) break;
            Quiet q;
            auto it = s->model.m.find(k);
            std::sort(ks.begin(), ks.end());
            std::vector<std::string> want;
            for (auto& x : s->model.m) want.push_back(x.first);
            sim::require(
                c == (it != s->model.m.end()) && isD == (c && it->second.kind == K_DICT) && e == s->model.m.empty() && ks == want && n == want.size() && anyOk,
                "wrong-value",
                "a concurrent listing of the dictionary is wrong"
            );
            break;
        }
        case 4: // copy, and change the copy
        {
            Outcome o = sim::attempt(
                [&]
                {
                    Dictionary mine(s->dict);
                    for (auto& k : mine.keys())
                    {
                        if (mine.isDict(k)) mine.subDict(k).insert("scratch", std::any(1));
                        else if (p.sub & 1) mine.remove(k);
                        else mine[k] = std::any(no);
                    }
                    Dictionary other;
                    other = static_cast<const Dictionary&>(s->dict);
                    Quiet q;
                    auto diff = diffDict(other, s->model);
                    sim::require(diff.empty(), "wrong-value", "a concurrently made copy differs: %s", diff.c_str());
                },
                20
            );
            expectRes("concurrent copy", o, Res::Ok);
            break;
        }
        case 5: // document
        {
            unsigned i = p.arg % (unsigned)s->docs.size();
            const Document& d = s->docs[i];
            std::string id, nm;
            bool valid = false;
            Outcome o = sim::attempt(
                [&]
                {
                    id = d.id();
                    nm = name(d);
                    valid = d.validate();
                    if (p.sub & 1)
                    {
                        Document c(d);
                        valid = valid && c.validate() && c.id() == id;
                        c.insert("extra", std::any(no));
                    }
                },
                12
            );
            expectRes("concurrent document read", o, Res::Ok);
            if (!o.ok()) break;
            Quiet q;
            sim::require(valid && id == s->docIds[i] && nm == "doc" + std::to_string(i), "wrong-value", "a concurrent read of a document is wrong");
            break;
        }
        case 6: // database and collections
        {
            const Database& db = s->db;
            std::string nm;
            bool known = p.arg % 3 != 2;
            {
                Quiet q;
                nm = known ? s->collNames[p.arg % 3] : std::string("no such collection");
            }
            bool isB = p.arg % 3 == 1;
            auto& ids = isB ? s->idsB : s->idsA;
            unsigned w = p.sub % (unsigned)ids.size();
            std::string want;
            {
                Quiet q;
                want = ids[w];
            }
            size_t size = 0, dbSize = 0;
            std::string type, name, got;
            bool has = false, dbOk = false, calledOthers = false;
            std::vector<std::string> found, sorted;
            int value = 0;
            Outcome o = sim::attempt(
                [&]
                {
                    has = db.contains(nm);
                    dbSize = db.size();
                    const Collection& c = db.at(nm);
                    size = c.size();
                    type = c.type();
                    name = c.name();
                    dbOk = &c.db() == &s->db;
                    const Document& d = c.doc(want);
                    got = d.id();
                    value = d.get<int>("value");
                    found = c.find([&](const Document& x) { return x.get<int>("value") == value; });
                    if (isB) sorted = c.as<CollB>().sortedKeys();
                    else sorted = c.as<CollA>().sortedKeys();
                },
                14
            );
            (void)calledOthers;
            expectRes("concurrent database read", o, known ? Res::Ok : Res::OutOfRange);
            if (!o.ok()) break;
            Quiet q;
            auto e = ids;
            std::sort(e.begin(), e.end());
            sim::require(
                has && dbSize == 2 && size == ids.size() && type == (isB ? "UserDocB" : "UserDocA") && name == nm && dbOk && got == want && value == (int)w && found == std::vector<std::string> {want}
                    && sorted == e,
                "wrong-value",
                "a concurrent read of the database is wrong"
            );
            break;
        }
        case 7: // wrong view of a collection
        {
            const Database& db = s->db;
            std::string nm;
            {
                Quiet q;
                nm = s->collNames[p.arg % 2];
            }
            Outcome o = sim::attempt(
                [&]
                {
                    if (p.sub % 2)
                    {
                        if (p.arg % 2) (void)db.at(nm).as<CollA>();
                        else (void)db.at(nm).as<CollB>();
                    }
                    else (void)db.at(nm).doc(nm);
                }
            );
            expectRes("concurrent wrong view", o, p.sub % 2 ? Res::BadCast : Res::OutOfRange);
            break;
        }
        case 8: // cache
        {
            const StencilDataBase& c = s->cache;
            std::string k = key(p.arg);
            bool known;
            int want = 0;
            {
                Quiet q;
                auto it = s->cacheInts.find(k);
                known = it != s->cacheInts.end();
                if (known) want = it->second;
            }
            bool has = false;
            int v = 0;
            bool dbl = p.sub % 4 == 0;
            Outcome o = sim::attempt(
                [&]
                {
                    has = c.contains(k);
                    if (dbl) (void)c.get<double>(k);
                    else if (p.sub % 4 == 1) v = std::any_cast<int>(c[k]);
                    else v = c.get<int>(k);
                }
            );
            expectRes("concurrent cache read", o, !known ? Res::OutOfRange : (dbl ? Res::BadAnyCast : Res::Ok));
            if (o.ok()) sim::require(has && v == want, "wrong-value", "a concurrent cache read is wrong");
            break;
        }
        case 9: // selection tables
        {
            std::vector<std::string> e, b;
            std::string d, sc, bd, printed;
            size_t n = 0;
            bool saw = p.arg & 1;
            std::string nm;
            {
                Quiet q;
                nm = saw ? "Saw" : "Hammer";
            }
            Outcome o = sim::attempt(
                [&]
                {
                    e = Tool::entries();
                    n = Tool::size();
                    d = Tool::doc(nm);
                    sc = Tool::schema(nm);
                    b = BaseClassDocumentation::entries("Tool");
                    bd = BaseClassDocumentation::doc("Tool", nm);
                },
                12
            );
            expectRes("concurrent table read", o, Res::Ok);
            if (!o.ok()) break;
            Quiet q;
            std::set<std::string> se(e.begin(), e.end()), sb(b.begin(), b.end()), want {"Hammer", "Saw"};
            sim::require(
                se == want && sb == want && n == 2 && d == (saw ? Saw::doc() : Hammer::doc()) && bd == d && sc == (saw ? Saw::schema() : Hammer::schema()),
                "wrong-value",
                "a concurrent read of the selection tables is wrong"
            );
            break;
        }
        case 10: // create and destroy selected objects
        {
            bool saw = p.arg & 1;
            std::string nm;
            {
                Quiet q;
                nm = p.sub % 5 == 0 ? "Wrench" : (saw ? "Saw" : "Hammer");
            }
            int r = 0;
            Outcome o = sim::attempt(
                [&]
                {
                    auto t = Tool::create(nm, (int)p.sub);
                    r = t->twice();
                },
                12
            );
            if (p.sub % 5 == 0) expectRes("concurrent creation of an unknown class", o, Res::Exited, Res::Aborted);
            else expectRes("concurrent creation", o, Res::Ok);
            if (o.ok()) sim::require(r == 2 * (int)p.sub + saw, "wrong-value", "a concurrently created object is of another class");
            break;
        }
        case 12: // tokens by index
        {
            const TokenList& t = s->tokens;
            unsigned i = p.arg % 5, as = p.sub % 4;
            bool good = true;
            Outcome o = sim::attempt(
                [&]
                {
                    good = t.size() == 3 && !t.empty();
                    if (as == 0) good = t.get<int>(i) == 7 && good;
                    else if (as == 1) good = t.get<std::string>(i) == "a token" && good;
                    else if (as == 2) good = t.get<double>(i) == 0.5 && good;
                    else
                    {
                        TokenList mine(t);
                        mine.remove(0);
                        good = mine.size() == 2 && mine.get<double>(1) == 0.5 && good;
                    }
                },
                10
            );
            expectRes("concurrent token read", o, as == 3 || i == as ? Res::Ok : i > 2 ? Res::OutOfRange : Res::BadAnyCast);
            if (o.ok()) sim::require(good, "wrong-value", "a concurrent read of a token is wrong");
            break;
        }
        case 13: // names of types
        {
            static const char* const in[] = {"i", "St6vectorIiSaIiEE", "Hammer", "not a mangled name"};
            static const char* const out[] = {"int", "std::vector<int, std::allocator<int> >", "Hammer", "not a mangled name"};
            unsigned i = p.arg % 4;
            std::string r;
            Outcome o = sim::attempt([&] { r = NeoFOAM::demangle(in[i]); }, 4);
            expectRes("concurrent demangling", o, Res::Ok);
            if (o.ok()) sim::require(!strcmp(r.c_str(), out[i]) || (o.faultFired && !strcmp(r.c_str(), in[i])), "wrong-value", "the name '%s' was demangled to '%s'", in[i], r.c_str());
            break;
        }
        case 11: // private objects
        {
            bool good = false;
            Outcome o = sim::attempt(
                [&]
                {
                    Database mine;
                    auto& c = CollA::instance(mine, "private");
                    DocA d("x", no);
                    auto id = c.insert(d);
                    good = c.doc(id).get<int>("value") == no && c.size() == 1 && mine.size() == 1;
                    StencilDataBase sdb;
                    sdb.insert("k", no);
                    good = good && sdb.get<int>("k") == no;
                    TokenList tl({std::any(no), std::any(std::string("t"))});
                    good = good && tl.get<int>(0) == no && tl.next<int>() == no;
                    tl.remove(0);
                    good = good && tl.size() == 1;
                    try
                    {
                        (void)tl.get<int>(p.sub % 2 ? 0 : 4);
                        good = false;
                    }
                    catch (const std::bad_any_cast&)
                    {
                        good = good && p.sub % 2;
                    }
                    catch (const std::out_of_range&)
                    {
                        good = good && !(p.sub % 2);
                    }
                },
                30
            );
            expectRes("thread-private use", o, Res::Ok);
            if (o.ok()) sim::require(good, "wrong-value", "thread-private objects gave wrong values");
            break;
        }
        }
    }
    void operator()()
    {
        for (auto& p : plan) one(p);
    }
};

MVal genVal(int depth)
{
    MVal v;
    static const int kinds[] = {K_INT, K_STR, K_DOUBLE, K_VEC, K_TOKENS, K_BOOL, K_CSTR, K_DICT};
    v.kind = kinds[sim::choose(sim::W, depth > 0 ? 8 : 7)];
    v.id = (int)sim::choose(sim::W, 5);
    if (v.kind == K_DICT)
    {
        v.sub = std::make_shared<MDict>();
        unsigned n = sim::choose(sim::W, 4);
        for (unsigned i = 0; i < n; i++)
        {
            auto k = keyName(sim::choose(sim::W, nKeys));
            v.sub->m[k] = genVal(depth - 1);
        }
    }
    return v;
}
}

SIM_PROPERTY(C09, "a run builds shared objects once and lets 2-4 threads read them (typed reads, failing reads, listings, "
                  "copies, documents, collections, caches, selection tables) and use private ones, with failing "
                  "allocations, under seeded preemption at every memory access with race detection; non-trivial if at "
                  "least two threads did work")
{
    sim::allowFaults(sim::flip(sim::F, 1, 3));
    Shared* s;
    std::vector<Reader> th;
    {
        Quiet q;
        s = new Shared;
        unsigned n = 1 + sim::choose(sim::W, 6);
        for (unsigned i = 0; i < n; i++)
        {
            auto k = keyName(sim::choose(sim::W, nKeys));
            s->model.m[k] = genVal(2);
        }
        s->dict = makeDict(s->model);
        for (unsigned i = 0; i < 2; i++)
        {
            s->docs.emplace_back(
                Dictionary({{"name", std::string("doc") + std::to_string(i)}, {"payload", std::any(makeDict(s->model))}}),
                i ? DocumentValidator([need = std::string("payload")](Dictionary d) { return d.contains(need); }) : DocumentValidator(hasId)
            );
            // not by id(): the threads shall be the first to ask
            s->docIds.push_back(static_cast<const Dictionary&>(s->docs.back()).get<std::string>("id"));
        }
        for (auto& a : {std::any(7), std::any(std::string("a token")), std::any(0.5)}) s->tokens.insert(a);
        s->collNames = {"first collection", "second"};
        auto& a = CollA::instance(s->db, s->collNames[0]);
        auto& b = CollB::instance(s->db, s->collNames[1]);
        unsigned na = 1 + sim::choose(sim::W, 3);
        for (unsigned i = 0; i < na; i++)
        {
            s->idsA.push_back(a.insert(DocA("a" + std::to_string(i), (int)i)));
            s->idsB.push_back(b.insert(DocB("b" + std::to_string(i), (int)i)));
        }
        unsigned nc = sim::choose(sim::W, 4);
        for (unsigned i = 0; i < nc; i++)
        {
            auto k = keyName(i * 2);
            s->cacheInts[k] = (int)i;
            s->cache.insert(k, (int)i);
        }
        unsigned nt = 2 + sim::choose(sim::W, 3);
        th.resize(nt);
        int i = 0;
        unsigned working = 0;
        for (auto& t : th)
        {
            t.s = s;
            t.no = ++i;
            while (sim::nextOp(4))
            {
                P p;
                p.kind = sim::choose(sim::W, 14);
                p.arg = sim::choose(sim::W, 12);
                p.sub = sim::choose(sim::W, 14);
                sim::log("thread %d: operation %u (%u,%u)", t.no, p.kind, p.arg, p.sub);
                if (t.plan.size() < 10) t.plan.push_back(p);
            }
            working += !t.plan.empty();
        }
        if (working >= 2) sim::nontrivial();
    }
    sim::enableYields(true);
    for (auto& t : th) sim::spawnFn(t, "reader");
    sim::raceDetect(true);
    sim::joinAll();
    sim::enableYields(false);
    Quiet q;
    auto diff = diffDict(s->dict, s->model);
    sim::require(diff.empty(), "mutated", "read-only use changed the dictionary: %s", diff.c_str());
    sim::require(s->db.size() == 2 && s->db.at(s->collNames[0]).size() == s->idsA.size() && s->db.at(s->collNames[1]).size() == s->idsB.size(), "mutated", "read-only use changed the database");
    for (auto& x : s->cacheInts) sim::require(s->cache.get<int>(x.first) == x.second, "mutated", "read-only use changed the cache");
    for (size_t i = 0; i < s->docs.size(); i++) sim::require(s->docs[i].id() == s->docIds[i], "mutated", "read-only use changed a document");
    delete s;
    th.clear();
}
