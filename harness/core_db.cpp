// C01 identities, C02 validation gate, C03 collections, C04 database.
#include "common.hpp"
#include "coll.hpp"

#include <functional>
#include <set>

using namespace NeoFOAM;
using namespace hv;

// ------------------------------------------------------------------------------------------ C01
namespace
{
struct IdPlan
{
    int kind;
    int arg;
};
struct Made
{
    std::string id;
    bool generated; // by the library, for this document
};
struct IdThread
{
    std::vector<IdPlan> plan;
    std::vector<Made> made;
    std::vector<Document> docs;
    std::vector<std::string> docId;
    Database* db;
    CollA* coll;
    const Document* shared;
    std::string sharedId;
    int no;
    unsigned rejected = 0, faulted = 0;

    void record(Document&& d, bool generated, const std::string& expectId)
    {
        Quiet q;
        std::string a = d.id();
        std::string b = static_cast<const Document&>(d).get<std::string>("id");
        sim::require(a == b, "id-unstable", "id() says '%s' but the stored id is '%s'", a.c_str(), b.c_str());
        if (!expectId.empty()) sim::require(a == expectId, "id-lost", "document has id '%s', expected '%s'", a.c_str(), expectId.c_str());
        sim::require(!a.empty(), "id-empty", "document has an empty id");
        if (generated) made.push_back({a, true});
        docs.push_back(std::move(d));
        docId.push_back(a);
    }
    void recheck()
    {
        Quiet q;
        for (size_t i = 0; i < docs.size(); i++)
            sim::require(docs[i].id() == docId[i], "id-unstable", "id changed from '%s' to '%s'", docId[i].c_str(), docs[i].id().c_str());
    }
    void operator()()
    {
        {
            Quiet q;
            docs.reserve(64);
        }
        for (auto& p : plan)
        {
            Outcome o;
            alignas(Document) unsigned char store[sizeof(Document)];
            Document* d = nullptr;
            switch (p.kind)
            {
            case 0:
                o = sim::attempt([&] { d = new (store) Document(); }, 8);
                expectRes("Document()", o, Res::Ok);
                if (o.ok()) record(std::move(*d), true, "");
                break;
            case 1:
            {
                Dictionary dict;
                {
                    Quiet q;
                    dict.insert("name", std::string("n") + std::to_string(p.arg));
                }
                o = sim::attempt([&] { d = new (store) Document(dict); }, 16);
                expectRes("Document(dict)", o, Res::Ok);
                if (o.ok()) record(std::move(*d), true, "");
                break;
            }
            case 2:
            {
                Dictionary dict;
                std::string own;
                {
                    Quiet q;
                    own = "user-supplied-" + std::to_string(no) + "-" + std::to_string(p.arg);
                    dict.insert("id", own);
                }
                o = sim::attempt([&] { d = new (store) Document(dict); }, 16);
                expectRes("Document(dict with id)", o, Res::Ok);
                if (o.ok()) record(std::move(*d), false, own);
                break;
            }
            case 3:
            {
                o = sim::attempt([&] { d = new (store) Document(Dictionary(), [](Dictionary) { return false; }); }, 16);
                expectRes("rejected document", o, Res::StdOther);
                sim::require(!o.ok(), "gate", "a rejected document was constructed");
                rejected++;
                break;
            }
            case 4:
            {
                if (docs.empty()) break;
                size_t i = (size_t)p.arg % docs.size();
                o = sim::attempt([&] { d = new (store) Document(docs[i]); }, 16);
                expectRes("copy", o, Res::Ok);
                if (o.ok()) record(std::move(*d), false, docId[i]);
                break;
            }
            case 5:
            {
                // store in a collection of this thread and read it back
                std::string nm, key;
                {
                    Quiet q;
                    nm = "f" + std::to_string(p.arg);
                }
                std::string got;
                o = sim::attempt(
                    [&]
                    {
                        DocA x(nm, p.arg);
                        got = coll->insert(x);
                        Quiet q;
                        key = x.id();
                    },
                    24
                );
                expectRes("store", o, Res::Ok);
                if (o.ok())
                {
                    Quiet q;
                    sim::require(got == key && coll->contains(key), "id-lost", "stored document is not found under its id '%s'", key.c_str());
                    sim::require(coll->doc(key).id() == key, "id-unstable", "stored document reports id '%s', expected '%s'", coll->doc(key).id().c_str(), key.c_str());
                    made.push_back({key, true});
                }
                break;
            }
            case 6:
            {
                // copy of a document shared by all threads keeps the shared id
                o = sim::attempt([&] { d = new (store) Document(*shared); }, 16);
                expectRes("copy of shared", o, Res::Ok);
                if (o.ok()) record(std::move(*d), false, sharedId);
                break;
            }
            case 7:
            {
                // a document built from another document's content keeps the supplied id
                if (docs.empty()) break;
                size_t i = (size_t)p.arg % docs.size();
                o = sim::attempt([&] { d = new (store) Document(static_cast<const Dictionary&>(docs[i]), hasId); }, 16);
                expectRes("Document(content)", o, Res::Ok);
                if (o.ok()) record(std::move(*d), false, docId[i]);
                break;
            }
            case 8:
            {
                if (docs.size() < 2) break;
                size_t i = (size_t)p.arg % docs.size(), j = (i + 1) % docs.size();
                o = sim::attempt([&] { docs[i] = docs[j]; }, 16);
                expectRes("assignment", o, Res::Ok);
                Quiet q;
                if (o.ok()) docId[i] = docId[j];
                else
                {
                    // a failed assignment may leave the target in any valid state: drop it
                    docs.erase(docs.begin() + (long)i);
                    docId.erase(docId.begin() + (long)i);
                }
                break;
            }
            }
            if (o.faultFired) faulted++;
            if (d && o.ok())
            {
                Quiet q;
                d->~Document();
            }
        }
        recheck();
    }
};
}

SIM_PROPERTY(C01, "a run creates, copies, assigns and stores documents from 1-4 threads under one interleaving; "
                  "non-trivial if at least two threads ran and a preemption happened, or a creation failed")
{
    std::set<std::string> early;
    if (sim::flip(sim::W, 1, 12))
    {
        // a long history before: no identifier of it may come back
        static const unsigned many[] = {300, 1100, 11000, 70000};
        unsigned n = many[sim::flip(sim::W, 7, 8) ? 0 : sim::flip(sim::W, 4, 5) ? 1 : sim::flip(sim::W, 3, 4) ? 2 : 3];
        sim::log("%u documents before", n);
        Quiet q;
        for (unsigned i = 0; i < n; i++)
        {
            Document d;
            auto id = d.id();
            sim::require(early.insert(id).second, "duplicate-id", "identifier '%s' was handed out again after %u documents", id.c_str(), i);
        }
        sim::probe("long-history");
    }
    unsigned nt = 1 + sim::choose(sim::W, 4);
    std::vector<IdThread> th;
    Database* db = nullptr;
    Document* shared = nullptr;
    std::vector<Database> dbs;
    {
        Quiet q;
        th.resize(nt);
        dbs.resize(nt);
        db = new Database();
        shared = new Document(Dictionary({{"name", std::string("shared document with a long name")}}));
        for (unsigned i = 0; i < nt; i++)
        {
            th[i].no = (int)i;
            th[i].db = &dbs[i];
            th[i].coll = &CollA::instance(dbs[i], "c");
            th[i].shared = shared;
            th[i].sharedId = shared->id();
        }
    }
    while (sim::nextOp(14))
    {
        unsigned t = sim::choose(sim::W, nt);
        IdPlan p {(int)sim::choose(sim::W, 9), (int)sim::choose(sim::W, 20)};
        Quiet q;
        if (th[t].plan.size() < 40) th[t].plan.push_back(p);
        sim::log("plan t%u op %d arg %d", t, p.kind, p.arg);
    }
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    sim::enableYields(nt > 1);
    for (auto& t : th) sim::spawnFn(t, "creator");
    sim::joinAll();
    sim::enableYields(false);
    sim::allowFaults(false);
    Quiet q;
    std::map<std::string, int> seen;
    seen[shared->id()] = -1;
    unsigned total = 0, active = 0;
    for (auto& t : th)
    {
        if (!t.plan.empty()) active++;
        for (auto& m : t.made)
        {
            total++;
            sim::require(!early.count(m.id), "duplicate-id", "identifier '%s' was handed out again", m.id.c_str());
            auto it = seen.find(m.id);
            if (it != seen.end()) sim::fail("duplicate-id", "identifier '%s' was given to two documents (threads %d and %d)", m.id.c_str(), it->second, t.no);
            seen[m.id] = t.no;
        }
        if (t.rejected || t.faulted) sim::nontrivial();
    }
    // later documents, created after all failures, must not collide either
    for (int i = 0; i < 3; i++)
    {
        Document d;
        sim::require(!seen.count(d.id()) && !early.count(d.id()), "duplicate-id", "identifier '%s' was handed out again", d.id().c_str());
        seen[d.id()] = 99;
    }
    if (active > 1) sim::nontrivial();
    sim::probe("documents-created", total);
}

// ------------------------------------------------------------------------------------------ C02
namespace
{
struct Spy
{
    std::vector<std::string> lastKeys;
    std::string lastId;
    unsigned calls = 0;
    int mode = 0;
    MDict seen;
    std::set<std::pair<std::string, std::vector<std::string>>> accepted;
};
Spy spies[8];

bool evalMode(int mode, const std::map<std::string, MVal>& m)
{
    switch (mode)
    {
    case 0: return m.count("id") > 0;
    case 1: return m.count("name") > 0;
    case 2: return m.size() % 2 == 0;
    case 3: return true;
    case 4: return false;
    case 5: return m.count("p") && m.at("p").kind == K_INT && m.at("p").id < 20;
    default: return true; // 6: itself builds a document that is rejected
    }
}
const char* simpleKeys[] = {"name", "p", "U", "nu", "timeIndex"};
MVal simpleVal()
{
    MVal v;
    const int kinds[] = {K_INT, K_STR, K_DOUBLE};
    v.kind = kinds[sim::choose(sim::W, 3)];
    v.id = (int)sim::choose(sim::W, 40);
    return v;
}
int validatorThrowIn = 0;

bool runValidator(int slot, int mode, Dictionary d)
{
    Spy& s = spies[slot];
    {
        Quiet q;
        s.calls++;
        s.lastKeys = d.keys();
        std::sort(s.lastKeys.begin(), s.lastKeys.end());
        s.lastId = d.contains("id") && std::any_cast<std::string>(&d["id"]) ? d.get<std::string>("id") : "<none>";
    }
    if (validatorThrowIn && --validatorThrowIn == 0)
    {
        sim::probe("fault:throwing-validator");
        throw sim::Injected {1};
    }
    bool r;
    switch (mode)
    {
    case 0: r = d.contains("id"); break;
    case 1: r = d.contains("name"); break;
    case 2:
    {
        Quiet q;
        r = d.keys().size() % 2 == 0;
        break;
    }
    case 3: r = true; break;
    case 4: r = false; break;
    case 5:
    {
        Quiet q;
        r = d.contains("p") && std::any_cast<int>(&d["p"]) && d.get<int>("p") < 20;
        break;
    }
    case 6:
        r = false;
        try
        {
            Document inner(d, [](Dictionary) { return false; });
        }
        catch (const std::runtime_error&)
        {
            r = true;
        }
        break;
    default: r = true; break;
    }
    if (r)
    {
        Quiet q;
        s.accepted.insert({s.lastId, s.lastKeys});
    }
    // the validator's copy is its own: changing it must not matter
    Quiet q;
    d.insert("scribble", 1);
    d.remove("name");
    return r;
}
struct DocSlot
{
    Document* d = nullptr;
    std::map<std::string, MVal> m; // content besides the id
    std::string id;
    int mode = 0;
    int spy = 0;
    bool hasIdKey = true;
};
std::map<std::string, MVal> full(const DocSlot& s)
{
    auto f = s.m;
    if (s.hasIdKey)
    {
        MVal v;
        v.kind = K_STR;
        f["id"] = v;
    }
    return f;
}
void checkDoc(const DocSlot& s, const char* when)
{
    Quiet q;
    auto ks = s.d->keys();
    std::set<std::string> have(ks.begin(), ks.end());
    for (auto& [k, v] : s.m)
        sim::require(have.count(k) && anyIs(static_cast<const Dictionary&>(*s.d)[k], v), "content-changed", "%s: entry '%s' is not %s", when, k.c_str(), show(v).c_str());
    sim::require(have.count("id") == s.hasIdKey, "content-changed", "%s: id entry %s", when, s.hasIdKey ? "missing" : "appeared");
    sim::require(have.size() == s.m.size() + s.hasIdKey, "content-changed", "%s: document has %zu entries, expected %zu", when, have.size(), s.m.size() + s.hasIdKey);
    if (s.hasIdKey) sim::require(s.d->id() == s.id, "content-changed", "%s: id is '%s', expected '%s'", when, s.d->id().c_str(), s.id.c_str());
}
void armValidator()
{
    callbackFaultFired = false;
    validatorThrowIn = 0;
    if (sim::faultsEnabled()) validatorThrowIn = (int)sim::chooseAs(sim::F, 2, sim::rnd(sim::F, 8) == 0);
}
void endValidator(int armed)
{
    if (armed && validatorThrowIn == 0) callbackFaultFired = true;
    validatorThrowIn = 0;
}
}

SIM_PROPERTY(C02, "a run is a history of document constructions, edits, copies and validations with validators that "
                  "accept, reject or throw; non-trivial if a validator rejected or a fault fired")
{
    DocSlot s[3];
    Inspection look;
    sim::allowFaults(sim::flip(sim::F, 2, 3));
    while (sim::nextOp(20))
    {
        unsigned i = sim::choose(sim::W, 3);
        DocSlot& ds = s[i];
        unsigned what = sim::choose(sim::W, 12);
        if (!ds.d || what < 3)
        {
            // construct
            int mode = (int)sim::choose(sim::W, 7);
            bool own = sim::flip(sim::W, 1, 3);
            bool dflt = sim::flip(sim::W, 1, 5);
            std::map<std::string, MVal> m;
            unsigned n = sim::choose(sim::W, 4);
            for (unsigned k = 0; k < n; k++) m[simpleKeys[sim::choose(sim::W, 5)]] = simpleVal();
            Dictionary dict;
            {
                Quiet q;
                for (auto& [k, v] : m) dict.insert(k, makeAny(v));
                if (own) dict.insert("id", std::string("own id"));
            }
            auto withId = m;
            {
                MVal v;
                v.kind = K_STR;
                withId["id"] = v;
            }
            bool accept = evalMode(dflt ? 0 : mode, withId);
            spies[i] = Spy();
            sim::log("construct %u mode %d default=%d own=%d n=%zu -> %s", i, mode, dflt, own, m.size(), accept ? "accept" : "reject");
            Document* nd = nullptr;
            armValidator();
            int armed = validatorThrowIn;
            int slot = (int)i;
            Outcome o = sim::attempt(
                [&]
                {
                    if (dflt) nd = new Document(dict);
                    else nd = new Document(dict, [slot, mode](Dictionary d) { return runValidator(slot, mode, d); });
                },
                24
            );
            endValidator(armed);
            expectRes("document construction", o, accept ? Res::Ok : Res::StdOther);
            if (!accept) sim::nontrivial();
            if (o.faultFired || callbackFaultFired) sim::nontrivial();
            if (o.ok())
            {
                Quiet q;
                delete ds.d;
                ds.d = nd;
                ds.m = m;
                ds.mode = dflt ? 0 : mode;
                ds.spy = (int)i;
                ds.hasIdKey = true;
                ds.id = nd->id();
                if (own) sim::require(ds.id == "own id", "content-changed", "supplied id was replaced by '%s'", ds.id.c_str());
                if (!dflt)
                {
                    sim::require(spies[i].calls > 0, "gate", "the validator was not consulted");
                    std::vector<std::string> want;
                    for (auto& [k, v] : withId) want.push_back(k);
                    sim::require(spies[i].accepted.count({ds.id, want}), "gate", "the validator never accepted the content the document has");
                }
            }
        }
        else if (what < 6)
        {
            // validate the current content
            bool accept = evalMode(ds.mode, full(ds));
            sim::log("validate %u mode %d -> %s", i, ds.mode, accept ? "accept" : "reject");
            bool r = false;
            armValidator();
            int armed = validatorThrowIn;
            Outcome o = sim::attempt([&] { r = static_cast<const Document*>(ds.d)->validate(); }, 20);
            endValidator(armed);
            if (!accept || o.faultFired || callbackFaultFired) sim::nontrivial();
            expectRes("validate", o, accept ? Res::Ok : Res::StdOther);
            if (o.ok()) sim::require(r, "gate", "validate() returned false instead of reporting success");
            checkDoc(ds, "after validate");
        }
        else if (what < 8)
        {
            // edit
            unsigned how = sim::choose(sim::W, 4);
            std::string k = simpleKeys[sim::choose(sim::W, 5)];
            Quiet q;
            if (how == 0)
            {
                ds.d->remove(k);
                ds.m.erase(k);
            }
            else if (how == 1)
            {
                bool rem = ds.hasIdKey;
                if (rem) ds.d->remove("id");
                else ds.d->insert("id", ds.id);
                ds.hasIdKey = !rem;
                k = "id";
            }
            else
            {
                MVal v = simpleVal();
                ds.d->insert(k, makeAny(v));
                ds.m[k] = v;
            }
            sim::log("edit %u '%s' how %u", i, k.c_str(), how);
        }
        else if (what >= 10)
        {
            // assignment and moves: content and validator go together
            unsigned j = sim::choose(sim::W, 3);
            bool mv = sim::flip(sim::W, 1, 2), assign = s[j].d && sim::flip(sim::W, 2, 3);
            if (j == i && (mv || !assign)) continue;
            sim::log("%s %s %u -> %u", mv ? "move" : "copy", assign ? "assignment" : "construction", i, j);
            Document* nd = assign ? s[j].d : nullptr;
            Outcome o = sim::attempt(
                [&]
                {
                    if (assign && mv) *nd = std::move(*ds.d);
                    else if (assign) *nd = *ds.d;
                    else if (mv) nd = new Document(std::move(*ds.d));
                    else nd = new Document(*ds.d);
                },
                20
            );
            expectRes("assignment or move", o, Res::Ok);
            Quiet q;
            if (o.ok())
            {
                if (!assign) delete s[j].d;
                s[j] = ds;
                s[j].d = nd;
            }
            else if (assign)
            {
                // basic guarantee only: the target is given up
                delete s[j].d;
                s[j] = DocSlot();
            }
            if (mv)
            {
                // so is the source of a move
                delete ds.d;
                ds = DocSlot();
            }
        }
        else
        {
            // copy to another slot: same content, same validator
            unsigned j = sim::choose(sim::W, 3);
            if (j == i) continue;
            sim::log("copy %u -> %u", i, j);
            Document* nd = nullptr;
            Outcome o = sim::attempt([&] { nd = new Document(*ds.d); }, 20);
            expectRes("copy", o, Res::Ok);
            if (o.ok())
            {
                Quiet q;
                delete s[j].d;
                s[j] = ds;
                s[j].d = nd;
            }
        }
        if (look.due())
            for (auto& x : s)
                if (x.d) checkDoc(x, "afterwards");
    }
    for (auto& x : s)
        if (x.d) checkDoc(x, "at the end");
}

// ------------------------------------------------------------------------------------------ C03
namespace
{
struct PredFault
{
    int throwIn = 0;
};
PredFault pf;
template<class C, class D>
struct CollWorld
{
    Database* db;
    Collection* col;
    C* raw;
    std::map<std::string, std::pair<std::string, int>> m; // id -> name, value
    std::map<std::string, const Document*> addr;
    std::vector<std::string> erased;
    const char* typeName;
    std::string name;

    void fill(unsigned n)
    {
        Quiet q;
        for (unsigned i = 0; i < n; i++)
        {
            std::string nm = keyName((i % 4) * 3);
            m[raw->insert(D(nm, (int)(i % 6)))] = {nm, (int)(i % 6)};
        }
    }
    void check(const char* after)
    {
        Quiet q;
        C& c = col->template as<C>();
        const Collection& cc = *col;
        sim::require(&c == raw, "identity", "%s: the handle wraps another object", after);
        sim::require(c.size() == m.size() && cc.size() == m.size(), "wrong-value", "%s: size is %zu / %zu, expected %zu", after, c.size(), cc.size(), m.size());
        auto sk = c.sortedKeys();
        size_t i = 0;
        sim::require(sk.size() == m.size(), "wrong-value", "%s: sorted listing has %zu keys, expected %zu", after, sk.size(), m.size());
        for (auto& [id, nv] : m)
        {
            sim::require(sk[i++] == id, "wrong-value", "%s: sorted listing is not the sorted set of ids", after);
            const Document& a = cc.doc(id);
            const Document& b = static_cast<const C&>(c).doc(id);
            sim::require(&a == &b, "identity", "%s: handle and collection return different objects for '%s'", after, id.c_str());
            sim::require(a.id() == id && a.template get<std::string>("name") == nv.first && a.template get<int>("value") == nv.second, "wrong-value", "%s: document '%s' has other content", after, id.c_str());
            if (addr.count(id)) sim::require(addr[id] == &a, "moved", "%s: document '%s' moved", after, id.c_str());
            addr[id] = &a;
        }
        sim::require(cc.name() == name && c.name() == name, "wrong-value", "%s: name is '%s'", after, cc.name().c_str());
        sim::require(cc.type() == typeName, "wrong-value", "%s: type is '%s'", after, cc.type().c_str());
        sim::require(&cc.db() == db && &c.db() == db, "identity", "%s: wrong database", after);
    }
    std::string pick()
    {
        if (m.empty() || sim::flip(sim::W, 1, 6))
        {
            if (erased.empty() || sim::flip(sim::W, 1, 3)) return "no such document";
            return erased[sim::choose(sim::W, (uint32_t)erased.size())];
        }
        auto it = m.begin();
        std::advance(it, sim::choose(sim::W, (uint32_t)m.size()));
        return it->first;
    }
    void op()
    {
        unsigned what = sim::choose(sim::W, 16);
        if (what < 6)
        {
            unsigned nm = sim::choose(sim::W, 4);
            int val = (int)sim::choose(sim::W, 6);
            bool own = sim::flip(sim::W, 1, 5);
            std::string name, ownId;
            {
                Quiet q;
                name = keyName(nm * 3);
                ownId = "own-" + std::to_string(sim::choose(sim::W, 3) * 5); // own-0 own-5 own-10
            }
            std::string id;
            Outcome o = sim::attempt(
                [&]
                {
                    if (own)
                    {
                        D d(Document(Dictionary({{"id", ownId}, {"name", name}, {"value", val}}), D::accept));
                        id = raw->insert(d);
                    }
                    else
                    {
                        D d(name, val);
                        id = raw->insert(d);
                    }
                },
                30
            );
            sim::log("insert '%s' %d own=%d -> %s '%s'", name.c_str(), val, own, sim::resName(o.res), own || !o.ok() ? "" : "generated");
            expectRes("insert", o, Res::Ok);
            if (o.faultFired) sim::nontrivial();
            if (o.ok() && !id.empty()) m[id] = {name, val};
            if (o.ok() && id.empty()) sim::require(own && m.count(ownId), "wrong-value", "insert of a new document was refused");
        }
        else if (what < 7)
        {
            std::string id = pick();
            bool r = false;
            Outcome o = sim::attempt([&] { r = raw->erase(id); });
            expectRes("erase", o, Res::Ok);
            if (o.ok())
            {
                sim::require(r == (m.count(id) > 0), "wrong-value", "erase reported %d", r);
                if (r) { Quiet q; erased.push_back(id); }
                m.erase(id);
                addr.erase(id);
            }
            sim::log("erase -> %d", r);
        }
        else if (what < 9)
        {
            std::string id = pick();
            bool viaHandle = sim::flip(sim::W, 1, 2), c = sim::flip(sim::W, 1, 2);
            const Document* p = nullptr;
            Outcome o = sim::attempt(
                [&]
                {
                    if (viaHandle) p = c ? &static_cast<const Collection*>(col)->doc(id) : &col->doc(id);
                    else p = c ? &static_cast<const C*>(raw)->doc(id) : &raw->doc(id);
                }
            );
            sim::log("doc handle=%d const=%d -> %s", viaHandle, c, sim::resName(o.res));
            expectRes("lookup", o, m.count(id) ? Res::Ok : Res::OutOfRange);
            if (o.ok() && !addr.count(id)) addr[id] = p;
            if (o.ok()) sim::require(addr[id] == p, "identity", "lookup of '%s' returned another document", id.c_str());
        }
        else if (what < 13)
        {
            // query
            unsigned kind = sim::choose(sim::W, 7);
            int val = (int)sim::choose(sim::W, 6);
            std::string nm;
            {
                Quiet q;
                nm = keyName(sim::choose(sim::W, 4) * 3);
            }
            bool viaHandle = sim::flip(sim::W, 1, 2);
            std::set<const Document*> visited;
            callbackFaultFired = false;
            pf.throwIn = 0;
            if (sim::faultsEnabled()) pf.throwIn = (int)sim::chooseAs(sim::F, 5, sim::rnd(sim::F, 6) == 0 ? 1 + sim::rnd(sim::F, 4) : 0);
            int armed = pf.throwIn;
            auto match = [&](const std::string& n, int v) { return kind == 0 ? true : kind == 1 ? v == val : kind == 2 ? n == nm : kind == 3 ? (n == nm && v > val) : false; };
            std::function<bool(const Document&)> pred;
            {
                Quiet q;
                pred = [&](const Document& d)
                {
                    if (pf.throwIn && --pf.throwIn == 0)
                    {
                        callbackFaultFired = true;
                        sim::probe("fault:throwing-predicate");
                        throw sim::Injected {2};
                    }
                    Quiet q2;
                    visited.insert(&d);
                    if (kind >= 5)
                    {
                        // a predicate that itself uses the database
                        std::vector<std::string> inner;
                        {
                            sim::quietDec();
                            struct Re { ~Re() { sim::quietInc(); } } re;
                            int v = d.get<int>("value");
                            std::function<bool(const Document&)> ip;
                            { Quiet q3; ip = [v](const Document& x) { return x.get<int>("value") == v; }; }
                            inner = viaHandle ? static_cast<const C*>(raw)->find(ip) : static_cast<const Collection*>(col)->find(ip);
                            if (kind == 6 && !inner.empty()) (void)static_cast<const Collection*>(col)->doc(inner[0]).id();
                        }
                        return inner.size() >= 2;
                    }
                    return match(d.get<std::string>("name"), d.get<int>("value"));
                };
            }
            std::vector<std::string> r;
            Outcome o = sim::attempt([&] { r = viaHandle ? static_cast<const Collection*>(col)->find(pred) : static_cast<const C*>(raw)->find(pred); }, 10);
            (void)armed;
            pf.throwIn = 0;
            sim::log("find kind %u handle=%d -> %s %zu", kind, viaHandle, sim::resName(o.res), r.size());
            expectRes("query", o, Res::Ok);
            if (o.faultFired || callbackFaultFired) sim::nontrivial();
            Quiet q;
            std::set<const Document*> stored;
            for (auto& [id, nv] : m)
                if (!addr.count(id)) addr[id] = &static_cast<const C*>(raw)->doc(id);
            for (auto& [id, a] : addr)
                if (m.count(id)) stored.insert(a);
            for (auto* v : visited) sim::require(stored.count(v), "query", "the predicate was called on a document that is not stored");
            if (o.ok())
            {
                std::set<std::string> want, got(r.begin(), r.end());
                std::map<int, int> sameValue;
                for (auto& [id, nv] : m) sameValue[nv.second]++;
                for (auto& [id, nv] : m)
                    if (kind >= 5 ? sameValue[nv.second] >= 2 : match(nv.first, nv.second)) want.insert(id);
                sim::require(got.size() == r.size(), "query", "a query lists a document twice");
                sim::require(got == want, "query", "a query returned %zu documents, expected %zu", got.size(), want.size());
            }
        }
        else if (what < 14)
        {
            // wrong downcast
            Outcome o = sim::attempt(
                [&]
                {
                    using Other = std::conditional_t<std::is_same_v<C, CollA>, CollB, CollA>;
                    if (sim::flip(sim::W, 1, 2)) (void)col->template as<Other>();
                    else (void)static_cast<const Collection*>(col)->template as<Other>();
                }
            );
            sim::log("as<wrong> -> %s", sim::resName(o.res));
            expectRes("wrong downcast", o, Res::BadCast);
        }
        else if (what < 15)
        {
            // edit through the reference
            std::string id = pick();
            if (!m.count(id)) return;
            int val = (int)sim::choose(sim::W, 6);
            bool viaHandle = sim::flip(sim::W, 1, 2);
            Outcome o = sim::attempt([&] { (viaHandle ? col->doc(id) : raw->doc(id)).template get<int>("value") = val; });
            sim::log("edit value %d -> %s", val, sim::resName(o.res));
            expectRes("edit", o, Res::Ok);
            if (o.ok()) m[id].second = val;
        }
        else
        {
            // move the handle: the wrapped object stays
            sim::log("move handle");
            Quiet q;
            Collection tmp(std::move(*col));
            *col = std::move(tmp);
        }
    }
};
}

SIM_PROPERTY(C03, "a run is a history of insertions, removals, edits, lookups and queries on two collections of "
                  "different type; non-trivial if it stored at least two documents or a fault fired")
{
    Database* db;
    CollWorld<CollA, DocA> a;
    CollWorld<CollB, DocB> b;
    CollWorld<CollA, DocA> c; // the same name and type in another database
    {
        Quiet q;
        db = new Database();
        a.db = b.db = db;
        a.name = "alpha";
        b.name = "a collection with a long name";
        a.col = new Collection(CollA(*db, a.name));
        b.col = new Collection(CollB(*db, b.name));
        a.raw = &a.col->as<CollA>();
        b.raw = &b.col->as<CollB>();
        c.db = new Database();
        c.name = a.name;
        c.col = new Collection(CollA(*c.db, c.name));
        c.raw = &c.col->as<CollA>();
        c.typeName = "UserDocA";
        a.typeName = "UserDocA";
        b.typeName = "UserDocB";
    }
    Inspection look;
    if (sim::flip(sim::W, 1, 12))
    {
        static const unsigned upto[] = {20, 50, 80, 300};
        a.fill(10 + sim::choose(sim::W, upto[sim::choose(sim::W, 4)]));
        a.check("collection A");
    }
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    while (sim::nextOp(30))
    {
        if (sim::flip(sim::W, 1, 3)) b.op();
        else if (sim::flip(sim::W, 1, 3)) c.op();
        else a.op();
        if (look.due())
        {
            a.check("collection A");
            b.check("collection B");
            c.check("the collection of the other database");
        }
        if (a.m.size() + b.m.size() + c.m.size() >= 2) sim::nontrivial();
    }
    a.check("collection A at the end");
    b.check("collection B at the end");
    c.check("the collection of the other database at the end");
    Quiet q;
    delete a.col;
    delete b.col;
    delete c.col;
    delete c.db;
    delete db;
}

// ------------------------------------------------------------------------------------------ C04
SIM_PROPERTY(C04, "a run is a history of insertions, re-insertions, removals and lookups of collections; "
                  "non-trivial if a taken name was inserted again, a removal succeeded or a fault fired")
{
    struct Entry
    {
        Collection* at;
        bool isB;
        std::set<std::string> ids;
        std::string ownName;
    };
    Database* db;
    {
        Quiet q;
        db = new Database();
    }
    const Database& cdb = *db;
    std::map<std::string, Entry> m;
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    auto key = [] { return anyKey(6, "collection number "); };
    int serial = 0;
    Inspection look;
    if (sim::flip(sim::W, 1, 12))
    {
        static const unsigned upto[] = {20, 50, 80, 300};
        unsigned n = 10 + sim::choose(sim::W, upto[sim::choose(sim::W, 4)]);
        Quiet q;
        for (unsigned i = 0; i < n; i++)
        {
            std::string k = "field collection " + std::to_string(i), own = "c" + std::to_string(serial++);
            CollA c(*db, own);
            std::set<std::string> ids;
            if (i % 3 == 0) ids.insert(c.insert(DocA("n", (int)i)));
            m[k] = Entry {&db->insert(k, Collection(std::move(c))), false, ids, own};
        }
    }
    auto checkAll = [&](const char* after)
    {
        Quiet q;
        sim::require(cdb.size() == m.size(), "wrong-value", "%s: size is %zu, expected %zu", after, cdb.size(), m.size());
        for (auto& [k, e] : m)
        {
            sim::require(cdb.contains(k), "wrong-value", "%s: '%s' is no longer registered", after, k.c_str());
            const Collection& c = cdb.at(k);
            sim::require(&c == e.at, "moved", "%s: collection '%s' moved", after, k.c_str());
            sim::require(c.size() == e.ids.size() && c.name() == e.ownName, "content-changed", "%s: collection '%s' changed content", after, k.c_str());
            for (auto& id : e.ids) sim::require(c.doc(id).id() == id, "content-changed", "%s: document lost from '%s'", after, k.c_str());
            sim::require(c.type() == (e.isB ? "UserDocB" : "UserDocA"), "content-changed", "%s: collection '%s' changed type", after, k.c_str());
        }
    };
    while (sim::nextOp(26))
    {
        std::string k = key();
        unsigned what = sim::choose(sim::W, 12);
        bool has = m.count(k);
        if (what < 5)
        {
            bool isB = sim::flip(sim::W, 1, 3);
            unsigned docs = sim::choose(sim::W, 3);
            std::string own;
            std::set<std::string> ids;
            Collection* col = nullptr;
            {
                Quiet q;
                own = "c" + std::to_string(serial++);
                if (isB)
                {
                    CollB c(*db, own);
                    for (unsigned i = 0; i < docs; i++) ids.insert(c.insert(DocB("n", (int)i)));
                    col = new Collection(std::move(c));
                }
                else
                {
                    CollA c(*db, own);
                    for (unsigned i = 0; i < docs; i++) ids.insert(c.insert(DocA("n", (int)i)));
                    col = new Collection(std::move(c));
                }
            }
            Collection* r = nullptr;
            Outcome o = sim::attempt([&] { r = &db->insert(k, std::move(*col)); }, 8);
            sim::log("insert '%s' %s docs %u has=%d -> %s", k.c_str(), isB ? "B" : "A", docs, has, sim::resName(o.res));
            expectRes("insert", o, Res::Ok);
            if (o.faultFired || has) sim::nontrivial();
            if (o.ok())
            {
                if (!has) m[k] = Entry {r, isB, ids, own};
                else sim::require(r == m[k].at, "identity", "inserting under the taken name '%s' returned another collection", k.c_str());
            }
            Quiet q;
            delete col;
        }
        else if (what < 7)
        {
            bool r = false;
            Outcome o = sim::attempt([&] { r = db->remove(k); });
            sim::log("remove '%s' -> %s %d", k.c_str(), sim::resName(o.res), r);
            expectRes("remove", o, Res::Ok);
            if (o.ok())
            {
                sim::require(r == has, "wrong-value", "remove('%s') reported %d", k.c_str(), r);
                m.erase(k);
                if (has) sim::nontrivial();
            }
        }
        else if (what < 9)
        {
            bool c = sim::flip(sim::W, 1, 2);
            const Collection* r = nullptr;
            Outcome o = sim::attempt([&] { r = c ? &cdb.at(k) : &db->at(k); });
            sim::log("at '%s' -> %s", k.c_str(), sim::resName(o.res));
            expectRes("lookup", o, has ? Res::Ok : Res::OutOfRange);
            if (o.ok()) sim::require(r == m[k].at, "identity", "lookup of '%s' returned another collection", k.c_str());
        }
        else if (what < 10)
        {
            bool asB = sim::flip(sim::W, 1, 2);
            const void* r = nullptr;
            Outcome o = sim::attempt(
                [&]
                {
                    if (asB) r = &db->at<CollB>(k);
                    else r = &db->at<CollA>(k);
                }
            );
            sim::log("at<%s> '%s' -> %s", asB ? "B" : "A", k.c_str(), sim::resName(o.res));
            expectRes("typed lookup", o, !has ? Res::OutOfRange : asB == m[k].isB ? Res::Ok : Res::BadCast);
            if (o.ok())
            {
                Quiet q;
                const void* want = asB ? (const void*)&m[k].at->as<CollB>() : (const void*)&m[k].at->as<CollA>();
                sim::require(r == want, "identity", "typed lookup of '%s' returned another collection", k.c_str());
            }
        }
        else if (what < 11)
        {
            bool c = false;
            size_t n = 0;
            Outcome o = sim::attempt(
                [&]
                {
                    c = cdb.contains(k);
                    n = cdb.size();
                }
            );
            expectRes("query", o, Res::Ok);
            if (o.ok()) sim::require(c == has && n == m.size(), "wrong-value", "contains/size wrong for '%s'", k.c_str());
        }
        else if (has)
        {
            // grow a stored collection through the database
            Outcome o;
            std::string id;
            bool isB = m[k].isB;
            o = sim::attempt(
                [&]
                {
                    if (isB) id = db->at<CollB>(k).insert(DocB("grown", 1));
                    else id = db->at<CollA>(k).insert(DocA("grown", 1));
                },
                24
            );
            sim::log("grow '%s' -> %s", k.c_str(), sim::resName(o.res));
            expectRes("grow", o, Res::Ok);
            if (o.ok()) m[k].ids.insert(id);
        }
        if (look.due()) checkAll("afterwards");
    }
    checkAll("at the end");
    Quiet q;
    delete db;
}
