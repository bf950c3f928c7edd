// C05 dictionary, C06 token list, C08 stencil cache: model-checked histories with faults inside
// operations.
#include "common.hpp"
#include "NeoFOAM/core/input.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"

#include <functional>
#include <set>

using namespace NeoFOAM;
using namespace hv;

namespace
{
MVal randVal(int depth)
{
    MVal v;
    v.kind = (int)sim::choose(sim::W, depth > 0 ? K_N : K_DICT);
    if (v.kind == K_FLOAT && sim::flip(sim::W, 1, 2)) v.kind = K_EMPTY;
    v.id = (int)sim::choose(sim::W, 50);
    if (v.kind == K_BOOL) v.id &= 1;
    if (v.kind == K_CSTR) v.id &= 3;
    if (v.kind == K_DICT)
    {
        v.id = 0;
        v.sub = std::make_shared<MDict>();
        unsigned n = sim::choose(sim::W, 3);
        for (unsigned i = 0; i < n; i++) v.sub->m[keyName(sim::choose(sim::W, nKeys))] = randVal(depth - 1);
    }
    return v;
}
std::string randKey()
{
    return anyKey(8, "k");
}
std::string pickKey(const MDict& m)
{
    // mostly a present key
    if (!m.m.empty() && sim::flip(sim::W, 3, 4))
    {
        auto it = m.m.begin();
        std::advance(it, sim::choose(sim::W, (uint32_t)m.m.size()));
        return it->first;
    }
    return randKey();
}
void armCopyThrow()
{
    Tracked::throwIn = 0;
    callbackFaultFired = false;
    if (!sim::faultsEnabled()) return;
    uint32_t v = sim::chooseAs(sim::F, 4, sim::rnd(sim::F, 8) == 0 ? 1 + sim::rnd(sim::F, 3) : 0);
    Tracked::throwIn = (int)v;
}
void endCopyThrow(int armed)
{
    if (armed && Tracked::throwIn == 0) callbackFaultFired = true;
    Tracked::throwIn = 0;
}
template<class Fn>
Outcome op(Fn&& fn, uint32_t span = 14)
{
    armCopyThrow();
    int armed = Tracked::throwIn;
    Outcome o = sim::attempt(std::forward<Fn>(fn), span);
    endCopyThrow(armed);
    if (o.faultFired || callbackFaultFired) sim::nontrivial();
    return o;
}

template<class T>
Outcome getRight(Dictionary& d, const std::string& k, const MVal& v, bool c, bool& right)
{
    right = false;
    return op(
        [&]
        {
            if (c)
            {
                const T& r = static_cast<const Dictionary&>(d).get<T>(k);
                Quiet q;
                right = &r == std::any_cast<T>(&static_cast<const Dictionary&>(d).getMap().at(k)) && anyIs(std::any(r), v);
            }
            else
            {
                T& r = d.get<T>(k);
                Quiet q;
                right = &r == std::any_cast<T>(&d.getMap().at(k)) && anyIs(std::any(r), v);
            }
        }
    );
}
Outcome getByKind(Dictionary& d, const std::string& k, const MVal& v, bool c, bool& right)
{
    switch (v.kind)
    {
    case K_INT: return getRight<int>(d, k, v, c, right);
    case K_DOUBLE: return getRight<double>(d, k, v, c, right);
    case K_BOOL: return getRight<bool>(d, k, v, c, right);
    case K_STR: return getRight<std::string>(d, k, v, c, right);
    case K_LABEL: return getRight<size_t>(d, k, v, c, right);
    case K_VEC: return getRight<std::vector<int>>(d, k, v, c, right);
    case K_FLOAT: return getRight<float>(d, k, v, c, right);
    case K_BIG: return getRight<Big>(d, k, v, c, right);
    case K_TRACKED: return getRight<Tracked>(d, k, v, c, right);
    case K_CSTR: return getRight<const char*>(d, k, v, c, right);
    case K_TOKENS: return getRight<TokenList>(d, k, v, c, right);
    default: return getRight<Dictionary>(d, k, v, c, right);
    }
}

/// sometimes a container starts with many entries
unsigned crowd()
{
    if (!sim::flip(sim::W, 1, 12)) return 0;
    static const unsigned upto[] = {20, 50, 80, 300};
    return 10 + sim::choose(sim::W, upto[sim::choose(sim::W, 4)]);
}

constexpr int ND = 3;
struct DictWorld
{
    Dictionary* d[ND];
    MDict m[ND];
    void checkAll(const char* after)
    {
        Quiet q;
        for (int i = 0; i < ND; i++)
        {
            auto s = diffDict(*d[i], m[i]);
            if (!s.empty()) sim::fail("model-mismatch", "after %s: dictionary %d: %s", after, i, s.c_str());
        }
    }
};

void dictOps(DictWorld& w, bool faults)
{
    if (unsigned n = crowd())
    {
        Quiet q;
        for (unsigned i = 0; i < n; i++)
        {
            MVal v;
            v.kind = i % 5 ? K_INT : K_STR;
            v.id = (int)i;
            w.d[0]->insert("entry " + std::to_string(i), makeAny(v));
            w.m[0].m["entry " + std::to_string(i)] = v;
        }
        w.checkAll("filling");
    }
    sim::allowFaults(faults);
    Inspection look;
    unsigned nops = 0;
    while (sim::nextOp(24))
    {
        nops++;
        unsigned which = sim::choose(sim::W, ND);
        Dictionary& d = *w.d[which];
        MDict& m = w.m[which];
        unsigned what = sim::choose(sim::W, 21);
        switch (what)
        {
        case 0:
        case 1:
        case 2:
        {
            std::string k = sim::flip(sim::W, 1, 2) ? randKey() : pickKey(m);
            MVal v = randVal(2);
            std::any a;
            {
                Quiet q;
                a = makeAny(v);
            }
            sim::log("insert d%u '%s' %s", which, k.c_str(), show(v).c_str());
            MVal old;
            bool had = m.m.count(k);
            if (had) old = m.m[k];
            Outcome o = op([&] { d.insert(k, a); });
            expectRes("insert", o, Res::Ok);
            if (o.ok()) m.m[k] = cloneVal(v);
            else
            {
                // the key may hold the old value, the new value, or be absent if it was absent
                Quiet q;
                bool has = d.contains(k);
                if (has && anyIs(static_cast<const Dictionary&>(d)[k], v)) m.m[k] = cloneVal(v);
                else if (had)
                    sim::require(has && anyIs(static_cast<const Dictionary&>(d)[k], old), "model-mismatch", "failed insert of '%s' lost the old value", k.c_str());
                else
                    sim::require(!has, "placeholder", "failed insert left key '%s' behind with a value that was never stored", k.c_str());
            }
            break;
        }
        case 3:
        case 4:
        case 5:
        {
            std::string k = pickKey(m);
            bool c = sim::flip(sim::W, 1, 2);
            bool right = false;
            if (m.m.count(k))
            {
                sim::log("get d%u '%s' const=%d", which, k.c_str(), c);
                Outcome o = getByKind(d, k, m.m[k], c, right);
                expectRes("typed read", o, m.m[k].kind == K_EMPTY ? Res::BadAnyCast : Res::Ok);
                if (o.ok()) sim::require(right, "wrong-value", "typed read of '%s' is not the stored %s", k.c_str(), show(m.m[k]).c_str());
            }
            else
            {
                sim::log("get-missing d%u '%s' const=%d", which, k.c_str(), c);
                MVal any;
                any.kind = (int)sim::choose(sim::W, K_DICT);
                Outcome o = getByKind(d, k, any, c, right);
                expectRes("read of a missing key", o, Res::OutOfRange);
            }
            break;
        }
        case 6:
        case 7:
        {
            std::string k = pickKey(m);
            bool right = false;
            MVal wrong;
            wrong.kind = (int)sim::choose(sim::W, K_DICT);
            if (m.m.count(k) && m.m[k].kind == wrong.kind) wrong.kind = K_DICT;
            bool c = sim::flip(sim::W, 1, 2);
            bool present = m.m.count(k) && m.m[k].kind != wrong.kind;
            if (wrong.kind == K_DICT) wrong.sub = std::make_shared<MDict>();
            if (m.m.count(k) && !present) break;
            sim::log("get-wrong d%u '%s' as kind %d", which, k.c_str(), wrong.kind);
            Outcome o = getByKind(d, k, wrong, c, right);
            expectRes("read with a wrong type", o, present ? Res::BadAnyCast : Res::OutOfRange);
            break;
        }
        case 8:
        {
            std::string k = pickKey(m);
            sim::log("remove d%u '%s'", which, k.c_str());
            Outcome o = op([&] { d.remove(k); });
            expectRes("remove", o, Res::Ok);
            if (o.ok()) m.m.erase(k);
            break;
        }
        case 9:
        {
            std::string k = pickKey(m);
            bool c = false, isd = false, e = false;
            std::vector<std::string> ks;
            sim::log("query d%u '%s'", which, k.c_str());
            Outcome o = op(
                [&]
                {
                    c = d.contains(k);
                    isd = d.isDict(k);
                    e = d.empty();
                    ks = d.keys();
                }
            );
            expectRes("query", o, Res::Ok);
            if (o.ok())
            {
                Quiet q;
                sim::require(c == (m.m.count(k) > 0), "wrong-value", "contains('%s') wrong", k.c_str());
                sim::require(isd == (m.m.count(k) && m.m[k].kind == K_DICT), "wrong-value", "isDict('%s') wrong", k.c_str());
                sim::require(e == m.m.empty(), "wrong-value", "empty() wrong");
                std::set<std::string> s(ks.begin(), ks.end());
                sim::require(s.size() == ks.size() && s.size() == m.m.size(), "wrong-value", "keys() returns %zu keys, expected %zu", ks.size(), m.m.size());
            }
            break;
        }
        case 10:
        {
            // copy construction, then divergence
            unsigned to = sim::choose(sim::W, ND);
            if (to == which) to = (to + 1) % ND;
            sim::log("copy d%u -> d%u", which, to);
            Dictionary* nd = nullptr;
            Outcome o = op([&] { nd = new Dictionary(d); }, 30);
            expectRes("copy", o, Res::Ok);
            if (o.ok())
            {
                delete w.d[to];
                w.d[to] = nd;
                Quiet q;
                w.m[to] = cloneDict(m);
            }
            break;
        }
        case 11:
        {
            unsigned to = sim::choose(sim::W, ND);
            sim::log("assign d%u -> d%u", which, to);
            Outcome o = op([&] { *w.d[to] = d; }, 30);
            expectRes("assign", o, Res::Ok);
            if (o.ok())
            {
                Quiet q;
                if (to != which) w.m[to] = cloneDict(m);
            }
            else
            {
                // basic guarantee only: replace the target
                Quiet q;
                delete w.d[to];
                w.d[to] = new Dictionary();
                w.m[to].m.clear();
            }
            break;
        }
        case 12:
        {
            // nested edit through the reference
            std::string k = pickKey(m);
            bool c = sim::flip(sim::W, 1, 3);
            bool isd = m.m.count(k) && m.m[k].kind == K_DICT;
            std::string k2 = randKey();
            MVal v = randVal(1);
            std::any a;
            {
                Quiet q;
                a = makeAny(v);
            }
            sim::log("subDict d%u '%s' insert '%s' %s const=%d", which, k.c_str(), k2.c_str(), show(v).c_str(), c);
            Outcome o = op(
                [&]
                {
                    if (c)
                    {
                        const Dictionary& s = static_cast<const Dictionary&>(d).subDict(k);
                        (void)s.contains(k2);
                    }
                    else
                    {
                        Dictionary& s = d.subDict(k);
                        s.insert(k2, a);
                    }
                }
            );
            expectRes("sub-dictionary access", o, isd ? Res::Ok : m.m.count(k) ? Res::BadAnyCast : Res::OutOfRange);
            if (o.ok() && !c) m.m[k].sub->m[k2] = cloneVal(v);
            else if (isd && !c && failed(o))
            {
                Quiet q;
                auto& sm = m.m[k].sub->m;
                const Dictionary& s = static_cast<const Dictionary&>(d).subDict(k);
                if (s.contains(k2) && anyIs(s[k2], v)) sm[k2] = cloneVal(v);
            }
            break;
        }
        case 13:
        {
            // write through the typed reference
            std::string k = pickKey(m);
            if (!m.m.count(k) || (m.m[k].kind != K_INT && m.m[k].kind != K_STR)) break;
            int id = (int)sim::choose(sim::W, 50);
            sim::log("write-through d%u '%s' := %d", which, k.c_str(), id);
            MVal nv = m.m[k];
            nv.id = id;
            std::any a;
            {
                Quiet q;
                a = makeAny(nv);
            }
            Outcome o = op(
                [&]
                {
                    if (nv.kind == K_INT) d.get<int>(k) = id;
                    else
                    {
                        std::string& s = d.get<std::string>(k);
                        Quiet q;
                        s = std::any_cast<std::string>(a);
                    }
                }
            );
            expectRes("write through reference", o, Res::Ok);
            if (o.ok()) m.m[k] = nv;
            break;
        }
        case 14:
        {
            // assignment through the untyped reference
            std::string k = pickKey(m);
            MVal v = randVal(1);
            std::any a;
            {
                Quiet q;
                a = makeAny(v);
            }
            sim::log("operator[] d%u '%s' = %s", which, k.c_str(), show(v).c_str());
            MVal old = m.m.count(k) ? m.m[k] : MVal {};
            bool had = m.m.count(k);
            Outcome o = op([&] { d[k] = a; });
            expectRes("assignment through reference", o, had ? Res::Ok : Res::OutOfRange);
            if (o.ok()) m.m[k] = cloneVal(v);
            else if (had)
            {
                Quiet q;
                if (anyIs(d[k], v)) m.m[k] = cloneVal(v);
            }
            break;
        }
        case 15:
        {
            // construction from pairs or from a map
            bool fromMap = sim::flip(sim::W, 1, 2);
            std::string k1 = randKey(), k2 = randKey();
            MVal v1 = randVal(1), v2 = randVal(1);
            sim::log("construct d%u %s '%s' '%s'", which, fromMap ? "map" : "pairs", k1.c_str(), k2.c_str());
            std::unordered_map<std::string, std::any> mp;
            std::any a1, a2;
            {
                Quiet q;
                a1 = makeAny(v1);
                a2 = makeAny(v2);
                mp.emplace(k1, a1);
                mp.emplace(k2, a2);
            }
            Dictionary* nd = nullptr;
            Outcome o = op(
                [&]
                {
                    if (fromMap) nd = new Dictionary(mp);
                    else nd = new Dictionary({{k1, a1}, {k2, a2}});
                },
                30
            );
            expectRes("construction", o, Res::Ok);
            if (o.ok())
            {
                delete w.d[which];
                w.d[which] = nd;
                Quiet q;
                m.m.clear();
                m.m.emplace(k1, v1);
                if (k1 != k2) m.m.emplace(k2, v2);
                else if (anyIs(static_cast<const Dictionary&>(*nd)[k1], v2)) m.m[k1] = v2; // a repeated key may hold either
            }
            break;
        }
        case 16:
        {
            // insert a value that lives in the same dictionary
            std::string k = pickKey(m), k2 = randKey();
            if (!m.m.count(k)) break;
            sim::log("insert-alias d%u '%s' := value of '%s'", which, k2.c_str(), k.c_str());
            MVal v = cloneVal(m.m[k]);
            Outcome o = op([&] { d.insert(k2, static_cast<const Dictionary&>(d)[k]); });
            expectRes("aliased insert", o, Res::Ok);
            if (o.ok()) m.m[k2] = v;
            else
            {
                Quiet q;
                if (d.contains(k2) && anyIs(static_cast<const Dictionary&>(d)[k2], v)) m.m[k2] = v;
            }
            break;
        }
        case 17:
        {
            // store a copy of one dictionary inside another (or itself)
            unsigned from = sim::choose(sim::W, ND);
            std::string k = randKey();
            if (w.m[from].m.size() > 6) break;
            sim::log("nest d%u into d%u '%s'", from, which, k.c_str());
            MVal v;
            v.kind = K_DICT;
            {
                Quiet q;
                v.sub = std::make_shared<MDict>(cloneDict(w.m[from]));
            }
            std::function<int(const MDict&)> depth = [&](const MDict& x)
            {
                int dd = 1;
                for (auto& [kk, vv] : x.m)
                    if (vv.sub) dd = std::max(dd, 1 + depth(*vv.sub));
                return dd;
            };
            if (depth(*v.sub) > 4) break;
            Outcome o = op([&] { d.insert(k, *w.d[from]); }, 30);
            expectRes("nested insert", o, Res::Ok);
            if (o.ok()) m.m[k] = v;
            else
            {
                Quiet q;
                if (d.contains(k) && anyIs(static_cast<const Dictionary&>(d)[k], v)) m.m[k] = v;
            }
            break;
        }
        case 18:
        {
            // const untyped read
            std::string k = pickKey(m);
            sim::log("const [] d%u '%s'", which, k.c_str());
            bool right = false;
            Outcome o = op(
                [&]
                {
                    const std::any& a = static_cast<const Dictionary&>(d)[k];
                    Quiet q;
                    right = m.m.count(k) && anyIs(a, m.m[k]);
                }
            );
            expectRes("untyped read", o, m.m.count(k) ? Res::Ok : Res::OutOfRange);
            if (o.ok()) sim::require(right, "wrong-value", "untyped read of '%s' wrong", k.c_str());
            break;
        }
        case 19:
        {
            // change through the underlying map
            std::string k = pickKey(m);
            unsigned how = sim::choose(sim::W, 8);
            MVal v = randVal(1);
            sim::log("map d%u '%s' how %u", which, k.c_str(), how);
            Quiet q;
            auto& mp = d.getMap();
            if (how == 0)
            {
                mp.clear();
                m.m.clear();
            }
            else if (how < 4)
            {
                mp.erase(k);
                m.m.erase(k);
            }
            else
            {
                mp[k] = makeAny(v);
                m.m[k] = cloneVal(v);
            }
            break;
        }
        default:
        {
            // move construction and move assignment
            unsigned to = sim::choose(sim::W, ND);
            if (to == which) break;
            sim::log("move d%u -> d%u", which, to);
            Quiet q;
            *w.d[to] = std::move(d);
            w.m[to] = m;
            delete w.d[which];
            w.d[which] = new Dictionary();
            m.m.clear();
            break;
        }
        }
        if (look.due()) w.checkAll("operation");
    }
    w.checkAll("the run");
    if (nops >= 4) sim::nontrivial();
}
}

SIM_PROPERTY(C05, "a run is a history of 1..~100 dictionary operations on three dictionaries; "
                  "non-trivial if it has at least four operations or a fault fired inside one")
{
    DictWorld w;
    {
        Quiet q;
        for (auto& p : w.d) p = new Dictionary();
    }
    bool faults = sim::flip(sim::F, 2, 3);
    dictOps(w, faults);
    sim::allowFaults(false);
    long before;
    {
        Quiet q;
        for (auto& p : w.d) delete p;
        before = Tracked::live;
    }
    sim::require(before == 0, "leak", "%ld stored objects were never destroyed", before);
}

// ------------------------------------------------------------------------------------------ C06
namespace
{
constexpr int NL = 2;
struct MTok
{
    std::vector<MVal> t;
    size_t next = 0;
};
std::string diffTok(TokenList& l, const MTok& m)
{
    if (l.size() != m.t.size()) return "size is " + std::to_string(l.size()) + ", expected " + std::to_string(m.t.size());
    if (l.empty() != m.t.empty()) return "empty() wrong";
    for (size_t i = 0; i < m.t.size(); i++)
        if (!anyIs(l.tokens()[i], m.t[i])) return "token " + std::to_string(i) + " is not " + show(m.t[i]);
    return "";
}
enum class TA
{
    Get,
    CGet,
    Next,
    CNext,
    Pop
};
template<class T>
Outcome tokRead(TokenList& l, TA a, size_t idx, const MVal& v, bool& right)
{
    right = false;
    const TokenList& c = l;
    return op(
        [&]
        {
            switch (a)
            {
            case TA::Get: { T& r = l.get<T>(idx); Quiet q; right = anyIs(std::any(r), v); break; }
            case TA::CGet: { const T& r = c.get<T>(idx); Quiet q; right = anyIs(std::any(r), v); break; }
            case TA::Next: { T& r = l.next<T>(); Quiet q; right = anyIs(std::any(r), v); break; }
            case TA::CNext: { const T& r = c.next<T>(); Quiet q; right = anyIs(std::any(r), v); break; }
            case TA::Pop: { T r = l.popFront<T>(); Quiet q; right = anyIs(std::any(r), v); break; }
            }
        }
    );
}
Outcome tokReadKind(TokenList& l, TA a, size_t idx, const MVal& v, bool& right)
{
    switch (v.kind)
    {
    case K_INT: return tokRead<int>(l, a, idx, v, right);
    case K_DOUBLE: return tokRead<double>(l, a, idx, v, right);
    case K_STR: return tokRead<std::string>(l, a, idx, v, right);
    case K_LABEL: return tokRead<size_t>(l, a, idx, v, right);
    case K_TRACKED: return tokRead<Tracked>(l, a, idx, v, right);
    default: return tokRead<Dictionary>(l, a, idx, v, right);
    }
}
/// a class constructed from an Input reads all tokens that were left
struct InputReader
{
    static const MTok* expect;
    bool right = true;
    size_t count = 0;
    static InputReader read(const TokenList& tl)
    {
        InputReader r;
        auto& l = const_cast<TokenList&>(tl);
        for (size_t i = expect->next; i < expect->t.size(); i++)
        {
            bool hit = false;
            Outcome o = tokReadKind(l, TA::CNext, 0, expect->t[i], hit);
            if (!o.ok() || !hit) r.right = false;
            r.count++;
        }
        bool hit = false;
        MVal v;
        v.kind = K_INT;
        if (tokReadKind(l, TA::CNext, 0, v, hit).res != Res::OutOfRange) r.right = false;
        return r;
    }
    static InputReader read(const Dictionary&)
    {
        InputReader r;
        r.right = false;
        return r;
    }
};
const MTok* InputReader::expect = nullptr;

const int tokKinds[] = {K_INT, K_DOUBLE, K_STR, K_LABEL, K_TRACKED, K_DICT};
MVal tokVal()
{
    MVal v;
    v.kind = tokKinds[sim::choose(sim::W, 6)];
    v.id = (int)sim::choose(sim::W, 40);
    if (v.kind == K_DICT)
    {
        v.id = 0;
        v.sub = std::make_shared<MDict>();
    }
    return v;
}
}

SIM_PROPERTY(C06, "a run is a history of token-list operations on two lists; non-trivial if it has at least "
                  "four operations or a fault fired inside one")
{
    TokenList* l[NL];
    MTok m[NL];
    {
        Quiet q;
        for (int i = 0; i < NL; i++)
        {
            unsigned n = i ? sim::choose(sim::W, 4) : std::max(crowd(), sim::choose(sim::W, 4));
            std::vector<std::any> init;
            for (unsigned k = 0; k < n; k++)
            {
                m[i].t.push_back(tokVal());
                init.push_back(makeAny(m[i].t.back()));
            }
            unsigned how = sim::choose(sim::W, 3);
            if (how == 0)
            {
                l[i] = new TokenList();
                m[i].t.clear();
            }
            else if (how == 1)
            {
                m[i].next = sim::choose(sim::W, n + 2);
                l[i] = new TokenList(init, m[i].next);
            }
            else
                l[i] = new TokenList(init);
        }
    }
    sim::allowFaults(sim::flip(sim::F, 2, 3));
    auto inspect = [&]
    {
        Quiet q;
        for (int i = 0; i < NL; i++)
        {
            auto s = diffTok(*l[i], m[i]);
            if (!s.empty()) sim::fail("model-mismatch", "list %d: %s", i, s.c_str());
            // cursor: probe on a copy so the list under test is not advanced
            if (m[i].next < m[i].t.size())
            {
                TokenList c(*l[i]);
                bool r = false;
                Outcome o = tokReadKind(c, TA::CNext, 0, m[i].t[m[i].next], r);
                if (!o.ok() || !r) sim::fail("cursor", "list %d: the cursor is not at token %zu", i, m[i].next);
            }
            else
            {
                TokenList c(*l[i]);
                c.insert(std::any(123456));
                bool r = false;
                MVal v;
                v.kind = K_INT;
                v.id = 123456;
                Outcome o = tokReadKind(c, TA::CNext, 0, v, r);
                bool expectHit = m[i].next == m[i].t.size();
                if ((o.ok() && r) != expectHit) sim::fail("cursor", "list %d: the cursor is not at %zu", i, m[i].next);
            }
        }
    };
    unsigned nops = 0;
    Inspection look;
    while (sim::nextOp(24))
    {
        nops++;
        unsigned which = sim::choose(sim::W, NL);
        TokenList*& t = l[which];
        MTok& mt = m[which];
        unsigned what = sim::choose(sim::W, 20);
        bool right = false;
        switch (what)
        {
        case 0:
        case 1:
        case 2:
        case 3:
        {
            MVal v = tokVal();
            std::any a;
            {
                Quiet q;
                a = makeAny(v);
            }
            sim::log("insert l%u %s", which, show(v).c_str());
            Outcome o = op([&] { t->insert(a); });
            expectRes("insert", o, Res::Ok);
            if (o.ok()) mt.t.push_back(v);
            break;
        }
        case 4:
        case 5:
        case 6:
        case 7:
        case 8:
        {
            // indexed and sequential reads, right or wrong type, inside or outside
            TA a = what == 4 ? TA::Get : what == 5 ? TA::CGet : what == 6 || what == 8 ? TA::Next : TA::CNext;
            bool seq = a == TA::Next || a == TA::CNext;
            size_t idx = seq ? mt.next : sim::choose(sim::W, (uint32_t)mt.t.size() + 2);
            bool inside = idx < mt.t.size();
            MVal v;
            bool wrong = sim::flip(sim::W, 1, 4);
            if (inside && !wrong) v = mt.t[idx];
            else
            {
                v.kind = tokKinds[sim::choose(sim::W, 6)];
                if (inside && v.kind == mt.t[idx].kind) v.kind = v.kind == K_INT ? K_STR : K_INT;
                if (v.kind == K_DICT) v.sub = std::make_shared<MDict>();
            }
            sim::log("%s l%u[%zu] kind %d (size %zu)", seq ? "next" : "get", which, idx, v.kind, mt.t.size());
            Outcome o = tokReadKind(*t, a, idx, v, right);
            expectRes(seq ? "sequential read" : "indexed read", o, !inside ? Res::OutOfRange : wrong ? Res::BadAnyCast : Res::Ok);
            if (o.ok())
            {
                sim::require(right, "wrong-value", "%s of token %zu is not the stored token", seq ? "sequential read" : "indexed read", idx);
                if (seq) mt.next++;
            }
            break;
        }
        case 9:
        case 10:
        {
            bool inside = !mt.t.empty();
            bool wrong = sim::flip(sim::W, 1, 4);
            MVal v;
            if (inside && !wrong) v = mt.t[0];
            else
            {
                v.kind = tokKinds[sim::choose(sim::W, 6)];
                if (inside && v.kind == mt.t[0].kind) v.kind = v.kind == K_INT ? K_STR : K_INT;
                if (v.kind == K_DICT) v.sub = std::make_shared<MDict>();
            }
            sim::log("popFront l%u kind %d (size %zu)", which, v.kind, mt.t.size());
            Outcome o = tokReadKind(*t, TA::Pop, 0, v, right);
            expectRes("popFront", o, !inside ? Res::OutOfRange : wrong ? Res::BadAnyCast : Res::Ok);
            if (o.ok())
            {
                sim::require(right, "wrong-value", "popFront returned a different token");
                mt.t.erase(mt.t.begin());
            }
            break;
        }
        case 11:
        {
            if (mt.t.empty()) break;
            size_t i = sim::choose(sim::W, (uint32_t)mt.t.size());
            sim::log("remove l%u[%zu]", which, i);
            Outcome o = op([&] { t->remove(i); });
            expectRes("remove", o, Res::Ok);
            if (o.ok()) mt.t.erase(mt.t.begin() + (long)i);
            break;
        }
        case 12:
        {
            unsigned to = 1 - which;
            sim::log("copy l%u -> l%u", which, to);
            TokenList* n = nullptr;
            Outcome o = op([&] { n = new TokenList(*t); }, 20);
            expectRes("copy", o, Res::Ok);
            if (o.ok())
            {
                Quiet q;
                delete l[to];
                l[to] = n;
                m[to] = mt;
                for (auto& v : m[to].t) v = cloneVal(v);
            }
            break;
        }
        case 14:
        {
            unsigned to = sim::choose(sim::W, NL);
            sim::log("assign l%u -> l%u", which, to);
            Outcome o = op([&] { *l[to] = *t; }, 20);
            expectRes("assign", o, Res::Ok);
            if (o.ok() && to != which)
            {
                Quiet q;
                m[to] = mt;
                for (auto& v : m[to].t) v = cloneVal(v);
            }
            else if (!o.ok())
            {
                // basic guarantee only: replace the target
                Quiet q;
                delete l[to];
                l[to] = new TokenList();
                m[to] = {};
            }
            break;
        }
        case 15:
        {
            // read a stretch of the list
            unsigned n = sim::choose(sim::W, (uint32_t)mt.t.size() + 2);
            sim::log("next l%u %u times from %zu (size %zu)", which, n, mt.next, mt.t.size());
            for (unsigned i = 0; i < n; i++)
            {
                bool inside = mt.next < mt.t.size();
                MVal v;
                v.kind = K_INT;
                if (inside) v = mt.t[mt.next];
                Outcome o = tokReadKind(*t, i % 2 ? TA::CNext : TA::Next, 0, v, right);
                expectRes("sequential read", o, inside ? Res::Ok : Res::OutOfRange);
                if (!o.ok()) break;
                sim::require(right, "wrong-value", "sequential read of token %zu is not the stored token", mt.next);
                mt.next++;
            }
            break;
        }
        case 17:
        {
            // change through the underlying vector
            unsigned how = sim::choose(sim::W, 6);
            sim::log("tokens l%u how %u (size %zu)", which, how, mt.t.size());
            Quiet q;
            auto& tk = t->tokens();
            MVal v = tokVal();
            if (how == 0)
            {
                tk.clear();
                mt.t.clear();
            }
            else if (how < 3 || mt.t.empty())
            {
                tk.push_back(makeAny(v));
                mt.t.push_back(v);
            }
            else
            {
                size_t i = sim::choose(sim::W, (uint32_t)mt.t.size());
                tk[i] = makeAny(v);
                mt.t[i] = v;
            }
            break;
        }
        case 16:
        {
            // moved lists keep tokens and cursor
            unsigned to = 1 - which;
            bool byAssignment = sim::flip(sim::W, 1, 2);
            sim::log("move l%u -> l%u %s", which, to, byAssignment ? "assignment" : "construction");
            Quiet q;
            if (byAssignment) *l[to] = std::move(*t);
            else
            {
                delete l[to];
                l[to] = new TokenList(std::move(*t));
            }
            m[to] = mt;
            delete t;
            t = new TokenList();
            mt = {};
            break;
        }
        case 18:
        {
            // two objects constructed from one Input each read it from where the list's cursor stood
            sim::log("input from l%u at %zu of %zu", which, mt.next, mt.t.size());
            Quiet q;
            InputReader::expect = &mt;
            Input in = *t;
            for (int i = 0; i < 2; i++)
            {
                InputReader r = NeoFOAM::read<InputReader>(in);
                if (!r.right || r.count != mt.t.size() - std::min(mt.next, mt.t.size())) sim::fail("cursor", "object %d constructed from an Input did not read the tokens left in it", i);
            }
            break;
        }
        case 13:
        {
            if (mt.t.empty()) break;
            size_t i = sim::choose(sim::W, (uint32_t)mt.t.size());
            if (mt.t[i].kind != K_INT) break;
            sim::log("write-through l%u[%zu]", which, i);
            int id = (int)sim::choose(sim::W, 40);
            Outcome o = op([&] { t->get<int>(i) = id; });
            expectRes("write through reference", o, Res::Ok);
            if (o.ok()) mt.t[i].id = id;
            break;
        }
        default:
        {
            bool e = false;
            size_t s = 0;
            Outcome o = op(
                [&]
                {
                    e = t->empty();
                    s = t->size();
                }
            );
            expectRes("query", o, Res::Ok);
            if (o.ok()) sim::require(e == mt.t.empty() && s == mt.t.size(), "wrong-value", "size/empty wrong");
            break;
        }
        }
        if (look.due()) inspect();
    }
    inspect();
    if (nops >= 4) sim::nontrivial();
    Quiet q;
    for (auto* p : l) delete p;
    sim::require(Tracked::live == 0, "leak", "%ld tokens were never destroyed", Tracked::live);
}

// ------------------------------------------------------------------------------------------ C08
SIM_PROPERTY(C08, "a run is a history of insertions and typed accesses on one cache; non-trivial if a key was "
                  "inserted twice or a fault fired inside an insertion")
{
    StencilDataBase* db;
    std::map<std::string, MVal> m;
    std::map<std::string, const void*> addr;
    {
        Quiet q;
        db = new StencilDataBase();
    }
    const StencilDataBase& cdb = *db;
    sim::allowFaults(sim::flip(sim::F, 2, 3));
    auto key = [] { return anyKey(8, "stencil"); };
    if (unsigned n = crowd())
    {
        Quiet q;
        for (unsigned i = 0; i < n; i++)
        {
            MVal v;
            v.kind = K_INT;
            v.id = (int)i;
            std::string k = "geometry " + std::to_string(i);
            db->insert(k, (int)i);
            m.emplace(k, v);
            addr[k] = &cdb.get<int>(k);
        }
    }
    Inspection look;
    auto inspect = [&]
    {
        Quiet q;
        for (unsigned i = 0; i < nKeys; i++)
            sim::require(cdb.contains(keyName(i)) == (m.count(keyName(i)) > 0), "model-mismatch", "key '%s' %s", keyName(i).c_str(), m.count(keyName(i)) ? "was lost" : "appeared");
        for (auto& [kk, v] : m)
            sim::require(cdb.contains(kk) && anyIs(cdb[kk], v), "model-mismatch", "cached '%s' is no longer %s", kk.c_str(), show(v).c_str());
    };
    while (sim::nextOp(24))
    {
        unsigned what = sim::choose(sim::W, 8);
        std::string k = key();
        if (what < 4)
        {
            unsigned t = sim::choose(sim::W, 4);
            int id = (int)sim::choose(sim::W, 40);
            MVal v;
            v.id = id;
            sim::log("insert '%s' type %u id %d", k.c_str(), t, id);
            Outcome o;
            switch (t)
            {
            case 0:
                v.kind = K_INT;
                o = op([&] { db->insert(k, id); });
                break;
            case 1:
            {
                v.kind = K_STR;
                std::string s;
                {
                    Quiet q;
                    s = std::any_cast<std::string>(makeAny(v));
                }
                o = op([&] { db->insert(k, s); });
                break;
            }
            case 2:
            {
                v.kind = K_TRACKED;
                sim::quietInc();
                Tracked tr(id);
                sim::quietDec();
                o = op([&] { db->insert(k, tr); });
                break;
            }
            default:
            {
                v.kind = K_VEC;
                std::vector<int> x;
                {
                    Quiet q;
                    x.assign(3, id);
                }
                o = op([&] { db->insert(k, x); });
                break;
            }
            }
            expectRes("insert", o, Res::Ok);
            if (o.ok())
            {
                if (m.count(k)) sim::nontrivial();
                m.emplace(k, v);
            }
        }
        else if (what < 6)
        {
            // typed access, sometimes with a wrong type
            bool has = m.count(k);
            unsigned t = sim::choose(sim::W, 4);
            const int kinds[] = {K_INT, K_STR, K_TRACKED, K_VEC};
            int kind = has && sim::flip(sim::W, 2, 3) ? m[k].kind : kinds[t];
            bool c = sim::flip(sim::W, 1, 2);
            bool right = false;
            const void* where = nullptr;
            auto rd = [&](auto tag)
            {
                using T = decltype(tag);
                return op(
                    [&]
                    {
                        const T& r = c ? cdb.get<T>(k) : db->get<T>(k);
                        Quiet q;
                        right = has && anyIs(std::any(r), m[k]);
                        where = &r;
                    }
                );
            };
            sim::log("get '%s' kind %d", k.c_str(), kind);
            Outcome o;
            switch (kind)
            {
            case K_INT: o = rd(int {}); break;
            case K_STR: o = rd(std::string {}); break;
            case K_TRACKED:
                o = op(
                    [&]
                    {
                        const Tracked& r = c ? cdb.get<Tracked>(k) : db->get<Tracked>(k);
                        right = has && r.id == m[k].id;
                        where = &r;
                    }
                );
                break;
            default: o = rd(std::vector<int> {}); break;
            }
            expectRes("typed access", o, !has ? Res::OutOfRange : kind == m[k].kind ? Res::Ok : Res::BadAnyCast);
            if (o.ok())
            {
                sim::require(right, "wrong-value", "cached value of '%s' is not the first one inserted", k.c_str());
                if (addr.count(k)) sim::require(addr[k] == where, "moved", "cached value of '%s' changed its address", k.c_str());
                addr[k] = where;
            }
        }
        else
        {
            bool has = false, right = false;
            sim::log("query '%s'", k.c_str());
            Outcome o = op([&] { has = cdb.contains(k); });
            expectRes("contains", o, Res::Ok);
            if (o.ok()) sim::require(has == (m.count(k) > 0), "wrong-value", "contains('%s') is %d", k.c_str(), has);
            bool c = sim::flip(sim::W, 1, 2);
            o = op(
                [&]
                {
                    const std::any& a = c ? cdb[k] : (*db)[k];
                    Quiet q;
                    right = m.count(k) && anyIs(a, m[k]);
                }
            );
            expectRes("untyped access", o, m.count(k) ? Res::Ok : Res::OutOfRange);
            if (o.ok()) sim::require(right, "wrong-value", "untyped access of '%s' wrong", k.c_str());
        }
        if (look.due()) inspect();
    }
    inspect();
    Quiet q;
    delete db;
    sim::require(Tracked::live == 0, "leak", "%ld cached objects were never destroyed", Tracked::live);
}
