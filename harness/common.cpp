#include "common.hpp"
#include <cstring>

namespace hv
{
long Tracked::live = 0;
long Tracked::copies = 0;
int Tracked::throwIn = 0;
bool callbackFaultFired = false;

using namespace std::string_literals;
static const std::string l64(64, 'x'), l200 = "a long name " + std::string(188, '-');
static const std::vector<std::string> keysTab = {"p", "U", "nu", "", "timeIndex", "a key with spaces and more than fifteen characters", "a key with spaces and more than fifteen characters!", "id", "name", "solver", "p.inner", "p_0", "P", "pU", "a key with spaces"};
const unsigned nKeys = 15;
const std::string& keyName(unsigned i) { return keysTab[i % nKeys]; }

static const std::vector<std::vector<std::string>> groups = {
    {"p", "P"},
    {"p", "p ", " p", "p\t", "p\n"},
    {"nu", "nu\0"s, "nu\0a"s, "nu\0b"s},
    {"", " ", "\0"s, "\0\0"s},
    {l64, l64 + "1", l64 + "2", "1" + l64},
    {l200, l200 + "1", l200 + "2"},
    {"a key with spaces and more than fifteen characters", "a key with spaces and more than fifteen characters!", "a key with spaces"},
    {"field_24494", "field_87796", "field_42987", "field_280264"},
    {"p.inner", "p/inner", "p//inner", "p\\inner", "p:inner", "p"},
    {"1", "01", "1.0", "+1", "1e0"},
    {"\xc3\xa9t\xc3\xa9", "e\xcc\x81te\xcc\x81", "\xe9t\xe9", "ete"},
    {"p_0", "p_1", "p_10", "p_00"},
    {"id", "name", "ID", "id_", "_id"},
    {"\"p\"", "'p'", "p", "(p)", "p;"},
};
std::string anyKey(unsigned extra, const char* prefix)
{
    static int group = -1;
    if (group < 0) group = (int)sim::choose(sim::W, 2 * (uint32_t)groups.size());
    if (group < (int)groups.size() && sim::flip(sim::W, 1, 2))
    {
        auto& g = groups[(size_t)group];
        return g[sim::choose(sim::W, (uint32_t)g.size())];
    }
    unsigned k = sim::choose(sim::W, 2 * nKeys + extra);
    return k < 2 * nKeys ? keyName(k / 2) : prefix + std::to_string(k);
}

bool sameVal(const MVal& a, const MVal& b)
{
    if (a.kind != b.kind) return false;
    if (a.kind == K_DICT)
    {
        if (a.sub->m.size() != b.sub->m.size()) return false;
        auto i = a.sub->m.begin();
        auto j = b.sub->m.begin();
        for (; i != a.sub->m.end(); ++i, ++j)
            if (i->first != j->first || !sameVal(i->second, j->second)) return false;
        return true;
    }
    return a.id == b.id;
}

static std::string strOf(int id) { return id % 3 == 0 ? "s" + std::to_string(id) : "a string value long enough to be allocated " + std::to_string(id); }
static const char* const cstrTab[] = {"alpha", "beta", "gamma", "delta"};

std::any makeAny(const MVal& v)
{
    switch (v.kind)
    {
    case K_INT: return std::any(int(v.id));
    case K_DOUBLE: return std::any(double(v.id) + 0.5);
    case K_BOOL: return std::any(bool(v.id & 1));
    case K_STR: return std::any(strOf(v.id));
    case K_LABEL: return std::any(size_t(v.id));
    case K_VEC: return std::any(std::vector<int>(3, v.id));
    case K_FLOAT: return std::any(float(v.id));
    case K_BIG: return std::any(Big {{1.0 * v.id, 2, 3, 4, 5, 6}, v.id});
    case K_TRACKED: return std::any(std::in_place_type<Tracked>, v.id);
    case K_CSTR: return std::any(cstrTab[v.id & 3]);
    case K_TOKENS: return std::any(NeoFOAM::TokenList({std::any(std::string("Gauss")), std::any(v.id)}));
    case K_DICT: return std::any(makeDict(*v.sub));
    case K_EMPTY: return {};
    }
    return {};
}
NeoFOAM::Dictionary makeDict(const MDict& d)
{
    NeoFOAM::Dictionary r;
    for (auto& [k, v] : d.m) r.insert(k, makeAny(v));
    return r;
}

template<class T>
static const T* as(const std::any& a)
{
    return std::any_cast<T>(&a);
}

bool anyIs(const std::any& a, const MVal& v)
{
    switch (v.kind)
    {
    case K_INT: { auto p = as<int>(a); return p && *p == v.id; }
    case K_DOUBLE: { auto p = as<double>(a); return p && *p == v.id + 0.5; }
    case K_BOOL: { auto p = as<bool>(a); return p && *p == bool(v.id & 1); }
    case K_STR: { auto p = as<std::string>(a); return p && *p == strOf(v.id); }
    case K_LABEL: { auto p = as<size_t>(a); return p && *p == size_t(v.id); }
    case K_VEC: { auto p = as<std::vector<int>>(a); return p && *p == std::vector<int>(3, v.id); }
    case K_FLOAT: { auto p = as<float>(a); return p && *p == float(v.id); }
    case K_BIG: { auto p = as<Big>(a); return p && p->id == v.id && p->v[0] == v.id && p->v[5] == 6; }
    case K_TRACKED: { auto p = as<Tracked>(a); return p && p->id == v.id && *p->heap == v.id; }
    case K_CSTR: { auto p = as<const char*>(a); return p && !strcmp(*p, cstrTab[v.id & 3]); }
    case K_TOKENS:
    {
        auto p = as<NeoFOAM::TokenList>(a);
        if (!p || p->size() != 2) return false;
        auto q = *p;
        return as<std::string>(q.tokens()[0]) && *as<std::string>(q.tokens()[0]) == "Gauss" && as<int>(q.tokens()[1]) && *as<int>(q.tokens()[1]) == v.id;
    }
    case K_EMPTY: return !a.has_value();
    case K_DICT: { auto p = as<NeoFOAM::Dictionary>(a); return p && diffDict(*p, *v.sub).empty(); }
    }
    return false;
}

std::string show(const MVal& v)
{
    static const char* n[] = {"int", "double", "bool", "string", "label", "vector", "float", "big", "tracked", "cstr", "tokens", "dict", "empty"};
    if (v.kind < 0) return "none";
    return std::string(n[v.kind]) + ":" + std::to_string(v.id);
}

std::string diffDict(const NeoFOAM::Dictionary& d, const MDict& m)
{
    auto ks = d.keys();
    std::map<std::string, int> seen;
    for (auto& k : ks)
    {
        if (seen[k]++) return "key '" + k + "' listed twice";
        if (!m.m.count(k)) return "unexpected key '" + k + "'" + (d.contains(k) && d[k].has_value() ? "" : " (empty placeholder)");
    }
    if (d.getMap().size() != ks.size()) return "map size differs from key list";
    for (auto& [k, v] : m.m)
    {
        if (!seen.count(k)) return "missing key '" + k + "'";
        if (!d.contains(k)) return "contains() denies key '" + k + "'";
        if (d.isDict(k) != (v.kind == K_DICT)) return "isDict wrong for '" + k + "'";
        if (!anyIs(d[k], v)) return "value of '" + k + "' is not " + show(v);
    }
    if (d.empty() != m.m.empty()) return "empty() wrong";
    return "";
}

void expectRes(const char* op, const Outcome& o, Res a, Res b)
{
    if (o.res == a || o.res == b) return;
    if (o.res == Res::BadAlloc && o.faultFired) return;
    if (o.res == Res::Injected && callbackFaultFired) return;
    sim::fail("wrong-outcome", "%s: outcome %s (%s), expected %s%s", op, sim::resName(o.res), o.what, sim::resName(a), o.faultFired ? " or bad_alloc" : "");
}
}
