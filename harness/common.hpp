// Shared helpers of the core harnesses: value kinds with identity, expectations on outcomes.
#pragma once
#include "../sim/sim.hpp"

#include <any>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/core/tokenList.hpp"

namespace hv
{
using sim::Outcome;
using sim::Quiet;
using sim::Res;

/// instance-counting payload whose copies may throw and are checked for identity
struct Tracked
{
    static long live;
    static long copies;
    static int throwIn; // countdown to a throwing copy, 0 = never
    int id;
    int* heap; // makes leaks and double destruction visible to the allocation checks
    explicit Tracked(int i) : id(i), heap(new int(i)) { ++live; }
    Tracked(const Tracked& o) : id(o.id), heap(nullptr)
    {
        if (throwIn && !sim::isQuiet() && --throwIn == 0)
        {
            sim::probe("fault:throwing-copy");
            throw sim::Injected {7};
        }
        heap = new int(*o.heap);
        ++copies;
        ++live;
    }
    Tracked& operator=(const Tracked& o)
    {
        int* n = new int(*o.heap);
        delete heap;
        heap = n;
        id = o.id;
        return *this;
    }
    ~Tracked()
    {
        delete heap;
        --live;
    }
};

struct Big
{
    double v[6];
    int id;
};

enum Kind
{
    K_INT,
    K_DOUBLE,
    K_BOOL,
    K_STR,
    K_LABEL,
    K_VEC,
    K_FLOAT,
    K_BIG,
    K_TRACKED,
    K_CSTR,
    K_TOKENS,
    K_DICT,
    K_N,
    K_EMPTY = K_N // a stored value without content
};

struct MDict;
struct MVal
{
    int kind = -1;
    int id = 0;
    std::shared_ptr<MDict> sub; // K_DICT
};
struct MDict
{
    std::map<std::string, MVal> m;
};

inline MVal cloneVal(const MVal& v)
{
    MVal r = v;
    if (v.sub)
    {
        r.sub = std::make_shared<MDict>();
        for (auto& [k, x] : v.sub->m) r.sub->m[k] = cloneVal(x);
    }
    return r;
}
inline MDict cloneDict(const MDict& d)
{
    MDict r;
    for (auto& [k, x] : d.m) r.m[k] = cloneVal(x);
    return r;
}
bool sameVal(const MVal& a, const MVal& b);

/// names, among them groups that sloppy handling would confuse (case, blanks, embedded NUL, common
/// prefixes of 15, 64 and 200 characters, equal truncated hashes, path and number spellings)
const std::string& keyName(unsigned i);
extern const unsigned nKeys;
/// one key of the run: every run prefers one of the confusable groups
std::string anyKey(unsigned extra, const char* prefix);
/// comparing the whole state after every operation would itself refresh whatever the code remembers:
/// some runs compare rarely
struct Inspection
{
    bool rarely = sim::flip(sim::W, 1, 3);
    bool due() const { return !rarely || sim::flip(sim::W, 1, 6); }
};
std::any makeAny(const MVal& v);
NeoFOAM::Dictionary makeDict(const MDict& d);
/// does the stored any hold exactly v?
bool anyIs(const std::any& a, const MVal& v);
/// exact comparison of a dictionary with its model; returns a description of the first difference
std::string diffDict(const NeoFOAM::Dictionary& d, const MDict& m);
std::string show(const MVal& v);

/// outcome must be one of the expected results, or an injected failure if one fired
void expectRes(const char* op, const Outcome& o, Res a, Res b = (Res)-1);
inline bool failed(const Outcome& o) { return o.res == Res::BadAlloc || o.res == Res::Injected; }
/// callback faults armed outside of attempt(): pretend the outcome's fault fired
extern bool callbackFaultFired;
}
