// F01 parallel algorithms, F02 field storage, F03 field arithmetic
#include "kk.hpp"

#include <memory>
#include <optional>

#include "NeoFOAM/core/parallelAlgorithms.hpp"
#include "NeoFOAM/fields/fieldTypeDefs.hpp"
#include "NeoFOAM/fields/operations/sum.hpp"

using namespace NeoFOAM;
using namespace hk;

namespace
{
// ================================================================== F01
size_t rndSize()
{
    static const size_t tab[] = {0, 1, 2, 3, 5, 8, 13, 21, 34};
    size_t n = tab[sim::choose(sim::W, 9)];
    // rarely long enough for counters of one or two bytes to overflow
    uint32_t r = sim::chooseAs(sim::W, 3, sim::rnd(sim::W, 60) == 0 ? 1 + sim::rnd(sim::W, 8) / 7 : 0);
    if (r) sim::probe(r == 1 ? "hundreds-of-entries" : "tens-of-thousands-of-entries");
    return r == 2 ? 65536 + 7 * n : r == 1 ? 250 + 7 * n : n;
}
std::pair<size_t, size_t> rndRange(size_t n)
{
    size_t a = sim::choose(sim::W, (uint32_t)n + 1);
    size_t b = a + sim::choose(sim::W, (uint32_t)(n - a) + 1);
    if (sim::flip(sim::W, 1, 2)) return {0, n};
    return {a, b};
}
template<class T>
Field<T> rndField(const Executor& e, size_t n, std::vector<T>* m = nullptr)
{
    std::vector<T> v(n);
    for (auto& x : v) x = rndVal<T>();
    if (m) *m = v;
    return Field<T>(e, v);
}

void forRange()
{
    Executor e = pickExec();
    size_t n = rndSize();
    auto r = rndRange(n);
    Field<scalar> hits(e, n, 0.0);
    Field<localIdx> idx(e, n, localIdx(777));
    auto h = hits.view();
    auto x = idx.view();
    bool named = sim::flip(sim::W, 1, 2);
    sim::log("parallelFor %s [%zu,%zu) of %zu", execName(e), r.first, r.second, n);
    auto k = KOKKOS_LAMBDA(const size_t i)
    {
        h[i] += 1.0;
        x[i] = (localIdx)i;
    };
    if (named) parallelFor(e, r, k, "named");
    else
        parallelFor(e, r, k);
    std::vector<scalar> wh(n, 0.0);
    std::vector<localIdx> wx(n, 777);
    for (size_t i = r.first; i < r.second; i++) wh[i] = 1, wx[i] = (localIdx)i;
    expectContent("parallelFor: executions per index", hits, wh);
    expectContent("parallelFor: index seen", idx, wx);
}
template<class T>
void forField()
{
    Executor e = pickExec();
    size_t n = rndSize();
    std::vector<T> m;
    Field<T> a = rndField<T>(e, n, &m), b(e, n, mk<T>(3));
    auto va = a.view();
    int mult = (int)sim::choose(sim::W, 4);
    sim::log("parallelFor(field) %s %zu", execName(e), n);
    parallelFor(
        b, KOKKOS_LAMBDA(const size_t i) {
            T s = va[i];
            for (int k = 0; k < mult; k++) s += va[i];
            return s;
        }
    );
    std::vector<T> w(n);
    for (size_t i = 0; i < n; i++)
    {
        w[i] = m[i];
        for (int k = 0; k < mult; k++) w[i] = oAdd(w[i], m[i]);
    }
    expectContent("parallelFor(field)", b, w);
    expectContent("parallelFor(field) operand", a, m);
}
template<class T>
void reduceSum(bool fieldForm)
{
    Executor e = pickExec();
    size_t n = rndSize();
    auto r = fieldForm ? std::pair<size_t, size_t> {0, n} : rndRange(n);
    std::vector<T> m;
    Field<T> a = rndField<T>(e, n, &m);
    auto v = a.view();
    T res = sim::flip(sim::W, 1, 2) ? mk<T>(0) : rndVal<T>();
    if (!sim::flip(sim::W, 1, 2)) res = T {};
    sim::log("parallelReduce sum %s [%zu,%zu) initial %s", execName(e), r.first, r.second, str(res).c_str());
    auto k = KOKKOS_LAMBDA(const size_t i, T& s) { s += v[i]; };
    bool viaReducer = sim::flip(sim::W, 1, 3);
    if (viaReducer)
    {
        Kokkos::Sum<T> red(res);
        if (fieldForm) parallelReduce(a, k, red);
        else
            parallelReduce(e, r, k, red);
    }
    else
    {
        if (fieldForm) parallelReduce(a, k, res);
        else
            parallelReduce(e, r, k, res);
    }
    T w {};
    for (size_t i = r.first; i < r.second; i++) w = oAdd(w, m[i]);
    if (!same(res, w)) sim::fail("wrong-reduction", "sum over [%zu,%zu) on %s is %s instead of %s", r.first, r.second, execName(e), str(res).c_str(), str(w).c_str());
    expectContent("parallelReduce operand", a, m);
}
void reduceExtremum(bool fieldForm)
{
    Executor e = pickExec();
    size_t n = rndSize();
    auto r = fieldForm ? std::pair<size_t, size_t> {0, n} : rndRange(n);
    std::vector<scalar> m;
    Field<scalar> a = rndField<scalar>(e, n, &m);
    auto v = a.view();
    bool mx = sim::flip(sim::W, 1, 2);
    scalar res = (int)sim::choose(sim::W, 25) - 12;
    sim::log("parallelReduce %s %s [%zu,%zu) initial %g", mx ? "max" : "min", execName(e), r.first, r.second, res);
    scalar w = mx ? std::numeric_limits<scalar>::lowest() : std::numeric_limits<scalar>::max();
    for (size_t i = r.first; i < r.second; i++) w = mx ? std::max(w, m[i]) : std::min(w, m[i]);
    if (mx)
    {
        Kokkos::Max<scalar> red(res);
        auto k = KOKKOS_LAMBDA(const size_t i, scalar& l)
        {
            if (v[i] > l) l = v[i];
        };
        if (fieldForm) parallelReduce(a, k, red);
        else
            parallelReduce(e, r, k, red);
    }
    else
    {
        Kokkos::Min<scalar> red(res);
        auto k = KOKKOS_LAMBDA(const size_t i, scalar& l)
        {
            if (v[i] < l) l = v[i];
        };
        if (fieldForm) parallelReduce(a, k, red);
        else
            parallelReduce(e, r, k, red);
    }
    if (r.first == r.second) return; // the extremum of nothing is whatever the backend calls it
    if (!same(res, w)) sim::fail("wrong-reduction", "%s over [%zu,%zu) on %s is %s instead of %s", mx ? "max" : "min", r.first, r.second, execName(e), str(res).c_str(), str(w).c_str());
}
void scan()
{
    Executor e = pickExec();
    size_t n = rndSize();
    auto r = rndRange(n);
    std::vector<localIdx> m;
    Field<localIdx> in = rndField<localIdx>(e, n, &m);
    Field<localIdx> out(e, n, localIdx(999)), ex(e, n, localIdx(999));
    auto vi = in.view();
    auto vo = out.view();
    auto vx = ex.view();
    bool ret = sim::flip(sim::W, 2, 3);
    sim::log("parallelScan %s [%zu,%zu)%s", execName(e), r.first, r.second, ret ? " with total" : "");
    auto k = KOKKOS_LAMBDA(const size_t i, localIdx& u, const bool final)
    {
        if (final) vx[i] = u;
        u += vi[i];
        if (final) vo[i] = u;
    };
    localIdx total = 0;
    uint64_t wide = 55;
    int form = ret ? (int)sim::choose(sim::W, 2) : 2;
    if (form == 0)
    {
        total = sim::flip(sim::W, 1, 2) ? 41 : 0;
        parallelScan(e, r, k, total);
    }
    else if (form == 1)
    {
        parallelScan(e, r, k, wide);
        total = (localIdx)wide;
    }
    else
        parallelScan(e, r, k);
    std::vector<localIdx> wo(n, 999), wx(n, 999);
    localIdx s = 0;
    for (size_t i = r.first; i < r.second; i++)
    {
        wx[i] = s;
        s += m[i];
        wo[i] = s;
    }
    expectContent("scan (combination of all earlier indices)", ex, wx);
    expectContent("scan (inclusive)", out, wo);
    if (ret && total != s) sim::fail("wrong-scan-total", "scan over [%zu,%zu) on %s returned %u instead of %u", r.first, r.second, execName(e), total, s);
    expectContent("scan operand", in, m);
}

// ================================================================== F02
template<class T>
struct Slot
{
    std::unique_ptr<Field<T>> f;
    std::vector<T> m;
};
constexpr int NS = 4;
template<class T>
struct Pool
{
    Slot<T> s[NS];

    void checkAll(const char* after)
    {
        Quiet q;
        uint64_t blocks = 0;
        for (int i = 0; i < NS; i++)
            if (s[i].f)
            {
                auto& f = *s[i].f;
                expectPlaced(after, f);
                if (f.data()) blocks++;
                for (int j = 0; j < i; j++)
                    if (s[j].f && f.data() && s[j].f->data() == f.data()) sim::fail("shared-storage", "after %s: fields %d and %d share storage", after, j, i);
                std::string d = diff(content(f), s[i].m);
                if (!d.empty()) sim::fail("wrong-content", "after %s: field %d (%s): %s", after, i, execName(f.exec()), d.c_str());
                if ((size_t)f.ssize() != s[i].m.size() || f.empty() != s[i].m.empty() || f.range() != std::pair<size_t, size_t>(0, s[i].m.size()))
                    sim::fail("wrong-size", "after %s: size, ssize, empty and range disagree", after);
            }
        auto st = sim::memStat();
        if (st.kkBlocks + st.devBlocks != blocks)
            sim::fail("storage-leak", "after %s: %llu storage blocks live for %llu fields with storage", after, (unsigned long long)(st.kkBlocks + st.devBlocks), (unsigned long long)blocks);
    }
    int have()
    {
        int c[NS], n = 0;
        for (int i = 0; i < NS; i++)
            if (s[i].f) c[n++] = i;
        return n ? c[sim::choose(sim::W, n)] : -1;
    }
    void put(int i, std::unique_ptr<Field<T>> f, std::vector<T> m)
    {
        s[i].f = std::move(f);
        s[i].m = std::move(m);
    }
    void sync(int i)
    {
        Quiet q;
        s[i].m = content(*s[i].f);
    }
};
template<class T>
void fieldHistory()
{
    Pool<T> p;
    sim::nextOp(1);
    uint32_t faults = sim::faultsEnabled() ? 6 : 0;
    while (sim::nextOp(24))
    {
        int d = (int)sim::choose(sim::W, NS);
        uint32_t k = sim::choose(sim::W, 17);
        int o = p.have();
        if (o < 0 && k > 3) k %= 4;
        const char* name = "";
        char label[80];
        auto note = [&](const char* n, const Executor& e, size_t sz)
        {
            name = n;
            snprintf(label, sizeof label, "%s", n);
            sim::log("%s slot %d <- %d on %s size %zu", n, d, o, execName(e), sz);
        };
        // storage handed over to the slot outside the guarded operation
        std::unique_ptr<Field<T>> made;
        Outcome out;
        switch (k)
        {
        case 0: // sized
        {
            Executor e = pickExec();
            size_t n = rndSize();
            note("construct sized", e, n);
            p.s[d].f.reset();
            out = sim::attempt([&] { made = std::make_unique<Field<T>>(e, n); }, faults);
            if (out.ok()) p.put(d, std::move(made), {}), p.sync(d);
            if (p.s[d].f && p.s[d].f->size() != n) sim::fail("wrong-size", "sized construction");
            break;
        }
        case 1: // uniform value
        {
            Executor e = pickExec();
            size_t n = rndSize();
            T v = rndVal<T>();
            note("construct uniform", e, n);
            p.s[d].f.reset();
            out = sim::attempt([&] { made = std::make_unique<Field<T>>(e, n, v); }, faults);
            if (out.ok()) p.put(d, std::move(made), std::vector<T>(n, v));
            break;
        }
        case 2: // from vector
        {
            Executor e = pickExec();
            size_t n = rndSize();
            std::vector<T> v(n);
            for (auto& x : v) x = rndVal<T>();
            note("construct from vector", e, n);
            p.s[d].f.reset();
            out = sim::attempt([&] { made = std::make_unique<Field<T>>(e, v); }, faults);
            if (out.ok()) p.put(d, std::move(made), v);
            break;
        }
        case 3: // from raw memory on the host
        {
            Executor e = pickExec();
            size_t n = rndSize();
            std::vector<T> v(n);
            for (auto& x : v) x = rndVal<T>();
            Executor from = execOf(sim::choose(sim::W, 2));
            note("construct from host memory", e, n);
            p.s[d].f.reset();
            out = sim::attempt([&] { made = std::make_unique<Field<T>>(e, v.data(), n, from); }, faults);
            if (out.ok()) p.put(d, std::move(made), v);
            break;
        }
        case 4: // from raw memory of another field (maybe only a part of it)
        {
            Executor e = pickExec();
            size_t n = p.s[o].m.size();
            size_t b = sim::choose(sim::W, (uint32_t)n + 1), c = sim::choose(sim::W, (uint32_t)(n - b) + 1);
            note("construct from field memory", e, c);
            std::vector<T> v(p.s[o].m.begin() + b, p.s[o].m.begin() + b + c);
            const T* src = p.s[o].f->data() + (n ? b : 0);
            out = sim::attempt([&] { made = std::make_unique<Field<T>>(e, src, c, p.s[o].f->exec()); }, faults);
            if (out.ok()) p.put(d, std::move(made), v);
            break;
        }
        case 5: // copy to a named executor
        {
            Executor e = pickExec();
            auto m = p.s[o].m;
            note("construct copy on executor", e, m.size());
            out = sim::attempt([&] { made = std::make_unique<Field<T>>(e, *p.s[o].f); }, faults);
            if (out.ok()) p.put(d, std::move(made), m);
            if (out.ok() && !(p.s[d].f->exec() == e)) sim::fail("wrong-executor", "the copy is not on the executor asked for");
            break;
        }
        case 6:
        {
            auto m = p.s[o].m;
            note("copy", p.s[o].f->exec(), m.size());
            Executor e = p.s[o].f->exec();
            out = sim::attempt([&] { made = std::make_unique<Field<T>>(*p.s[o].f); }, faults);
            if (out.ok()) p.put(d, std::move(made), m);
            if (out.ok() && !(p.s[d].f->exec() == e)) sim::fail("wrong-executor", "the copy is not on the executor of its source");
            break;
        }
        case 7:
        {
            if (o == d) break;
            auto m = p.s[o].m;
            Executor e = p.s[o].f->exec();
            note("move", e, m.size());
            out = sim::attempt([&] { made = std::make_unique<Field<T>>(std::move(*p.s[o].f)); }, 0);
            if (!out.ok()) sim::fail("wrong-outcome", "a move failed");
            p.put(d, std::move(made), m);
            p.s[o].m.clear();
            if (!(p.s[d].f->exec() == e)) sim::fail("wrong-executor", "a moved field changed its executor");
            break;
        }
        case 8:
        case 9: // transfers
        {
            Executor e = pickExec();
            auto m = p.s[o].m;
            bool toHost = k == 9;
            if (toHost) e = SerialExecutor();
            note(toHost ? "copyToHost" : "copyToExecutor", e, m.size());
            bool chain = sim::flip(sim::W, 1, 3);
            Executor via = pickExec();
            out = sim::attempt(
                [&]
                {
                    if (chain)
                    {
                        Field<T> t = p.s[o].f->copyToExecutor(via);
                        made = std::make_unique<Field<T>>(toHost ? t.copyToHost() : t.copyToExecutor(e));
                    }
                    else
                        made = std::make_unique<Field<T>>(toHost ? p.s[o].f->copyToHost() : p.s[o].f->copyToExecutor(e));
                },
                faults
            );
            if (out.ok()) p.put(d, std::move(made), m);
            if (out.ok() && !(p.s[d].f->exec() == e)) sim::fail("wrong-executor", "a transfer landed on %s instead of %s", execName(p.s[d].f->exec()), execName(e));
            break;
        }
        case 10: // copyToHost into an existing field of the same size
        {
            if (!p.s[d].f) break;
            note("copyToHost(result)", p.s[d].f->exec(), p.s[o].m.size());
            bool host = p.s[d].f->exec().index() == 0;
            if (p.s[d].m.size() != p.s[o].m.size()) break;
            out = sim::attempt([&] { p.s[o].f->copyToHost(*p.s[d].f); }, faults);
            if (out.ok() && host) p.s[d].m = p.s[o].m;
            else if (out.ok())
                sim::fail("wrong-outcome", "copyToHost into a field that is not on the host executor went through");
            else if (!host && out.res == Res::Exited)
                return; // the program is over
            break;
        }
        case 11: // assignment
        {
            if (!p.s[d].f) break;
            note("assign", p.s[d].f->exec(), p.s[o].m.size());
            bool sameE = p.s[d].f->exec() == p.s[o].f->exec();
            size_t before = p.s[d].m.size();
            out = sim::attempt([&] { *p.s[d].f = *p.s[o].f; }, faults);
            if (out.ok() && sameE) p.s[d].m = p.s[o].m;
            else if (out.ok())
                sim::fail("wrong-outcome", "assignment across executors went through");
            else if (!sameE && out.res == Res::Exited)
                return; // the program is over
            (void)before;
            break;
        }
        case 12:
        {
            T v = rndVal<T>();
            note("assign value", p.s[o].f->exec(), p.s[o].m.size());
            out = sim::attempt([&] { *p.s[o].f = v; }, faults);
            if (out.ok()) p.s[o].m.assign(p.s[o].m.size(), v);
            break;
        }
        case 13:
        {
            size_t n = rndSize();
            auto m = p.s[o].m;
            note("resize", p.s[o].f->exec(), n);
            out = sim::attempt([&] { p.s[o].f->resize(n); }, faults);
            if (out.ok())
            {
                p.sync(o);
                if (p.s[o].m.size() != n) sim::fail("wrong-size", "resize to %zu gave %zu", n, p.s[o].m.size());
                for (size_t i = 0; i < n && i < m.size(); i++)
                    if (!same(p.s[o].m[i], m[i])) sim::fail("wrong-content", "resize changed entry %zu", i);
            }
            break;
        }
        case 14:
            note("destroy", p.s[o].f->exec(), p.s[o].m.size());
            p.s[o].f.reset();
            break;
        case 15: // write through a (sub)view inside a kernel
        {
            size_t n = p.s[o].m.size();
            auto r = rndRange(n);
            T v = rndVal<T>();
            note("write through view", p.s[o].f->exec(), r.second - r.first);
            if (n == 0) break;
            auto w = sim::flip(sim::W, 1, 2) ? p.s[o].f->view(r) : View<T>(p.s[o].f->view().subspan(r.first, r.second - r.first));
            if (w.size() != r.second - r.first) sim::fail("wrong-size", "a view of a range has another length");
            parallelFor(
                p.s[o].f->exec(), {0, w.size()}, KOKKOS_LAMBDA(const size_t i) { w[i] = v; }
            );
            for (size_t i = r.first; i < r.second; i++) p.s[o].m[i] = v;
            break;
        }
        default: // read through a const view
        {
            const Field<T>& f = *p.s[o].f;
            size_t n = p.s[o].m.size();
            auto r = rndRange(n);
            note("read through const view", f.exec(), n);
            if (n == 0) break;
            auto w = f.view(r);
            Field<T> out2(f.exec(), w.size());
            auto u = out2.view();
            parallelFor(
                f.exec(), {0, w.size()}, KOKKOS_LAMBDA(const size_t i) { u[i] = w[i]; }
            );
            expectContent("const view of a range", out2, std::vector<T>(p.s[o].m.begin() + r.first, p.s[o].m.begin() + r.second));
            break;
        }
        }
        if (*name)
        {
            if (!out.ok()) expectOk(name, out);
            if (out.faultFired) sim::nontrivial();
            if (p.s[d].f && p.s[d].f->exec().index() == 2) sim::nontrivial();
            p.checkAll(name);
        }
    }
    for (int i = 0; i < NS; i++) p.s[i].f.reset();
    p.checkAll("destruction of all fields");
}

// ================================================================== F03
template<class T>
struct Ar
{
    Executor e = pickExec();
    size_t n = rndSize();
    static constexpr int N = 3;
    std::vector<T> m[N];
    std::unique_ptr<Field<T>> f[N];
    std::vector<scalar> ms;
    std::unique_ptr<Field<scalar>> fs;
    /// rarely one that turns the value into something special
    static scalar factor()
    {
        using L = std::numeric_limits<scalar>;
        static const scalar f[] = {0.37, L::infinity(), L::quiet_NaN(), L::max(), L::denorm_min(), -0.0};
        return f[sim::chooseAs(sim::W, 6, sim::rnd(sim::W, 24) == 0 ? 1 + sim::rnd(sim::W, 5) : 0)];
    }
    static T rv()
    {
        // not only integers: element-wise results must be exact for any value
        T v = rndVal<T>();
        if constexpr (!std::is_integral_v<T>)
            if (sim::flip(sim::W, 1, 3)) v = oScale(v, Ar<scalar>::factor());
        return v;
    }
    Ar()
    {
        for (int i = 0; i < N; i++)
        {
            m[i].resize(n);
            for (auto& x : m[i]) x = rv();
            f[i] = std::make_unique<Field<T>>(e, m[i]);
        }
        ms.resize(n);
        for (auto& x : ms) x = Ar<scalar>::rv();
        fs = std::make_unique<Field<scalar>>(e, ms);
    }
    void check(const char* op)
    {
        for (int i = 0; i < N; i++) expectContent(op, *f[i], m[i]);
        expectContent(op, *fs, ms);
    }
};
template<>
scalar Ar<scalar>::rv();

void vectorKernel(const Executor& e, const std::vector<Vector>& ma, const std::vector<Vector>& mb)
{
    size_t n = ma.size();
    scalar s = Ar<scalar>::rv();
    label l = rndVal<label>();
    Field<Vector> a(e, ma), b(e, mb), sum(e, ma), difference(e, ma), scaled(e, ma), labelled(e, n), left(e, n), grown(e, ma), shrunk(e, ma), built(e, n), ones(e, n, one<Vector>()), none(e, n, zero<Vector>());
    Field<scalar> dot(e, n), length(e, n);
    Field<label> eq(e, n);
    auto [va, vb, vs, vd, vc, vl, vf, vg, vh, vt] = spans(a, b, sum, difference, scaled, labelled, left, grown, shrunk, built);
    auto vdot = dot.view();
    auto vlen = length.view();
    auto veq = eq.view();
    parallelFor(
        e,
        {0, n},
        KOKKOS_LAMBDA(const size_t i) {
            vs[i] = va[i] + vb[i];
            vd[i] = va[i] - vb[i];
            vc[i] = va[i] * s;
            vl[i] = va[i] * l;
            vf[i] = s * va[i];
            vg[i] += vb[i];
            vh[i] -= vb[i];
            vh[i] *= s;
            Vector t(va[i][0], va[i](1), va[i][2]);
            t[1] = vb[i](1);
            t(2) = va[i][2];
            vt[i] = t;
            vdot[i] = va[i] & vb[i];
            vlen[i] = mag(va[i]);
            veq[i] = (va[i] == vb[i] ? 1 : 0) + (va[i] == vt[i] ? 2 : 0) + (va[i].size() == 3 && va[i].data()[2] == va[i][2] ? 4 : 0);
        }
    );
    std::vector<Vector> ws(n), wd(n), wc(n), wl(n), wh(n), wt(n);
    std::vector<scalar> wdot(n), wlen(n);
    std::vector<label> weq(n);
    for (size_t i = 0; i < n; i++)
    {
        auto x = comps(ma[i]), y = comps(mb[i]);
        ws[i] = oAdd(ma[i], mb[i]);
        wd[i] = oSub(ma[i], mb[i]);
        wc[i] = oScale(ma[i], s);
        wl[i] = oScale(ma[i], (scalar)l);
        wh[i] = oScale(wd[i], s);
        wt[i] = vec({x[0], y[1], x[2]});
        wdot[i] = x[0] * y[0] + x[1] * y[1] + x[2] * y[2];
        wlen[i] = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]);
        weq[i] = (x == y ? 1 : 0) + (oEq(ma[i], wt[i]) ? 2 : 0) + (x[2] == x[2] ? 4 : 0);
    }
    expectContent("vector +", sum, ws);
    expectContent("vector -", difference, wd);
    expectContent("vector * scalar", scaled, wc);
    expectContent("vector * label", labelled, wl);
    expectContent("scalar * vector", left, wc);
    expectContent("vector +=", grown, ws);
    expectContent("vector -= and *=", shrunk, wh);
    expectContent("vector components", built, wt);
    expectContent("vector one", ones, std::vector<Vector>(n, vec({1, 1, 1})));
    expectContent("vector zero", none, std::vector<Vector>(n, vec({0, 0, 0})));
    expectContent("vector dot", dot, wdot);
    expectContent("vector length", length, wlen);
    expectContent("vector ==", eq, weq);
}

/// {0,0} stands for the whole field; other ranges end above 0
std::pair<size_t, size_t> rndOpRange(size_t n, std::pair<size_t, size_t>& eff)
{
    if (sim::flip(sim::W, 1, 3) || n == 0)
    {
        eff = {0, n};
        return {0, 0};
    }
    size_t b = 1 + sim::choose(sim::W, (uint32_t)n);
    size_t a = sim::choose(sim::W, (uint32_t)b + 1);
    eff = {a, b};
    return eff;
}
template<class T>
void arithHistory()
{
    Ar<T> w;
    size_t n = w.n;
    if (n > 1 && w.e.index()) sim::nontrivial();
    while (sim::nextOp(10))
    {
        uint32_t k = sim::choose(sim::W, 21);
        int a = (int)sim::choose(sim::W, 3), b = (int)sim::choose(sim::W, 3);
        auto& A = *w.f[a];
        auto& B = *w.f[b];
        auto &ma = w.m[a], &mb = w.m[b];
        sim::log("arith op %u a=%d b=%d n=%zu on %s", k, a, b, n, execName(w.e));
        switch (k)
        {
        case 0:
        {
            A += B;
            auto t = mb;
            for (size_t i = 0; i < n; i++) ma[i] = oAdd(ma[i], t[i]);
            break;
        }
        case 1:
        {
            A -= B;
            auto t = mb;
            for (size_t i = 0; i < n; i++) ma[i] = oSub(ma[i], t[i]);
            break;
        }
        case 2:
        {
            auto r = A + B;
            std::vector<T> x(n);
            for (size_t i = 0; i < n; i++) x[i] = oAdd(ma[i], mb[i]);
            expectContent("operator+", r, x);
            if (!(r.exec() == w.e)) sim::fail("wrong-executor", "operator+ changed the executor");
            break;
        }
        case 3:
        {
            auto r = A - B;
            std::vector<T> x(n);
            for (size_t i = 0; i < n; i++) x[i] = oSub(ma[i], mb[i]);
            expectContent("operator-", r, x);
            break;
        }
        case 4:
        {
            T v = Ar<T>::rv();
            std::pair<size_t, size_t> eff, r = rndOpRange(n, eff);
            fill(A, v, r);
            for (size_t i = eff.first; i < eff.second; i++) ma[i] = v;
            break;
        }
        case 5:
        {
            std::pair<size_t, size_t> eff, r = rndOpRange(n, eff);
            const Field<T>& cb = B;
            setField(A, cb.view(), r);
            auto t = mb;
            for (size_t i = eff.first; i < eff.second; i++) ma[i] = t[i];
            break;
        }
        case 6:
        {
            std::pair<size_t, size_t> eff, r = rndOpRange(n, eff);
            auto v = B.view();
            map(
                A, KOKKOS_LAMBDA(const size_t i) { return v[i] + v[i]; }, r
            );
            auto t = mb;
            for (size_t i = eff.first; i < eff.second; i++) ma[i] = oAdd(t[i], t[i]);
            break;
        }
        case 7:
        {
            T c = Ar<T>::rv();
            auto v = B.view();
            A.apply(KOKKOS_LAMBDA(const size_t i) { return v[i] + c; });
            auto t = mb;
            for (size_t i = 0; i < n; i++) ma[i] = oAdd(t[i], c);
            break;
        }
        case 8:
        {
            auto t = mb;
            add(A, B);
            for (size_t i = 0; i < n; i++) ma[i] = oAdd(ma[i], t[i]);
            break;
        }
        case 9:
        {
            auto t = mb;
            sub(A, B);
            for (size_t i = 0; i < n; i++) ma[i] = oSub(ma[i], t[i]);
            break;
        }
        case 10:
        {
            // sums: only meaningful for values exact in any order
            std::vector<T> x(n);
            for (auto& y : x) y = rndVal<T>();
            Field<T> f(w.e, x);
            T s = rndVal<T>(), want {};
            SumKernel kern {};
            std::visit([&](const auto& ex) { kern(ex, f, s); }, w.e);
            for (auto& y : x) want = oAdd(want, y);
            if (!same(s, want)) sim::fail("wrong-sum", "sum of %zu entries on %s is %s instead of %s", n, execName(w.e), str(s).c_str(), str(want).c_str());
            expectContent("sum operand", f, x);
            break;
        }
        case 11: // all entries alike, or all but one
        {
            T v = n && sim::flip(sim::W, 1, 2) ? ma[0] : Ar<T>::rv();
            std::vector<T> x = sim::flip(sim::W, 1, 2) ? ma : std::vector<T>(n, v);
            if (n && sim::flip(sim::W, 1, 3)) x[sim::choose(sim::W, (uint32_t)n)] = Ar<T>::rv();
            bool want = true;
            for (auto& y : x) want = want && oEq(y, v);
            Field<T> f(w.e, x);
            if (equal(f, v) != want) sim::fail("wrong-equal", "equal(field, value) is %d", !want);
            expectContent("compared field", f, x);
            break;
        }
        case 12: // the same entries, other ones, one changed, one more or one fewer
        {
            std::vector<T> x = ma;
            switch (sim::choose(sim::W, 5))
            {
            case 0: break;
            case 1: x = mb; break;
            case 2:
                if (n) x[sim::choose(sim::W, (uint32_t)n)] = Ar<T>::rv();
                break;
            case 3: x.push_back(Ar<T>::rv()); break;
            default:
                if (n) x.pop_back();
            }
            bool want = x.size() == n;
            for (size_t i = 0; want && i < n; i++) want = oEq(ma[i], x[i]);
            Executor e2 = pickExec();
            Field<T> o(e2, x);
            {
                const Field<T>&ca = A, &co = o;
                if (equal(ca, co) != want) sim::fail("wrong-equal", "equal(field, field) is %d", !want);
                if (equal(co, ca) != want) sim::fail("wrong-equal", "equal of the exchanged fields is %d", !want);
                if (equal(ca, View<T>(x.data(), x.size())) != want) sim::fail("wrong-equal", "equal(field, view) is %d", !want);
            }
            expectContent("compared field", o, x);
            break;
        }
        case 13: // operands of different length are refused and nothing changes
        {
            Field<T> o(w.e, n + 1 + sim::choose(sim::W, 2), T {});
            std::vector<T> om = content(o);
            int which = (int)sim::choose(sim::W, 2);
            Outcome out = sim::attempt(
                [&]
                {
                    if (which) add(A, o);
                    else
                        sub(A, o);
                },
                0
            );
            if (out.ok()) sim::fail("wrong-outcome", "operands of different length were accepted");
            expectContent("refused operand", o, om);
            break;
        }
        case 14:
        {
            A = B;
            ma = std::vector<T>(mb);
            break;
        }
        case 15:
        {
            A = A;
            break;
        }
        case 20: // the algebra of the elements themselves, inside a kernel
            if constexpr (std::is_same_v<T, Vector>) vectorKernel(w.e, ma, mb);
            break;
        default:
            if constexpr (std::is_same_v<T, scalar>)
            {
                switch (k)
                {
                case 16:
                {
                    auto t = w.ms;
                    A *= *w.fs;
                    for (size_t i = 0; i < n; i++) ma[i] = ma[i] * t[i];
                    break;
                }
                case 17:
                {
                    auto r = A * *w.fs;
                    std::vector<T> x(n);
                    for (size_t i = 0; i < n; i++) x[i] = ma[i] * w.ms[i];
                    expectContent("operator*(field)", r, x);
                    break;
                }
                case 18:
                {
                    auto t = mb;
                    mul(A, B);
                    for (size_t i = 0; i < n; i++) ma[i] = ma[i] * t[i];
                    break;
                }
                default: break;
                }
            }
            if constexpr (!std::is_integral_v<T>)
            {
                scalar s = Ar<scalar>::rv();
                if (k == 19)
                {
                    auto r = A * s;
                    std::vector<T> x(n);
                    for (size_t i = 0; i < n; i++) x[i] = oScale(ma[i], s);
                    expectContent("operator*(scalar)", r, x);
                }
                else if (k == 16 && !std::is_same_v<T, scalar>)
                {
                    A *= s;
                    for (size_t i = 0; i < n; i++) ma[i] = oScale(ma[i], s);
                }
                else if (k == 17 && !std::is_same_v<T, scalar>)
                {
                    auto r = A * *w.fs;
                    std::vector<T> x(n);
                    for (size_t i = 0; i < n; i++) x[i] = oScale(ma[i], w.ms[i]);
                    expectContent("operator*(field of scalars)", r, x);
                }
                else if (k == 18 && !std::is_same_v<T, scalar>)
                {
                    if (sim::flip(sim::W, 1, 2)) mul(A, *w.fs);
                    else
                        A *= *w.fs;
                    for (size_t i = 0; i < n; i++) ma[i] = oScale(ma[i], w.ms[i]);
                }
                else if (k == 18 && std::is_same_v<T, scalar>)
                {
                    scalarMul(A, s);
                    for (size_t i = 0; i < n; i++) ma[i] = oScale(ma[i], s);
                }
            }
        }
        w.check("after an arithmetic operation");
    }
}
template<>
scalar Ar<scalar>::rv()
{
    scalar v = rndVal<scalar>();
    if (sim::flip(sim::W, 1, 3)) v *= factor();
    return v;
}
}

SIM_PROPERTY(F01, "a run counts as non-trivial when a parallel host or device kernel with at least two workers was executed")
{
    KernelMode km(true);
    sim::allowFaults(false);
    while (sim::nextOp(8))
    {
        uint32_t k = sim::choose(sim::W, 9);
        switch (k)
        {
        case 0: forRange(); break;
        case 1: forField<scalar>(); break;
        case 2: forField<Vector>(); break;
        case 3: reduceSum<scalar>(false); break;
        case 4: reduceSum<Vector>(false); break;
        case 5: reduceSum<label>(true); break;
        case 6: reduceExtremum(sim::flip(sim::W, 1, 2)); break;
        case 7: scan(); break;
        default: reduceSum<scalar>(true); break;
        }
        sim::nontrivial();
    }
    auto st = sim::memStat();
    if (st.kkBlocks + st.devBlocks) sim::fail("storage-leak", "storage left behind");
}
SIM_PROPERTY(F02, "a run counts as non-trivial when a field lived on the device or an allocation failed inside an operation")
{
    KernelMode km(true);
    sim::allowFaults(sim::flip(sim::W, 3, 4));
    switch (sim::choose(sim::W, 3))
    {
    case 0: fieldHistory<scalar>(); break;
    case 1: fieldHistory<label>(); break;
    default: fieldHistory<Vector>(); break;
    }
}
SIM_PROPERTY(F03, "a run counts as non-trivial when the fields have two or more entries and live on a parallel executor")
{
    KernelMode km(true);
    sim::allowFaults(false);
    switch (sim::choose(sim::W, 3))
    {
    case 0: arithHistory<scalar>(); break;
    case 1: arithHistory<label>(); break;
    default: arithHistory<Vector>(); break;
    }
    auto st = sim::memStat();
    if (st.kkBlocks + st.devBlocks) sim::fail("storage-leak", "storage left behind");
}
