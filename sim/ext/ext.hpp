// Shared by the stand-ins for external libraries: failures on demand and a count of live objects.
#pragma once
#include <Kokkos_Core.hpp>

#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace simext
{
struct State
{
    long live = 0;         ///< library objects not yet released
    bool initialised = false;
    bool faults = false;   ///< library calls may fail
    uint32_t calls = 0;    ///< since the last reset
    uint32_t failed = 0;   ///< calls that reported an error
    uint32_t solves = 0;
};
inline State& st()
{
    static State s;
    return s;
}
inline void reset()
{
    sim::Quiet q;
    st() = State();
}
/// does this call fail?
SIM_NOINST inline bool fails(const char* what)
{
    sim::yieldPoint();
    sim::Quiet q;
    st().calls++;
    if (!st().faults || !sim::flip(sim::F, 1, 10)) return false;
    st().failed++;
    sim::log("library call fails: %s", what);
    std::string s = std::string("fault:") + what;
    static std::map<std::string, std::string> names;
    sim::probe(names.emplace(s, s).first->second.c_str());
    return true;
}
struct Counted
{
    SIM_NOINST Counted() { st().live++; }
    SIM_NOINST Counted(const Counted&) { st().live++; }
    SIM_NOINST ~Counted() { st().live--; }
    Counted& operator=(const Counted&) = default;
};
/// dense elimination with partial pivoting; false: singular
SIM_NOINST inline bool eliminate(size_t n, std::vector<double> a, std::vector<double> b, std::vector<double>& x)
{
    for (size_t k = 0; k < n; k++)
    {
        size_t p = k;
        for (size_t i = k + 1; i < n; i++)
            if (std::fabs(a[i * n + k]) > std::fabs(a[p * n + k])) p = i;
        if (!(std::fabs(a[p * n + k]) > 1e-300)) return false;
        if (p != k)
        {
            for (size_t j = 0; j < n; j++) std::swap(a[p * n + j], a[k * n + j]);
            std::swap(b[p], b[k]);
        }
        for (size_t i = k + 1; i < n; i++)
        {
            double f = a[i * n + k] / a[k * n + k];
            if (f == 0) continue;
            for (size_t j = k; j < n; j++) a[i * n + j] -= f * a[k * n + j];
            b[i] -= f * b[k];
        }
    }
    x.assign(n, 0);
    for (size_t k = n; k-- > 0;)
    {
        double s = b[k];
        for (size_t j = k + 1; j < n; j++) s -= a[k * n + j] * x[j];
        x[k] = s / a[k * n + k];
    }
    return true;
}
/// raw storage of a library object on one side
template<class T>
struct Store
{
    T* p = nullptr;
    size_t n = 0;
    bool dev = false;
    SIM_NOINST void make(size_t n_, bool dev_)
    {
        drop();
        n = n_, dev = dev_;
        if (n) p = (T*)(dev ? sim::devAlloc(n * sizeof(T), "library") : sim::hostAlloc(n * sizeof(T), 64, "library"));
    }
    SIM_NOINST void drop()
    {
        if (p)
        {
            if (dev) sim::devFree(p);
            else
                sim::hostFree(p);
        }
        p = nullptr, n = 0;
    }
    Store() = default;
    Store(const Store&) = delete;
    ~Store() { drop(); }
};
template<class T>
SIM_NOINST std::vector<T> readFrom(const T* p, size_t n, sim::Space space, const char* what)
{
    if (n) sim::checkRange(p, n * sizeof(T), false, space, what);
    sim::Quiet q;
    return std::vector<T>(p, p + n);
}
template<class T>
SIM_NOINST void writeTo(T* p, const std::vector<T>& v, sim::Space space, const char* what)
{
    if (v.size()) sim::checkRange(p, v.size() * sizeof(T), true, space, what);
    sim::Quiet q;
    for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
}
}
