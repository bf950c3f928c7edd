// Helpers of the harnesses that run field code on the simulated executors.
#pragma once
#include "../sim/sim.hpp"
#include <Kokkos_Core.hpp>

#include <array>
#include <cmath>
#include <string>
#include <vector>

#include "NeoFOAM/core/executor/executor.hpp"
#include "NeoFOAM/core/primitives/vector.hpp"
#include "NeoFOAM/core/primitives/label.hpp"
#include "NeoFOAM/core/primitives/scalar.hpp"
#include "NeoFOAM/fields/field.hpp"

namespace hk
{
using NeoFOAM::Executor;
using NeoFOAM::label;
using NeoFOAM::localIdx;
using NeoFOAM::scalar;
using NeoFOAM::Vector;
using sim::Outcome;
using sim::Quiet;
using sim::Res;

inline Executor execOf(unsigned k)
{
    if (k == 0) return NeoFOAM::SerialExecutor();
    if (k == 1) return NeoFOAM::CPUExecutor();
    return NeoFOAM::GPUExecutor();
}
inline const char* execName(const Executor& e)
{
    static const char* n[] = {"serial", "cpu", "gpu"};
    return n[e.index()];
}
/// serial is the simplest, but most runs use the parallel ones
inline Executor pickExec()
{
    return execOf(sim::chooseAs(sim::W, 3, sim::rnd(sim::W, 5) == 0 ? 0 : 1 + sim::rnd(sim::W, 2)));
}

// ---- values: small integers are exact in every order of summation
template<class T>
T mk(int v);
template<>
inline scalar mk<scalar>(int v)
{
    return v;
}
template<>
inline label mk<label>(int v)
{
    return v;
}
template<>
inline localIdx mk<localIdx>(int v)
{
    return (localIdx)(v < 0 ? -v : v);
}
template<>
inline Vector mk<Vector>(int v)
{
    return Vector(v, v % 3 - 1, 7 - v);
}
template<class T>
T rndVal()
{
    return mk<T>((int)sim::choose(sim::W, 19) - 9);
}
/// the components of a value, and its algebra, without the code under test
inline std::array<scalar, 3> comps(const Vector& v)
{
    std::array<scalar, 3> a;
    static_assert(sizeof a == sizeof v);
    memcpy(a.data(), (const void*)&v, sizeof a);
    return a;
}
inline Vector vec(const std::array<scalar, 3>& a)
{
    Vector v;
    memcpy((void*)&v, a.data(), sizeof a);
    return v;
}
template<class T>
T oAdd(const T& a, const T& b)
{
    return (T)(a + b);
}
template<class T>
T oSub(const T& a, const T& b)
{
    return (T)(a - b);
}
template<class T>
T oScale(const T& a, scalar s)
{
    return a * s;
}
template<>
inline Vector oAdd(const Vector& a, const Vector& b)
{
    auto x = comps(a), y = comps(b);
    return vec({x[0] + y[0], x[1] + y[1], x[2] + y[2]});
}
template<>
inline Vector oSub(const Vector& a, const Vector& b)
{
    auto x = comps(a), y = comps(b);
    return vec({x[0] - y[0], x[1] - y[1], x[2] - y[2]});
}
template<>
inline Vector oScale(const Vector& a, scalar s)
{
    auto x = comps(a);
    return vec({x[0] * s, x[1] * s, x[2] * s});
}
template<class T>
bool oEq(const T& a, const T& b)
{
    return a == b;
}
template<>
inline bool oEq(const Vector& a, const Vector& b)
{
    return comps(a) == comps(b);
}
template<class T>
bool same(const T& a, const T& b)
{
    if (memcmp((const void*)&a, (const void*)&b, sizeof(T)) == 0 || oEq(a, b)) return true;
    if constexpr (std::is_floating_point_v<T>) return std::isnan(a) && std::isnan(b);
    if constexpr (std::is_same_v<T, Vector>)
    {
        auto x = comps(a), y = comps(b);
        for (int i = 0; i < 3; i++)
            if (!(x[i] == y[i] || (std::isnan(x[i]) && std::isnan(y[i])))) return false;
        return true;
    }
    return false;
}
inline std::string str(scalar v)
{
    char b[40];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}
inline std::string str(label v) { return std::to_string(v); }
inline std::string str(localIdx v) { return std::to_string(v); }
inline std::string str(uint8_t v) { return std::to_string(v); }
inline std::string str(const Vector& v) { return "(" + str(v[0]) + " " + str(v[1]) + " " + str(v[2]) + ")"; }

/// content of a field, read by the oracle whatever side it lives on
template<class T>
std::vector<T> content(const NeoFOAM::Field<T>& f)
{
    Quiet q;
    return std::vector<T>(f.data(), f.data() + f.size());
}
template<class T>
std::string diff(const std::vector<T>& got, const std::vector<T>& want)
{
    if (got.size() != want.size()) return "size " + std::to_string(got.size()) + " instead of " + std::to_string(want.size());
    for (size_t i = 0; i < got.size(); i++)
        if (!same(got[i], want[i])) return "entry " + std::to_string(i) + " is " + str(got[i]) + " instead of " + str(want[i]);
    return "";
}
template<class T>
void expectContent(const char* what, const NeoFOAM::Field<T>& f, const std::vector<T>& want)
{
    Quiet q;
    std::string d = diff(content(f), want);
    if (!d.empty()) sim::fail("wrong-content", "%s (%s): %s", what, execName(f.exec()), d.c_str());
}
/// data lives on the side its executor says
template<class T>
void expectPlaced(const char* what, const NeoFOAM::Field<T>& f)
{
    Quiet q;
    if (f.data() == nullptr)
    {
        if (f.size()) sim::fail("wrong-placement", "%s: non-empty field without storage", what);
        return;
    }
    if (!sim::isLiveBlock(f.data())) sim::fail("wrong-placement", "%s: field storage is not a live allocation", what);
    if (sim::allocSize((void*)f.data()) < f.size() * sizeof(T)) sim::fail("wrong-placement", "%s: storage is smaller than the field", what);
    if (sim::isDevicePtr(f.data()) != (f.exec().index() == 2)) sim::fail("wrong-placement", "%s: storage of a field on the %s executor is on the other side", what, execName(f.exec()));
}
inline void expectOk(const char* op, const Outcome& o)
{
    if (o.ok()) return;
    if (o.res == Res::BadAlloc && o.faultFired) return;
    sim::fail("wrong-outcome", "%s: outcome %s (%s)", op, sim::resName(o.res), o.what);
}
/// every random run of parallel work wants preemption inside kernels
struct KernelMode
{
    explicit KernelMode(bool races)
    {
        sim::setKernelPreempt(true);
        sim::raceDetect(races);
    }
};
}
