// Stand-in for the Kokkos library, backed by the simulator: every launch asks the seeded scheduler
// for workers, iteration assignment and interleaving; host and device are separate address spaces.
#pragma once
#include "../sim.hpp"

#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cstdint>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <map>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <cmath>
#include <concepts>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <span>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace sim
{
void* functorAlloc(size_t n, size_t align);
void functorFree(void* p);
}

#define KOKKOS_VERSION 40500
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
#define KOKKOS_DEFAULTED_FUNCTION
#define KOKKOS_INLINE_FUNCTION_DELETED
#define KOKKOS_IMPL_FORCEINLINE_FUNCTION inline
#define KOKKOS_DEDUCTION_GUIDE
#define KOKKOS_RESTRICT __restrict__
#define KOKKOS_ASSERT(x) assert(x)
#define KOKKOS_EXPECTS(x) assert(x)
#define KOKKOS_ENSURES(x) assert(x)
#define KOKKOS_IF_ON_HOST(x) KOKKOS_STUB_STRIP x
#define KOKKOS_IF_ON_DEVICE(x)
#define KOKKOS_STUB_STRIP(...) __VA_ARGS__
#define KOKKOS_ENABLE_SERIAL

namespace Kokkos
{
// ------------------------------------------------------------------ spaces
struct MemoryUnmanaged
{
};
struct MemoryManaged
{
};
struct LayoutStride
{
};
template<unsigned>
struct MemoryTraits
{
};
enum MemoryTraitsFlags
{
    Unmanaged = 1,
    RandomAccess = 2,
    Atomic = 4,
    Restrict = 8,
    Aligned = 16
};
struct Static
{
};
struct Dynamic
{
};
template<class>
struct Schedule
{
};
template<class>
struct IndexType
{
};
struct LayoutRight
{
};
struct LayoutLeft
{
};
struct HostSpace
{
    using memory_space = HostSpace;
    static constexpr sim::Space simSpace = sim::Space::Host;
    static constexpr bool isSpace = true;
};
struct SimDeviceSpace
{
    using memory_space = SimDeviceSpace;
    static constexpr sim::Space simSpace = sim::Space::Device;
    static constexpr bool isSpace = true;
};
struct Serial
{
    using memory_space = HostSpace;
    using execution_space = Serial;
    using size_type = size_t;
    static constexpr sim::Space simSpace = sim::Space::Host;
    static constexpr bool isSpace = true;
    static constexpr bool sequential = true;
    void fence(const std::string& = "") const {}
    int concurrency() const { return 1; }
    static const char* name() { return "Serial"; }
    friend bool operator==(const Serial&, const Serial&) { return true; }
    friend bool operator!=(const Serial&, const Serial&) { return false; }
};
struct SimHost
{
    using memory_space = HostSpace;
    using execution_space = SimHost;
    using size_type = size_t;
    static constexpr sim::Space simSpace = sim::Space::Host;
    static constexpr bool isSpace = true;
    static constexpr bool sequential = false;
    void fence(const std::string& = "") const {}
    int concurrency() const { return 4; }
    static const char* name() { return "SimHost"; }
    friend bool operator==(const SimHost&, const SimHost&) { return true; }
    friend bool operator!=(const SimHost&, const SimHost&) { return false; }
};
struct SimDevice
{
    using memory_space = SimDeviceSpace;
    using execution_space = SimDevice;
    using size_type = size_t;
    static constexpr sim::Space simSpace = sim::Space::Device;
    static constexpr bool isSpace = true;
    static constexpr bool sequential = false;
    void fence(const std::string& = "") const {}
    int concurrency() const { return 4; }
    static const char* name() { return "SimDevice"; }
    friend bool operator==(const SimDevice&, const SimDevice&) { return true; }
    friend bool operator!=(const SimDevice&, const SimDevice&) { return false; }
};
using DefaultHostExecutionSpace = SimHost;
template<class A, class M>
struct SpaceAccessibility
{
    static constexpr bool accessible = A::simSpace == M::simSpace;
    static constexpr bool assignable = accessible;
    static constexpr bool deepcopy = true;
};
template<class E>
struct is_execution_space
{
    static constexpr bool value = requires { E::sequential; };
};
template<class E>
inline constexpr bool is_execution_space_v = is_execution_space<E>::value;
template<class E>
struct is_memory_space
{
    static constexpr bool value = requires { E::isSpace; } && !is_execution_space<E>::value;
};
template<class E>
inline constexpr bool is_memory_space_v = is_memory_space<E>::value;
using DefaultExecutionSpace = SimDevice;

// ------------------------------------------------------------------ environment
struct InitializationSettings
{
};
template<class... A>
void initialize(A&&...)
{}
inline void finalize() {}
inline bool is_initialized() { return true; }
struct ScopeGuard
{
    template<class... A>
    ScopeGuard(A&&...)
    {}
};
inline bool is_finalized() { return false; }
inline void fence(const std::string& = "") {}
inline void memory_fence() {}
inline void load_fence() {}
inline void store_fence() {}
namespace Profiling
{
inline void pushRegion(const std::string&) {}
inline void popRegion() {}
inline void markEvent(const std::string&) {}
struct ScopedRegion
{
    explicit ScopedRegion(const std::string&) {}
};
}
struct Timer
{
    void reset() {}
    double seconds() const { return 0.0; }
};
inline int device_id() { return 0; }
inline int num_threads() { return 4; }
[[noreturn]] inline void abort(const char* m)
{
    fprintf(stderr, "%s\n", m);
    ::abort();
}
template<class... A>
void printf(const char* f, A... a)
{
    ::printf(f, a...);
}

// ------------------------------------------------------------------ math
using std::abs;
using std::ceil;
using std::cos;
using std::exp;
using std::fabs;
using std::floor;
using std::fmax;
using std::fmin;
using std::isfinite;
using std::isinf;
using std::isnan;
using std::log;
using std::max;
using std::min;
using std::pow;
using std::sin;
using std::sqrt;
using std::tan;
using std::clamp;
using std::swap;
using std::hypot;
using std::copysign;
using std::signbit;
using std::acos;
using std::asin;
using std::atan;
using std::atan2;
using std::cbrt;
using std::cosh;
using std::erf;
using std::exp2;
using std::expm1;
using std::fma;
using std::fmod;
using std::log10;
using std::log1p;
using std::log2;
using std::minmax;
using std::round;
using std::sinh;
using std::tanh;
using std::trunc;
template<class T>
inline void kokkos_swap(T& a, T& b)
{
    T t(std::move(a));
    a = std::move(b);
    b = std::move(t);
}
template<class T, size_t N>
struct Array : std::array<T, N>
{
};
template<class T, class... U>
Array(T, U...) -> Array<T, 1 + sizeof...(U)>;
namespace numbers
{
inline constexpr double pi = 3.14159265358979323846;
inline constexpr double e = 2.71828182845904523536;
inline constexpr double sqrt2 = 1.41421356237309504880;
}
template<class T>
struct reduction_identity
{
    static constexpr T sum() { return T(); }
    static constexpr T prod() { return T(1); }
    static constexpr T max() { return std::numeric_limits<T>::lowest(); }
    static constexpr T min() { return std::numeric_limits<T>::max(); }
};
namespace Experimental
{
template<class T>
struct epsilon
{
    static constexpr T value = std::numeric_limits<T>::epsilon();
};
template<class T>
inline constexpr T epsilon_v = std::numeric_limits<T>::epsilon();
template<class T>
inline constexpr T infinity_v = std::numeric_limits<T>::infinity();
template<class T>
inline constexpr T finite_max_v = std::numeric_limits<T>::max();
template<class T>
inline constexpr T finite_min_v = std::numeric_limits<T>::lowest();
template<class T>
inline constexpr T quiet_NaN_v = std::numeric_limits<T>::quiet_NaN();
}

template<class A, class B>
struct pair
{
    using first_type = A;
    using second_type = B;
    A first {};
    B second {};
    constexpr pair() = default;
    constexpr pair(const A& a, const B& b) : first(a), second(b) {}
    template<class U, class V>
    constexpr pair(const pair<U, V>& o) : first(o.first), second(o.second)
    {}
    template<class U, class V>
    constexpr pair(const std::pair<U, V>& o) : first(o.first), second(o.second)
    {}
    std::pair<A, B> to_std_pair() const { return {first, second}; }
    friend constexpr bool operator==(const pair& a, const pair& b)
    {
        return a.first == b.first && a.second == b.second;
    }
};
template<class A, class B>
constexpr pair<A, B> make_pair(A a, B b)
{
    return pair<A, B>(a, b);
}

// ------------------------------------------------------------------ memory
struct SimMem
{
    template<class Sp>
    SIM_NOINST static void* get(size_t n)
    {
        if (n == 0) return nullptr;
        return raw<Sp>(n);
    }
    template<class Sp>
    SIM_NOINST static void* raw(size_t n)
    {
        void* p = Sp::simSpace == sim::Space::Device ? sim::devAlloc(n, "kokkos") : sim::hostAlloc(n, 64, "kokkos");
        sim::Quiet q;
        memset(p, 0xff, n); // NaN / -1: fresh storage has no usable content
        return p;
    }
    template<class Sp>
    SIM_NOINST static void put(void* p)
    {
        if (!p) return;
        constexpr bool dev = Sp::simSpace == sim::Space::Device;
        if (sim::isDevicePtr(p) != dev)
            sim::fail("memory-space", "a %s allocation was released as %s memory", dev ? "host" : "device", dev ? "device" : "host");
        if constexpr (dev) sim::devFree(p);
        else
            sim::hostFree(p);
    }
    SIM_NOINST static void copy(void* d, const void* s, size_t n)
    {
        sim::Quiet q;
        memmove(d, s, n);
    }
};

template<class Sp = DefaultExecutionSpace>
void* kokkos_malloc(const std::string&, size_t n)
{
    return SimMem::get<Sp>(n);
}
template<class Sp = DefaultExecutionSpace>
void* kokkos_malloc(const char*, size_t n)
{
    return SimMem::get<Sp>(n);
}
template<class Sp = DefaultExecutionSpace>
void* kokkos_malloc(size_t n)
{
    return SimMem::get<Sp>(n);
}
template<class Sp = DefaultExecutionSpace>
void kokkos_free(void* p)
{
    SimMem::put<Sp>(p);
}
template<class Sp = DefaultExecutionSpace>
void* kokkos_realloc(void* p, size_t n)
{
    if (!p) throw std::runtime_error("Kokkos::kokkos_realloc: passed a null pointer");
    constexpr bool dev = Sp::simSpace == sim::Space::Device;
    if (!sim::isLiveBlock(p)) sim::fail("wild-realloc", "realloc of something that is not a live allocation");
    if (sim::isDevicePtr(p) != dev) sim::fail("memory-space", "realloc of memory of the other side");
    size_t old = sim::allocSize(p);
    void* q = SimMem::raw<Sp>(n);
    SimMem::copy(q, p, old < n ? old : n);
    SimMem::put<Sp>(p);
    return q;
}

// ------------------------------------------------------------------ atomics
namespace SimAtomic
{
template<class T, class Fn>
SIM_NOINST T apply(T* p, Fn fn)
{
    sim::atomicSync((void*)p, sizeof(T), true);
    sim::Quiet q;
    T old = *p;
    *p = fn(old);
    return old;
}
}
#define SIM_ATOMIC(NAME, EXPR)                                                                     \
    template<class T>                                                                              \
    T atomic_fetch_##NAME(T* p, const std::type_identity_t<T> v)                                   \
    {                                                                                              \
        return SimAtomic::apply(p, [&](const T& o) -> T { return EXPR; });                         \
    }                                                                                              \
    template<class T>                                                                              \
    T atomic_##NAME##_fetch(T* p, const std::type_identity_t<T> v)                                 \
    {                                                                                              \
        T r {};                                                                                    \
        SimAtomic::apply(p, [&](const T& o) -> T { return r = (EXPR); });                          \
        return r;                                                                                  \
    }                                                                                              \
    template<class T>                                                                              \
    void atomic_##NAME(T* p, const std::type_identity_t<T> v)                                      \
    {                                                                                              \
        SimAtomic::apply(p, [&](const T& o) -> T { return EXPR; });                                \
    }
SIM_ATOMIC(add, o + v)
SIM_ATOMIC(sub, o - v)
SIM_ATOMIC(mul, o* v)
SIM_ATOMIC(div, o / v)
SIM_ATOMIC(max, o < v ? v : o)
SIM_ATOMIC(min, v < o ? v : o)
SIM_ATOMIC(and, o& v)
SIM_ATOMIC(or, o | v)
SIM_ATOMIC(xor, o ^ v)
#undef SIM_ATOMIC
template<class T>
void atomic_increment(T* p)
{
    SimAtomic::apply(p, [](const T& o) -> T { return T(o + 1); });
}
template<class T>
void atomic_decrement(T* p)
{
    SimAtomic::apply(p, [](const T& o) -> T { return T(o - 1); });
}
template<class T>
void atomic_inc(T* p)
{
    atomic_increment(p);
}
template<class T>
void atomic_dec(T* p)
{
    atomic_decrement(p);
}
template<class T>
T atomic_fetch_inc(T* p)
{
    return SimAtomic::apply(p, [](const T& o) -> T { return T(o + 1); });
}
template<class T>
T atomic_fetch_dec(T* p)
{
    return SimAtomic::apply(p, [](const T& o) -> T { return T(o - 1); });
}
template<class T>
T atomic_inc_fetch(T* p)
{
    return T(atomic_fetch_inc(p) + 1);
}
template<class T>
T atomic_dec_fetch(T* p)
{
    return T(atomic_fetch_dec(p) - 1);
}
template<class T>
void atomic_assign(T* p, const std::type_identity_t<T> v)
{
    SimAtomic::apply(p, [&](const T&) -> T { return v; });
}
template<class T>
void atomic_store(T* p, const std::type_identity_t<T> v)
{
    SimAtomic::apply(p, [&](const T&) -> T { return v; });
}
template<class T>
T atomic_exchange(T* p, const std::type_identity_t<T> v)
{
    return SimAtomic::apply(p, [&](const T&) -> T { return v; });
}
template<class T>
T atomic_compare_exchange(T* p, const std::type_identity_t<T> c, const std::type_identity_t<T> v)
{
    return SimAtomic::apply(p, [&](const T& o) -> T { return o == c ? v : o; });
}
template<class T>
bool atomic_compare_exchange_strong(T* p, const std::type_identity_t<T> c, const std::type_identity_t<T> v)
{
    return atomic_compare_exchange(p, c, v) == c;
}
template<class T>
SIM_NOINST T atomic_load(T* p)
{
    sim::atomicSync((void*)p, sizeof(T), false);
    sim::Quiet q;
    return *p;
}

// ------------------------------------------------------------------ views
namespace SimImpl
{
template<class Def, class... A>
struct FindSpace
{
    using type = Def;
};
template<class Def, class A, class... R>
struct FindSpace<Def, A, R...>
{
    static auto pick()
    {
        if constexpr (requires { A::isSpace; }) return std::type_identity<A> {};
        else
            return std::type_identity<typename FindSpace<Def, R...>::type> {};
    }
    using type = typename decltype(pick())::type;
};
}
struct SimViewAlloc
{
};
struct SimWithoutInit
{
};
inline constexpr SimWithoutInit WithoutInitializing {};
template<class... A>
SimViewAlloc view_alloc(const A&...)
{
    return {};
}
struct ALL_t
{
};
inline constexpr ALL_t ALL {};
template<class DT, class... Args>
class View
{
    using T = std::remove_pointer_t<DT>;

public:

    using Space = typename SimImpl::FindSpace<DefaultExecutionSpace, Args...>::type;
    using value_type = T;
    using memory_space = typename Space::memory_space;
    static constexpr sim::Space simSpace = Space::simSpace;
    static constexpr bool unmanaged = (std::is_same_v<Args, MemoryUnmanaged> || ...);

    using execution_space = Space;
    using device_type = Space;
    using non_const_value_type = std::remove_cv_t<T>;
    using const_type = View<const T*, Args...>;
    using HostMirror = View<T*, HostSpace>;
    using size_type = size_t;
    using pointer_type = T*;
    using reference_type = T&;
    static constexpr unsigned rank = std::is_pointer_v<DT> ? 1 : 0;
    static constexpr size_t Rank = rank;

    View() = default;
    View(T* p, size_t n) : p_(p), n_(n) {}
    View(T* p)
        requires(rank == 0)
        : p_(p), n_(1)
    {}
    View(const std::string& s)
        requires(rank == 0)
        : View(s, 1)
    {}
    View(const SimViewAlloc&, size_t n = 1) : View(std::string(), n) {}
    View(const std::string&, size_t n)
        : own_(SimMem::get<Space>(n * sizeof(T)), [](void* q) { SimMem::put<Space>(q); }), n_(n)
    {
        p_ = static_cast<std::remove_cv_t<T>*>(own_.get());
        if (n)
        {
            sim::Quiet q;
            memset((void*)p_, 0, n * sizeof(T));
        }
    }
    template<class U, class... B>
    View(const View<U, B...>& o) : own_(o.own_), p_(o.data()), n_(o.size())
    {}
    template<class U, class... B>
    View(const View<U, B...>& o, size_t b, size_t e) : own_(o.own_), p_(o.data() + b), n_(e - b)
    {}
    T& operator()(size_t i) const { return p_[i]; }
    T& operator[](size_t i) const { return p_[i]; }
    T& operator()() const { return *p_; }
    T* data() const { return p_; }
    size_t size() const { return n_; }
    size_t extent(size_t) const { return n_; }
    size_t span() const { return n_; }
    int extent_int(size_t) const { return (int)n_; }
    bool is_allocated() const { return p_ != nullptr; }
    bool span_is_contiguous() const { return true; }
    int use_count() const { return (int)own_.use_count(); }
    std::string label() const { return {}; }

    std::shared_ptr<void> own_;

private:

    T* p_ = nullptr;
    size_t n_ = 0;
};
template<class A, class... PA, class B, class... PB>
void deep_copy(const View<A, PA...>& d, const View<B, PB...>& s)
{
    if (d.size() != s.size()) throw std::runtime_error("Kokkos::deep_copy: extents do not match");
    size_t n = d.size() * sizeof(*d.data());
    if (n == 0) return;
    sim::checkRange(s.data(), n, false, View<B, PB...>::simSpace, "deep_copy source");
    sim::checkRange(d.data(), n, true, View<A, PA...>::simSpace, "deep_copy destination");
    sim::probe("deep-copies");
    SimMem::copy((void*)d.data(), s.data(), n);
}
template<class A, class... PA>
void deep_copy(const View<A, PA...>& d, const std::type_identity_t<std::remove_pointer_t<A>>& v)
{
    sim::checkRange(d.data(), d.size() * sizeof(v), true, View<A, PA...>::simSpace, "deep_copy destination");
    sim::Quiet q;
    for (size_t i = 0; i < d.size(); i++) d.data()[i] = v;
}

template<class T, class A, class... PA>
    requires(std::is_same_v<T, std::remove_cv_t<std::remove_pointer_t<A>>>)
void deep_copy(T& d, const View<A, PA...>& s)
{
    sim::checkRange(s.data(), sizeof(T), false, View<A, PA...>::simSpace, "deep_copy source");
    SimMem::copy((void*)&d, s.data(), sizeof(T));
}
template<class E, class A, class... PA, class S>
    requires(is_execution_space<E>::value)
void deep_copy(const E&, const View<A, PA...>& d, const S& s)
{
    deep_copy(d, s);
}
template<class A, class... PA>
auto create_mirror(const View<A, PA...>& v)
{
    return View<std::remove_cv_t<std::remove_pointer_t<A>>*, HostSpace>("mirror", v.size());
}
template<class Sp, class A, class... PA>
    requires(requires { Sp::isSpace; })
auto create_mirror(const Sp&, const View<A, PA...>& v)
{
    return View<std::remove_cv_t<std::remove_pointer_t<A>>*, Sp>("mirror", v.size());
}
template<class A, class... PA>
auto create_mirror_view(const View<A, PA...>& v)
{
    using M = View<std::remove_cv_t<std::remove_pointer_t<A>>*, HostSpace>;
    if constexpr (View<A, PA...>::simSpace == sim::Space::Host) return M(v);
    else
        return M("mirror", v.size());
}
template<class Sp, class A, class... PA>
    requires(requires { Sp::isSpace; })
auto create_mirror_view(const Sp&, const View<A, PA...>& v)
{
    using M = View<std::remove_cv_t<std::remove_pointer_t<A>>*, Sp>;
    if constexpr (View<A, PA...>::simSpace == Sp::simSpace && !std::is_const_v<std::remove_pointer_t<A>>) return M(v);
    else
        return M("mirror", v.size());
}
template<class Sp, class A, class... PA>
    requires(requires { Sp::isSpace; })
auto create_mirror_view_and_copy(const Sp&, const View<A, PA...>& v, const std::string& = "")
{
    using M = View<std::remove_cv_t<std::remove_pointer_t<A>>*, Sp>;
    if constexpr (View<A, PA...>::simSpace == Sp::simSpace && !std::is_const_v<std::remove_pointer_t<A>>) return M(v);
    else
    {
        M m("mirror", v.size());
        deep_copy(m, v);
        return m;
    }
}
template<class A, class... PA>
auto subview(const View<A, PA...>& v, ALL_t)
{
    return v;
}
template<class A, class... PA, class P>
    requires(requires(P p) { p.first; p.second; })
auto subview(const View<A, PA...>& v, const P& r)
{
    return View<A, PA...>(v, (size_t)r.first, (size_t)r.second);
}
template<class A, class... PA>
void realloc(View<A, PA...>& v, size_t n)
{
    v = View<A, PA...>();
    v = View<A, PA...>("", n);
}
template<class A, class... PA>
void resize(View<A, PA...>& v, size_t n)
{
    View<A, PA...> w("", n);
    size_t k = n < v.size() ? n : v.size();
    if (k) SimMem::copy((void*)w.data(), v.data(), k * sizeof(*v.data()));
    v = w;
}

// ------------------------------------------------------------------ policies
template<class... A>
struct RangePolicy
{
    using execution_space = typename SimImpl::FindSpace<DefaultExecutionSpace, A...>::type;
    using member_type = size_t;
    using index_type = size_t;
    size_t b = 0, e = 0;
    RangePolicy() = default;
    RangePolicy(size_t b_, size_t e_) : b(b_), e(e_) { check(); }
    RangePolicy(const execution_space&, size_t b_, size_t e_) : b(b_), e(e_) { check(); }
    size_t begin() const { return b; }
    size_t end() const { return e; }

private:

    void check()
    {
        if (b > e)
            sim::fail("bad-range", "parallel range [%zu,%zu) has its lower bound above its upper bound", b, e);
    }
};
template<class E>
    requires(is_execution_space<E>::value)
RangePolicy(const E&, size_t, size_t) -> RangePolicy<E>;
RangePolicy(size_t, size_t) -> RangePolicy<>;
struct ParallelForTag
{
};
struct ParallelReduceTag
{
};
struct ParallelScanTag
{
};

namespace SimImpl
{
/// the functor as the backend holds it: a private copy reachable from host and device
template<class F>
struct Held
{
    F* f;
    SIM_NOINST explicit Held(const F& src)
    {
        void* m = sim::functorAlloc(sizeof(F), alignof(F) < 16 ? 16 : alignof(F));
        try
        {
            f = new (m) F(src);
        }
        catch (...)
        {
            sim::functorFree(m);
            throw;
        }
    }
    SIM_NOINST ~Held()
    {
        f->~F();
        sim::functorFree(f);
    }
    Held(const Held&) = delete;
};
template<class F>
struct ForCtx
{
    const F* f;
    size_t base;
    SIM_NOINST static void call(void* c, size_t i)
    {
        auto* x = static_cast<ForCtx*>(c);
        (*x->f)(x->base + i);
    }
};
template<class T>
SIM_NOINST T* arr(size_t n)
{
    T* p = static_cast<T*>(sim::functorAlloc(n * sizeof(T) + 16, 16));
    for (size_t i = 0; i < n; i++) new (p + i) T();
    return p;
}
template<class T>
SIM_NOINST void unarr(T* p)
{
    sim::functorFree(p);
}
template<class Exec>
SIM_NOINST size_t chunks(size_t n, size_t* b)
{
    if (n == 0) return 0;
    if (Exec::sequential || sim::isQuiet())
    {
        b[0] = 0;
        b[1] = n;
        return 1;
    }
    return sim::kernelChunks(n, b, 8);
}
}

template<class Exec, class... R, class F>
SIM_NOINST void simFor(size_t b, size_t e, const F& fn)
{
    if (b == e) return;
    SimImpl::Held<F> h(fn);
    if constexpr (Exec::sequential)
    {
        for (size_t i = b; i < e; i++) (*h.f)(i);
    }
    else
    {
        auto* c = static_cast<SimImpl::ForCtx<F>*>(sim::functorAlloc(sizeof(SimImpl::ForCtx<F>), 16));
        c->f = h.f;
        c->base = b;
        sim::kernel(e - b, {&SimImpl::ForCtx<F>::call, c}, Exec::simSpace);
        sim::functorFree(c);
    }
}
template<class... A, class F>
void parallel_for(const std::string&, const RangePolicy<A...>& p, const F& f)
{
    simFor<typename RangePolicy<A...>::execution_space>(p.begin(), p.end(), f);
}
template<class... A, class F>
void parallel_for(const RangePolicy<A...>& p, const F& f)
{
    simFor<typename RangePolicy<A...>::execution_space>(p.begin(), p.end(), f);
}
template<class F>
void parallel_for(const std::string&, size_t n, const F& f)
{
    simFor<DefaultExecutionSpace>(0, n, f);
}
template<class F>
void parallel_for(size_t n, const F& f)
{
    simFor<DefaultExecutionSpace>(0, n, f);
}

// ------------------------------------------------------------------ reductions
struct SimReducerTag
{
};
template<class R>
struct is_reducer
{
    static constexpr bool value = std::is_base_of_v<SimReducerTag, R>;
};
template<class R>
inline constexpr bool is_reducer_v = is_reducer<R>::value;
#define SIM_REDUCER(NAME, INIT, JOIN)                                                              \
    template<class T, class Sp = HostSpace>                                                        \
    struct NAME : SimReducerTag                                                                    \
    {                                                                                              \
        using reducer = NAME;                                                                      \
        using value_type = std::remove_cv_t<T>;                                                    \
        using result_view_type = View<value_type*, HostSpace, MemoryUnmanaged>;                    \
        value_type* r;                                                                             \
        NAME(value_type& v) : r(&v) {}                                                             \
        void join(value_type& a, const value_type& b) const { JOIN; }                              \
        void init(value_type& v) const { v = INIT; }                                               \
        value_type& reference() const { return *r; }                                               \
        bool references_scalar() const { return true; }                                            \
    };                                                                                             \
    template<class T>                                                                              \
    NAME(T&)->NAME<T, HostSpace>;
SIM_REDUCER(Sum, value_type(), a += b)
SIM_REDUCER(Prod, value_type(1), a *= b)
SIM_REDUCER(Max, std::numeric_limits<value_type>::lowest(), if (a < b) a = b)
SIM_REDUCER(Min, std::numeric_limits<value_type>::max(), if (b < a) a = b)
SIM_REDUCER(LAnd, value_type(1), a = a && b)
SIM_REDUCER(LOr, value_type(0), a = a || b)
SIM_REDUCER(BAnd, value_type(~value_type(0)), a = a & b)
SIM_REDUCER(BOr, value_type(0), a = a | b)
#undef SIM_REDUCER
template<class T>
struct MinMaxScalar
{
    T min_val {}, max_val {};
};
template<class T, class I>
struct ValLocScalar
{
    T val {};
    I loc {};
};
template<class T, class Sp = HostSpace>
struct MinMax : SimReducerTag
{
    using reducer = MinMax;
    using value_type = MinMaxScalar<T>;
    value_type* r;
    MinMax(value_type& v) : r(&v) {}
    void join(value_type& a, const value_type& b) const
    {
        if (b.min_val < a.min_val) a.min_val = b.min_val;
        if (a.max_val < b.max_val) a.max_val = b.max_val;
    }
    void init(value_type& v) const { v = {std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest()}; }
    value_type& reference() const { return *r; }
};
#define SIM_LOC(NAME, INIT, BETTER)                                                                \
    template<class T, class I, class Sp = HostSpace>                                               \
    struct NAME : SimReducerTag                                                                    \
    {                                                                                              \
        using reducer = NAME;                                                                      \
        using value_type = ValLocScalar<T, I>;                                                     \
        value_type* r;                                                                             \
        NAME(value_type& v) : r(&v) {}                                                             \
        void join(value_type& a, const value_type& b) const                                        \
        {                                                                                          \
            if (BETTER) a = b;                                                                     \
        }                                                                                          \
        void init(value_type& v) const { v = {INIT, I()}; }                                        \
        value_type& reference() const { return *r; }                                               \
    };
SIM_LOC(MaxLoc, std::numeric_limits<T>::lowest(), a.val < b.val)
SIM_LOC(MinLoc, std::numeric_limits<T>::max(), b.val < a.val)
#undef SIM_LOC

namespace SimImpl
{
template<class T>
struct PlainReducer
{
    using value_type = T;
    T* r;
    void join(T& a, const T& b) const { a += b; }
    void init(T& v) const { v = T(); }
    T& reference() const { return *r; }
};
template<class F, class T>
struct RedCtx
{
    const F* f;
    size_t base;
    size_t bounds[9];
    T* part;
    SIM_NOINST static void call(void* c, size_t k)
    {
        auto* x = static_cast<RedCtx*>(c);
        for (size_t i = x->bounds[k]; i < x->bounds[k + 1]; i++) (*x->f)(x->base + i, x->part[k]);
    }
};
template<class Exec, class F, class R>
SIM_NOINST void reduce(size_t b, size_t e, const F& fn, const R& red)
{
    using T = typename R::value_type;
    Held<F> h(fn);
    auto* c = arr<RedCtx<F, T>>(1);
    size_t n = chunks<Exec>(e - b, c->bounds);
    c->f = h.f;
    c->base = b;
    T* part = arr<T>(n + 1);
    c->part = part;
    for (size_t i = 0; i <= n; i++) red.init(part[i]);
    if constexpr (Exec::sequential)
    {
        for (size_t k = 0; k < n; k++) RedCtx<F, T>::call(c, k);
    }
    else
        sim::kernel(n, {&RedCtx<F, T>::call, c}, Exec::simSpace);
    // partial results are combined in any order
    T acc = part[n];
    size_t left = n;
    size_t idx[8];
    for (size_t i = 0; i < n; i++) idx[i] = i;
    while (left)
    {
        size_t k = left > 1 && !sim::isQuiet() ? sim::choose(sim::S, (uint32_t)left) : 0;
        red.join(acc, part[idx[k]]);
        for (size_t i = k; i + 1 < left; i++) idx[i] = idx[i + 1];
        left--;
    }
    unarr(part);
    unarr(c);
    sim::Quiet q;
    red.reference() = acc;
}
template<class F>
struct ScanArg : ScanArg<decltype(&F::operator())>
{
};
template<class C, class I, class T, class B>
struct ScanArg<void (C::*)(I, T&, B) const>
{
    using type = T;
};
template<class C, class I, class T, class B>
struct ScanArg<void (C::*)(I, T&, B)>
{
    using type = T;
};
template<class F, class T>
struct ScanCtx
{
    const F* f;
    size_t base;
    size_t bounds[9];
    T* part;
    bool final;
    SIM_NOINST static void call(void* c, size_t k)
    {
        auto* x = static_cast<ScanCtx*>(c);
        for (size_t i = x->bounds[k]; i < x->bounds[k + 1]; i++) (*x->f)(x->base + i, x->part[k], x->final);
    }
};
template<class Exec, class F, class Ret>
SIM_NOINST void scan(size_t b, size_t e, const F& fn, Ret* ret)
{
    using T = typename ScanArg<F>::type;
    Held<F> h(fn);
    auto* c = arr<ScanCtx<F, T>>(1);
    size_t n = chunks<Exec>(e - b, c->bounds);
    c->f = h.f;
    c->base = b;
    T* part = arr<T>(n + 1);
    c->part = part;
    T total = T();
    auto run = [&](bool final) SIM_NOINST {
        c->final = final;
        if constexpr (Exec::sequential)
        {
            for (size_t k = 0; k < n; k++) ScanCtx<F, T>::call(c, k);
        }
        else
            sim::kernel(n, {&ScanCtx<F, T>::call, c}, Exec::simSpace);
    };
    bool pre = n > 1 || (n == 1 && !Exec::sequential && !sim::isQuiet() && sim::choose(sim::S, 2));
    if (pre)
    {
        run(false);
        T acc = T();
        for (size_t k = 0; k < n; k++)
        {
            T t = part[k];
            part[k] = acc;
            acc += t;
        }
    }
    run(true);
    if (n) total = part[n - 1];
    unarr(part);
    unarr(c);
    if (ret)
    {
        sim::Quiet q;
        *ret = static_cast<Ret>(total);
    }
}
}

template<class... A, class F, class T>
void parallel_reduce(const std::string&, const RangePolicy<A...>& p, const F& f, T& result)
{
    using E = typename RangePolicy<A...>::execution_space;
    if constexpr (is_reducer<std::remove_cv_t<T>>::value)
        SimImpl::reduce<E>(p.begin(), p.end(), f, result);
    else
        SimImpl::reduce<E>(p.begin(), p.end(), f, SimImpl::PlainReducer<T> {&result});
}
template<class... A, class F, class T>
    requires(is_reducer<T>::value)
void parallel_reduce(const std::string&, const RangePolicy<A...>& p, const F& f, const T& result)
{
    SimImpl::reduce<typename RangePolicy<A...>::execution_space>(p.begin(), p.end(), f, result);
}
template<class... A, class F, class D, class... V>
void parallel_reduce(const std::string&, const RangePolicy<A...>& p, const F& f, const View<D, V...>& result)
{
    using T = std::remove_pointer_t<D>;
    T v {};
    SimImpl::reduce<typename RangePolicy<A...>::execution_space>(p.begin(), p.end(), f, SimImpl::PlainReducer<T> {&v});
    sim::checkRange(result.data(), sizeof(T), true, View<D, V...>::simSpace, "parallel_reduce result");
    SimMem::copy((void*)result.data(), &v, sizeof(T));
}
template<class... A, class F, class D, class... V>
void parallel_reduce(const std::string& l, const RangePolicy<A...>& p, const F& f, View<D, V...>& result)
{
    parallel_reduce(l, p, f, static_cast<const View<D, V...>&>(result));
}
template<class... A, class F, class T>
void parallel_reduce(const RangePolicy<A...>& p, const F& f, T&& result)
{
    parallel_reduce(std::string(), p, f, result);
}
template<class F, class T>
void parallel_reduce(const std::string& l, size_t n, const F& f, T&& result)
{
    parallel_reduce(l, RangePolicy<>(0, n), f, result);
}
template<class F, class T>
void parallel_reduce(size_t n, const F& f, T&& result)
{
    parallel_reduce(std::string(), RangePolicy<>(0, n), f, result);
}
template<class F>
void parallel_scan(const std::string&, size_t n, const F& f)
{
    SimImpl::scan<DefaultExecutionSpace>(0, n, f, (int*)nullptr);
}
template<class F, class T>
void parallel_scan(const std::string&, size_t n, const F& f, T& result)
{
    SimImpl::scan<DefaultExecutionSpace>(0, n, f, &result);
}
template<class... A, class F>
void parallel_scan(const std::string&, const RangePolicy<A...>& p, const F& f)
{
    SimImpl::scan<typename RangePolicy<A...>::execution_space>(p.begin(), p.end(), f, (int*)nullptr);
}
template<class... A, class F, class T>
void parallel_scan(const std::string&, const RangePolicy<A...>& p, const F& f, T& result)
{
    SimImpl::scan<typename RangePolicy<A...>::execution_space>(p.begin(), p.end(), f, &result);
}
template<class... A, class F>
void parallel_scan(const RangePolicy<A...>& p, const F& f)
{
    parallel_scan(std::string(), p, f);
}
template<class... A, class F, class T>
void parallel_scan(const RangePolicy<A...>& p, const F& f, T& result)
{
    parallel_scan(std::string(), p, f, result);
}
} // namespace Kokkos
