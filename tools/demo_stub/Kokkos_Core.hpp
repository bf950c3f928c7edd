// Small sequential/threaded stand-in for Kokkos, used only by the demonstrations of planted bugs.
// Host and device kernels run on mini::threads threads (1: in the order mini::reverse says). Device
// storage is unreadable outside kernels and copies.
#pragma once
#include <sys/mman.h>
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <concepts>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <numeric>
#include <optional>
#include <set>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

namespace mini
{
inline int threads = 1;
inline bool reverse = false;
inline long failIn = 0; ///< the n-th storage allocation from now throws bad_alloc (0: never)
inline long live = 0;   ///< live storage blocks
inline char* dev = (char*)mmap(nullptr, 64 << 20, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
inline size_t devTop = 0;
inline int devOpen = 0;
struct Open
{
    Open()
    {
        if (!devOpen++) mprotect(dev, 64 << 20, PROT_READ | PROT_WRITE);
    }
    ~Open()
    {
        if (!--devOpen) mprotect(dev, 64 << 20, PROT_NONE);
    }
};
inline std::map<void*, size_t>& blocks()
{
    static std::map<void*, size_t> b;
    return b;
}
inline void* get(size_t n, bool device)
{
    if (failIn && --failIn == 0) throw std::bad_alloc();
    if (n == 0) return nullptr;
    void* p;
    if (device)
    {
        p = dev + devTop;
        devTop += (n + 63) / 64 * 64;
        if (devTop > (64u << 20)) abort();
    }
    else
        p = ::operator new(n);
    Open o;
    memset(p, 0xff, n);
    blocks()[p] = n;
    live++;
    return p;
}
inline bool isDev(void* p) { return (char*)p >= dev && (char*)p < dev + (64 << 20); }
inline void put(void* p, bool device)
{
    if (!p) return;
    auto it = blocks().find(p);
    if (it == blocks().end() || isDev(p) != device)
    {
        fprintf(stderr, "bad free\n");
        _Exit(9);
    }
    blocks().erase(it);
    live--;
    if (!device) ::operator delete(p);
}
template<class F>
void run(size_t b, size_t e, bool seq, bool device, const F& f)
{
    std::optional<Open> o;
    if (device) o.emplace();
    F c(f);
    int t = seq ? 1 : threads;
    if (t <= 1)
    {
        if (reverse && !seq)
            for (size_t i = e; i > b; i--) c(i - 1);
        else
            for (size_t i = b; i < e; i++) c(i);
        return;
    }
    std::vector<std::thread> th;
    for (int k = 0; k < t; k++)
        th.emplace_back([&, k] { for (size_t i = b + k; i < e; i += t) c(i); });
    for (auto& x : th) x.join();
}
}
#define KOKKOS_VERSION 40500
#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
namespace Kokkos
{
struct MemoryUnmanaged {};
struct HostSpace { using memory_space = HostSpace; static constexpr bool isSpace = true, device = false; };
struct DevSpace { using memory_space = DevSpace; static constexpr bool isSpace = true, device = true; };
#define MINI_SPACE(N, M, D, S)                                                                     \
    struct N                                                                                       \
    {                                                                                              \
        using memory_space = M;                                                                    \
        using execution_space = N;                                                                 \
        using size_type = size_t;                                                                  \
        static constexpr bool isSpace = true, device = D, sequential = S;                          \
        void fence(const std::string& = "") const {}                                               \
        static const char* name() { return #N; }                                                   \
        friend bool operator==(const N&, const N&) { return true; }                                \
    };
MINI_SPACE(Serial, HostSpace, false, true)
MINI_SPACE(Host, HostSpace, false, false)
MINI_SPACE(Device, DevSpace, true, false)
using DefaultHostExecutionSpace = Host;
using DefaultExecutionSpace = Device;
inline void fence(const std::string& = "") {}
[[noreturn]] inline void abort(const char* m)
{
    fprintf(stderr, "%s\n", m);
    ::abort();
}
template<class... A> void printf(const char* f, A... a) { ::printf(f, a...); }
using std::abs; using std::ceil; using std::cos; using std::exp; using std::fabs; using std::floor; using std::fmax; using std::fmin;
using std::isfinite; using std::isnan; using std::log; using std::max; using std::min; using std::pow; using std::sin; using std::sqrt;
using std::tan; using std::clamp; using std::swap;
template<class A, class B>
struct pair
{
    using first_type = A;
    using second_type = B;
    A first {};
    B second {};
    constexpr pair() = default;
    constexpr pair(const A& a, const B& b) : first(a), second(b) {}
    template<class U, class V> constexpr pair(const pair<U, V>& o) : first(o.first), second(o.second) {}
    template<class U, class V> constexpr pair(const std::pair<U, V>& o) : first(o.first), second(o.second) {}
};
template<class Sp = DefaultExecutionSpace> void* kokkos_malloc(const std::string&, size_t n) { return mini::get(n, Sp::device); }
template<class Sp = DefaultExecutionSpace> void* kokkos_malloc(size_t n) { return mini::get(n, Sp::device); }
template<class Sp = DefaultExecutionSpace> void kokkos_free(void* p) { mini::put(p, Sp::device); }
template<class Sp = DefaultExecutionSpace> void* kokkos_realloc(void* p, size_t n)
{
    size_t old = mini::blocks().at(p);
    void* q = mini::get(n, Sp::device);
    mini::Open o;
    if (q) memcpy(q, p, std::min(n, old));
    mini::put(p, Sp::device);
    return q;
}
inline std::mutex miniMutex;
template<class T, class Fn> T miniAtomic(T* p, Fn fn)
{
    std::lock_guard l(miniMutex);
    T old = *p;
    *p = fn(old);
    return old;
}
#define MINI_ATOMIC(NAME, EXPR)                                                                    \
    template<class T> T atomic_fetch_##NAME(T* p, const std::type_identity_t<T> v) { return miniAtomic(p, [&](const T& o) -> T { return EXPR; }); } \
    template<class T> void atomic_##NAME(T* p, const std::type_identity_t<T> v) { miniAtomic(p, [&](const T& o) -> T { return EXPR; }); } \
    template<class T> T atomic_##NAME##_fetch(T* p, const std::type_identity_t<T> v) { T r {}; miniAtomic(p, [&](const T& o) -> T { return r = (EXPR); }); return r; }
MINI_ATOMIC(add, o + v)
MINI_ATOMIC(sub, o - v)
MINI_ATOMIC(max, o < v ? v : o)
MINI_ATOMIC(min, v < o ? v : o)
template<class T> void atomic_increment(T* p) { miniAtomic(p, [](const T& o) -> T { return T(o + 1); }); }
template<class T> void atomic_decrement(T* p) { miniAtomic(p, [](const T& o) -> T { return T(o - 1); }); }
template<class T> T atomic_load(T* p) { std::lock_guard l(miniMutex); return *p; }
template<class T> void atomic_assign(T* p, const std::type_identity_t<T> v) { miniAtomic(p, [&](const T&) -> T { return v; }); }
template<class T> void atomic_store(T* p, const std::type_identity_t<T> v) { miniAtomic(p, [&](const T&) -> T { return v; }); }
namespace mi
{
template<class Def, class... A> struct Find { using type = Def; };
template<class Def, class A, class... R> struct Find<Def, A, R...>
{
    static auto pick()
    {
        if constexpr (requires { A::isSpace; }) return std::type_identity<A> {};
        else return std::type_identity<typename Find<Def, R...>::type> {};
    }
    using type = typename decltype(pick())::type;
};
}
template<class DT, class... Args> class View
{
    using T = std::remove_pointer_t<DT>;

public:

    using Space = typename mi::Find<DefaultExecutionSpace, Args...>::type;
    using value_type = T;
    View() = default;
    View(T* p, size_t n) : p_(p), n_(n) {}
    View(const std::string&, size_t n) : own_(mini::get(n * sizeof(T), Space::device), [](void* q) { mini::put(q, Space::device); }), n_(n)
    {
        p_ = static_cast<T*>(own_.get());
        mini::Open o;
        if (n) memset((void*)p_, 0, n * sizeof(T));
    }
    template<class U, class... B> View(const View<U, B...>& o) : own_(o.own_), p_(o.data()), n_(o.size()) {}
    T& operator()(size_t i) const { return p_[i]; }
    T& operator[](size_t i) const { return p_[i]; }
    T* data() const { return p_; }
    size_t size() const { return n_; }
    std::shared_ptr<void> own_;

private:

    T* p_ = nullptr;
    size_t n_ = 0;
};
template<class A, class... PA, class B, class... PB> void deep_copy(const View<A, PA...>& d, const View<B, PB...>& s)
{
    if (d.size() != s.size()) throw std::runtime_error("Kokkos::deep_copy: extents do not match");
    mini::Open o;
    if (d.size()) memmove((void*)d.data(), s.data(), d.size() * sizeof(*d.data()));
}
template<class... A> struct RangePolicy
{
    using execution_space = typename mi::Find<DefaultExecutionSpace, A...>::type;
    size_t b, e;
    RangePolicy(size_t b_, size_t e_) : b(b_), e(e_) {}
    RangePolicy(const execution_space&, size_t b_, size_t e_) : b(b_), e(e_) {}
};
template<class... A, class F> void parallel_for(const std::string&, const RangePolicy<A...>& p, const F& f)
{
    using E = typename RangePolicy<A...>::execution_space;
    mini::run(p.b, p.e, E::sequential, E::device, f);
}
template<class... A, class F> void parallel_for(const RangePolicy<A...>& p, const F& f) { parallel_for(std::string(), p, f); }
struct Red {};
template<class R> struct is_reducer { static constexpr bool value = std::is_base_of_v<Red, R>; };
template<class R> inline constexpr bool is_reducer_v = is_reducer<R>::value;
#define MINI_RED(NAME, INIT, JOIN)                                                                 \
    template<class T, class Sp = HostSpace> struct NAME : Red                                      \
    {                                                                                              \
        using reducer = NAME;                                                                      \
        using value_type = std::remove_cv_t<T>;                                                    \
        value_type* r;                                                                             \
        NAME(value_type& v) : r(&v) {}                                                             \
        void join(value_type& a, const value_type& b) const { JOIN; }                              \
        void init(value_type& v) const { v = INIT; }                                               \
        value_type& reference() const { return *r; }                                               \
    };                                                                                             \
    template<class T> NAME(T&)->NAME<T, HostSpace>;
MINI_RED(Sum, value_type(), a += b)
MINI_RED(Max, std::numeric_limits<value_type>::lowest(), if (a < b) a = b)
MINI_RED(Min, std::numeric_limits<value_type>::max(), if (b < a) a = b)
namespace mi
{
template<class T> struct Plain
{
    using value_type = T;
    T* r;
    void join(T& a, const T& b) const { a += b; }
    void init(T& v) const { v = T(); }
    T& reference() const { return *r; }
};
/// three chunks, joined in the order of mini::reverse
template<class E, class F, class R> void reduce(size_t b, size_t e, const F& fn, const R& red)
{
    using T = typename R::value_type;
    F c(fn);
    std::optional<mini::Open> o;
    if (E::device) o.emplace();
    size_t k = E::sequential ? 1 : 3;
    std::vector<T> part(k);
    for (size_t j = 0; j < k; j++)
    {
        red.init(part[j]);
        for (size_t i = b + (e - b) * j / k; i < b + (e - b) * (j + 1) / k; i++) c(i, part[j]);
    }
    T acc;
    red.init(acc);
    for (size_t j = 0; j < k; j++) red.join(acc, part[mini::reverse ? k - 1 - j : j]);
    red.reference() = acc;
}
template<class F> struct ScanArg : ScanArg<decltype(&F::operator())> {};
template<class C, class I, class T, class B> struct ScanArg<void (C::*)(I, T&, B) const> { using type = T; };
/// three chunks, two passes
template<class E, class F, class Ret> void scan(size_t b, size_t e, const F& fn, Ret* ret)
{
    using T = typename ScanArg<F>::type;
    F c(fn);
    std::optional<mini::Open> o;
    if (E::device) o.emplace();
    size_t k = E::sequential ? 1 : 3;
    std::vector<T> part(k);
    auto pass = [&](bool fin) {
        for (size_t j = 0; j < k; j++)
            for (size_t i = b + (e - b) * j / k; i < b + (e - b) * (j + 1) / k; i++) c(i, part[j], fin);
    };
    for (auto& p : part) p = T();
    pass(false);
    T acc = T();
    for (auto& p : part)
    {
        T t = p;
        p = acc;
        acc += t;
    }
    pass(true);
    if (ret) *ret = static_cast<Ret>(e > b ? part[k - 1] : T());
}
}
template<class... A, class F, class T> void parallel_reduce(const std::string&, const RangePolicy<A...>& p, const F& f, T& result)
{
    using E = typename RangePolicy<A...>::execution_space;
    if constexpr (is_reducer<std::remove_cv_t<T>>::value) mi::reduce<E>(p.b, p.e, f, result);
    else mi::reduce<E>(p.b, p.e, f, mi::Plain<T> {&result});
}
template<class... A, class F, class T> requires(is_reducer<T>::value) void parallel_reduce(const std::string&, const RangePolicy<A...>& p, const F& f, const T& result)
{
    mi::reduce<typename RangePolicy<A...>::execution_space>(p.b, p.e, f, result);
}
template<class... A, class F, class T> void parallel_reduce(const RangePolicy<A...>& p, const F& f, T&& result) { parallel_reduce(std::string(), p, f, result); }
template<class... A, class F> void parallel_scan(const std::string&, const RangePolicy<A...>& p, const F& f)
{
    mi::scan<typename RangePolicy<A...>::execution_space>(p.b, p.e, f, (int*)nullptr);
}
template<class... A, class F, class T> void parallel_scan(const std::string&, const RangePolicy<A...>& p, const F& f, T& result)
{
    mi::scan<typename RangePolicy<A...>::execution_space>(p.b, p.e, f, &result);
}
}
