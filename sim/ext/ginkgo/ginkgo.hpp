// Stand-in for Ginkgo: executors, arrays and views, CSR and dense matrices, configuration trees and
// a solver that eliminates directly. Data of a device executor lives on the simulated device.
#pragma once
#include "../ext.hpp"

namespace gko
{
using size_type = size_t;
using int32 = int32_t;
using int64 = int64_t;
class Error : public std::exception
{
public:

    explicit Error(std::string w) : w_(std::move(w)) {}
    const char* what() const noexcept override { return w_.c_str(); }

private:

    std::string w_;
};
class AllocationError : public Error
{
    using Error::Error;
};
class InvalidStateError : public Error
{
    using Error::Error;
};
class DimensionMismatch : public Error
{
    using Error::Error;
};
class BadDimension : public Error
{
    using Error::Error;
};

class Executor : public std::enable_shared_from_this<Executor>
{
public:

    virtual ~Executor() = default;
    virtual bool onDevice() const { return false; }
    virtual std::shared_ptr<const Executor> get_master() const { return shared_from_this(); }
    void synchronize() const {}
    sim::Space space() const { return onDevice() ? sim::Space::Device : sim::Space::Host; }
};
class OmpExecutor : public Executor
{
public:

    static std::shared_ptr<OmpExecutor> create() { return std::make_shared<OmpExecutor>(); }
};
class ReferenceExecutor : public OmpExecutor
{
public:

    static std::shared_ptr<ReferenceExecutor> create() { return std::make_shared<ReferenceExecutor>(); }
};
class CudaExecutor : public Executor
{
public:

    CudaExecutor(std::shared_ptr<Executor> m) : master_(std::move(m)) {}
    static std::shared_ptr<CudaExecutor> create(int, std::shared_ptr<Executor> master)
    {
        return std::make_shared<CudaExecutor>(std::move(master));
    }
    bool onDevice() const override { return true; }
    std::shared_ptr<const Executor> get_master() const override { return master_; }

private:

    std::shared_ptr<Executor> master_;
};
using HipExecutor = CudaExecutor;

// ---- arrays
template<class T>
class array
{
public:

    using value_type = T;
    array() = default;
    explicit array(std::shared_ptr<const Executor> e) : exec_(std::move(e)) {}
    array(std::shared_ptr<const Executor> e, size_t n) : exec_(std::move(e)), n_(n) { own(); }
    array(const array& o) : exec_(o.exec_), n_(o.n_) { copyFrom(o.p_, o.exec_.get()); }
    array(std::shared_ptr<const Executor> e, const array& o) : exec_(std::move(e)), n_(o.n_) { copyFrom(o.p_, o.exec_.get()); }
    array(array&& o) noexcept : exec_(o.exec_), store_(std::move(o.store_)), p_(o.p_), n_(o.n_) { o.p_ = nullptr, o.n_ = 0; }
    array& operator=(const array& o)
    {
        if (this == &o) return *this;
        if (!exec_) exec_ = o.exec_;
        if (p_ && !store_ && n_ >= o.n_) // assigning to a view writes through it
            simext::writeTo(p_, simext::readFrom(o.p_, o.n_, o.exec_->space(), "array copy"), exec_->space(), "array copy");
        else
        {
            n_ = o.n_;
            copyFrom(o.p_, o.exec_.get());
        }
        return *this;
    }
    array& operator=(array&& o)
    {
        exec_ = o.exec_;
        store_ = std::move(o.store_);
        p_ = o.p_, n_ = o.n_;
        o.p_ = nullptr, o.n_ = 0;
        return *this;
    }
    static array view(std::shared_ptr<const Executor> e, size_t n, T* p)
    {
        array a(std::move(e));
        a.p_ = p, a.n_ = n;
        return a;
    }
    static auto const_view(std::shared_ptr<const Executor> e, size_t n, const T* p);
    T* get_data() { return p_; }
    const T* get_const_data() const { return p_; }
    size_t get_size() const { return n_; }
    size_t get_num_elems() const { return n_; }
    bool is_owning() const { return store_ != nullptr; }
    std::shared_ptr<const Executor> get_executor() const { return exec_; }
    std::vector<T> content(const char* what) const { return simext::readFrom((const T*)p_, n_, exec_->space(), what); }
    void setContent(const std::vector<T>& v, const char* what) { simext::writeTo(p_, v, exec_->space(), what); }
    void copyFrom(const T* p, const Executor* from)
    {
        own();
        if (n_) simext::writeTo(p_, simext::readFrom(p, n_, from->space(), "array copy"), exec_->space(), "array copy");
    }

private:

    SIM_NOINST void own()
    {
        if (simext::fails("ginkgo allocation")) throw AllocationError("failed to allocate memory");
        sim::Quiet q;
        store_ = std::make_shared<simext::Store<T>>();
        store_->make(n_, exec_->onDevice());
        p_ = store_->p;
    }
    std::shared_ptr<const Executor> exec_;
    std::shared_ptr<simext::Store<T>> store_;
    T* p_ = nullptr;
    size_t n_ = 0;
};
namespace detail
{
template<class T>
class const_array_view
{
public:

    const_array_view(std::shared_ptr<const Executor> e, size_t n, const T* p) : exec_(std::move(e)), n_(n), p_(p) {}
    array<T> copy_to_array() const
    {
        array<T> v = array<T>::view(exec_, n_, const_cast<T*>(p_));
        return array<T>(exec_, v);
    }
    const T* get_const_data() const { return p_; }
    size_t get_size() const { return n_; }
    std::shared_ptr<const Executor> get_executor() const { return exec_; }

private:

    std::shared_ptr<const Executor> exec_;
    size_t n_;
    const T* p_;
};
}
template<class T>
auto array<T>::const_view(std::shared_ptr<const Executor> e, size_t n, const T* p)
{
    return detail::const_array_view<T>(std::move(e), n, p);
}
template<class T>
array<T> make_array_view(std::shared_ptr<const Executor> e, size_t n, T* p)
{
    return array<T>::view(std::move(e), n, p);
}
template<class T>
detail::const_array_view<T> make_const_array_view(std::shared_ptr<const Executor> e, size_t n, const T* p)
{
    return detail::const_array_view<T>(std::move(e), n, p);
}
template<unsigned N>
struct dim
{
    size_t v[N] {};
    size_t operator[](size_t i) const { return v[i]; }
};

// ---- operators
class LinOp
{
public:

    virtual ~LinOp() = default;
    virtual void applyTo(const LinOp&, LinOp&) const { throw InvalidStateError("not a solver"); }
    template<class B, class X>
    const LinOp* apply(const B& b, const X& x) const
    {
        applyTo(*b, *x);
        return this;
    }
    dim<2> get_size() const { return size_; }
    std::shared_ptr<const Executor> get_executor() const { return exec_; }

protected:

    LinOp(std::shared_ptr<const Executor> e, dim<2> s) : exec_(std::move(e)), size_(s) {}
    std::shared_ptr<const Executor> exec_;
    dim<2> size_;
    simext::Counted c_;
};
template<class T>
std::shared_ptr<typename std::remove_reference_t<T>::element_type> share(T&& p)
{
    return {std::move(p)};
}
namespace matrix
{
template<class V = double, class I = int32>
class Csr : public LinOp
{
public:

    Csr(std::shared_ptr<const Executor> e, dim<2> s, array<V> v, array<I> c, array<I> r) : LinOp(std::move(e), s), v_(std::move(v)), c_(std::move(c)), r_(std::move(r))
    {
        if (r_.get_size() != s[0] + 1) throw BadDimension("row pointers");
        if (v_.get_size() != c_.get_size()) throw BadDimension("values and columns");
    }
    static std::unique_ptr<Csr> create(std::shared_ptr<const Executor> e, const dim<2>& s, array<V> v, array<I> c, array<I> r)
    {
        return std::make_unique<Csr>(std::move(e), s, std::move(v), std::move(c), std::move(r));
    }
    static std::unique_ptr<Csr> create_const(std::shared_ptr<const Executor> e, const dim<2>& s, detail::const_array_view<V> v, detail::const_array_view<I> c, detail::const_array_view<I> r)
    {
        return create(e, s, array<V>::view(e, v.get_size(), const_cast<V*>(v.get_const_data())), array<I>::view(e, c.get_size(), const_cast<I*>(c.get_const_data())), array<I>::view(e, r.get_size(), const_cast<I*>(r.get_const_data())));
    }
    SIM_NOINST std::vector<double> dense() const
    {
        auto v = v_.content("matrix values");
        auto c = c_.content("matrix columns");
        auto r = r_.content("matrix rows");
        sim::Quiet q;
        size_t n = size_[0];
        std::vector<double> a(n * size_[1], 0.0);
        for (size_t i = 0; i < n; i++)
            for (I k = r[i]; k < r[i + 1]; k++) a.at(i * size_[1] + (size_t)c.at((size_t)k)) += (double)v.at((size_t)k);
        return a;
    }
    size_t get_num_stored_elements() const { return v_.get_size(); }

private:

    array<V> v_;
    array<I> c_, r_;
};
template<class V = double>
class Dense : public LinOp
{
public:

    using value_type = V;
    Dense(std::shared_ptr<const Executor> e, dim<2> s, array<V> v, size_t stride) : LinOp(std::move(e), s), v_(std::move(v))
    {
        if (stride != 1 || s[1] != 1 || v_.get_size() < s[0]) throw BadDimension("dense");
    }
    static std::unique_ptr<Dense> create(std::shared_ptr<const Executor> e, const dim<2>& s, array<V> v, size_t stride)
    {
        return std::make_unique<Dense>(std::move(e), s, std::move(v), stride);
    }
    static std::unique_ptr<const Dense> create_const(std::shared_ptr<const Executor> e, const dim<2>& s, detail::const_array_view<V> v, size_t stride)
    {
        return create(e, s, array<V>::view(e, v.get_size(), const_cast<V*>(v.get_const_data())), stride);
    }
    void copy_from(const Dense* o) { v_ = o->v_; }
    template<class P>
    void copy_from(const P& o)
    {
        v_ = o->v_;
    }
    V* get_values() { return v_.get_data(); }
    const V* get_const_values() const { return v_.get_const_data(); }
    array<V> v_;
};
}
class LinOpFactory
{
public:

    virtual ~LinOpFactory() = default;
    virtual std::unique_ptr<LinOp> generate(std::shared_ptr<const LinOp> a) const = 0;

protected:

    simext::Counted c_;
};

// ---- configuration
namespace config
{
class pnode
{
public:

    enum class tag_t
    {
        empty,
        array,
        boolean,
        real,
        integer,
        string,
        map
    };
    using key_type = std::string;
    using map_type = std::map<std::string, pnode>;
    using array_type = std::vector<pnode>;
    pnode() = default;
    explicit pnode(const std::string& s) : tag_(tag_t::string), s_(s) {}
    explicit pnode(const char* s) : pnode(std::string(s)) {}
    explicit pnode(bool b) : tag_(tag_t::boolean), i_(b) {}
    template<class T>
        requires(std::is_integral_v<T> && !std::is_same_v<T, bool>)
    explicit pnode(T i) : tag_(tag_t::integer), i_((int64_t)i)
    {}
    template<class T>
        requires(std::is_floating_point_v<T>)
    explicit pnode(T r) : tag_(tag_t::real), r_((double)r)
    {}
    explicit pnode(const map_type& m) : tag_(tag_t::map), m_(m) {}
    explicit pnode(const array_type& a) : tag_(tag_t::array), a_(a) {}
    explicit operator bool() const noexcept { return tag_ != tag_t::empty; }
    bool operator==(const pnode& o) const { return tag_ == o.tag_ && i_ == o.i_ && r_ == o.r_ && s_ == o.s_ && m_ == o.m_ && a_ == o.a_; }
    bool operator!=(const pnode& o) const { return !(*this == o); }
    tag_t get_tag() const { return tag_; }
    const map_type& get_map() const { return m_; }
    const std::string& get_string() const { return s_; }
    int64_t get_integer() const { return i_; }
    double get_real() const { return r_; }
    bool get_boolean() const { return i_; }
    const pnode& get(const std::string& k) const
    {
        static const pnode none;
        auto i = m_.find(k);
        return i == m_.end() ? none : i->second;
    }

private:

    tag_t tag_ = tag_t::empty;
    int64_t i_ = 0;
    double r_ = 0;
    std::string s_;
    map_type m_;
    array_type a_;
};
class registry
{
};
class type_descriptor
{
};
template<class V = double, class I = int32>
type_descriptor make_type_descriptor()
{
    return {};
}
/// the configuration the last solver was made from
inline pnode& simLast()
{
    static pnode p;
    return p;
}
class SimSolver : public LinOp
{
public:

    SimSolver(std::shared_ptr<const Executor> e, std::shared_ptr<const LinOp> a) : LinOp(std::move(e), a->get_size()), a_(std::move(a)) {}
    SIM_NOINST void applyTo(const LinOp& b, LinOp& x) const override
    {
        auto* a = dynamic_cast<const matrix::Csr<double, int32>*>(a_.get());
        auto* vb = dynamic_cast<const matrix::Dense<double>*>(&b);
        auto* vx = dynamic_cast<matrix::Dense<double>*>(&x);
        if (!a || !vb || !vx) throw InvalidStateError("unexpected operators");
        if (a->get_size()[0] != vb->get_size()[0] || a->get_size()[1] != vx->get_size()[0]) throw DimensionMismatch("apply");
        if (simext::fails("ginkgo apply")) throw AllocationError("no memory for the solver's workspace");
        std::vector<double> m = a->dense(), rhs = vb->v_.content("right-hand side");
        vx->v_.content("initial guess");
        std::vector<double> r;
        {
            sim::Quiet q;
            simext::st().solves++;
            if (!simext::eliminate(rhs.size(), m, rhs, r)) r.assign(rhs.size(), 0.0);
        }
        vx->v_.setContent(r, "solution");
    }

private:

    std::shared_ptr<const LinOp> a_;
};
class SimFactory : public LinOpFactory
{
public:

    explicit SimFactory(std::shared_ptr<const Executor> e) : exec_(std::move(e)) {}
    std::unique_ptr<LinOp> generate(std::shared_ptr<const LinOp> a) const override
    {
        if (simext::fails("ginkgo generate")) throw AllocationError("no memory for the solver");
        return std::make_unique<SimSolver>(exec_, std::move(a));
    }

private:

    std::shared_ptr<const Executor> exec_;
};
struct SimDeferred
{
    std::unique_ptr<LinOpFactory> on(std::shared_ptr<const Executor> e) const { return std::make_unique<SimFactory>(std::move(e)); }
};
SIM_NOINST inline SimDeferred parse(const pnode& p, const registry&, const type_descriptor& = {})
{
    if (p.get_tag() != pnode::tag_t::map || !p.get("type")) throw InvalidStateError("the configuration has no type");
    sim::Quiet q;
    simLast() = p;
    return {};
}
}
} // namespace gko
