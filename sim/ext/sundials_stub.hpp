// Stand-in for SUNDIALS: contexts, Kokkos vectors and the explicit one-step integrator (ERKStep).
#pragma once
#include "ext.hpp"

using sunrealtype = double;
using sunindextype = int64_t;
using sunbooleantype = int;
using SUNErrCode = int;
using SUNComm = int;
#define SUN_COMM_NULL 0
#define SUN_SUCCESS 0
#define SUNTRUE 1
#define SUNFALSE 0
struct SUNContext_
{
    simext::Counted c;
    int users = 0; ///< vectors and integrators made with it
};
using SUNContext = SUNContext_*;
SIM_NOINST inline SUNErrCode SUNContext_Create(SUNComm, SUNContext* c)
{
    *c = nullptr;
    if (simext::fails("SUNContext_Create")) return -9999;
    sim::Quiet q;
    *c = new SUNContext_();
    return 0;
}
SIM_NOINST inline SUNErrCode SUNContext_Free(SUNContext* c)
{
    if (!c) return 0;
    sim::Quiet q;
    if (*c) delete *c;
    *c = nullptr;
    return 0;
}
struct SimVec
{
    simext::Store<double> s;
    simext::Counted c;
    void* owner = nullptr;
};
struct _generic_N_Vector
{
    SimVec* content = nullptr;
    SUNContext ctx = nullptr;
};
using N_Vector = _generic_N_Vector*;
inline sunrealtype* N_VGetArrayPointer(N_Vector v) { return v->content->s.p; }
inline sunrealtype* N_VGetDeviceArrayPointer(N_Vector v) { return v->content->s.p; }
inline sunindextype N_VGetLength(N_Vector v) { return (sunindextype)v->content->s.n; }
inline sunindextype N_VGetLocalLength(N_Vector v) { return N_VGetLength(v); }

SIM_NOINST inline void N_VScale(sunrealtype c, N_Vector x, N_Vector z)
{
    auto dev = [](N_Vector v) { return v->content->s.dev ? sim::Space::Device : sim::Space::Host; };
    auto a = simext::readFrom((const double*)x->content->s.p, x->content->s.n, dev(x), "scaled vector");
    for (auto& y : a) y *= c;
    simext::writeTo(z->content->s.p, a, dev(z), "scaled vector");
}
SIM_NOINST inline void N_VConst(sunrealtype c, N_Vector z)
{
    simext::writeTo(z->content->s.p, std::vector<double>(z->content->s.n, c), z->content->s.dev ? sim::Space::Device : sim::Space::Host, "constant vector");
}
namespace sundials
{
namespace kokkos
{
template<class ExecSpace = Kokkos::DefaultExecutionSpace, class MemSpace = typename ExecSpace::memory_space>
class Vector
{
public:

    using view_type = Kokkos::View<double*, ExecSpace>;
    using exec_space = ExecSpace;
    using memory_space = MemSpace;
    using size_type = size_t;
    Vector() = default;
    SIM_NOINST Vector(size_t n, SUNContext ctx)
    {
        if (!ctx) sim::fail("library-misuse", "a vector is made without a context");
        if (simext::fails("vector allocation")) throw std::bad_alloc();
        sim::Quiet q;
        obj_.reset(new _generic_N_Vector());
        data_.reset(new SimVec());
        data_->s.make(n, ExecSpace::simSpace == sim::Space::Device);
        for (size_t i = 0; i < n; i++) data_->s.p[i] = 0;
        obj_->content = data_.get(), obj_->ctx = ctx;
    }
    SIM_NOINST Vector(const Vector& o)
    {
        if (!o.obj_) return;
        sim::Quiet q;
        obj_.reset(new _generic_N_Vector());
        data_.reset(new SimVec());
        data_->s.make(o.data_->s.n, o.data_->s.dev); // a copy has the same shape, not the same content
        for (size_t i = 0; i < data_->s.n; i++) data_->s.p[i] = 0;
        obj_->content = data_.get(), obj_->ctx = o.obj_->ctx;
    }
    Vector(Vector&& o) noexcept = default;
    SIM_NOINST Vector& operator=(const Vector& o)
    {
        Vector v(o);
        *this = std::move(v);
        return *this;
    }
    Vector& operator=(Vector&& o) = default;
    SIM_NOINST ~Vector()
    {
        sim::Quiet q;
        data_.reset();
        obj_.reset();
    }
    operator N_Vector() { return obj_.get(); }
    operator N_Vector() const { return obj_.get(); }
    N_Vector Convert() { return obj_.get(); }
    view_type View() { return view_type(data_->s.p, data_->s.n); }
    size_t Length() const { return data_->s.n; }

private:

    std::unique_ptr<_generic_N_Vector> obj_;
    std::unique_ptr<SimVec> data_;
};
/// what GetVec gives: the Kokkos side of an N_Vector
template<class V>
struct VecRef
{
    N_Vector v;
    VecRef* operator->() { return this; }
    typename V::view_type View() const
    {
        constexpr bool dev = V::exec_space::simSpace == sim::Space::Device;
        if (!v || !v->content) sim::fail("library-misuse", "a vector is used that was never made or has been released");
        if (v->content->s.n && v->content->s.dev != dev) sim::fail("memory-space", "a vector of the other side is taken for a %s vector", dev ? "device" : "host");
        return typename V::view_type(v->content->s.p, v->content->s.n);
    }
    size_t Length() const { return v->content->s.n; }
};
template<class V>
VecRef<V> GetVec(N_Vector v)
{
    return {v};
}
}
}

// ---- integrator
enum ARKODE_ERKTableID
{
    ARKODE_ERK_NONE = -1,
    ARKODE_HEUN_EULER_2_1_2 = 0,
    ARKODE_FORWARD_EULER_1_1 = 20,
    ARKODE_RALSTON_EULER_2_1_2,
    ARKODE_EXPLICIT_MIDPOINT_EULER_2_1_2
};
#define ARK_NORMAL 1
#define ARK_ONE_STEP 2
#define ARK_SUCCESS 0
#define ARK_TSTOP_RETURN 1
#define ARK_ERR_FAILURE -3
#define ARK_RHSFUNC_FAIL -8
#define ARK_MEM_FAIL -20
#define ARK_MEM_NULL -21
#define ARK_ILL_INPUT -22
using ARKRhsFn = int (*)(sunrealtype, N_Vector, N_Vector, void*);
struct SimArk
{
    ARKRhsFn f;
    double tn, h = 0;
    long steps = 0;
    bool table = false, tolerances = false;
    void* user = nullptr;
    bool hasTstop = false;
    double tstop = 0;
    std::vector<double> yn; ///< the integrator keeps its own copy of the state
    bool dev;
    SUNContext ctx;
    simext::Counted c;
};
namespace simext::ark
{
SIM_NOINST inline std::vector<double> get(N_Vector v, const char* what)
{
    return readFrom((const double*)v->content->s.p, v->content->s.n, v->content->s.dev ? sim::Space::Device : sim::Space::Host, what);
}
SIM_NOINST inline void put(N_Vector v, const std::vector<double>& x, const char* what)
{
    writeTo(v->content->s.p, x, v->content->s.dev ? sim::Space::Device : sim::Space::Host, what);
}
}
SIM_NOINST inline void* ERKStepCreate(ARKRhsFn f, sunrealtype t0, N_Vector y0, SUNContext ctx)
{
    if (!ctx || !y0) return nullptr;
    if (simext::fails("ERKStepCreate")) return nullptr;
    auto y = simext::ark::get(y0, "initial condition");
    sim::Quiet q;
    auto* a = new SimArk();
    a->f = f, a->tn = t0, a->ctx = ctx, a->dev = y0->content->s.dev;
    a->yn = y;
    return a;
}
SIM_NOINST inline int ERKStepSetTableNum(void* m, ARKODE_ERKTableID id)
{
    if (!m) return ARK_MEM_NULL;
    if (id != ARKODE_FORWARD_EULER_1_1) return ARK_ILL_INPUT;
    if (simext::fails("ERKStepSetTableNum")) return ARK_MEM_FAIL;
    ((SimArk*)m)->table = true;
    return 0;
}
SIM_NOINST inline int ARKodeSetUserData(void* m, void* u)
{
    if (!m) return ARK_MEM_NULL;
    if (simext::fails("ARKodeSetUserData")) return ARK_ILL_INPUT;
    ((SimArk*)m)->user = u;
    return 0;
}
inline int ERKStepSetUserData(void* m, void* u) { return ARKodeSetUserData(m, u); }
SIM_NOINST inline int ARKodeSStolerances(void* m, sunrealtype, sunrealtype)
{
    if (!m) return ARK_MEM_NULL;
    if (simext::fails("ARKodeSStolerances")) return ARK_MEM_FAIL;
    ((SimArk*)m)->tolerances = true;
    return 0;
}
SIM_NOINST inline int ARKodeSetFixedStep(void* m, sunrealtype h)
{
    if (!m) return ARK_MEM_NULL;
    if (simext::fails("ARKodeSetFixedStep")) return ARK_ILL_INPUT;
    ((SimArk*)m)->h = h;
    return 0;
}
SIM_NOINST inline int ARKodeSetStopTime(void* m, sunrealtype t)
{
    if (!m) return ARK_MEM_NULL;
    ((SimArk*)m)->hasTstop = true, ((SimArk*)m)->tstop = t;
    return 0;
}
SIM_NOINST inline int ARKodeClearStopTime(void* m)
{
    if (!m) return ARK_MEM_NULL;
    ((SimArk*)m)->hasTstop = false;
    return 0;
}
SIM_NOINST inline int ARKodeGetNumSteps(void* m, long* n)
{
    if (!m) return ARK_MEM_NULL;
    *n = ((SimArk*)m)->steps;
    return 0;
}
SIM_NOINST inline int ARKodeGetLastStep(void* m, sunrealtype* h)
{
    if (!m) return ARK_MEM_NULL;
    *h = ((SimArk*)m)->h;
    return 0;
}
inline int ARKodeGetCurrentStep(void* m, sunrealtype* h) { return ARKodeGetLastStep(m, h); }
SIM_NOINST inline int ARKodeSetInitStep(void* m, sunrealtype) { return m ? 0 : ARK_MEM_NULL; }
SIM_NOINST inline int ARKodeSetMaxNumSteps(void* m, long) { return m ? 0 : ARK_MEM_NULL; }
SIM_NOINST inline int ARKodeReset(void* m, sunrealtype t, N_Vector y)
{
    if (!m) return ARK_MEM_NULL;
    if (simext::fails("ARKodeReset")) return ARK_MEM_FAIL;
    auto v = simext::ark::get(y, "reset state");
    sim::Quiet q;
    ((SimArk*)m)->tn = t, ((SimArk*)m)->yn = v;
    return 0;
}
inline int ERKStepReset(void* m, sunrealtype t, N_Vector y) { return ARKodeReset(m, t, y); }
SIM_NOINST inline int ERKStepReInit(void* m, ARKRhsFn f, sunrealtype t, N_Vector y)
{
    if (m) ((SimArk*)m)->f = f;
    return ARKodeReset(m, t, y);
}
SIM_NOINST inline int ARKodeGetCurrentTime(void* m, sunrealtype* t)
{
    if (!m) return ARK_MEM_NULL;
    *t = ((SimArk*)m)->tn;
    return 0;
}
/// one internal step of the fixed size; what yout holds on entry does not matter
SIM_NOINST inline int ARKodeEvolve(void* m, sunrealtype tout, N_Vector yout, sunrealtype* tret, int itask)
{
    if (!m) return ARK_MEM_NULL;
    auto* a = (SimArk*)m;
    if (!a->table || a->h == 0 || (itask != ARK_ONE_STEP && itask != ARK_NORMAL)) return ARK_ILL_INPUT;
    if (!a->ctx) return ARK_MEM_NULL;
    if (!((tout - a->tn) * a->h > 0)) return ARK_ILL_INPUT; // the output time gives the direction
    int how = 0;
    if (simext::fails("ARKodeEvolve"))
    {
        sim::Quiet q;
        how = 1 + (int)sim::choose(sim::F, 3);
    }
    if (how == 1) return ARK_MEM_FAIL; // before anything happened
    // the stage: the right-hand side gets vectors of the library
    struct Tmp
    {
        _generic_N_Vector v;
        SimVec s;
        SIM_NOINST Tmp(size_t n, bool dev, SUNContext c)
        {
            sim::Quiet q;
            s.s.make(n, dev);
            v.content = &s, v.ctx = c;
        }
        SIM_NOINST ~Tmp()
        {
            sim::Quiet q;
            s.s.drop();
        }
    };
    const double eps = 100 * 2.3e-16 * (std::fabs(tout) + std::fabs(a->h));
    std::vector<double> d(a->yn.size(), 0.0);
    do
    {
        Tmp y(a->yn.size(), a->dev, a->ctx), yd(a->yn.size(), a->dev, a->ctx);
        simext::ark::put(&y.v, a->yn, "stage state");
        {
            sim::Quiet q;
            if (yd.s.s.n) memset((void*)yd.s.s.p, 0xff, yd.s.s.n * sizeof(double));
        }
        int r = a->f(a->tn, &y.v, &yd.v, a->user);
        if (r) return ARK_RHSFUNC_FAIL;
        d = simext::ark::get(&yd.v, "time derivative");
        if (how > 1) *tret = how == 2 ? a->tn + a->h : a->tn;
        if (how == 2) // failed the step, nothing was advanced; the output may hold anything
        {
            simext::ark::put(yout, d, "integrator output");
            return ARK_ERR_FAILURE;
        }
        if (how == 3) return ARK_ERR_FAILURE;
        sim::Quiet q;
        simext::st().solves++;
        for (size_t i = 0; i < d.size(); i++) a->yn[i] += a->h * d[i];
        a->tn += a->h, a->steps++;
    }
    while (itask == ARK_NORMAL && (tout - a->tn) * a->h > eps * std::fabs(a->h));
    if (itask == ARK_NORMAL)
    {
        // the result is interpolated back to the output time
        std::vector<double> out = a->yn;
        if (std::fabs(a->tn - tout) > eps)
            for (size_t i = 0; i < d.size(); i++) out[i] += (tout - a->tn) * d[i];
        simext::ark::put(yout, out, "integrator output");
        *tret = tout;
        return 0;
    }
    simext::ark::put(yout, a->yn, "integrator output");
    *tret = a->tn;
    return 0;
}
SIM_NOINST inline void ARKodeFree(void** m)
{
    if (!m || !*m) return;
    sim::Quiet q;
    delete (SimArk*)*m;
    *m = nullptr;
}
inline void ERKStepFree(void** m) { ARKodeFree(m); }
