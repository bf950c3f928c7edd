// the part of SUNDIALS the Runge-Kutta wrapper uses, reduced to what a demonstration needs
#pragma once
#include <Kokkos_Core.hpp>
#include <cstdint>
#include <memory>
#include <vector>
using sunrealtype = double;
using sunindextype = int64_t;
#define SUN_COMM_NULL 0
namespace mini
{
inline bool evolveFails = false;
inline long contexts = 0;
}
struct SUNContext_ {};
using SUNContext = SUNContext_*;
inline int SUNContext_Create(int, SUNContext* c) { *c = new SUNContext_(); mini::contexts++; return 0; }
inline int SUNContext_Free(SUNContext* c) { if (c && *c) { delete *c; *c = nullptr; mini::contexts--; } return 0; }
struct _generic_N_Vector { std::vector<double> v; };
using N_Vector = _generic_N_Vector*;
inline double* N_VGetArrayPointer(N_Vector v) { return v->v.data(); }
inline sunindextype N_VGetLength(N_Vector v) { return (sunindextype)v->v.size(); }
namespace sundials
{
namespace kokkos
{
template<class E = Kokkos::DefaultExecutionSpace> class Vector
{
public:
    using view_type = Kokkos::View<double*, E>;
    Vector() = default;
    Vector(size_t n, SUNContext) : o_(new _generic_N_Vector {std::vector<double>(n)}) {}
    Vector(const Vector& o) : o_(o.o_ ? new _generic_N_Vector {std::vector<double>(o.o_->v.size())} : nullptr) {}
    Vector(Vector&&) = default;
    Vector& operator=(const Vector& o) { o_.reset(o.o_ ? new _generic_N_Vector {std::vector<double>(o.o_->v.size())} : nullptr); return *this; }
    Vector& operator=(Vector&&) = default;
    operator N_Vector() { return o_.get(); }
    operator N_Vector() const { return o_.get(); }
private:
    std::unique_ptr<_generic_N_Vector> o_;
};
template<class V> struct Ref
{
    N_Vector v;
    Ref* operator->() { return this; }
    typename V::view_type View() { return typename V::view_type(v->v.data(), v->v.size()); }
};
template<class V> Ref<V> GetVec(N_Vector v) { return {v}; }
}
}
enum ARKODE_ERKTableID { ARKODE_ERK_NONE = -1, ARKODE_HEUN_EULER_2_1_2, ARKODE_FORWARD_EULER_1_1, ARKODE_EXPLICIT_MIDPOINT_EULER_2_1_2 };
#define ARK_NORMAL 1
#define ARK_ONE_STEP 2
using ARKRhsFn = int (*)(sunrealtype, N_Vector, N_Vector, void*);
struct MiniArk { ARKRhsFn f; double t, h; void* user; std::vector<double> y; };
inline void* ERKStepCreate(ARKRhsFn f, double t, N_Vector y, SUNContext) { return new MiniArk {f, t, 0, nullptr, y->v}; }
inline int ERKStepSetTableNum(void*, ARKODE_ERKTableID) { return 0; }
inline int ARKodeSetUserData(void* m, void* u) { ((MiniArk*)m)->user = u; return 0; }
inline int ARKodeSStolerances(void*, double, double) { return 0; }
inline int ARKodeSetFixedStep(void* m, double h) { ((MiniArk*)m)->h = h; return 0; }
inline int ARKodeGetCurrentTime(void* m, double* t) { *t = ((MiniArk*)m)->t; return 0; }
inline int ARKodeReset(void* m, double t, N_Vector y) { ((MiniArk*)m)->t = t, ((MiniArk*)m)->y = y->v; return 0; }
inline int ARKodeEvolve(void* m, double, N_Vector out, double* tret, int)
{
    auto* a = (MiniArk*)m;
    _generic_N_Vector y {a->y}, d {std::vector<double>(a->y.size())};
    if (a->f(a->t, &y, &d, a->user)) return -8;
    if (mini::evolveFails)
    {
        *tret = a->t + a->h;
        out->v.assign(out->v.size(), 1e30);
        return -3;
    }
    for (size_t i = 0; i < d.v.size(); i++) a->y[i] += a->h * d.v[i];
    a->t += a->h;
    out->v = a->y, *tret = a->t;
    return 0;
}
inline void ARKodeFree(void** m) { if (m && *m) delete (MiniArk*)*m, *m = nullptr; }
