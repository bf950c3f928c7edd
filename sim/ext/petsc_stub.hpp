// Stand-in for PETSc (sequential matrices, vectors and Krylov solvers assembled from coordinates).
#pragma once
#include "ext.hpp"

using PetscInt = int32_t;
using PetscCount = ptrdiff_t;
using PetscScalar = double;
using PetscReal = double;
using PetscErrorCode = int;
using PetscBool = int;
#define PETSC_SUCCESS 0
#define PETSC_TRUE 1
#define PETSC_FALSE 0
#define PETSC_DECIDE (-1)
#define PETSC_DETERMINE (-1)
#define PETSC_DEFAULT (-2)
#define PETSC_COMM_WORLD 0
#define PETSC_COMM_SELF 1
#define PETSC_VIEWER_STDOUT_WORLD 0
#define PETSC_VIEWER_STDOUT_SELF 0
#define VECSEQ "seq"
#define VECSTANDARD "standard"
#define VECKOKKOS "kokkos"
#define VECSEQKOKKOS "seqkokkos"
#define MATSEQAIJ "seqaij"
#define MATAIJ "aij"
#define MATAIJKOKKOS "aijkokkos"
#define MATSEQAIJKOKKOS "seqaijkokkos"
using VecType = const char*;
using MatType = const char*;
using KSPType = const char*;
enum InsertMode
{
    NOT_SET_VALUES,
    INSERT_VALUES,
    ADD_VALUES
};
enum PetscMemType
{
    PETSC_MEMTYPE_HOST = 0,
    PETSC_MEMTYPE_DEVICE = 1,
    PETSC_MEMTYPE_KOKKOS = 2
};
enum MatAssemblyType
{
    MAT_FLUSH_ASSEMBLY = 1,
    MAT_FINAL_ASSEMBLY = 0
};
enum KSPConvergedReason
{
    KSP_CONVERGED_RTOL = 2,
    KSP_CONVERGED_ITS = 4,
    KSP_DIVERGED_ITS = -3,
    KSP_DIVERGED_BREAKDOWN = -5,
    KSP_CONVERGED_ITERATING = 0
};
#define PETSC_ERR_MEM 55
#define PETSC_ERR_ARG_WRONGSTATE 73
#define PETSC_ERR_ARG_NULL 85
#define PETSC_ERR_ARG_SIZ 60
#define PETSC_ERR_ARG_OUTOFRANGE 63
#define PetscCall(x)                                                                               \
    do                                                                                             \
    {                                                                                              \
        PetscErrorCode ierr_ = (x);                                                                \
        if (ierr_) return ierr_;                                                                   \
    }                                                                                              \
    while (0)
#define PetscCallVoid(x)                                                                           \
    do                                                                                             \
    {                                                                                              \
        PetscErrorCode ierr_ = (x);                                                                \
        if (ierr_) return;                                                                         \
    }                                                                                              \
    while (0)
#define PetscCallAbort(c, x)                                                                       \
    do                                                                                             \
    {                                                                                              \
        PetscErrorCode ierr_ = (x);                                                                \
        if (ierr_) ::abort();                                                                      \
    }                                                                                              \
    while (0)
#define CHKERRABORT(c, x) PetscCallAbort(c, x)
#define CHKERRQ(x) PetscCall(x)
#define KSPCG "cg"
#define KSPGMRES "gmres"
#define KSPBCGS "bcgs"
#define KSPPREONLY "preonly"
#define PCJACOBI "jacobi"
#define PCILU "ilu"
#define PCLU "lu"
#define PCNONE "none"

struct _p_Vec
{
    PetscInt n = -1;
    bool typed = false, device = false;
    std::vector<double> v;
    std::vector<PetscInt> coo;
    bool hasCoo = false;
    simext::Store<double> host, dev; // what arrays were handed out from
    simext::Counted c;
};
struct _p_Mat
{
    PetscInt m = -1, n = -1;
    bool typed = false, device = false;
    std::vector<double> a; // one value per coordinate
    std::vector<PetscInt> ci, cj;
    bool hasCoo = false, assembled = false;
    simext::Counted c;
};
struct _p_KSP
{
    _p_Mat* op = nullptr;
    KSPConvergedReason reason = KSP_CONVERGED_ITERATING;
    bool nonzeroGuess = false;
    simext::Counted c;
};
using Vec = _p_Vec*;
using Mat = _p_Mat*;
using KSP = _p_KSP*;

namespace simext::petsc
{
inline PetscErrorCode pre(const char* what, bool valid = true)
{
    if (!st().initialised) sim::fail("library-misuse", "%s called before PetscInitialize", what);
    if (!valid) return PETSC_ERR_ARG_NULL; // an earlier call failed and was not noticed
    return fails(what) ? PETSC_ERR_MEM : 0;
}
/// large systems are solved only when they are diagonal
SIM_NOINST inline bool solve(const _p_Mat& m, const std::vector<double>& b, std::vector<double>& x)
{
    size_t n = b.size();
    bool diagonal = true;
    for (size_t k = 0; k < m.a.size(); k++)
        if (m.ci[k] >= 0 && m.cj[k] >= 0 && m.ci[k] != m.cj[k]) diagonal = false;
    if (diagonal)
    {
        std::vector<double> d(n, 0.0);
        for (size_t k = 0; k < m.a.size(); k++)
            if (m.ci[k] >= 0) d[m.ci[k]] += m.a[k];
        x.assign(n, 0.0);
        for (size_t i = 0; i < n; i++)
        {
            if (d[i] == 0) return false;
            x[i] = b[i] / d[i];
        }
        return true;
    }
    std::vector<double> a(n * n, 0.0);
    for (size_t k = 0; k < m.a.size(); k++)
        if (m.ci[k] >= 0 && m.cj[k] >= 0) a[(size_t)m.ci[k] * n + m.cj[k]] += m.a[k];
    return eliminate(n, std::move(a), b, x);
}
}
#define SIMP(what, valid)                                                                          \
    if (PetscErrorCode ierr_ = simext::petsc::pre(what, valid)) return ierr_;                      \
    sim::Quiet quiet_

SIM_NOINST inline PetscErrorCode PetscInitialize(int*, char***, const char*, const char*)
{
    if (simext::fails("PetscInitialize")) return PETSC_ERR_MEM;
    simext::st().initialised = true;
    return 0;
}
SIM_NOINST inline PetscErrorCode PetscInitializeNoArguments() { return PetscInitialize(nullptr, nullptr, nullptr, nullptr); }
SIM_NOINST inline PetscErrorCode PetscInitialized(PetscBool* b)
{
    *b = simext::st().initialised;
    return 0;
}
SIM_NOINST inline PetscErrorCode PetscFinalize()
{
    simext::st().initialised = false;
    return 0;
}
// ---- vectors
SIM_NOINST inline PetscErrorCode VecCreate(int, Vec* v)
{
    SIMP("VecCreate", true);
    *v = new _p_Vec();
    return 0;
}
SIM_NOINST inline PetscErrorCode VecCreateSeq(int, PetscInt n, Vec* v)
{
    SIMP("VecCreateSeq", true);
    *v = new _p_Vec();
    (*v)->n = n, (*v)->typed = true;
    (*v)->v.assign(n, 0.0);
    return 0;
}
SIM_NOINST inline PetscErrorCode VecSetSizes(Vec v, PetscInt n, PetscInt N)
{
    SIMP("VecSetSizes", v);
    v->n = N >= 0 ? N : n;
    if (v->typed) v->v.assign(v->n, 0.0);
    return 0;
}
SIM_NOINST inline PetscErrorCode VecSetType(Vec v, const char* t)
{
    SIMP("VecSetType", v);
    v->typed = true;
    v->device = strstr(t, "kokkos");
    if (v->n >= 0) v->v.assign(v->n, 0.0);
    return 0;
}
SIM_NOINST inline PetscErrorCode VecSetFromOptions(Vec v) { return VecSetType(v, VECSEQ); }
SIM_NOINST inline PetscErrorCode VecDuplicate(Vec v, Vec* w)
{
    SIMP("VecDuplicate", v);
    if (!v->typed || v->n < 0) return PETSC_ERR_ARG_WRONGSTATE;
    *w = new _p_Vec();
    (*w)->n = v->n, (*w)->typed = true, (*w)->device = v->device;
    (*w)->v.assign(v->n, 0.0);
    return 0;
}
SIM_NOINST inline PetscErrorCode VecSetPreallocationCOO(Vec v, PetscCount n, const PetscInt i[])
{
    SIMP("VecSetPreallocationCOO", v);
    if (!v->typed || v->n < 0) return PETSC_ERR_ARG_WRONGSTATE;
    v->coo = simext::readFrom(i, (size_t)n, sim::Space::Host, "coordinates of a vector");
    v->hasCoo = true;
    for (auto k : v->coo)
        if (k >= v->n) return PETSC_ERR_ARG_OUTOFRANGE;
    return 0;
}
SIM_NOINST inline PetscErrorCode VecSetValuesCOO(Vec v, const PetscScalar a[], InsertMode mode)
{
    SIMP("VecSetValuesCOO", v);
    if (!v->hasCoo) return PETSC_ERR_ARG_WRONGSTATE;
    bool dev = v->device && v->coo.size() && sim::isDevicePtr(a);
    auto x = simext::readFrom(a, v->coo.size(), dev ? sim::Space::Device : sim::Space::Host, "values of a vector");
    if (mode == INSERT_VALUES)
        for (auto& y : v->v) y = 0;
    for (size_t k = 0; k < x.size(); k++)
        if (v->coo[k] >= 0) v->v[v->coo[k]] += x[k];
    return 0;
}
SIM_NOINST inline PetscErrorCode VecGetSize(Vec v, PetscInt* n)
{
    SIMP("VecGetSize", v);
    *n = v->n;
    return 0;
}
SIM_NOINST inline PetscErrorCode VecGetLocalSize(Vec v, PetscInt* n) { return VecGetSize(v, n); }
SIM_NOINST inline PetscErrorCode VecSet(Vec v, PetscScalar a)
{
    SIMP("VecSet", v);
    for (auto& x : v->v) x = a;
    return 0;
}
/// always host memory, whatever the type of the vector
SIM_NOINST inline PetscErrorCode VecGetArray(Vec v, PetscScalar** a)
{
    SIMP("VecGetArray", v);
    v->host.make(v->v.size(), false);
    for (size_t i = 0; i < v->v.size(); i++) v->host.p[i] = v->v[i];
    *a = v->host.p;
    return 0;
}
SIM_NOINST inline PetscErrorCode VecRestoreArray(Vec v, PetscScalar** a)
{
    SIMP("VecRestoreArray", v);
    for (size_t i = 0; i < v->v.size(); i++) v->v[i] = v->host.p[i];
    v->host.drop();
    if (a) *a = nullptr;
    return 0;
}
SIM_NOINST inline PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar** a)
{
    SIMP("VecGetArrayRead", v);
    v->host.make(v->v.size(), false);
    for (size_t i = 0; i < v->v.size(); i++) v->host.p[i] = v->v[i];
    *a = v->host.p;
    return 0;
}
SIM_NOINST inline PetscErrorCode VecRestoreArrayRead(Vec v, const PetscScalar** a)
{
    SIMP("VecRestoreArrayRead", v);
    v->host.drop();
    if (a) *a = nullptr;
    return 0;
}
/// memory of the side the vector lives on
SIM_NOINST inline PetscErrorCode VecGetArrayReadAndMemType(Vec v, const PetscScalar** a, PetscMemType* t)
{
    SIMP("VecGetArrayReadAndMemType", v);
    v->dev.make(v->v.size(), v->device);
    for (size_t i = 0; i < v->v.size(); i++) v->dev.p[i] = v->v[i];
    *a = v->dev.p;
    if (t) *t = v->device ? PETSC_MEMTYPE_KOKKOS : PETSC_MEMTYPE_HOST;
    return 0;
}
SIM_NOINST inline PetscErrorCode VecRestoreArrayReadAndMemType(Vec v, const PetscScalar** a)
{
    SIMP("VecRestoreArrayReadAndMemType", v);
    v->dev.drop();
    if (a) *a = nullptr;
    return 0;
}
SIM_NOINST inline PetscErrorCode VecGetArrayWrite(Vec v, PetscScalar** a)
{
    SIMP("VecGetArrayWrite", v);
    v->host.make(v->v.size(), false);
    *a = v->host.p;
    return 0;
}
inline PetscErrorCode VecRestoreArrayWrite(Vec v, PetscScalar** a) { return VecRestoreArray(v, a); }
SIM_NOINST inline PetscErrorCode VecZeroEntries(Vec v)
{
    SIMP("VecZeroEntries", v);
    for (auto& x : v->v) x = 0;
    return 0;
}
SIM_NOINST inline PetscErrorCode VecCopy(Vec v, Vec w)
{
    SIMP("VecCopy", v && w);
    if (v->n != w->n) return PETSC_ERR_ARG_SIZ;
    w->v = v->v;
    return 0;
}
SIM_NOINST inline PetscErrorCode VecScale(Vec v, PetscScalar a)
{
    SIMP("VecScale", v);
    for (auto& x : v->v) x *= a;
    return 0;
}
SIM_NOINST inline PetscErrorCode VecAXPY(Vec y, PetscScalar a, Vec x)
{
    SIMP("VecAXPY", y && x);
    if (x->n != y->n) return PETSC_ERR_ARG_SIZ;
    for (size_t i = 0; i < y->v.size(); i++) y->v[i] += a * x->v[i];
    return 0;
}
enum NormType
{
    NORM_1,
    NORM_2,
    NORM_FROBENIUS,
    NORM_INFINITY
};
SIM_NOINST inline PetscErrorCode VecNorm(Vec v, NormType t, PetscReal* r)
{
    SIMP("VecNorm", v);
    double s = 0;
    for (auto x : v->v)
    {
        double m = std::fabs(x);
        s = t == NORM_1 ? s + m : t == NORM_INFINITY ? (m > s ? m : s) : s + m * m;
    }
    *r = t == NORM_2 || t == NORM_FROBENIUS ? std::sqrt(s) : s;
    return 0;
}
SIM_NOINST inline PetscErrorCode VecSetUp(Vec v) { return v && v->typed ? 0 : VecSetType(v, VECSEQ); }
SIM_NOINST inline PetscErrorCode VecSetValues(Vec v, PetscInt n, const PetscInt i[], const PetscScalar a[], InsertMode mode)
{
    SIMP("VecSetValues", v);
    auto at = simext::readFrom(i, (size_t)n, sim::Space::Host, "indices of a vector");
    auto x = simext::readFrom(a, (size_t)n, sim::Space::Host, "values of a vector");
    for (size_t k = 0; k < at.size(); k++)
    {
        if (at[k] < 0) continue;
        if (at[k] >= v->n) return PETSC_ERR_ARG_OUTOFRANGE;
        if (mode == INSERT_VALUES) v->v[at[k]] = x[k];
        else
            v->v[at[k]] += x[k];
    }
    return 0;
}
SIM_NOINST inline PetscErrorCode VecAssemblyBegin(Vec v)
{
    SIMP("VecAssemblyBegin", v);
    return 0;
}
SIM_NOINST inline PetscErrorCode VecAssemblyEnd(Vec v)
{
    SIMP("VecAssemblyEnd", v);
    return 0;
}
SIM_NOINST inline PetscErrorCode VecDestroy(Vec* v)
{
    sim::Quiet q;
    if (*v) delete *v;
    *v = nullptr;
    return 0;
}
SIM_NOINST inline PetscErrorCode VecView(Vec, int) { return 0; }
// ---- matrices
SIM_NOINST inline PetscErrorCode MatCreate(int, Mat* m)
{
    SIMP("MatCreate", true);
    *m = new _p_Mat();
    return 0;
}
SIM_NOINST inline PetscErrorCode MatSetSizes(Mat m, PetscInt lm, PetscInt ln, PetscInt M, PetscInt N)
{
    SIMP("MatSetSizes", m);
    m->m = M >= 0 ? M : lm;
    m->n = N >= 0 ? N : ln;
    return 0;
}
SIM_NOINST inline PetscErrorCode MatSetType(Mat m, const char* t)
{
    SIMP("MatSetType", m);
    m->typed = true;
    m->device = strstr(t, "kokkos");
    return 0;
}
SIM_NOINST inline PetscErrorCode MatSetFromOptions(Mat m) { return MatSetType(m, MATAIJ); }
SIM_NOINST inline PetscErrorCode MatSetUp(Mat) { return 0; }
/// the arrays are workspace for the library: their content is not defined afterwards
SIM_NOINST inline PetscErrorCode MatSetPreallocationCOO(Mat m, PetscCount n, PetscInt i[], PetscInt j[])
{
    SIMP("MatSetPreallocationCOO", m);
    if (!m->typed || m->m < 0) return PETSC_ERR_ARG_WRONGSTATE;
    m->ci = simext::readFrom(i, (size_t)n, sim::Space::Host, "row coordinates of a matrix");
    m->cj = simext::readFrom(j, (size_t)n, sim::Space::Host, "column coordinates of a matrix");
    simext::writeTo(i, std::vector<PetscInt>((size_t)n, -77), sim::Space::Host, "row coordinates of a matrix");
    simext::writeTo(j, std::vector<PetscInt>((size_t)n, -77), sim::Space::Host, "column coordinates of a matrix");
    m->a.assign(m->ci.size(), 0.0);
    m->hasCoo = true;
    for (size_t k = 0; k < m->ci.size(); k++)
        if (m->ci[k] >= m->m || m->cj[k] >= m->n) return PETSC_ERR_ARG_OUTOFRANGE;
    return 0;
}
SIM_NOINST inline PetscErrorCode MatSetValuesCOO(Mat m, const PetscScalar a[], InsertMode mode)
{
    SIMP("MatSetValuesCOO", m);
    if (!m->hasCoo) return PETSC_ERR_ARG_WRONGSTATE;
    bool dev = m->device && m->ci.size() && sim::isDevicePtr(a);
    auto x = simext::readFrom(a, m->ci.size(), dev ? sim::Space::Device : sim::Space::Host, "values of a matrix");
    if (mode == INSERT_VALUES)
        for (auto& y : m->a) y = 0;
    for (size_t k = 0; k < x.size(); k++)
        m->a[k] += x[k];
    m->assembled = true;
    return 0;
}
SIM_NOINST inline PetscErrorCode MatAssemblyBegin(Mat m, MatAssemblyType)
{
    SIMP("MatAssemblyBegin", m);
    return 0;
}
SIM_NOINST inline PetscErrorCode MatAssemblyEnd(Mat m, MatAssemblyType)
{
    SIMP("MatAssemblyEnd", m);
    return 0;
}
SIM_NOINST inline PetscErrorCode MatZeroEntries(Mat m)
{
    SIMP("MatZeroEntries", m);
    for (auto& x : m->a) x = 0;
    return 0;
}
SIM_NOINST inline PetscErrorCode MatGetSize(Mat m, PetscInt* r, PetscInt* c)
{
    SIMP("MatGetSize", m);
    if (r) *r = m->m;
    if (c) *c = m->n;
    return 0;
}
inline PetscErrorCode MatGetLocalSize(Mat m, PetscInt* r, PetscInt* c) { return MatGetSize(m, r, c); }
SIM_NOINST inline PetscErrorCode MatScale(Mat m, PetscScalar a)
{
    SIMP("MatScale", m);
    for (auto& x : m->a) x *= a;
    return 0;
}
/// entry by entry: kept as coordinates, an entry that exists is replaced or added to
SIM_NOINST inline PetscErrorCode MatSetValue(Mat m, PetscInt i, PetscInt j, PetscScalar a, InsertMode mode)
{
    SIMP("MatSetValue", m);
    if (i >= m->m || j >= m->n) return PETSC_ERR_ARG_OUTOFRANGE;
    if (i < 0 || j < 0) return 0;
    bool found = false;
    for (size_t k = 0; k < m->a.size(); k++)
        if (m->ci[k] == i && m->cj[k] == j)
        {
            if (mode == INSERT_VALUES) m->a[k] = found ? 0 : a;
            else if (!found)
                m->a[k] += a;
            found = true;
        }
    if (!found) m->ci.push_back(i), m->cj.push_back(j), m->a.push_back(a);
    m->assembled = true;
    return 0;
}
SIM_NOINST inline PetscErrorCode MatSetValues(Mat m, PetscInt nr, const PetscInt i[], PetscInt nc, const PetscInt j[], const PetscScalar a[], InsertMode mode)
{
    auto rows = simext::readFrom(i, (size_t)nr, sim::Space::Host, "rows of a matrix");
    auto cols = simext::readFrom(j, (size_t)nc, sim::Space::Host, "columns of a matrix");
    auto x = simext::readFrom(a, (size_t)nr * nc, sim::Space::Host, "values of a matrix");
    for (PetscInt r = 0; r < nr; r++)
        for (PetscInt c = 0; c < nc; c++)
            if (PetscErrorCode e = MatSetValue(m, rows[r], cols[c], x[(size_t)r * nc + c], mode)) return e;
    return 0;
}
SIM_NOINST inline PetscErrorCode MatMult(Mat m, Vec x, Vec y)
{
    SIMP("MatMult", m && x && y);
    if (x->n != m->n || y->n != m->m) return PETSC_ERR_ARG_SIZ;
    std::vector<double> r(y->v.size(), 0.0);
    for (size_t k = 0; k < m->a.size(); k++)
        if (m->ci[k] >= 0 && m->cj[k] >= 0) r[m->ci[k]] += m->a[k] * x->v[m->cj[k]];
    y->v = r;
    return 0;
}
SIM_NOINST inline PetscErrorCode MatDestroy(Mat* m)
{
    sim::Quiet q;
    if (*m) delete *m;
    *m = nullptr;
    return 0;
}
SIM_NOINST inline PetscErrorCode MatView(Mat, int) { return 0; }
// ---- solvers
SIM_NOINST inline PetscErrorCode KSPCreate(int, KSP* k)
{
    SIMP("KSPCreate", true);
    *k = new _p_KSP();
    return 0;
}
SIM_NOINST inline PetscErrorCode KSPSetFromOptions(KSP k)
{
    SIMP("KSPSetFromOptions", k);
    return 0;
}
SIM_NOINST inline PetscErrorCode KSPSetType(KSP k, const char*)
{
    SIMP("KSPSetType", k);
    return 0;
}
SIM_NOINST inline PetscErrorCode KSPSetUp(KSP k)
{
    SIMP("KSPSetUp", k);
    return 0;
}
SIM_NOINST inline PetscErrorCode KSPSetTolerances(KSP k, double, double, double, PetscInt)
{
    SIMP("KSPSetTolerances", k);
    return 0;
}
SIM_NOINST inline PetscErrorCode KSPSetInitialGuessNonzero(KSP k, PetscBool b)
{
    SIMP("KSPSetInitialGuessNonzero", k);
    k->nonzeroGuess = b;
    return 0;
}
SIM_NOINST inline PetscErrorCode KSPSetOperators(KSP k, Mat a, Mat p)
{
    SIMP("KSPSetOperators", k && a && p);
    k->op = a;
    return 0;
}
SIM_NOINST inline PetscErrorCode KSPSolve(KSP k, Vec b, Vec x)
{
    SIMP("KSPSolve", k && b && x && k->op);
    if (!k->op->assembled) return PETSC_ERR_ARG_WRONGSTATE;
    if (k->op->m != b->n || k->op->n != x->n || k->op->m != k->op->n) return PETSC_ERR_ARG_SIZ;
    simext::st().solves++;
    if (simext::petsc::solve(*k->op, b->v, x->v)) k->reason = KSP_CONVERGED_RTOL;
    else
    {
        k->reason = KSP_DIVERGED_BREAKDOWN;
        x->v.assign(b->n, 0.0);
    }
    return 0;
}
SIM_NOINST inline PetscErrorCode KSPGetConvergedReason(KSP k, KSPConvergedReason* r)
{
    SIMP("KSPGetConvergedReason", k);
    *r = k->reason;
    return 0;
}
SIM_NOINST inline PetscErrorCode KSPGetIterationNumber(KSP k, PetscInt* n)
{
    SIMP("KSPGetIterationNumber", k);
    *n = 1;
    return 0;
}
SIM_NOINST inline PetscErrorCode KSPReset(KSP k)
{
    SIMP("KSPReset", k);
    k->op = nullptr;
    return 0;
}
SIM_NOINST inline PetscErrorCode KSPGetResidualNorm(KSP k, PetscReal* r)
{
    SIMP("KSPGetResidualNorm", k);
    *r = 0;
    return 0;
}
SIM_NOINST inline PetscErrorCode KSPSetErrorIfNotConverged(KSP k, PetscBool)
{
    SIMP("KSPSetErrorIfNotConverged", k);
    return 0;
}
using PC = _p_KSP*;
using PCType = const char*;
SIM_NOINST inline PetscErrorCode KSPGetPC(KSP k, PC* p)
{
    SIMP("KSPGetPC", k);
    *p = k;
    return 0;
}
SIM_NOINST inline PetscErrorCode PCSetType(PC p, const char*)
{
    SIMP("PCSetType", p);
    return 0;
}
inline PetscErrorCode PetscOptionsSetValue(void*, const char*, const char*) { return 0; }
SIM_NOINST inline PetscErrorCode KSPDestroy(KSP* k)
{
    sim::Quiet q;
    if (*k) delete *k;
    *k = nullptr;
    return 0;
}
