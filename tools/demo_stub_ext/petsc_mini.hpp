// the part of PETSc the solver wrapper uses, reduced to what a demonstration needs: host memory, elimination
#pragma once
#include <cmath>
#include <cstddef>
#include <vector>
using PetscInt = int;
using PetscScalar = double;
using PetscErrorCode = int;
using PetscCount = ptrdiff_t;
#define PETSC_COMM_WORLD 0
#define PETSC_COMM_SELF 1
#define PETSC_DECIDE -1
#define VECSEQ "seq"
#define MATSEQAIJ "seqaij"
#define VECKOKKOS "kokkos"
#define MATAIJKOKKOS "aijkokkos"
enum InsertMode { INSERT_VALUES = 1, ADD_VALUES = 2 };
namespace mini
{
inline long petscLive = 0;
inline const char* petscFails = "";
inline bool fails(const char* n) { return std::string(petscFails) == n; }
}
struct MiniVec { std::vector<double> v; std::vector<int> at; };
struct MiniMat { size_t n; std::vector<double> a; std::vector<int> i, j; };
struct MiniKsp { MiniMat* a; };
using Vec = MiniVec*;
using Mat = MiniMat*;
using KSP = MiniKsp*;
inline int PetscInitialize(int*, char***, const char*, const char*) { return mini::fails("PetscInitialize"); }
inline int MatCreate(int, Mat* m) { *m = new MiniMat(); mini::petscLive++; return 0; }
inline int MatSetSizes(Mat m, int r, int, int, int) { m->n = r, m->a.assign(size_t(r) * r, 0); return 0; }
inline int MatSetType(Mat, const char*) { return 0; }
inline int MatSetPreallocationCOO(Mat m, PetscCount n, PetscInt* i, PetscInt* j) { m->i.assign(i, i + n), m->j.assign(j, j + n); return 0; }
inline int MatSetValuesCOO(Mat m, const double* v, InsertMode how)
{
    if (mini::fails("MatSetValuesCOO")) return 76;
    if (how == INSERT_VALUES) m->a.assign(m->a.size(), 0);
    for (size_t k = 0; k < m->i.size(); k++) m->a[m->i[k] * m->n + m->j[k]] += v[k];
    return 0;
}
inline int MatZeroEntries(Mat m) { m->a.assign(m->a.size(), 0); return 0; }
inline int MatDestroy(Mat* m) { if (*m) delete *m, *m = nullptr, mini::petscLive--; return 0; }
inline int VecCreate(int, Vec* v) { *v = new MiniVec(); mini::petscLive++; return 0; }
inline int VecSetSizes(Vec v, int, int n) { v->v.assign(n, 0); return 0; }
inline int VecSetType(Vec, const char*) { return 0; }
inline int VecDuplicate(Vec v, Vec* o) { *o = new MiniVec {std::vector<double>(v->v.size())}; mini::petscLive++; return 0; }
inline int VecSetPreallocationCOO(Vec v, PetscCount n, PetscInt* i) { v->at.assign(i, i + n); return 0; }
inline int VecSetValuesCOO(Vec v, const double* x, InsertMode how)
{
    if (mini::fails("VecSetValuesCOO")) return 76;
    if (how == INSERT_VALUES) v->v.assign(v->v.size(), 0);
    for (size_t k = 0; k < v->at.size(); k++) v->v[v->at[k]] += x[k];
    return 0;
}
inline int VecGetArray(Vec v, double** p) { *p = v->v.data(); return 0; }
inline int VecRestoreArray(Vec, double** p) { *p = nullptr; return 0; }
inline int VecZeroEntries(Vec v) { v->v.assign(v->v.size(), 0); return 0; }
inline int VecDestroy(Vec* v) { if (*v) delete *v, *v = nullptr, mini::petscLive--; return 0; }
inline int KSPCreate(int, KSP* k) { *k = new MiniKsp(); mini::petscLive++; return 0; }
inline int KSPSetFromOptions(KSP) { return 0; }
inline int KSPSetOperators(KSP k, Mat a, Mat) { k->a = a; return 0; }
inline int KSPDestroy(KSP* k) { if (*k) delete *k, *k = nullptr, mini::petscLive--; return 0; }
inline int KSPSolve(KSP k, Vec b, Vec x)
{
    if (mini::fails("KSPSolve")) return 91;
    auto a = k->a->a;
    auto r = b->v;
    size_t n = r.size();
    for (size_t c = 0; c < n; c++)
    {
        size_t p = c;
        for (size_t i = c; i < n; i++)
            if (std::fabs(a[i * n + c]) > std::fabs(a[p * n + c])) p = i;
        for (size_t j = 0; j < n; j++) std::swap(a[p * n + j], a[c * n + j]);
        std::swap(r[p], r[c]);
        for (size_t i = 0; i < n; i++)
        {
            if (i == c) continue;
            double f = a[i * n + c] / a[c * n + c];
            for (size_t j = c; j < n; j++) a[i * n + j] -= f * a[c * n + j];
            r[i] -= f * r[c];
        }
    }
    for (size_t c = 0; c < n; c++) x->v[c] = r[c] / a[c * n + c];
    return 0;
}
