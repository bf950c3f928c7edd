// Dense model of linear systems and the defining formulas of the implicit operators.
#pragma once
#include "fv.hpp"
#include "NeoFOAM/linearAlgebra/linearSystem.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/linearAlgebra/sparsityPattern.hpp"

namespace fv
{
/// the same system, dense and sequential
struct Dense
{
    size_t n;
    int nc;
    Flat A, b;
    Dense(size_t n_, int nc_) : n(n_), nc(nc_), A(n_ * n_ * nc_, 0.0), b(n_ * nc_, 0.0) {}
    void a(size_t i, size_t j, double v)
    {
        for (int c = 0; c < nc; c++) A[(i * n + j) * nc + c] += v;
    }
    Flat residual(const Flat& x) const
    {
        Flat r(n * nc);
        for (size_t i = 0; i < n; i++)
            for (int c = 0; c < nc; c++)
            {
                double s = -b[i * nc + c];
                for (size_t j = 0; j < n; j++) s += A[(i * n + j) * nc + c] * x[j * nc + c];
                r[i * nc + c] = s;
            }
        return r;
    }
};
template<class T>
Dense denseOf(const la::LinearSystem<T, localIdx>& ls)
{
    Flat ptr = flat(ls.matrix().rowPtrs()), col, val = flat(ls.matrix().values());
    {
        Quiet q;
        Field<localIdx> c = ls.matrix().colIdxs();
        col = flat(c);
    }
    Quiet q;
    Dense d(ptr.size() - 1, NC<T>);
    d.b = flat(ls.rhs());
    for (size_t i = 0; i < d.n; i++)
        for (size_t k = (size_t)ptr[i]; k < (size_t)ptr[i + 1]; k++)
            for (int c = 0; c < NC<T>; c++) d.A[(i * d.n + (size_t)col[k]) * NC<T> + c] += val[k * NC<T> + c];
    return d;
}
template<class T>
void expectSystem(const char* what, const la::LinearSystem<T, localIdx>& ls, const Dense& want, const Flat& ptr, const Flat& col)
{
    Dense got = denseOf(ls);
    Quiet q;
    const char* on = execName(ls.exec());
    std::string d = diffFlat(got.A, want.A, NC<T>);
    if (!d.empty()) sim::fail("wrong-matrix", "%s (%s), %zu rows: matrix %s", what, on, want.n, d.c_str());
    d = diffFlat(got.b, want.b, NC<T>);
    if (!d.empty()) sim::fail("wrong-matrix", "%s (%s): right-hand side %s", what, on, d.c_str());
    if (flat(ls.matrix().rowPtrs()) != ptr || flat(Field<localIdx>(ls.matrix().colIdxs())) != col) sim::fail("wrong-matrix", "%s (%s): the structure of the matrix changed", what, on);
}

/// upwind convection of phi with flux, scaled by s per cell
template<class T>
void addDiv(Dense& d, const HM& h, const Flat& flux, const VF<T>& phi, const Flat& s)
{
    for (size_t f = 0; f < h.ni; f++)
    {
        size_t o = (size_t)h.own[f], n = (size_t)h.nei[f];
        double fl = flux[f], up = fl >= 0 ? fl : 0, down = fl >= 0 ? 0 : fl;
        d.a(o, o, s[o] * up), d.a(o, n, s[o] * down);
        d.a(n, o, -s[n] * up), d.a(n, n, -s[n] * down);
    }
    for (size_t b = 0; b < h.nb; b++)
    {
        size_t o = (size_t)h.fc(b);
        double fl = flux[h.ni + b] * s[o], vf = phi.vf[b];
        d.a(o, o, fl * (1 - vf));
        for (int c = 0; c < NC<T>; c++)
        {
            size_t k = b * NC<T> + c;
            d.b[o * NC<T> + c] -= fl * (vf * phi.rv[k] + (1 - vf) * phi.rg[k] / h.bdc[b]);
        }
    }
}
template<class T>
void addLaplacian(Dense& d, const HM& h, const Flat& gamma, const VF<T>& phi, const Flat& s)
{
    Flat dc = nonOrthOf(h);
    for (size_t f = 0; f < h.ni; f++)
    {
        size_t o = (size_t)h.own[f], n = (size_t)h.nei[f];
        double g = gamma[f] * h.mag[f] * dc[f];
        d.a(o, n, s[o] * g), d.a(o, o, -s[o] * g);
        d.a(n, o, s[n] * g), d.a(n, n, -s[n] * g);
    }
    for (size_t b = 0; b < h.nb; b++)
    {
        size_t o = (size_t)h.fc(b), f = h.ni + b;
        double g = gamma[f] * h.mag[f] * s[o], vf = phi.vf[b];
        d.a(o, o, -g * vf * dc[f]);
        for (int c = 0; c < NC<T>; c++)
        {
            size_t k = b * NC<T> + c;
            d.b[o * NC<T> + c] -= g * (vf * dc[f] * phi.rv[k] + (1 - vf) * phi.rg[k]);
        }
    }
}
/// boundary conditions of a field, with their model
template<class T>
struct Bcs
{
    struct One
    {
        uint32_t kind;
        double v[3];
    };
    std::vector<One> m;
    std::vector<fvcc::VolumeBoundary<T>> b;
    explicit Bcs(TestMesh& t)
    {
        for (size_t p = 0; p < t.h.nPatches(); p++)
        {
            static const char* names[] = {"fixedValue", "fixedGradient", "extrapolated"};
            One o {sim::choose(sim::W, 3), {rndInt(), rndInt(), rndInt()}};
            Dictionary d({{"type", std::string(names[o.kind])}});
            if (o.kind < 2) d.insert(names[o.kind], pack<T>(o.v));
            b.push_back(fvcc::VolumeBoundary<T>(*t.m, d, p));
            m.push_back(o);
        }
    }
    template<class M>
    void correct(const HM& h, M& f) const
    {
        for (size_t p = 0; p < m.size(); p++)
            for (size_t i = h.off[p]; i < h.off[p + 1]; i++)
            {
                for (int c = 0; c < NC<T>; c++)
                {
                    size_t k = i * NC<T> + c;
                    double cell = f.in[(size_t)h.fc(i) * NC<T> + c], v = m[p].v[c];
                    if (m[p].kind == 0) f.val[k] = f.rv[k] = f.rg[k] = v;
                    if (m[p].kind == 1) f.rg[k] = v, f.rv[k] = 0, f.val[k] = cell + v / h.bdc[i];
                    if (m[p].kind == 2) f.val[k] = f.rv[k] = cell, f.rg[k] = 0;
                }
                f.vf[i] = m[p].kind == 1 ? 0 : 1;
            }
    }
};
}
