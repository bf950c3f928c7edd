// Meshes of any topology, host-side content of fields: helpers of the demonstrations.
#pragma once
#include "NeoFOAM/core/executor/executor.hpp"
#include "NeoFOAM/fields/field.hpp"
#include "NeoFOAM/fields/fieldTypeDefs.hpp"
#include "NeoFOAM/mesh/unstructured/unstructuredMesh.hpp"
#include <cmath>
using namespace NeoFOAM;
#define CHECK(c)                                                                                   \
    do                                                                                             \
    {                                                                                              \
        if (!(c))                                                                                  \
        {                                                                                          \
            printf("failed at line %d: %s\n", __LINE__, #c);                                       \
            fflush(stdout);                                                                        \
            _Exit(1);                                                                              \
        }                                                                                          \
    }                                                                                              \
    while (0)
struct Topo
{
    size_t nc;
    std::vector<int> own, nei;               // internal faces
    std::vector<std::vector<int>> patches;   // cell of every boundary face
    double vol(size_t c) const { return 1.0 + c % 3; }
    Vector C(size_t c) const { return Vector(2.0 * c, c % 2, 0); }
    size_t nb() const
    {
        size_t n = 0;
        for (auto& p : patches) n += p.size();
        return n;
    }
    std::vector<int> faceCells() const
    {
        std::vector<int> r;
        for (auto& p : patches) r.insert(r.end(), p.begin(), p.end());
        return r;
    }
};
inline UnstructuredMesh makeMesh(Executor e, const Topo& t)
{
    size_t ni = t.own.size(), nb = t.nb();
    std::vector<Vector> C, Sf, Cf, bcf, bcn, bsf, bnf, bd;
    std::vector<scalar> V, mag, bmag, bw, bdc;
    std::vector<label> own(t.own.begin(), t.own.end()), nei(t.nei.begin(), t.nei.end()), fc;
    std::vector<localIdx> off {0};
    for (size_t c = 0; c < t.nc; c++) C.push_back(t.C(c)), V.push_back(t.vol(c));
    auto fcs = t.faceCells();
    for (size_t i = 0; i < ni + nb; i++)
    {
        Sf.push_back(Vector(1.0 + i % 2, i % 3, 0));
        Cf.push_back(i < ni ? 0.5 * (C[own[i]] + C[nei[i]]) : C[fcs[i - ni]] + Vector(1, 0.5, 0));
        mag.push_back(std::sqrt(Sf[i] & Sf[i]));
    }
    for (auto& p : t.patches) off.push_back(off.back() + p.size());
    for (size_t b = 0; b < nb; b++)
    {
        size_t i = ni + b;
        fc.push_back(fcs[b]);
        own.push_back(fcs[b]);
        bcf.push_back(Cf[i]), bcn.push_back(C[fcs[b]]), bsf.push_back(Sf[i]), bmag.push_back(mag[i]);
        bnf.push_back((1 / mag[i]) * Sf[i]);
        Vector d = Cf[i] - C[fcs[b]];
        bd.push_back(d), bw.push_back(1), bdc.push_back(1 / std::sqrt(d & d));
    }
    return UnstructuredMesh(
        vectorField(e, std::vector<Vector>(1, Vector(0, 0, 0))), scalarField(e, V), vectorField(e, C), vectorField(e, Sf), vectorField(e, Cf), scalarField(e, mag),
        labelField(e, own), labelField(e, nei), t.nc, ni, nb, t.patches.size(), ni + nb,
        BoundaryMesh(e, labelField(e, fc), vectorField(e, bcf), vectorField(e, bcn), vectorField(e, bsf), scalarField(e, bmag), vectorField(e, bnf), vectorField(e, bd), scalarField(e, bw), scalarField(e, bdc), off)
    );
}
template<class T>
std::vector<T> host(const Field<T>& f)
{
    mini::Open o;
    return std::vector<T>(f.data(), f.data() + f.size());
}
template<class T>
void put(const Field<T>& f, const std::vector<T>& v)
{
    mini::Open o;
    std::copy(v.begin(), v.end(), (T*)f.data());
}
