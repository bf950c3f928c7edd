// Helpers of the finite-volume harnesses: random meshes with a host-side model, flattened oracles.
#pragma once
#include "kk.hpp"

#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "NeoFOAM/fields/fieldTypeDefs.hpp"
#include "NeoFOAM/core/dictionary.hpp"
#include "NeoFOAM/mesh/unstructured/unstructuredMesh.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/volumeField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/fields/surfaceField.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/boundary.hpp"
#include "NeoFOAM/dsl/coeff.hpp"
#include "NeoFOAM/core/tokenList.hpp"

namespace fv
{
using namespace NeoFOAM;
using namespace hk;
namespace fvcc = NeoFOAM::finiteVolume::cellCentred;

// ---- the oracle works on flat arrays of components, without the library's vector type
struct V3
{
    double x[3];
};
inline V3 operator-(const V3& a, const V3& b) { return {a.x[0] - b.x[0], a.x[1] - b.x[1], a.x[2] - b.x[2]}; }
inline double dot(const V3& a, const V3& b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
inline double len(const V3& a) { return std::sqrt(dot(a, a)); }
inline Vector toVec(const V3& a) { return Vector(a.x[0], a.x[1], a.x[2]); }

template<class T>
constexpr int NC = 1;
template<>
constexpr int NC<Vector> = 3;
using Flat = std::vector<double>;
template<class T>
T pack(const double* p)
{
    if constexpr (NC<T> == 3) return Vector(p[0], p[1], p[2]);
    else
        return (T)p[0];
}
/// components of a field, read by the oracle whatever side it lives on
template<class T>
Flat flat(const Field<T>& f)
{
    Quiet q;
    Flat r;
    const char* p = (const char*)f.data();
    for (size_t i = 0; i < f.size(); i++)
    {
        if constexpr (NC<T> == 3)
        {
            double d[3];
            memcpy(d, p + i * sizeof(T), sizeof d);
            r.insert(r.end(), d, d + 3);
        }
        else
        {
            T d;
            memcpy(&d, p + i * sizeof(T), sizeof d);
            r.push_back((double)d);
        }
    }
    return r;
}
template<class T>
void put(const Field<T>& f, const Flat& v)
{
    Quiet q;
    for (size_t i = 0; i < f.size(); i++)
    {
        T t = pack<T>(v.data() + i * NC<T>);
        memcpy((char*)f.data() + i * sizeof(T), &t, sizeof t);
    }
}
inline double rndInt() { return (double)((int)sim::choose(sim::W, 19) - 9); }
inline double rndPos()
{
    static const double p[] = {1, 2, 0.5, 4, 0.25, 8};
    return p[sim::choose(sim::W, 6)];
}
inline Flat rndFlat(size_t n)
{
    Flat r(n);
    for (auto& x : r) x = rndInt();
    return r;
}
/// fills a field with small integers and returns them
template<class T>
Flat randomise(const Field<T>& f)
{
    Flat v = rndFlat(f.size() * NC<T>);
    put(f, v);
    return v;
}
/// the largest flux of a run: results may differ by its rounding even where they cancel
inline double largest = 0;
/// several steps in time amplify values, there no flux may be very large
inline bool growing = false;
/// equal up to rounding; the values the harnesses use are far apart on this scale
inline bool near(double a, double b, double scale) { return std::fabs(a - b) <= 1e-9 * (1 + std::max(std::fabs(scale), largest)); }
inline std::string diffFlat(const Flat& got, const Flat& want, int nc)
{
    if (got.size() != want.size()) return "size " + std::to_string(got.size() / nc) + " instead of " + std::to_string(want.size() / nc);
    double scale = 0;
    for (double w : want) scale = std::max(scale, std::fabs(w));
    for (size_t i = 0; i < got.size(); i++)
        if (!near(got[i], want[i], scale))
        {
            char b[160];
            snprintf(b, sizeof b, "entry %zu component %zu is %.12g instead of %.12g", i / nc, i % nc, got[i], want[i]);
            return b;
        }
    return "";
}
template<class T>
void expectFlat(const char* what, const Field<T>& f, const Flat& want)
{
    Quiet q;
    std::string d = diffFlat(flat(f), want, NC<T>);
    if (!d.empty()) sim::fail("wrong-content", "%s (%s): %s", what, execName(f.exec()), d.c_str());
}

// ---- meshes
struct HM
{
    size_t nc = 0, ni = 0, nb = 0;
    std::vector<int> own, nei; // own also covers the boundary faces
    std::vector<localIdx> off {0};
    std::vector<V3> C, Cf, Sf, pts;
    std::vector<double> V, mag;
    std::vector<V3> bcf, bcn, bsf, bnf, bdelta;
    std::vector<double> bmag, bw, bdc;
    int kind = 0;
    size_t nPatches() const { return off.size() - 1; }
    int fc(size_t b) const { return own[ni + b]; }
};
inline std::vector<Vector> vecs(const std::vector<V3>& v)
{
    std::vector<Vector> r;
    for (auto& x : v) r.push_back(toVec(x));
    return r;
}
inline std::vector<label> labels(const std::vector<int>& v, size_t from, size_t to)
{
    return std::vector<label>(v.begin() + from, v.begin() + to);
}
inline UnstructuredMesh build(const Executor& e, const HM& m)
{
    std::vector<label> own, nei, fc;
    std::vector<Vector> pts, C, Cf, Sf, bcf, bcn, bsf, bnf, bd;
    {
        Quiet q;
        own = labels(m.own, 0, m.own.size());
        nei = labels(m.nei, 0, m.nei.size());
        fc = labels(m.own, m.ni, m.ni + m.nb);
        pts = vecs(m.pts), C = vecs(m.C), Cf = vecs(m.Cf), Sf = vecs(m.Sf), bcf = vecs(m.bcf), bcn = vecs(m.bcn), bsf = vecs(m.bsf), bnf = vecs(m.bnf), bd = vecs(m.bdelta);
    }
    return UnstructuredMesh(
        vectorField(e, pts),
        scalarField(e, m.V),
        vectorField(e, C),
        vectorField(e, Sf),
        vectorField(e, Cf),
        scalarField(e, m.mag),
        labelField(e, own),
        labelField(e, nei),
        m.nc,
        m.ni,
        m.nb,
        m.nPatches(),
        m.ni + m.nb,
        BoundaryMesh(
            e,
            labelField(e, fc),
            vectorField(e, bcf),
            vectorField(e, bcn),
            vectorField(e, bsf),
            scalarField(e, m.bmag),
            vectorField(e, bnf),
            vectorField(e, bd),
            scalarField(e, m.bw),
            scalarField(e, m.bdc),
            m.off
        )
    );
}
/// geometry that follows from cells, faces and areas
inline void derive(HM& m)
{
    m.mag.clear();
    for (auto& s : m.Sf) m.mag.push_back(len(s));
    for (size_t b = 0; b < m.nb; b++)
    {
        V3 cf = m.Cf[m.ni + b], s = m.Sf[m.ni + b];
        double mg = m.mag[m.ni + b];
        m.bcf.push_back(cf);
        m.bcn.push_back(m.C[m.fc(b)]);
        m.bsf.push_back(s);
        m.bmag.push_back(mg);
        m.bnf.push_back({s.x[0] / mg, s.x[1] / mg, s.x[2] / mg});
        V3 d = cf - m.C[m.fc(b)];
        m.bdelta.push_back(d);
        m.bw.push_back(1.0);
        m.bdc.push_back(1.0 / len(d));
    }
}
inline V3 rndPoint() { return {rndInt(), rndInt(), rndInt()}; }
/// whether a cell may have more internal faces than a byte can count (set by properties that need no matrix, see V02)
inline bool wideCells = false;
struct WideCells
{
    WideCells() { wideCells = true; }
    ~WideCells() { wideCells = false; }
};
/// any topology: random owner/neighbour pairs, several boundary faces per cell, empty patches
inline HM rndMesh(bool allowParallelFaces = true)
{
    HM m;
    m.kind = 2;
    m.nc = 1 + sim::small(7);
    size_t want = m.nc > 1 ? sim::choose(sim::W, 11) : 0;
    // rarely a mesh with many cells, faces and patches, or one whose faces nearly all belong to one cell
    uint32_t big = sim::chooseAs(sim::W, 3, sim::rnd(sim::W, wideCells ? 30 : 40) == 0 ? 1 + sim::rnd(sim::W, 2) : 0);
    if (big)
    {
        sim::probe(big == 1 ? "large-mesh" : "hub-mesh");
        m.nc = 40 + sim::choose(sim::W, 60);
        want = 60 + sim::choose(sim::W, 120);
        if (wideCells && big == 2 && sim::flip(sim::W, 1, 2))
        {
            m.nc = 300 + sim::choose(sim::W, 60);
            want = 2 * m.nc;
        }
    }
    int hub = big == 2 ? (int)sim::choose(sim::W, (uint32_t)m.nc) : -1;
    if (big == 2 && sim::flip(sim::W, 2, 3)) hub = sim::flip(sim::W, 1, 2) ? 0 : (int)m.nc - 1;
    std::vector<std::pair<int, int>> f;
    for (size_t i = 0; i < want; i++)
    {
        int a = (int)sim::choose(sim::W, (uint32_t)m.nc - 1);
        int b = a + 1 + (int)sim::choose(sim::W, (uint32_t)(m.nc - 1 - a));
        if (hub >= 0 && a != hub && b != hub && !sim::flip(sim::W, 1, 8))
        {
            if (b < hub) b = hub;
            else if (a > hub || b - hub < hub - a)
                a = hub;
            else
                b = hub;
            if (a > b) std::swap(a, b);
        }
        if (std::find(f.begin(), f.end(), std::make_pair(a, b)) != f.end() && !(allowParallelFaces && sim::flip(sim::W, 1, 4))) continue;
        f.push_back({a, b});
    }
    if (sim::flip(sim::W, 1, 2)) std::sort(f.begin(), f.end()); // the order mesh generators produce
    m.ni = f.size();
    for (auto& [a, b] : f)
    {
        m.own.push_back(a);
        m.nei.push_back(b);
    }
    size_t np = sim::choose(sim::W, big ? 15 : 5);
    for (size_t p = 0; p < np; p++)
    {
        size_t n = sim::choose(sim::W, big ? 40 : 5);
        for (size_t i = 0; i < n; i++) m.own.push_back((int)sim::choose(sim::W, (uint32_t)m.nc));
        m.nb += n;
        m.off.push_back((localIdx)m.nb);
    }
    for (size_t c = 0; c < m.nc; c++)
    {
        // distinct centres: the first coordinate counts the cells
        m.C.push_back({(double)c * 2, rndInt(), rndInt()});
        m.V.push_back(rndPos());
    }
    for (size_t i = 0; i < m.ni + m.nb; i++)
    {
        V3 s = rndPoint();
        if (len(s) == 0) s.x[0] = 1;
        m.Sf.push_back(s);
        V3 c = rndPoint();
        c.x[0] += 0.5; // never coincides with a cell centre
        m.Cf.push_back(c);
    }
    m.pts.push_back({0, 0, 0});
    derive(m);
    return m;
}
/// many cells around one: more neighbours than fit into a byte
inline HM starMesh(size_t arms)
{
    HM m;
    m.kind = 3;
    m.nc = arms + 1;
    m.ni = arms;
    for (size_t i = 0; i < arms; i++)
    {
        m.own.push_back(0);
        m.nei.push_back((int)i + 1);
    }
    for (size_t c = 0; c < m.nc; c++)
    {
        m.C.push_back({(double)c * 2, 0, 1});
        m.V.push_back(1);
    }
    for (size_t i = 0; i < m.ni; i++)
    {
        m.Sf.push_back({1, 0, 0});
        m.Cf.push_back({(double)i + 0.5, 0, 0});
    }
    m.pts.push_back({0, 0, 0});
    derive(m);
    return m;
}
inline HM uniform1D(size_t n)
{
    HM m;
    m.kind = 1;
    m.nc = n;
    m.ni = n - 1;
    m.nb = 2;
    double h = 1.0 / (double)n;
    for (size_t i = 0; i + 1 < n; i++)
    {
        m.own.push_back((int)i);
        m.nei.push_back((int)i + 1);
        m.Cf.push_back({(double)(i + 1) * h, 0, 0});
        m.Sf.push_back({1, 0, 0});
    }
    m.own.push_back(0);
    m.own.push_back((int)n - 1);
    m.Cf.push_back({0, 0, 0});
    m.Cf.push_back({1, 0, 0});
    m.Sf.push_back({-1, 0, 0});
    m.Sf.push_back({1, 0, 0});
    m.pts = m.Cf;
    for (size_t i = 0; i < n; i++)
    {
        m.C.push_back({h * 0.5 + h * (double)i, 0, 0});
        m.V.push_back(h);
    }
    m.off = {0, 1, 2};
    derive(m);
    return m;
}
inline HM singleCell()
{
    HM m;
    m.kind = 0;
    m.nc = 1;
    m.nb = 4;
    m.own = {0, 0, 0, 0};
    m.off = {0, 1, 2, 3, 4};
    m.Sf = {{-1, 0, 0}, {0, 1, 0}, {1, 0, 0}, {0, -1, 0}};
    m.Cf = {{0, 0.5, 0}, {0.5, 1, 0}, {1, 0.5, 0}, {0.5, 0, 0}};
    m.C = {{0.5, 0.5, 0}};
    m.V = {1};
    m.pts = {{0, 0, 0}, {0, 1, 0}, {1, 1, 0}, {1, 0, 0}};
    derive(m);
    return m;
}
/// one mesh of a run, with its model
struct TestMesh
{
    HM h;
    Executor e;
    std::unique_ptr<UnstructuredMesh> m;
    explicit TestMesh(const Executor& ex, bool parallelFaces = true) : e(ex)
    {
        uint32_t k = sim::choose(sim::W, 8);
        sim::Outcome o;
        if (k == 0)
        {
            h = singleCell();
            m.reset(new UnstructuredMesh(createSingleCellMesh(e)));
        }
        else if (k == 1)
        {
            size_t n = 1 + sim::small(6);
            if (sim::chooseAs(sim::W, 8, sim::rnd(sim::W, 40) == 0 ? 7 : 0) == 7) n = 250 + 10 * n;
            h = uniform1D(n);
            m.reset(new UnstructuredMesh(create1DUniformMesh(e, n)));
        }
        else
        {
            h = rndMesh(parallelFaces);
            m.reset(new UnstructuredMesh(build(e, h)));
        }
        sim::log("mesh kind %d on %s: %zu cells %zu internal %zu boundary faces %zu patches", h.kind, execName(e), h.nc, h.ni, h.nb, h.nPatches());
        std::vector<int> cnt(h.nc, 0);
        for (size_t i = 0; i < h.ni; i++) cnt[h.own[i]]++, cnt[h.nei[i]]++;
        std::vector<int> bc(h.nc, 0);
        bool busy = false;
        for (size_t b = 0; b < h.nb; b++) busy |= ++bc[h.fc(b)] > 1;
        for (int c : cnt) busy |= c > 1;
        if (busy && e.index() != 0) sim::nontrivial(); // concurrent contributions to one cell
    }
};
/// geometry scheme, from its definition
inline Flat weightsOf(const HM& m)
{
    Flat w;
    for (size_t i = 0; i < m.ni; i++)
    {
        double so = std::fabs(dot(m.Sf[i], m.Cf[i] - m.C[m.own[i]]));
        double sn = std::fabs(dot(m.Sf[i], m.C[m.nei[i]] - m.Cf[i]));
        w.push_back(so + sn > 1e-9 ? sn / (so + sn) : 0.5);
    }
    w.resize(m.ni + m.nb, 1.0);
    return w;
}
inline V3 deltaOf(const HM& m, size_t f) { return f < m.ni ? m.C[m.nei[f]] - m.C[m.own[f]] : m.Cf[f] - m.C[m.own[f]]; }
inline Flat deltaCoeffsOf(const HM& m)
{
    Flat w;
    for (size_t i = 0; i < m.ni + m.nb; i++) w.push_back(1.0 / len(deltaOf(m, i)));
    return w;
}
inline Flat nonOrthOf(const HM& m)
{
    Flat w;
    for (size_t i = 0; i < m.ni + m.nb; i++)
    {
        V3 d = deltaOf(m, i);
        w.push_back(1.0 / std::max(dot(m.Sf[i], d) / m.mag[i], 0.05 * len(d)));
    }
    return w;
}

// ---- fields with models
/// a result may well carry the name of its source
inline std::string alias(const char* name)
{
    static const char* n[] = {nullptr, "phi", "flux", "U", "in"};
    auto r = n[sim::chooseAs(sim::W, 5, sim::rnd(sim::W, 4) == 0 ? 1 + sim::rnd(sim::W, 4) : 0)];
    return r ? r : name;
}
template<class T>
struct VF
{
    std::unique_ptr<fvcc::VolumeField<T>> f;
    Flat in, val, rv, rg, vf;
    VF(const Executor& e, const UnstructuredMesh& m, const std::string& name) { f.reset(new fvcc::VolumeField<T>(e, name, m, fvcc::createCalculatedBCs<fvcc::VolumeBoundary<T>>(m))), fill(); }
    VF(const Executor& e, const UnstructuredMesh& m, const std::string& name, const std::vector<fvcc::VolumeBoundary<T>>& b) { f.reset(new fvcc::VolumeField<T>(e, name, m, b)), fill(); }
    void fill()
    {
        in = randomise(f->internalField());
        auto& b = f->boundaryField();
        val = randomise(b.value());
        rv = randomise(b.refValue());
        rg = randomise(b.refGrad());
        vf.clear();
        for (size_t i = 0; i < b.valueFraction().size(); i++) vf.push_back(0.5 * sim::choose(sim::W, 3));
        put(b.valueFraction(), vf);
    }
    void same(const char* what)
    {
        Quiet q;
        expectFlat(what, f->internalField(), in);
        auto& b = f->boundaryField();
        expectFlat(what, b.value(), val);
        expectFlat(what, b.refValue(), rv);
        expectFlat(what, b.refGrad(), rg);
        expectFlat(what, b.valueFraction(), vf);
    }
};
template<class T>
struct SF
{
    std::unique_ptr<fvcc::SurfaceField<T>> f;
    Flat in;
    SF(const Executor& e, const UnstructuredMesh& m, const std::string& name)
    {
        f.reset(new fvcc::SurfaceField<T>(e, name, m, fvcc::createCalculatedBCs<fvcc::SurfaceBoundary<T>>(m)));
        in = randomise(f->internalField());
        // rarely values next to nothing, of either sign, or very large ones
        if (NC<T> == 1 && !in.empty() && sim::flip(sim::W, 1, 6))
        {
            static const double odd[] = {-1e-15, 1e-15, -1e-300, 1e-300, -0.0, 1e8, -1e8};
            for (uint32_t k = 0; k < 2; k++) in[sim::choose(sim::W, (uint32_t)in.size())] = odd[sim::choose(sim::W, growing ? 5 : 7)];
            for (double x : in) largest = std::max(largest, std::fabs(x) > 1e7 ? std::fabs(x) : 0);
            put(f->internalField(), in);
        }
        auto& b = f->boundaryField();
        randomise(b.value());
        randomise(b.refValue());
        randomise(b.refGrad());
        randomise(b.valueFraction());
    }
};

// ---- coefficients of operators
struct RC
{
    dsl::Coeff c {1.0};
    Flat v; // per cell
    std::unique_ptr<Field<scalar>> store;
    RC(const Executor& e, size_t n, uint32_t kind)
    {
        static const double k[] = {1, 2, -1, 0.5, -3, 0, 4};
        double s = k[sim::choose(sim::W, 7)];
        if (kind == 0) s = 1;
        v.assign(n, s);
        if (kind >= 2)
        {
            store.reset(new Field<scalar>(e, n));
            Flat f = randomise(*store);
            if (kind == 2) s = 1;
            for (size_t i = 0; i < n; i++) v[i] = s * f[i];
        }
        if (kind < 2) c = dsl::Coeff(s);
        else if (kind == 2)
            c = dsl::Coeff(*store);
        else
            c = dsl::Coeff(s, *store);
    }
};
/// time step sizes, some of them nearly alike
inline double rndDt()
{
    static const double dts[] = {1, 0.5, 0.125, 4, 1.0001, 0.99999, 1e-9, 5000};
    return dts[sim::chooseAs(sim::W, 8, sim::rnd(sim::W, 6) == 0 ? sim::rnd(sim::W, 8) : sim::rnd(sim::W, 4))];
}
inline TokenList tokens(std::initializer_list<const char*> l)
{
    TokenList t;
    for (auto s : l) t.insert(std::string(s));
    return t;
}
// ---- face-by-face definitions
/// face values by linear or upwind interpolation; val are the boundary values
inline Flat interpOf(const HM& m, bool upwind, const Flat& flux, const Flat& in, const Flat& val, int nc)
{
    Flat w = weightsOf(m), r;
    for (size_t f = 0; f < m.ni + m.nb; f++)
        for (int c = 0; c < nc; c++)
        {
            if (f >= m.ni) r.push_back(val[(f - m.ni) * nc + c]);
            else
            {
                double wo = upwind ? (flux[f] >= 0 ? 1 : 0) : w[f];
                r.push_back(wo * in[(size_t)m.own[f] * nc + c] + (1 - wo) * in[(size_t)m.nei[f] * nc + c]);
            }
        }
    return r;
}
inline Flat fngOf(const HM& m, const Flat& in, const Flat& val, int nc)
{
    Flat d = nonOrthOf(m), r;
    for (size_t f = 0; f < m.ni + m.nb; f++)
        for (int c = 0; c < nc; c++)
        {
            double other = f < m.ni ? in[(size_t)m.nei[f] * nc + c] : val[(f - m.ni) * nc + c];
            r.push_back(d[f] * (other - in[(size_t)m.own[f] * nc + c]));
        }
    return r;
}
/// sum of signed face values over the faces of each cell, times coeff over volume
inline Flat sumFaces(const HM& m, const Flat& face, const Flat& coeff, int nc)
{
    Flat r(m.nc * nc, 0.0);
    for (size_t f = 0; f < m.ni + m.nb; f++)
        for (int c = 0; c < nc; c++)
        {
            r[(size_t)m.own[f] * nc + c] += face[f * nc + c];
            if (f < m.ni) r[(size_t)m.nei[f] * nc + c] -= face[f * nc + c];
        }
    for (size_t i = 0; i < m.nc; i++)
        for (int c = 0; c < nc; c++) r[i * nc + c] *= coeff[i] / m.V[i];
    return r;
}
inline Flat timesFace(const Flat& s, const Flat& v, int nc)
{
    Flat r = v;
    for (size_t i = 0; i < r.size(); i++) r[i] *= s[i / nc];
    return r;
}
inline void addTo(Flat& a, const Flat& b)
{
    for (size_t i = 0; i < a.size(); i++) a[i] += b[i];
}

// ---- workloads: each property registers its own, the race check runs all of them
using Work = void (*)();
/// one history, sometimes followed by another one on other meshes and fields: nothing of the first may show in the second
inline void again(Work w)
{
    for (int k = 0; k < 3; k++)
    {
        {
            hk::KernelMode km(false);
            w();
        }
        if (sim::exits() || !sim::chooseAs(sim::W, 2, sim::rnd(sim::W, 6) == 0)) return;
        sim::probe("another-history");
    }
}
struct WorkList
{
    static std::vector<Work>& all()
    {
        static std::vector<Work> v;
        return v;
    }
    explicit WorkList(Work w) { all().push_back(w); }
};
}
#define FV_PROPERTY(id, rule)                                                                      \
    static void fvwork_##id();                                                                     \
    static fv::WorkList fvlist_##id(&fvwork_##id);                                                 \
    SIM_PROPERTY(id, rule)                                                                         \
    {                                                                                              \
        fv::again(fvwork_##id);                                                                    \
    }                                                                                              \
    static void fvwork_##id()
