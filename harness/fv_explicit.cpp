// V03 divergence and flux integration, V04 interpolation, gradient and Laplacian, V12 Courant number
#include "fv.hpp"

#include "NeoFOAM/finiteVolume/cellCentred/interpolation/linear.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/interpolation/upwind.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/faceNormalGradient/uncorrected.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/divOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenDiv.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenGrad.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/laplacianOperator.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/gaussGreenLaplacian.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/operators/surfaceIntegrate.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/auxiliary/coNum.hpp"

using namespace fv;
using OpType = dsl::Operator::Type;

namespace
{
/// run one operation; on an allocation failure run it again without one
template<class Fn>
void retried(const char* what, Fn fn)
{
    auto o = sim::attempt(fn, 40);
    expectOk(what, o);
    if (o.ok()) return;
    sim::nontrivial();
    o = sim::attempt(fn, 0);
    expectOk(what, o);
}
Input schemeInput(bool dict, const char* outer, const char* key, const std::string& name, const TokenList& t)
{
    if (!dict) return t;
    Dictionary inner, all;
    inner.insert(name, t);
    all.insert(std::string(outer), inner);
    return all;
}
template<class T>
void divCase(TestMesh& t)
{
    VF<T> phi(t.e, *t.m, "phi");
    SF<scalar> flux(t.e, *t.m, "flux");
    Flat ones(t.h.nc, 1.0);
    auto conservation = [&](const Flat& div, const Flat& face)
    {
        for (int c = 0; c < NC<T>; c++)
        {
            double lhs = 0, rhs = 0, scale = 0;
            for (size_t i = 0; i < t.h.nc; i++) lhs += div[i * NC<T> + c] * t.h.V[i];
            for (size_t f = t.h.ni; f < t.h.ni + t.h.nb; f++) rhs += face[f * NC<T> + c];
            for (double x : face) scale += std::fabs(x);
            if (!near(lhs, rhs, scale)) sim::fail("not-conservative", "volume-weighted divergence sums to %.12g, the boundary fluxes to %.12g", lhs, rhs);
        }
    };
    while (sim::nextOp(3))
    {
        bool upwind = sim::flip(sim::W, 1, 2), dict = sim::flip(sim::W, 1, 2);
        RC k(t.e, t.h.nc, sim::choose(sim::W, 4));
        TokenList tok = tokens({"Gauss", upwind ? "upwind" : "linear"});
        Flat face = timesFace(flux.in, interpOf(t.h, upwind, flux.in, phi.in, phi.val, NC<T>), NC<T>);
        Flat want = sumFaces(t.h, face, k.v, NC<T>);
        Field<T> dst(t.e, t.h.nc);
        Flat old = randomise(dst);
        switch (sim::choose(sim::W, 7))
        {
        case 0:
        {
            // the scheme is selected by name, or made first and handed over
            const bool made = sim::flip(sim::W, 1, 3);
            retried(
                "DivOperator::explicitOperation",
                [&]
                {
                    put(dst, old);
                    fvcc::DivOperator<T> op = made ? fvcc::DivOperator<T>(OpType::Explicit, *flux.f, *phi.f, fvcc::DivOperatorFactory<T>::create(t.e, *t.m, tok)) : fvcc::DivOperator<T>(OpType::Explicit, *flux.f, *phi.f);
                    if (!made) op.build(schemeInput(dict, "divSchemes", "", "div(flux,phi)", tok));
                    op.getCoefficient() = k.c;
                    fvcc::DivOperator<T> cp(op);
                    (sim::flip(sim::W, 1, 2) ? op : cp).explicitOperation(dst);
                }
            );
            addTo(want, old);
            expectFlat("divergence added to a source", dst, want);
            break;
        }
        case 1:
            retried(
                "DivOperator::div",
                [&]
                {
                    put(dst, old);
                    fvcc::DivOperator<T> op(OpType::Explicit, *flux.f, *phi.f, tok);
                    op.getCoefficient() = k.c;
                    op.div(dst);
                }
            );
            expectFlat("divergence into a used field", dst, want);
            break;
        case 2:
        {
            VF<T> out(t.e, *t.m, alias("out"));
            retried(
                "DivOperator::div",
                [&]
                {
                    fvcc::DivOperator<T> op(OpType::Explicit, *flux.f, *phi.f, tok);
                    op.getCoefficient() = k.c;
                    op.div(*out.f);
                }
            );
            expectFlat("divergence into a used volume field", out.f->internalField(), want);
            break;
        }
        case 3:
        {
            std::unique_ptr<fvcc::VolumeField<T>> out;
            retried("GaussGreenDiv::div", [&] { out.reset(new fvcc::VolumeField<T>(fvcc::DivOperatorFactory<T>::create(t.e, *t.m, tok)->div(*flux.f, *phi.f, k.c))); });
            expectFlat("divergence returned as a field", out->internalField(), want);
            if (out->exec().index() != t.e.index()) sim::fail("wrong-executor", "divergence is on the %s executor", execName(out->exec()));
            break;
        }
        case 4:
        {
            retried("GaussGreenDiv::div", [&] { fvcc::DivOperatorFactory<T>::create(t.e, *t.m, tok)->clone()->div(dst, *flux.f, *phi.f, dsl::Coeff(1.0)); });
            expectFlat("divergence", dst, sumFaces(t.h, face, ones, NC<T>));
            Quiet q;
            conservation(flat(dst), face);
            break;
        }
        case 5:
        {
            SF<T> f(t.e, *t.m, alias("f"));
            retried(
                "SurfaceIntegrate::explicitOperation",
                [&]
                {
                    put(dst, old);
                    fvcc::SurfaceIntegrate<T> op(*f.f);
                    op.getCoefficient() = k.c;
                    fvcc::SurfaceIntegrate<T> cp(op);
                    cp.explicitOperation(dst);
                }
            );
            want = sumFaces(t.h, f.in, k.v, NC<T>);
            addTo(want, old);
            expectFlat("flux integral added to a source", dst, want);
            expectFlat("integrated flux", f.f->internalField(), f.in);
            break;
        }
        case 6:
        {
            SF<T> f(t.e, *t.m, alias("f"));
            retried(
                "surfaceIntegrate",
                [&]
                {
                    NeoFOAM::fill(dst, zero<T>());
                    fvcc::surfaceIntegrate<T>(t.e, t.m->nInternalFaces(), t.m->faceNeighbour().view(), t.m->faceOwner().view(), t.m->boundaryMesh().faceCells().view(), std::as_const(f.f->internalField()).view(), t.m->cellVolumes().view(), dst.view(), dsl::Coeff(1.0));
                }
            );
            expectFlat("flux integral", dst, sumFaces(t.h, f.in, ones, NC<T>));
            Quiet q;
            conservation(flat(dst), f.in);
            break;
        }
        }
        phi.same("field the divergence was taken of");
        expectFlat("flux of a divergence", flux.f->internalField(), flux.in);
    }
}
}
FV_PROPERTY(V03, "a run counts as non-trivial when several fluxes of one cell were added concurrently or an allocation failed")
{
    WideCells wide;
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    TestMesh t(pickExec());
    if (sim::flip(sim::W, 1, 2)) divCase<Vector>(t);
    else
        divCase<scalar>(t);
}

namespace
{
template<class T>
void interpCase(TestMesh& t)
{
    VF<T> phi(t.e, *t.m, "phi");
    SF<scalar> flux(t.e, *t.m, "flux");
    std::string name = sim::flip(sim::W, 1, 2) ? "upwind" : "linear";
    bool upwind = name == "upwind";
    std::unique_ptr<fvcc::SurfaceInterpolation<T>> s;
    Dictionary d;
    d.insert("surfaceInterpolation", name);
    Input in = sim::flip(sim::W, 1, 2) ? Input(d) : Input(tokens({name.c_str()}));
    retried("select interpolation", [&] { Input copy = in; s.reset(new fvcc::SurfaceInterpolation<T>(t.e, *t.m, copy)); });
    if (sim::flip(sim::W, 1, 3))
    {
        std::unique_ptr<fvcc::SurfaceInterpolation<T>> c(new fvcc::SurfaceInterpolation<T>(*s));
        s = sim::flip(sim::W, 1, 2) ? std::move(c) : std::make_unique<fvcc::SurfaceInterpolation<T>>(std::move(*c));
    }
    Flat want = interpOf(t.h, upwind, flux.in, phi.in, phi.val, NC<T>);
    while (sim::nextOp(3))
    {
        SF<T> dst(t.e, *t.m, alias("dst"));
        switch (sim::choose(sim::W, 4))
        {
        case 0:
            retried("interpolate", [&] { s->interpolate(*flux.f, *phi.f, *dst.f); });
            expectFlat("interpolated values", dst.f->internalField(), want);
            break;
        case 1:
        {
            auto o = sim::attempt([&] { s->interpolate(*phi.f, *dst.f); }, upwind ? 0 : 20);
            if (upwind)
            {
                // an upwind value without a flux is refused
                if (o.res != Res::Exited && o.res != Res::Aborted) sim::fail("wrong-outcome", "upwind interpolation without a flux: %s", sim::resName(o.res));
                return;
            }
            expectOk("interpolate", o);
            if (o.ok()) expectFlat("interpolated values", dst.f->internalField(), want);
            break;
        }
        case 2:
        {
            std::unique_ptr<fvcc::SurfaceField<T>> r;
            const bool directed = upwind || sim::flip(sim::W, 1, 2);
            retried("interpolate", [&] { r.reset(new fvcc::SurfaceField<T>(directed ? s->interpolate(*flux.f, *phi.f) : s->interpolate(*phi.f))); });
            expectFlat("returned interpolated values", r->internalField(), want);
            if (&r->mesh() != t.m.get() || r->exec().index() != t.e.index()) sim::fail("wrong-identity", "the interpolated field belongs to another mesh or executor");
            break;
        }
        case 3:
            if (!upwind)
            {
                SF<scalar> w(t.e, *t.m, alias("w"));
                std::unique_ptr<fvcc::SurfaceField<scalar>> r;
                uint32_t k = sim::choose(sim::W, 4);
                retried(
                    "weight",
                    [&]
                    {
                        if (k == 0) s->weight(*phi.f, *w.f);
                        else if (k == 1)
                            s->weight(*flux.f, *phi.f, *w.f);
                        else
                            r.reset(new fvcc::SurfaceField<scalar>(k == 2 ? s->weight(*phi.f) : s->weight(*flux.f, *phi.f)));
                    }
                );
                expectFlat("interpolation weights", (k >= 2 ? *r : *w.f).internalField(), weightsOf(t.h));
            }
            break;
        }
        phi.same("interpolated field");
        expectFlat("flux", flux.f->internalField(), flux.in);
    }
}
template<class T>
void laplacianCase(TestMesh& t)
{
    VF<T> phi(t.e, *t.m, "phi");
    SF<scalar> gamma(t.e, *t.m, "gamma");
    TokenList tok = tokens({"Gauss", "linear", "uncorrected"});
    Flat fng = fngOf(t.h, phi.in, phi.val, NC<T>);
    Flat face = timesFace(gamma.in, timesFace(t.h.mag, fng, NC<T>), NC<T>);
    while (sim::nextOp(3))
    {
        RC k(t.e, t.h.nc, sim::choose(sim::W, 4));
        bool dict = sim::flip(sim::W, 1, 2), made = sim::flip(sim::W, 1, 3);
        Flat want = sumFaces(t.h, face, k.v, NC<T>);
        Field<T> dst(t.e, t.h.nc);
        Flat old = randomise(dst);
        switch (sim::choose(sim::W, 5))
        {
        case 0:
            retried(
                "LaplacianOperator::explicitOperation",
                [&]
                {
                    put(dst, old);
                    fvcc::LaplacianOperator<T> op = made ? fvcc::LaplacianOperator<T>(OpType::Explicit, *gamma.f, *phi.f, fvcc::LaplacianOperatorFactory<T>::create(t.e, *t.m, tok)) : fvcc::LaplacianOperator<T>(OpType::Explicit, *gamma.f, *phi.f);
                    if (!made) op.build(schemeInput(dict, "laplacianSchemes", "", "laplacian(gamma,phi)", tok));
                    op.getCoefficient() = k.c;
                    fvcc::LaplacianOperator<T> cp(op);
                    cp.explicitOperation(dst);
                }
            );
            addTo(want, old);
            expectFlat("Laplacian added to a source", dst, want);
            break;
        case 1:
            retried("laplacian", [&] { fvcc::LaplacianOperatorFactory<T>::create(t.e, *t.m, tok)->clone()->laplacian(dst, *gamma.f, *phi.f, k.c); });
            expectFlat("Laplacian into a used field", dst, want);
            break;
        case 2:
        {
            VF<T> out(t.e, *t.m, alias("out"));
            auto op = [&]
            {
                if (made)
                {
                    fvcc::LaplacianOperator<T> lap(OpType::Explicit, *gamma.f, *phi.f, tok);
                    lap.getCoefficient() = k.c;
                    lap.laplacian(*out.f);
                }
                else
                    fvcc::LaplacianOperatorFactory<T>::create(t.e, *t.m, tok)->laplacian(*out.f, *gamma.f, *phi.f, k.c);
            };
            retried("laplacian", op);
            expectFlat("Laplacian into a used volume field", out.f->internalField(), want);
            break;
        }
        case 3:
        {
            SF<T> out(t.e, *t.m, alias("out"));
            std::unique_ptr<fvcc::FaceNormalGradient<T>> g;
            retried(
                "faceNormalGrad",
                [&]
                {
                    g.reset(new fvcc::FaceNormalGradient<T>(t.e, *t.m, tokens({"uncorrected"})));
                    fvcc::FaceNormalGradient<T>(*g).faceNormalGrad(*phi.f, *out.f);
                }
            );
            expectFlat("face normal gradient", out.f->internalField(), fng);
            expectFlat("coefficients of the face normal gradient", g->deltaCoeffs().internalField(), nonOrthOf(t.h));
            break;
        }
        case 4:
        {
            std::unique_ptr<fvcc::SurfaceField<T>> out;
            Dictionary d;
            d.insert("faceNormalGradient", std::string("uncorrected"));
            retried("faceNormalGrad", [&] { out.reset(new fvcc::SurfaceField<T>(fvcc::FaceNormalGradient<T>(t.e, *t.m, d).faceNormalGrad(*phi.f))); });
            expectFlat("face normal gradient", out->internalField(), fng);
            break;
        }
        }
        phi.same("field the Laplacian was taken of");
        expectFlat("diffusivity", gamma.f->internalField(), gamma.in);
    }
}
void gradCase(TestMesh& t)
{
    VF<scalar> phi(t.e, *t.m, "phi");
    Flat pf = interpOf(t.h, false, {}, phi.in, phi.val, 1), face;
    for (size_t f = 0; f < t.h.ni + t.h.nb; f++)
        for (int c = 0; c < 3; c++) face.push_back(t.h.Sf[f].x[c] * pf[f]);
    Flat want = sumFaces(t.h, face, Flat(t.h.nc, 1.0), 3);
    while (sim::nextOp(3))
    {
        if (sim::flip(sim::W, 1, 2))
        {
            VF<Vector> out(t.e, *t.m, alias("out"));
            retried("grad", [&] { fvcc::GaussGreenGrad(t.e, *t.m).grad(*phi.f, *out.f); });
            expectFlat("gradient into a used field", out.f->internalField(), want);
        }
        else
        {
            std::unique_ptr<fvcc::VolumeField<Vector>> out;
            retried("grad", [&] { out.reset(new fvcc::VolumeField<Vector>(fvcc::GaussGreenGrad(t.e, *t.m).grad(*phi.f))); });
            expectFlat("gradient", out->internalField(), want);
        }
        phi.same("field the gradient was taken of");
    }
}
}
FV_PROPERTY(V04, "a run counts as non-trivial when several faces of one cell were handled concurrently or an allocation failed")
{
    WideCells wide;
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    TestMesh t(pickExec());
    switch (sim::choose(sim::W, 5))
    {
    case 0: interpCase<scalar>(t); break;
    case 1: interpCase<Vector>(t); break;
    case 2: laplacianCase<scalar>(t); break;
    case 3: laplacianCase<Vector>(t); break;
    case 4: gradCase(t); break;
    }
}
FV_PROPERTY(V12, "a run counts as non-trivial when several faces of one cell were handled concurrently or an allocation failed")
{
    WideCells wide;
    sim::allowFaults(sim::flip(sim::F, 1, 2));
    TestMesh t(pickExec());
    SF<scalar> flux(t.e, *t.m, "flux");
    while (sim::nextOp(4))
    {
        if (sim::flip(sim::W, 1, 4)) // few faces carry a flux
            for (auto& x : flux.in) x *= sim::choose(sim::W, 3) == 0;
        put(flux.f->internalField(), flux.in);
        static const double dts[] = {1, 0.5, 0.01, 3, 0, 1e-6};
        double dt = dts[sim::choose(sim::W, 6)];
        Flat sum(t.h.nc, 0.0);
        for (size_t f = 0; f < t.h.ni + t.h.nb; f++)
        {
            sum[(size_t)t.h.own[f]] += std::fabs(flux.in[f]);
            if (f < t.h.ni) sum[(size_t)t.h.nei[f]] += std::fabs(flux.in[f]);
        }
        double want = 0;
        for (size_t c = 0; c < t.h.nc; c++) want = std::max(want, sum[c] / t.h.V[c]);
        want *= 0.5 * dt;
        double mean = 0, vol = 0;
        for (size_t c = 0; c < t.h.nc; c++) mean += sum[c], vol += t.h.V[c];
        mean *= 0.5 * dt / vol;
        sim::clearCaptured();
        double got = 0;
        retried("computeCoNum", [&] { got = fvcc::computeCoNum(*flux.f, dt); });
        if (!(std::fabs(got - want) <= 1e-9 * std::fabs(want) + 1e-100)) sim::fail("wrong-result", "Courant number on %s is %.12g instead of %.12g (dt %g)", execName(t.e), got, want, dt);
        {
            Quiet q;
            auto reported = [](const char* what, double value)
            {
                const char *c = nullptr, *n = sim::captured();
                while ((n = strstr(n, what))) c = n += strlen(what);
                double x;
                if (!c || sscanf(c, " %lf", &x) != 1) return; // printed in another way
                if (!(std::fabs(x - value) <= 1e-5 * std::fabs(value) + 1e-6)) sim::fail("wrong-result", "the Courant number reported as \"%s\" is %g instead of %g", what, x, value);
                sim::probe("reported number");
            };
            reported("Courant Number mean:", mean);
            reported(" max:", want);
        }
        expectFlat("flux of a Courant number", flux.f->internalField(), flux.in);
        expectFlat("cell volumes", t.m->cellVolumes(), t.h.V);
    }
}
