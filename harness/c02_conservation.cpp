// USES: SOLVER DRIVER
#include "ref.h"
using namespace gen;

// Energy products by the stand-in's own element functions, for curved elements.
static double weighted(const Prob& p, mfem::FiniteElementSpace& fes, const mfem::Vector& x, const mfem::Vector& y, double* absolute = nullptr)
{
    double s = 0, a = 0;
    const int n = fes.GetNDofs();
    for (int e = 0; e < fes.GetNE(); e++) {
        auto* fe = fes.GetFE(e);
        auto* T = fes.GetMesh()->GetElementTransformation(e);
        auto m = p.mats.at(fes.GetMesh()->GetAttribute(e));
        auto& ir = mfem::IntRules.Get(fe->GetGeomType(), 2 * p.order + 3 * std::max(1, p.curve) + 2);
        mfem::Array<int> d;
        fes.GetElementDofs(e, d);
        mfem::Vector sh(fe->GetDof());
        for (int q = 0; q < ir.GetNPoints(); q++) {
            T->SetIntPoint(&ir.IntPoint(q));
            fe->CalcShape(ir.IntPoint(q), sh);
            for (int f = 0; f < 6; f++) {
                double u = 0, v = 0;
                for (int i = 0; i < d.Size(); i++) { u += sh[i] * x[f * n + d[i]]; v += sh[i] * y[f * n + d[i]]; }
                double t = ir.IntPoint(q).weight * T->Weight() * (f < 3 ? m.eps : m.mu) * u * v;
                s += t; a += std::abs(t);
            }
        }
    }
    if (absolute) *absolute = a;
    return s;
}

static ProbOpts lossless()
{
    ProbOpts o;
    o.sma = false;
    o.alphaHi = 0;
    o.interior = 0.5;
    o.warpHexes = true;
    return o;
}

FACET(rate, 1500, 30000, "rate of change of the energy for straight-sided meshes and random states")
{
    Prob p = randomProblem(c, lossless());
    c.note() << p.text();
    c.nontrivial(p.g.el.size() > 1);
    auto s = makeSolver(p);
    auto& fes = s->getFES();
    const int n = 6 * fes.GetNDofs();
    ref::DG dg(p, fes);
    for (int k = 0; k < 2; k++) {
        auto x = randomState(c, n);
        mfem::Vector y(n);
        y = NAN;
        s->getEvolTDO()->Mult(x, y);
        double scale = std::sqrt(dg.energy(x) * dg.energy(y)), r = dg.power(x, y);
        c.expect(std::isfinite(scale) && std::abs(r) <= 1e-10 * scale + 1e-13 * dg.energy(x), pbt::cat("energy changes at rate ", r, " (scale ", scale, ")"));
        c.count(1);
    }
}

FACET(curved, 400, 8000, "rate of change of the energy on meshes with curved elements")
{
    ProbOpts o = lossless();
    o.maxElems = 10;
    o.types = "tT";
    o.warpHexes = false;
    Prob p = randomProblem(c, o);
    p.curve = c.range(2, 3);
    double a = c.grid(-0.15, 0.15, 8), b = c.grid(-0.15, 0.15, 8), w = c.real(0.5, 2.0), ph = c.real(0, 3);
    int dim = p.g.dim;
    p.bend = [=](const mfem::Vector& x, mfem::Vector& y) {
        y = x;
        y[0] += a * sin(w * x[1] + ph);
        y[1] += b * cos(w * (x[0] + (dim > 2 ? x[2] : 0)) + ph);
        if (dim > 2) y[2] += a * sin(w * x[0] - ph);
    };
    c.note() << p.text() << " bend " << a << " " << b;
    c.nontrivial(p.g.el.size() > 1 && (a != 0 || b != 0));
    auto s = makeSolver(p);
    auto& fes = s->getFES();
    const int n = 6 * fes.GetNDofs();
    auto x = randomState(c, n);
    mfem::Vector y(n);
    y = NAN;
    s->getEvolTDO()->Mult(x, y);
    double scale = std::sqrt(weighted(p, fes, x, x) * weighted(p, fes, y, y)), r = weighted(p, fes, x, y);
    c.expect(std::isfinite(scale) && std::abs(r) <= 1e-9 * scale + 1e-13 * weighted(p, fes, x, x), pbt::cat("energy changes at rate ", r, " (scale ", scale, ")"));
    c.count(1);
}

FACET(adjoint, 300, 6000, "the operator is antisymmetric in the energy product, for pairs of states")
{
    Prob p = randomProblem(c, lossless());
    c.note() << p.text();
    c.nontrivial(p.g.el.size() > 1);
    auto s = makeSolver(p);
    auto& fes = s->getFES();
    const int n = 6 * fes.GetNDofs();
    ref::DG dg(p, fes);
    auto x = randomState(c, n), z = randomState(c, n);
    mfem::Vector y(n), u(n);
    y = NAN; u = NAN;
    s->getEvolTDO()->Mult(x, y);
    s->getEvolTDO()->Mult(z, u);
    double a = dg.power(z, y), b = dg.power(x, u), scale = std::sqrt(dg.energy(x) * dg.energy(u)) + std::sqrt(dg.energy(z) * dg.energy(y));
    c.expect(std::abs(a + b) <= 1e-10 * scale + 1e-13 * std::sqrt(dg.energy(x) * dg.energy(z)), pbt::cat("<z,Ax> = ", a, " and <x,Az> = ", b));
    c.count(1);
}

PBT_MAIN(pbt::info().rule = "meshes with more than one element; curved meshes with a visible bend";
         pbt::info().assumptions = { "MFEM is replaced by the stand-in in shim/" })
