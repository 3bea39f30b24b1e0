// USES: SOLVER DRIVER
#include "ref.h"
using namespace gen;

static ProbOpts general()
{
    ProbOpts o;
    o.losses = true;
    o.interior = 0.5;
    return o;
}

FACET(rate, 1200, 30000, "energy falls at the rate given by losses, jumps and absorbing boundaries")
{
    Prob p = randomProblem(c, general());
    c.note() << p.text();
    auto s = makeSolver(p);
    auto& fes = s->getFES();
    const int n = 6 * fes.GetNDofs();
    ref::DG dg(p, fes);
    auto x = randomState(c, n);
    mfem::Vector y(n);
    y = NAN;
    s->getEvolTDO()->Mult(x, y);
    double scale = std::sqrt(dg.energy(x) * dg.energy(y)), r = dg.power(x, y), want = -dg.losses(x);
    c.nontrivial(want < -1e-6 * scale);
    c.label(want < -1e-6 * scale ? "dissipating" : "conserving");
    c.expect(r <= 1e-10 * scale, pbt::cat("energy grows at rate ", r, " (scale ", scale, ")"));
    c.expect(std::abs(r - want) <= 1e-9 * scale, pbt::cat("energy changes at rate ", r, " instead of ", want));
    c.count(2);
}

FACET(warped, 250, 6000, "energy never grows on hexahedra with curved faces and on curved triangles")
{
    ProbOpts o = general();
    o.types = "H";
    o.warpHexes = true;
    o.maxElems = 6;
    Prob p = randomProblem(c, o);
    c.note() << p.text();
    c.nontrivial(!p.g.affine && p.alpha > 0);
    auto s = makeSolver(p);
    auto& fes = s->getFES();
    const int n = 6 * fes.GetNDofs();
    ref::DG dg(p, fes);
    auto x = randomState(c, n);
    mfem::Vector y(n);
    y = NAN;
    s->getEvolTDO()->Mult(x, y);
    double scale = std::sqrt(dg.energy(x) * dg.energy(y)), r = dg.power(x, y);
    c.expect(r <= 1e-10 * scale, pbt::cat("energy grows at rate ", r, " (scale ", scale, ")"));
    c.count(1);
}

FACET(strict, 600, 15000, "energy strictly falls for a jump at an upwinded face, a field in a conductor, a field at an absorbing wall")
{
    ProbOpts o = general();
    o.alphaLo = 0.25;
    Prob p = randomProblem(c, o);
    c.note() << p.text();
    auto s = makeSolver(p);
    auto& fes = s->getFES();
    const int n = fes.GetNDofs();
    ref::DG dg(p, fes);
    // a constant random field in one element: jumps at its faces, unless only a wall it slides along
    int e = c.range(0, fes.GetNE() - 1);
    mfem::Array<int> d;
    fes.GetElementDofs(e, d);
    mfem::Vector x(6 * n), y(6 * n);
    x = 0.0;
    for (int f = 0; f < 6; f++) { double v = c.grid(-1, 1, 8); for (int i = 0; i < d.Size(); i++) x[f * n + d[i]] = v; }
    double want = dg.losses(x);
    y = NAN;
    s->getEvolTDO()->Mult(x, y);
    c.nontrivial(want > 0);
    double r = dg.power(x, y);
    c.close(r, -want, 1e-8, 1e-10 * std::max(1e-3, dg.energy(x)), "rate of energy loss");
    if (want > 1e-6 * dg.energy(x)) c.expect(r < 0, "energy does not fall");
    c.count(2);
}

PBT_MAIN(pbt::info().rule = "states and problems with a positive loss rate";
         pbt::info().assumptions = { "MFEM is replaced by the stand-in in shim/" })
