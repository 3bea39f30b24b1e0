// USES: SOLVER DRIVER
#include "gen.h"
using namespace gen;

static mfem::Vector sampled(const EHFieldFunction& w, mfem::FiniteElementSpace& fes, double t)
{
    auto x = nodePositions(fes);
    const int n = (int)x.size(), dim = fes.GetMesh()->Dimension();
    mfem::Vector r(6 * n);
    for (int i = 0; i < n; i++) {
        mfem::Vector q(dim);
        for (int d = 0; d < dim; d++) q[d] = x[i][d];
        for (int f = 0; f < 6; f++) r[f * n + i] = w.eval(q, t, f < 3 ? E : H, f % 3);
    }
    return r;
}

static mfem::Vector inside(const mfem::Vector& x, mfem::FiniteElementSpace& fes, const std::vector<char>& side)
{
    mfem::Vector r(x);
    const int n = fes.GetNDofs();
    for (int e = 0; e < fes.GetNE(); e++) {
        if (side[e]) continue;
        mfem::Array<int> d;
        fes.GetElementDofs(e, d);
        for (int i = 0; i < d.Size(); i++) for (int f = 0; f < 6; f++) r[f * n + d[i]] = 0.0;
    }
    return r;
}

/// A dipole at the origin, after moving the mesh away from it and from the axis.
static std::unique_ptr<EHFieldFunction> clearDipole(pbt::Case& c, Prob& p)
{
    P3 low{ 1e9, 1e9, 1e9 };
    for (auto& v : p.g.v) for (int d = 0; d < 3; d++) low[d] = std::min(low[d], v[d]);
    P3 to{ c.real(0.2, 1), c.real(0.2, 1), c.real(-1.5, 1) };
    for (auto& v : p.g.v) for (int d = 0; d < 3; d++) v[d] += to[d] - low[d];
    const double length = c.logreal(0.01, 1), spread = c.real(0.3, 2), mean = c.real(-1, 3);
    c.note() << "dipole of length " << length << " spread " << spread << " mean " << mean;
    return DerivGaussDipole(length, spread, mean).clone();
}

static void exact(pbt::Case& c, Prob p, EvolutionOperatorType op, double tol)
{
    // continuous interpolants are needed for the surface to be invisible
    p.basis = mfem::BasisType::GaussLobatto;
    std::vector<char> side;
    int tag = addTotalField(c, p, side, true, op == Hesthaven);
    std::unique_ptr<EHFieldFunction> any;
    if (p.g.dim == 3 && c.flip(1, 3)) any = clearDipole(c, p);
    if (any) c.label("dipole");
    else any = randomPlanewave(c, &c.note()).clone();
    const EHFieldFunction& wave = *any;
    c.note() << " " << p.text() << " inside";
    for (int e = 0; e < (int)side.size(); e++) if (side[e]) c.note() << " " << e;
    Sources src;
    src.add(TotalField(wave));
    auto s = makeSolver(p, op, src), free = makeSolver(withoutSurface(p, tag));
    auto& fes = s->getFES();
    const int n = 6 * fes.GetNDofs();
    double biggest = 0, opn = 0;
    {
        mfem::Vector r(n), ar(n);
        for (int i = 0; i < n; i++) r[i] = i % 2 ? 1 : -1;
        free->getEvolTDO()->Mult(r, ar);
        opn = maxAbs(ar);
    }
    for (int k = 0; k < 3; k++) {
        double t = c.real(-2, 4);
        auto w = sampled(wave, fes, t);
        biggest = std::max(biggest, maxAbs(w));
        auto x = inside(w, fes, side);
        mfem::Vector y(n), z(n);
        y = NAN; z = NAN;
        free->getEvolTDO()->SetTime(t);
        free->getEvolTDO()->Mult(w, z);
        s->getEvolTDO()->SetTime(t);
        s->getEvolTDO()->Mult(x, y);
        auto want = inside(z, fes, side);
        // what a jump of the size of the wave would produce sets the scale
        mfem::Vector jump(n);
        free->getEvolTDO()->Mult(x, jump);
        // waves below 1e-8 on the surface may be left out altogether
        sameVector(c, y, want, tol, std::max(maxAbs(jump), 2e-8 / tol * opn), "derivative of the restricted wave under injection");
    }
    c.nontrivial(biggest > 1e-3);
}

FACET(global, 3000, 25000, "injection through random surfaces, assembled operator")
{
    ProbOpts o;
    o.losses = true;
    o.warpHexes = true;
    exact(c, randomProblem(c, o), Global, 1e-10);
}

FACET(perterm, 700, 8000, "the same for the per-term operator")
{
    ProbOpts o;
    o.types = "stqT";
    o.maxElems = 18;
    exact(c, randomProblem(c, o), EvolutionOperatorType::Maxwell, 1e-10);
}

FACET(elementwise, 1000, 8000, "the same for the element-wise operator")
{
    ProbOpts o;
    o.types = "tT";
    o.materials = false;
    exact(c, randomProblem(c, o), Hesthaven, 1e-10);
}

FACET(run, 300, 1500, "whole runs: the scattered-field side stays empty to discretisation error while the wave crosses the region")
{
    // order 3 and pulses spanning several elements keep the discretisation error small
    ProbOpts o;
    o.types = "stq";
    o.materials = false; o.interiors = false;
    o.jitter = false;
    Prob p = randomProblem(c, o);
    p.order = 3;
    p.basis = mfem::BasisType::GaussLobatto;
    p.alpha = 1;
    for (auto& [t, b] : p.bdr) b = BdrCond::SMA;
    std::vector<char> side;
    addTotalField(c, p, side);
    int d = c.range(0, p.g.dim - 1), sg = c.sign(), q = p.g.dim == 1 ? 1 + (int)c.below(2) : 2;
    // a region that ends at the domain boundary would need the wave injected there as well
    bool closed = true;
    for (auto& [key, f] : p.g.faces()) if (f.els.size() == 1 && side[f.els[0]]) closed = false;
    if (!closed && p.g.dim == 1) sg = 1;
    if (!closed && p.g.dim > 1) c.discard();
    mfem::Vector k(3), pol(3), m({ c.real(-9, -8) });
    k = 0.0; pol = 0.0;
    k[d] = sg; pol[q] = 1;
    Planewave wave(Gaussian(1.6, m), pol, k, c.flip() ? E : H);
    Sources src;
    src.add(TotalField(wave));
    auto so = p.options();
    double hmin = 1e9;
    for (auto& [key, f] : p.g.faces()) if (f.els.size() == 2) {
        auto a = p.g.centroid(p.g.el[f.els[0]]), b = p.g.centroid(p.g.el[f.els[1]]);
        hmin = std::min(hmin, std::sqrt(std::pow(a[0] - b[0], 2) + std::pow(a[1] - b[1], 2)));
    }
    double dt = 0.05 * hmin;
    if (dt < 2e-3) c.discard();
    so.setTimeStep(dt).setFinalTime(100);
    maxwell::Solver s(p.model(), Probes(), src, so);
    auto& fes = s.getFES();
    const int n = fes.GetNDofs();
    double worst = 0, want = 0;
    double T = c.real(8, 11);
    while (s.getTime() < T) s.step();
    auto w = sampled(wave, fes, s.getTime());
    auto in = inside(w, fes, side);
    auto& x = s.getFields().allDOFs();
    for (int i = 0; i < 6 * n; i++) { worst = std::max(worst, std::abs(x[i] - in[i])); want = std::max(want, std::abs(in[i])); }
    c.note() << p.text() << " time " << s.getTime() << " error " << worst;
    c.nontrivial(want > 0.3);
    c.count(6 * n);
    c.expect(worst < 0.02, pbt::cat("error ", worst, " after a pulse of height 1 entered"));
}

PBT_MAIN(pbt::info().rule = "a wave that is visible (above 1e-3 somewhere) at one of the times, on a mesh with at least one surface face";
         pbt::info().assumptions = { "MFEM is replaced by the stand-in in shim/", "nodes on the faces (Gauss-Lobatto), vacuum on both sides of the surface", "surfaces follow the solver's convention for telling the sides apart" })
