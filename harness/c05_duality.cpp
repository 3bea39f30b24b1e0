// USES: SOLVER DRIVER
#include "gen.h"
using namespace gen;

static mfem::Vector dual(const mfem::Vector& x)
{
    const int h = x.Size() / 2;
    mfem::Vector r(x.Size());
    for (int i = 0; i < h; i++) { r[i] = x[h + i]; r[h + i] = -x[i]; }
    return r;
}
static Prob dual(const Prob& p)
{
    Prob q = p;
    for (auto& [t, m] : q.mats) std::swap(m.eps, m.mu);
    auto swp = [](BdrCond b) { return b == BdrCond::PEC ? BdrCond::PMC : b == BdrCond::PMC ? BdrCond::PEC : b; };
    for (auto& [t, b] : q.bdr) b = swp(b);
    for (auto& [t, b] : q.ibdr) b = swp(b);
    return q;
}

static void check(pbt::Case& c, const Prob& p, EvolutionOperatorType op)
{
    auto a = makeSolver(p, op), b = makeSolver(dual(p), op);
    const int n = 6 * a->getFES().GetNDofs();
    auto x = randomState(c, n);
    mfem::Vector y(n), z(n);
    y = NAN; z = NAN;
    a->getEvolTDO()->Mult(x, y);
    b->getEvolTDO()->Mult(dual(x), z);
    sameVector(c, z, dual(y), 1e-11, 0, "derivative in the dual problem");
}

FACET(global, 1000, 40000, "time derivative of the dual state in the dual problem")
{
    ProbOpts o;
    o.interior = 0.5;
    o.warpHexes = true;
    Prob p = randomProblem(c, o);
    c.note() << p.text();
    bool walls = false, media = false;
    for (auto& [t, b] : p.bdr) walls |= b != BdrCond::SMA;
    for (auto& [t, m] : p.mats) media |= m.eps != m.mu;
    c.nontrivial(walls || media);
    check(c, p, Global);
}

FACET(perterm, 250, 10000, "the same for the per-term operator")
{
    ProbOpts o;
    o.interior = 0.5;
    Prob p = randomProblem(c, o);
    c.note() << p.text();
    c.nontrivial(p.g.el.size() > 1);
    check(c, p, EvolutionOperatorType::Maxwell);
}

FACET(run, 80, 2500, "whole runs of the dual problem from dual initial fields")
{
    ProbOpts o;
    o.maxElems = 12;
    Prob p = randomProblem(c, o);
    c.note() << p.text();
    c.nontrivial(p.g.el.size() > 1);
    Prob q = dual(p);
    double dt = c.logreal(1e-4, 2e-3);
    int steps = c.range(1, 6);
    auto go = [&](const Prob& r, const mfem::Vector& x0) {
        auto o = r.options().setTimeStep(dt).setFinalTime(dt * steps * 1.3);
        maxwell::Solver s(r.model(), Probes(), Sources(), o);
        s.getFields().allDOFs() = x0;
        for (int i = 0; i < steps; i++) s.step();
        return mfem::Vector(s.getFields().allDOFs());
    };
    int n = 6 * makeSolver(p)->getFES().GetNDofs();
    auto x = randomState(c, n);
    sameVector(c, go(q, dual(x)), dual(go(p, x)), 1e-10, 0, "fields after the dual run");
}

PBT_MAIN(pbt::info().rule = "problems with a conductor or a material that the exchange changes";
         pbt::info().assumptions = { "MFEM is replaced by the stand-in in shim/" })
