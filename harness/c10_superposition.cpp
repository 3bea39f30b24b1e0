// USES: SOLVER DRIVER
#include "gen.h"
using namespace gen;

static EvolutionOperatorType anyOperator(pbt::Case& c, ProbOpts& o)
{
    int k = (int)c.below(5);
    o.maxElems = 16;
    if (k == 3) { o.types = "stqT"; c.label("perterm"); return EvolutionOperatorType::Maxwell; }
    if (k == 4) { o.types = "tT"; o.materials = false; c.label("elementwise"); return Hesthaven; }
    o.losses = true;
    c.label("assembled");
    return Global;
}

static mfem::Vector unitVector(pbt::Case& c)
{
    mfem::Vector p(3);
    p = 0.0;
    if (c.flip()) p[(int)c.below(3)] = c.sign();
    else { p[0] = c.gauss(); p[1] = c.gauss(); p[2] = c.gauss() + 0.01; p *= 1 / p.Norml2(); }
    return p;
}

static std::unique_ptr<Source> randomInitial(pbt::Case& c, int dim)
{
    mfem::Vector ctr(3), zero(dim);
    for (int d = 0; d < 3; d++) ctr[d] = c.real(-1, 2);
    zero = 0.0;
    auto ft = c.flip() ? E : H;
    auto pol = unitVector(c);
    mfem::Vector ang({ 0.0, 0.0, 0.0 });
    if (c.flip()) return InitialField(Gaussian(c.logreal(0.2, 2), zero, dim), ft, pol, ctr, ang).clone();
    std::vector<std::size_t> m;
    for (int d = 0; d < dim; d++) m.push_back(c.below(4));
    return InitialField(SinusoidalMode(m), ft, pol, ctr, ang).clone();
}

FACET(rate, 1200, 30000, "the effect of several injected waves on the derivative is the sum of their effects")
{
    ProbOpts o;
    auto op = anyOperator(c, o);
    Prob p = randomProblem(c, o);
    if (op == Hesthaven) p.basis = mfem::BasisType::GaussLobatto;
    std::vector<char> side;
    addTotalField(c, p, side, true, op == Hesthaven);
    int k = c.range(2, 4);
    std::vector<std::unique_ptr<Source>> each;
    Sources all;
    for (int i = 0; i < k; i++) {
        TotalField f(randomPlanewave(c, &c.note()));
        all.add(f);
        each.push_back(f.clone());
        if (c.flip(1, 3)) all.add(*std::unique_ptr<InitialField>(static_cast<InitialField*>(randomInitial(c, p.g.dim).release())));
    }
    c.note() << " " << p.text() << " sources " << k;
    double t = c.real(-1, 2);
    auto A = makeSolver(p, op), S = makeSolver(p, op, all);
    const int n = 6 * A->getFES().GetNDofs();
    auto x = randomState(c, n);
    mfem::Vector base(n), y(n), sum(n);
    A->getEvolTDO()->SetTime(t);
    A->getEvolTDO()->Mult(x, base);
    S->getEvolTDO()->SetTime(t);
    S->getEvolTDO()->Mult(x, y);
    y -= base;
    sum = 0.0;
    double big = 0, second = 0;
    for (auto& s : each) {
        Sources one;
        one.add(*static_cast<TotalField*>(s.get()));
        auto B = makeSolver(p, op, one);
        mfem::Vector z(n);
        B->getEvolTDO()->SetTime(t);
        B->getEvolTDO()->Mult(x, z);
        z -= base;
        double m = maxAbs(z);
        if (m > big) { second = big; big = m; } else second = std::max(second, m);
        sum += z;
    }
    c.nontrivial(second > 1e-3 * big && big > 1e-6);
    // waves below 1e-8 on the surface may be left out
    sameVector(c, y, sum, 1e-9, maxAbs(base) + 1e3 * 1e-8 / 1e-9 * 0.1, "effect of all sources together");
}

FACET(run, 300, 8000, "fields of short runs with several sources, initial and injected, are the sum of those of each alone")
{
    ProbOpts o;
    auto op = anyOperator(c, o);
    o.maxElems = 10;
    Prob p = randomProblem(c, o);
    if (op == Hesthaven) p.basis = mfem::BasisType::GaussLobatto;
    bool surface = c.flip();
    std::vector<char> side;
    if (surface) addTotalField(c, p, side, true, op == Hesthaven);
    int k = c.range(2, 3), waves = 0;
    std::vector<Sources> each;
    Sources all;
    for (int i = 0; i < k; i++) {
        Sources one;
        if (surface && c.flip()) { TotalField f(randomPlanewave(c, &c.note())); one.add(f); all.add(f); waves++; }
        else { auto s = randomInitial(c, p.g.dim); one.add(*static_cast<InitialField*>(s.get())); all.add(*static_cast<InitialField*>(s.get())); }
        each.push_back(one);
    }
    int steps = c.range(1, 4);
    c.note() << " " << p.text() << " steps " << steps << " waves " << waves << " of " << k;
    auto run = [&](const Sources& s) {
        auto q = makeSolver(p, op, s);
        for (int i = 0; i < steps; i++) q->step();
        return mfem::Vector(q->getFields().allDOFs());
    };
    auto y = run(all);
    mfem::Vector sum(y.Size());
    sum = 0.0;
    double scale = 0;
    for (auto& s : each) { auto z = run(s); scale += maxAbs(z); sum += z; }
    c.nontrivial(scale > 1e-6);
    c.label(waves == 0 ? "initial_only" : waves == k ? "waves_only" : "mixed");
    sameVector(c, y, sum, 1e-9, scale + 0.1, "fields of all sources together");
}

FACET(rest, 500, 15000, "without sources every field stays exactly zero, for every operator and integrator")
{
    ProbOpts o;
    auto op = anyOperator(c, o);
    o.maxElems = 10;
    Prob p = randomProblem(c, o);
    if (op == Hesthaven) p.basis = mfem::BasisType::GaussLobatto;
    std::vector<char> side;
    if (c.flip() && p.g.el.size() > 3) addTotalField(c, p, side, true, op == Hesthaven);
    auto so = p.options(op);
    int ode = op == Global && c.flip() ? c.range(1, 6) : 0;
    so.setODEType(ode);
    maxwell::Solver s(p.model(), Probes(), Sources(), so);
    int steps = c.range(1, 6);
    c.note() << p.text() << " steps " << steps << " integrator " << ode;
    c.nontrivial(p.g.el.size() > 1);
    for (int i = 0; i < steps; i++) s.step();
    auto& x = s.getFields().allDOFs();
    for (int i = 0; i < x.Size(); i++) c.expect(x[i] == 0.0, pbt::cat("entry ", i, " is ", x[i]));
    c.count(x.Size());
}

PBT_MAIN(pbt::info().rule = "at least two sources with a visible effect; runs with visible fields; rest on more than one element";
         pbt::info().assumptions = { "MFEM is replaced by the stand-in in shim/", "injected waves below 1e-8 count as absent" })
