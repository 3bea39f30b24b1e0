// USES: SOLVER DRIVER
#include "ref.h"
using namespace gen;

static double opNorm(mfem::TimeDependentOperator& A, int n)
{
    double m = 0;
    mfem::Vector x(n), y(n);
    uint64_t s = 1;
    for (int k = 0; k < 3; k++) {
        for (int i = 0; i < n; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; x[i] = (s >> 40) & 1 ? 1 : -1; }
        for (int it = 0; it < 3; it++) { A.Mult(x, y); double a = maxAbs(y); m = std::max(m, a / std::max(1e-300, maxAbs(x))); if (a > 0) { x = y; x *= 1 / a; } }
    }
    return m;
}

static void solves(pbt::Case& c, const Prob& p, double dtMax, double tol, int calls)
{
    auto s = makeSolver(p);
    auto* A = s->getEvolTDO();
    const int n = 6 * s->getFES().GetNDofs();
    double na = opNorm(*A, n);
    std::vector<double> dts;
    for (int i = 0; i < 3; i++) dts.push_back(c.logreal(1e-3, dtMax) / na);
    int changes = 0;
    double last = -1;
    for (int k = 0; k < calls; k++) {
        double dt = c.flip(3, 4) ? c.pick(dts) : k % 2 && last > 0 ? std::nextafter(last, 1.0) : 0.5 * c.pick(dts);
        changes += dt != last;
        last = dt;
        auto x = randomState(c, n);
        mfem::Vector kk(n), r(n), at(x);
        kk = c.flip() ? 0.0 : 1e3;
        A->ImplicitSolve(dt, x, kk);
        at.Add(dt, kk);
        r = NAN;
        A->Mult(at, r);
        // the residual in the units of the terms it is made of
        double scale = maxAbs(kk) + na * (maxAbs(x) + dt * maxAbs(kk));
        for (int i = 0; i < n; i++)
            if (!(std::abs(kk[i] - r[i]) <= tol * scale))
                c.fail(pbt::cat("call ", k, " dt ", dt, ": k[", i, "] = ", kk[i], " but the operator at x + dt k gives ", r[i], " (scale ", scale, ")"));
        c.count(n);
        // a plain evaluation in between must not disturb the next solve
        if (c.flip(1, 3)) A->Mult(x, r);
    }
    c.label(changes > 1 ? "changing_steps" : "one_step_size");
    c.nontrivial(changes > 1);
}

FACET(direct, 4000, 60000, "stage equation for small systems and sequences of step sizes")
{
    ProbOpts o;
    o.types = "sstq";
    o.losses = true;
    o.maxElems = 8;
    Prob p = randomProblem(c, o);
    if (p.g.dim == 2) p.order = std::min(p.order, 2);
    c.note() << p.text();
    solves(c, p, 1e3, 1e-10, c.range(1, 5));
}

FACET(iterative, 250, 4000, "stage equation for systems above the size limit of the direct solver")
{
    ProbOpts o;
    o.types = "tqTH";
    o.losses = false;
    o.maxElems = 24;
    Prob p = randomProblem(c, o);
    p.order = std::max(2, p.order);
    if (p.g.el.size() < 8) c.discard();
    c.note() << p.text();
    solves(c, p, 3, 1e-6, c.range(1, 3));
}

FACET(energy, 1200, 20000, "implicit integrators never increase the energy, whatever the steps; midpoint and trapezoidal conserve it without losses")
{
    ProbOpts o;
    o.types = "sstq";
    o.losses = true;
    o.maxElems = 8;
    Prob p = randomProblem(c, o);
    if (p.g.dim == 2) p.order = 1;
    int ode = c.range(1, 6);
    auto so = p.options();
    so.setTimeStep(1).setFinalTime(1e9).setODEType(ode);
    maxwell::Solver s(p.model(), Probes(), Sources(), so);
    const int n = 6 * s.getFES().GetNDofs();
    ref::DG dg(p, s.getFES());
    const auto x0 = randomState(c, n);
    s.getFields().allDOFs() = x0;
    bool lossless = p.alpha == 0;
    for (auto& [t, m] : p.mats) lossless &= m.sigma == 0;
    for (auto* b : { &p.bdr, &p.ibdr }) for (auto& [t, k] : *b) lossless &= k != BdrCond::SMA;
    double e = dg.energy(s.getFields().allDOFs()), e0 = e;
    c.note() << p.text() << " integrator " << ode;
    c.label("integrator" + std::to_string(ode));
    c.label(lossless ? "conservative" : "dissipative");
    c.nontrivial(e > 0);
    int steps = c.range(1, 6);
    for (int k = 0; k < steps; k++) {
        s.setTimeStep(c.logreal(1e-3, 20));
        s.step();
        double now = dg.energy(s.getFields().allDOFs());
        c.expect(now <= e * (1 + 1e-9) + 1e-12 * e0, pbt::cat("energy rose from ", e, " to ", now, " in step ", k));
        if (lossless && (ode == 2 || ode == 3)) c.close(now, e0, 1e-8, 0, "energy of a conservative problem");
        e = now;
        c.count(1);
    }
}

PBT_MAIN(pbt::info().rule = "at least two different step sizes in one history; energy runs starting from a non-zero field";
         pbt::info().assumptions = { "MFEM is replaced by the stand-in in shim/, including its implicit integrators and Krylov solver" })
