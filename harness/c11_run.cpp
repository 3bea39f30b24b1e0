// USES: SOLVER DRIVER
#include "gen.h"
#include <Eigen/Dense>
using namespace gen;

static EvolutionOperatorType anyOperator(pbt::Case& c, ProbOpts& o)
{
    int k = (int)c.below(5);
    if (k == 3) { o.types = "stqT"; c.label("perterm"); return EvolutionOperatorType::Maxwell; }
    if (k == 4) { o.types = "tT"; o.materials = false; c.label("elementwise"); return Hesthaven; }
    o.losses = true;
    c.label("assembled");
    return Global;
}

/// A step size and a final time that is a multiple of it, not a multiple, shorter than a step, or nearly a multiple.
static void times(pbt::Case& c, double& dt, double& final, int& steps, int most)
{
    dt = c.flip() ? 1e-3 * c.range(1, 20) : c.logreal(1e-4, 2e-2);
    int n = c.range(0, most);
    switch (c.below(5)) {
    case 0: final = n * dt; steps = n; c.label("multiple"); break;
    case 1: final = 0; for (int i = 0; i < n; i++) final += dt; steps = n; c.label("multiple"); break;
    case 2: final = dt * c.real(0.01, 0.99); steps = 1; c.label("below_one_step"); break;
    case 3: final = n * dt + dt * c.real(1e-6, 1e-3); steps = n + 1; c.label("just_above"); break;
    default: final = n * dt + dt * c.real(0.01, 0.99); steps = n + 1; c.label("between");
    }
}

using Rate = std::function<void(double, const mfem::Vector&, mfem::Vector&)>;

static void rk4(const Rate& f, double t, double h, mfem::Vector& x)
{
    const int n = x.Size();
    mfem::Vector a(n), b(n), d(n), e(n), y(x);
    f(t, y, a);
    y = x; y.Add(h / 2, a); f(t + h / 2, y, b);
    y = x; y.Add(h / 2, b); f(t + h / 2, y, d);
    y = x; y.Add(h, d); f(t + h, y, e);
    x.Add(h / 6, a); x.Add(h / 3, b); x.Add(h / 3, d); x.Add(h / 6, e);
}

static void checkEnd(pbt::Case& c, maxwell::Solver& s, double dt, double final)
{
    c.expect(s.getTime() <= final + 1e-12 * (1 + final), pbt::cat("ended at ", pbt::str(s.getTime()), " beyond ", pbt::str(final)));
    c.expect(s.getTime() >= final - 2e-8 * dt - 1e-12 * (1 + final), pbt::cat("ended at ", pbt::str(s.getTime()), " before ", pbt::str(final)));
    c.expect(s.getTimeStep() == dt, "the step size was changed by the run");
}

/// Times recorded by a probe that saves every step: full steps, then at most one shorter.
static void checkSteps(pbt::Case& c, maxwell::Solver& s, double dt, double final, int steps)
{
    auto& m = s.getPointProbe(0).getFieldMovies();
    std::vector<double> t;
    for (auto& [k, v] : m) t.push_back(k);
    c.expect((int)t.size() == steps + 1, pbt::cat(t.size() - 1, " steps instead of ", steps));
    for (int i = 0; i <= steps; i++) {
        double want = i == steps ? final : i * dt;
        c.expect(std::abs(t[i] - want) <= 2e-8 * dt + 1e-12, pbt::cat("step ", i, " ends at ", pbt::str(t[i]), " instead of ", pbt::str(want)));
    }
    c.count(steps);
}

static maxwell::Point insidePoint(const Prob& p) { auto x = p.g.centroid(p.g.el[0]); return maxwell::Point(x.begin(), x.begin() + p.g.dim); }

FACET(explicit_run, 2000, 20000, "fields and times of explicit runs against hand-made Runge-Kutta steps, for every operator, with and without injected waves")
{
    ProbOpts o;
    o.maxElems = 10;
    auto op = anyOperator(c, o);
    Prob p = randomProblem(c, o);
    for (auto& [t, m] : p.mats) m.sigma = std::min(m.sigma, 5.0);
    if (op == Hesthaven) p.basis = mfem::BasisType::GaussLobatto;
    Sources src;
    std::vector<char> side;
    bool wave = c.flip(1, 3);
    if (wave) { addTotalField(c, p, side, true, op == Hesthaven); src.add(TotalField(randomPlanewave(c, &c.note()))); c.label("wave"); }
    double dt, final;
    int steps;
    times(c, dt, final, steps, 12);
    auto so = p.options(op);
    so.setTimeStep(dt).setFinalTime(final);
    Probes pr;
    pr.pointProbes.push_back(PointProbe(insidePoint(p), 1, false));
    maxwell::Solver s(p.model(), pr, src, so);
    auto twin = makeSolver(p, op, src);
    const int n = 6 * s.getFES().GetNDofs();
    auto x = randomState(c, n);
    s.getFields().allDOFs() = x;
    // some single steps before the run
    int single = steps > 0 ? (int)c.below(steps + 1) : 0;
    c.note() << " " << p.text() << " dt " << pbt::str(dt) << " final " << pbt::str(final) << " single " << single;
    c.nontrivial(steps > 1);
    for (int i = 0; i < single; i++) s.step();
    s.run();
    checkEnd(c, s, dt, final);
    checkSteps(c, s, dt, final, steps);
    auto* A = twin->getEvolTDO();
    Rate f = [&](double t, const mfem::Vector& u, mfem::Vector& v) { A->SetTime(t); A->Mult(u, v); };
    for (int i = 0; i < steps; i++) rk4(f, i * dt, i + 1 == steps ? final - i * dt : dt, x);
    sameVector(c, s.getFields().allDOFs(), x, 1e-7, 0.1, "final fields");
    // a second run has nothing left to do
    mfem::Vector before(s.getFields().allDOFs());
    s.run();
    sameVector(c, s.getFields().allDOFs(), before, 0, 0, "fields after running again");
    // until the end is moved
    if (c.flip(1, 3)) {
        int more = c.range(1, 3);
        if (c.flip()) { dt *= c.pick(std::vector<double>{ 0.5, 0.75, 1.25 }); s.setTimeStep(dt); c.label("step_changed"); }
        s.setFinalTime(final + more * dt);
        s.run();
        checkEnd(c, s, dt, final + more * dt);
        for (int i = 0; i < more; i++) rk4(f, final + i * dt, dt, x);
        sameVector(c, s.getFields().allDOFs(), x, 1e-7, 0.1, "fields after moving the final time");
        c.label("extended");
    }
}

struct Tableau { std::vector<std::vector<double>> a; std::vector<double> b; };

/// Published coefficients of the implicit integrators.
static Tableau tableau(int ode)
{
    switch (ode) {
    case 1: return { { { 1 } }, { 1 } };
    case 2: return { { { 0 }, { 0.5, 0.5 } }, { 0.5, 0.5 } };
    case 3: return { { { 0.5 } }, { 1 } };
    case 4: { double g = 0.435866521508459, b = 1.2084966491760101; return { { { g }, { (1 - g) / 2, g }, { b, 1 - g - b, g } }, { b, 1 - g - b, g } }; }
    case 5: { double g = (2 - std::sqrt(2.0)) / 2; return { { { g }, { 1 - 2 * g, g } }, { 0.5, 0.5 } }; }
    default: { double g = std::cos(M_PI / 18) / std::sqrt(3.0) + 0.5, b = 1 / (6 * (2 * g - 1) * (2 * g - 1)); return { { { g }, { 0.5 - g, g }, { 2 * g, 1 - 4 * g, g } }, { b, 1 - 2 * b, b } }; }
    }
}

FACET(implicit_run, 1200, 10000, "fields and times of implicit runs against the published coefficients of each integrator, solved by dense elimination")
{
    ProbOpts o;
    o.types = "sstq";
    o.losses = true;
    o.maxElems = 6;
    o.maxOrder = 2;
    Prob p = randomProblem(c, o);
    if (p.g.dim == 2) p.order = 1;
    int ode = c.range(1, 6);
    double dt, final;
    int steps;
    times(c, dt, final, steps, 6);
    double stretch = c.pick(std::vector<double>{ 1, 10, 100 });
    dt *= stretch; final *= stretch;
    auto so = p.options();
    so.setTimeStep(dt).setFinalTime(final).setODEType(ode);
    Probes pr;
    pr.pointProbes.push_back(PointProbe(insidePoint(p), 1, false));
    maxwell::Solver s(p.model(), pr, Sources(), so);
    const int n = 6 * s.getFES().GetNDofs();
    auto x0 = randomState(c, n);
    s.getFields().allDOFs() = x0;
    c.note() << p.text() << " integrator " << ode << " dt " << pbt::str(dt) << " final " << pbt::str(final);
    c.label("integrator" + std::to_string(ode));
    c.nontrivial(steps > 1);
    s.run();
    checkEnd(c, s, dt, final);
    checkSteps(c, s, dt, final, steps);
    auto twin = makeSolver(p);
    Eigen::MatrixXd A(n, n);
    mfem::Vector e(n), y(n);
    for (int j = 0; j < n; j++) { e = 0.0; e[j] = 1; twin->getEvolTDO()->Mult(e, y); for (int i = 0; i < n; i++) A(i, j) = y[i]; }
    Eigen::VectorXd x(n);
    for (int i = 0; i < n; i++) x[i] = x0[i];
    auto T = tableau(ode);
    auto factor = [&](double h) { std::map<double, Eigen::PartialPivLU<Eigen::MatrixXd>> r; for (size_t i = 0; i < T.a.size(); i++) { double g = T.a[i].back(); if (!r.count(g)) r.emplace(g, (Eigen::MatrixXd::Identity(n, n) - h * g * A).partialPivLu()); } return r; };
    auto full = factor(dt);
    double scale = 0.1;
    for (int k = 0; k < steps; k++) {
        double h = k + 1 == steps ? final - k * dt : dt;
        auto lu = k + 1 == steps ? factor(h) : full;
        std::vector<Eigen::VectorXd> st;
        for (size_t i = 0; i < T.a.size(); i++) {
            Eigen::VectorXd u = x;
            for (size_t j = 0; j < i; j++) u += h * T.a[i][j] * st[j];
            st.push_back(lu.at(T.a[i].back()).solve(A * u));
        }
        for (size_t i = 0; i < st.size(); i++) x += h * T.b[i] * st[i];
        scale = std::max(scale, x.lpNorm<Eigen::Infinity>());
    }
    mfem::Vector want(n);
    for (int i = 0; i < n; i++) want[i] = x[i];
    sameVector(c, s.getFields().allDOFs(), want, 1e-7, scale, "final fields");
}

FACET(probes, 1000, 8000, "fields of a run are the same to the last bit whatever probes are attached")
{
    ProbOpts o;
    o.maxElems = 10;
    auto op = anyOperator(c, o);
    Prob p = randomProblem(c, o);
    if (op == Hesthaven) p.basis = mfem::BasisType::GaussLobatto;
    Sources src;
    std::vector<char> side;
    int tag = 0;
    if (c.flip(1, 3)) { tag = addTotalField(c, p, side, true, op == Hesthaven); src.add(TotalField(randomPlanewave(c))); }
    double dt, final;
    int steps;
    times(c, dt, final, steps, 8);
    auto so = p.options(op);
    so.setTimeStep(dt).setFinalTime(final);
    Probes pr;
    int kinds = 0;
    std::vector<int> every{ 1, 2, 3, 100 };
    if (c.flip()) { ExporterProbe e; e.name = "view"; e.visSteps = c.pick(every); e.saves = (int)c.below(4); pr.exporterProbes.push_back(e); kinds++; }
    if (c.flip()) { PointProbe q(insidePoint(p), c.pick(every)); q.setProbeID(0); pr.pointProbes.push_back(q); kinds++; }
    if (c.flip()) { FieldProbe q(c.flip() ? E : H, (Direction)c.below(3), insidePoint(p), c.pick(every)); q.setProbeID(0); pr.fieldProbes.push_back(q); kinds++; }
    if (c.flip()) { DomainSnapshotProbe d; d.expSteps = c.pick(every); d.saves = (int)c.below(4); pr.domainSnapshotProbes.push_back(d); kinds++; }
    if (c.flip()) { MORStateProbe m; m.saves = c.range(1, 5); m.record_time_final = final; pr.morStateProbes.push_back(m); kinds++; }
    if (tag && c.flip()) { NearFieldProbe q; q.name = "near"; q.expSteps = c.pick(every); q.tags = { tag }; if (p.g.dim > 1) { pr.nearFieldProbes.push_back(q); kinds++; c.label("near_field"); } }
    c.note() << p.text() << " dt " << pbt::str(dt) << " final " << pbt::str(final) << " kinds " << kinds;
    c.label(pbt::cat("kinds", kinds));
    c.nontrivial(kinds > 0 && steps > 0);
    maxwell::Solver a(p.model(), Probes(), src, so), b(p.model(), pr, src, so);
    auto x = randomState(c, 6 * a.getFES().GetNDofs());
    a.getFields().allDOFs() = x;
    b.getFields().allDOFs() = x;
    a.run();
    b.run();
    c.expect(a.getTime() == b.getTime(), "the final time differs");
    sameVector(c, b.getFields().allDOFs(), a.getFields().allDOFs(), 0, 0, "fields with probes");
}

PBT_MAIN(pbt::info().rule = "runs of at least two steps; at least one probe and one step";
         pbt::info().assumptions = { "MFEM is replaced by the stand-in in shim/, including its integrators", "an interval below 1e-8 of a step counts as reached" })
