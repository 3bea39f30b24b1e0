// USES: SOLVER DRIVER
#include "gen.h"
#include <filesystem>
#include <fstream>
using namespace gen;

/// A compressed-row matrix file: rows, columns, row starts, columns of the entries and their values, one per line.
struct Rows {
    long rows = 0, cols = 0;
    std::vector<long> i, j;
    std::vector<double> a;
    void apply(const mfem::Vector& x, mfem::Vector& y, mfem::Vector* size = nullptr) const
    {
        y.SetSize((int)rows);
        if (size) size->SetSize((int)rows);
        for (long r = 0; r < rows; r++) {
            double s = 0, t = 0;
            for (long k = i[r]; k < i[r + 1]; k++) { s += a[k] * x[(int)j[k]]; t += std::abs(a[k] * x[(int)j[k]]); }
            y[(int)r] = s;
            if (size) (*size)[(int)r] = t;
        }
    }
    double norm() const
    {
        double n = 0;
        for (long r = 0; r < rows; r++) { double s = 0; for (long k = i[r]; k < i[r + 1]; k++) s += std::abs(a[k]); n = std::max(n, s); }
        return n;
    }
};

static Rows readMatrix(pbt::Case& c, const std::string& file)
{
    Rows m;
    std::ifstream in(file);
    c.expect((bool)in, "no file " + file);
    c.expect((bool)(in >> m.rows >> m.cols) && m.rows > 0 && m.rows < 1000000, "sizes of the matrix");
    m.i.resize(m.rows + 1);
    for (auto& x : m.i) if (!((bool)(in >> x))) c.fail("row starts");
    c.expect(m.i[0] == 0, "rows start at 0");
    for (long r = 0; r < m.rows; r++) if (m.i[r] > m.i[r + 1]) c.fail("row starts grow");
    m.j.resize(m.i.back());
    m.a.resize(m.i.back());
    for (auto& x : m.j) if (!((bool)(in >> x) && x >= 0 && x < m.cols)) c.fail("columns of the entries");
    for (auto& x : m.a) if (!((bool)(in >> x))) c.fail("values of the entries");
    std::string more;
    c.expect(!(in >> more), "something after the matrix");
    return m;
}

static Prob randomExported(pbt::Case& c, int most)
{
    ProbOpts o;
    o.maxElems = most;
    o.losses = true;
    Prob p = randomProblem(c, o);
    if (c.flip(1, 8) && p.g.dim > 1) {
        p.curve = 2;
        double a = c.grid(-0.06, 0.06, 8);
        p.bend = [=](const mfem::Vector& x, mfem::Vector& y) { y = x; y[0] += a * x[1] * x[1]; };
        c.label("curved");
    }
    return p;
}

static SolverOptions exporting(const Prob& p)
{
    auto o = p.options();
    o.evolution.export_evolution_operator = true;
    return o;
}

static std::string name(pbt::Case& c) { return c.pick(std::vector<std::string>{ "box", "a.b", "two words", "2D_PEC" }); }

FACET(operators, 2500, 60000, "the exported operator against the derivative the solver computes, with and without injected waves")
{
    Prob p = randomExported(c, 12);
    std::vector<char> side;
    const bool tf = c.flip(1, 3);
    Sources src;
    std::unique_ptr<Planewave> wave;
    if (tf) {
        p.basis = mfem::BasisType::GaussLobatto;
        addTotalField(c, p, side, true, false);
        wave = std::make_unique<Planewave>(randomPlanewave(c, &c.note()));
        src.add(TotalField(*wave));
        c.label("injected");
    }
    const std::string called = name(c);
    c.note() << p.text() << " exported as " << called;
    auto model = p.model();
    model.meshName_ = called;
    std::filesystem::remove_all("Exports");
    maxwell::Solver s(model, Probes(), src, exporting(p));
    const int n = s.getFES().GetNDofs();
    const std::string stem = "Exports/Operators/" + called + "/" + called;
    Rows m = readMatrix(c, stem + "_global.csr");
    c.expect(m.rows == 6 * n && m.cols == 6 * n, pbt::cat(m.rows, " by ", m.cols, " matrix for ", 6 * n, " unknowns"));
    const double t = c.real(-2, 4);
    auto& op = *s.getEvolTDO();
    op.SetTime(t);
    mfem::Vector zero(6 * n), r0(6 * n), r(6 * n), y, size;
    zero = 0.0;
    op.Mult(zero, r0);
    auto x = randomState(c, 6 * n);
    op.Mult(x, r);
    m.apply(x, y, &size);
    for (int i = 0; i < 6 * n; i++) c.close(r[i] - r0[i], y[i], 0, 1e-5 * size[i] + 1e-12 * (std::abs(r0[i]) + maxAbs(r0)) + 1e-13, pbt::cat("row ", i));
    c.expect(std::filesystem::exists(stem + "_tfsf.csr") == tf, tf ? "no injection operator was exported" : "an injection operator without injection");
    c.nontrivial(m.norm() > 0);
    if (!tf) { c.expect(maxAbs(r0) == 0, "a derivative of nothing"); return; }
    Rows q = readMatrix(c, stem + "_tfsf.csr");
    c.expect(q.rows == 6 * n && q.cols == 6 * n, "size of the injection operator");
    // half the wave, with opposite signs on the two sides
    auto where = nodePositions(s.getFES());
    const int dim = p.g.dim;
    mfem::Vector g(6 * n);
    for (int e = 0; e < s.getFES().GetNE(); e++) {
        mfem::Array<int> d;
        s.getFES().GetElementDofs(e, d);
        for (int k : d) {
            mfem::Vector z(dim);
            for (int i = 0; i < dim; i++) z[i] = where[k][i];
            for (int f = 0; f < 6; f++) g[f * n + k] = (side[e] ? 0.5 : -0.5) * wave->eval(z, t, f < 3 ? E : H, f % 3);
        }
    }
    q.apply(g, y, &size);
    for (int i = 0; i < 6 * n; i++) c.close(r0[i], -y[i], 0, 1e-5 * size[i] + 2e-8 * q.norm(), pbt::cat("injection in row ", i));
}

struct State { double t; mfem::Vector x; };
static State readState(pbt::Case& c, const std::string& file)
{
    std::ifstream in(file);
    c.expect((bool)in, "no file " + file);
    State s;
    int n = -1;
    c.expect((bool)(in >> s.t >> n) && n > 0 && n < 10000000, "time and size of a state");
    s.x.SetSize(n);
    for (int i = 0; i < n; i++) if (!(in >> s.x[i])) c.fail("values of a state");
    std::string more;
    c.expect(!(in >> more), "something after the state");
    return s;
}

/// A run with exported operator and states, followed by hand as well.
struct Run {
    Prob p;
    std::vector<MORStateProbe> probes;
    double dt = 0, final = 0;
    int steps = 0;
    Sources src;
    std::vector<double> time;
    std::vector<mfem::Vector> state;
    std::string called;
};

static Run randomRun(pbt::Case& c)
{
    Run r;
    r.p = randomExported(c, 8);
    r.steps = c.range(1, 25);
    // stable for the stiffest of these problems; the last step may be shorter
    r.dt = c.logreal(2e-5, 3e-3);
    const bool exact = c.flip(1, 3);
    r.final = exact ? r.steps * r.dt : (r.steps - 1) * r.dt + r.dt * c.real(0.05, 0.95);
    if (exact) while (std::ceil(r.final / r.dt) > r.steps) r.final = std::nextafter(r.final, 0);
    mfem::Vector ctr(3), still(r.p.g.dim), pol({ 0.6, 0.48, 0.64 });
    still = 0.0;
    auto x = r.p.g.centroid(r.p.g.el[c.below(r.p.g.el.size())]);
    for (int d = 0; d < 3; d++) ctr[d] = x[d];
    for (auto f : { E, H }) if (f == E || c.flip()) r.src.add(InitialField(Gaussian(c.logreal(0.3, 2), still, r.p.g.dim), f, pol, ctr, mfem::Vector({ 0.0, 0.0, 0.0 })));
    for (int k = c.range(1, 2); k > 0; k--) {
        MORStateProbe q;
        q.name = pbt::cat("states", k);
        q.saves = c.flip(1, 4) ? 1 : c.range(2, 30);
        // windows that start and end with the run, or anywhere in it or beyond
        q.record_time_start = c.flip() ? 0 : r.final * c.real(0, 1);
        q.record_time_final = c.flip() ? r.final : q.record_time_start + (1.2 * r.final - q.record_time_start) * c.real(0, 1);
        r.probes.push_back(q);
    }
    r.called = name(c);
    c.note() << r.p.text() << " dt " << pbt::str(r.dt) << " steps " << r.steps << " final " << pbt::str(r.final);
    for (auto& q : r.probes) c.note() << ", " << q.saves << " states from " << pbt::str(q.record_time_start) << " to " << pbt::str(q.record_time_final);
    return r;
}

static void perform(pbt::Case& c, Run& r)
{
    auto o = exporting(r.p);
    o.setTimeStep(r.dt).setFinalTime(r.final);
    {
        maxwell::Solver s(r.p.model(), Probes(), r.src, o);
        r.state.push_back(s.getFields().allDOFs());
        r.time.push_back(s.getTime());
        for (int i = 0; i < r.steps; i++) { s.step(); r.state.push_back(s.getFields().allDOFs()); r.time.push_back(s.getTime()); }
        if (std::abs(s.getTime() - r.final) > 1e-9) c.fail("the run has another number of steps than expected");
    }
    std::filesystem::remove_all("Exports");
    Probes pr;
    pr.morStateProbes = r.probes;
    auto model = r.p.model();
    model.meshName_ = r.called;
    maxwell::Solver s(model, pr, r.src, o);
    s.run();
}

FACET(states, 1500, 30000, "exported states: which steps are exported, their times and values, and what the exported operator makes of the first")
{
    Run r = randomRun(c);
    perform(c, r);
    double scale = 0;
    for (auto& x : r.state) scale = std::max(scale, maxAbs(x));
    if (!std::isfinite(scale)) c.discard();
    Rows m = readMatrix(c, "Exports/Operators/" + r.called + "/" + r.called + "_global.csr");
    int exported = 0;
    for (auto& q : r.probes) {
        // the step first at or after each of the evenly spaced times, one at most per step
        const double gap = q.saves > 1 ? (q.record_time_final - q.record_time_start) / (q.saves - 1) : 0;
        bool close = false;
        std::vector<int> at;
        for (int i = 0; i <= r.steps && (int)at.size() < q.saves; i++) {
            const double next = q.record_time_start + gap * at.size(), t = r.time[i], tol = gap > 0 ? 1e-6 * gap : 1e-12;
            for (double edge : { q.record_time_start - 1e-12, q.record_time_final + 1e-12, next - tol }) if (std::abs(t - edge) < 1e-13) close = true;
            if (t < q.record_time_start - 1e-12 || t > q.record_time_final + 1e-12 || t < next - tol) continue;
            at.push_back(i);
        }
        if (close) { c.label("undecided_by_rounding"); continue; }
        const std::string dir = "Exports/single-core/" + r.called + "/MORStateProbes/" + q.name;
        std::set<std::string> files;
        if (std::filesystem::exists(dir)) for (auto& f : std::filesystem::directory_iterator(dir)) files.insert(f.path().filename().string());
        c.expect(files.size() == at.size(), pbt::cat(files.size(), " states exported instead of ", at.size()));
        std::vector<State> s;
        for (size_t k = 0; k < at.size(); k++) {
            s.push_back(readState(c, dir + "/x_" + std::to_string(k)));
            c.close(s[k].t, r.time[at[k]], 1e-15, 1e-300, pbt::cat("time of state ", k));
            sameVector(c, s[k].x, r.state[at[k]], 1e-14, scale * 1e-2, pbt::cat("state ", k));
        }
        exported += (int)s.size();
        if (s.size() < 2 || m.norm() * r.dt > 1) continue;
        c.label("advanced");
        // Runge-Kutta steps of the size of the run with the operator from the file
        mfem::Vector x(s[0].x), a, b, d, e, y;
        for (int i = at[0]; i < at.back(); i++) {
            const double h = r.time[i + 1] - r.time[i];
            m.apply(x, a);
            y = x; y.Add(h / 2, a); m.apply(y, b);
            y = x; y.Add(h / 2, b); m.apply(y, d);
            y = x; y.Add(h, d); m.apply(y, e);
            x.Add(h / 6, a); x.Add(h / 3, b); x.Add(h / 3, d); x.Add(h / 6, e);
            for (size_t k = 1; k < at.size(); k++) if (at[k] == i + 1) sameVector(c, x, s[k].x, 2e-3, scale, pbt::cat("state ", k, " reached with the exported operator"));
        }
    }
    c.nontrivial(exported > 1 && scale > 1e-6);
    if (exported > 1) c.label("several_states");
}

PBT_MAIN(pbt::info().rule = "an operator with entries; at least two exported states with fields in them";
         pbt::info().assumptions = { "one process", "no thin layers, which have a state of their own", "the operator is printed with six digits, states with seventeen" })
