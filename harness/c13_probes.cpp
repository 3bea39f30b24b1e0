// USES: SOLVER DRIVER
#include "gen.h"
#include "math/PhysicalConstants.h"
#include <filesystem>
#include <fstream>
using namespace gen;

/// A point of the mesh together with all places (element, reference point) it is seen from.
struct Spot { P3 x; std::vector<std::pair<int, mfem::IntegrationPoint>> at; std::string text; };

static Spot randomSpot(pbt::Case& c, const Prob& p, mfem::Mesh& m)
{
    Spot s;
    int e = (int)c.below(m.GetNE());
    auto* fe = mfem::Geometries.GetVertices(m.GetElementBaseGeometry(e));
    mfem::IntegrationPoint ip;
    ip.x = ip.y = ip.z = 0;
    int kind = (int)c.below(6);
    mfem::Array<int> v;
    m.GetElementVertices(e, v);
    if (kind == 0) {
        // a vertex, shared by several elements
        int w = v[(int)c.below(v.Size())];
        for (int k = 0; k < m.GetNE(); k++) {
            mfem::Array<int> u;
            m.GetElementVertices(k, u);
            for (int i = 0; i < u.Size(); i++) if (u[i] == w) s.at.push_back({ k, mfem::Geometries.GetVertices(m.GetElementBaseGeometry(k))->IntPoint(i) });
        }
        s.text = "vertex";
    }
    else {
        // a convex combination of the reference vertices, well inside
        double sum = 0;
        std::vector<double> w(v.Size());
        for (auto& a : w) { a = 0.05 + c.grid(0, 1, 40); sum += a; }
        for (int i = 0; i < v.Size(); i++) { auto& q = fe->IntPoint(i); ip.x += w[i] / sum * q.x; ip.y += w[i] / sum * q.y; ip.z += w[i] / sum * q.z; }
        s.at.push_back({ e, ip });
        s.text = "interior";
    }
    mfem::Vector x;
    m.GetElementTransformation(s.at[0].first)->Transform(s.at[0].second, x);
    s.x = { 0, 0, 0 };
    for (int d = 0; d < x.Size(); d++) s.x[d] = x[d];
    c.label(s.text);
    return s;
}

static double valueAt(mfem::FiniteElementSpace& fes, const mfem::Vector& all, int comp, const std::pair<int, mfem::IntegrationPoint>& at)
{
    mfem::Array<int> d;
    fes.GetElementDofs(at.first, d);
    mfem::Vector sh(d.Size());
    auto* fe = fes.GetFE(at.first);
    fe->CalcShape(at.second, sh);
    double r = 0;
    for (int i = 0; i < d.Size(); i++) r += sh[i] * all[comp * fes.GetNDofs() + d[i]];
    return r;
}

/// Which steps are saved: multiples of the interval and the last.
static std::vector<int> cadence(int steps, int every)
{
    std::vector<int> r;
    for (int i = 0; i <= steps; i++) if (i % every == 0 || i == steps) r.push_back(i);
    return r;
}
static int interval(int steps, int saves) { return std::max(1, steps / saves); }

struct Run {
    Prob p;
    double dt = 0, final = 0;
    int steps = 0;
    Sources src;
    std::vector<mfem::Vector> state;   // after each step
    std::vector<double> time;
};

static Run randomRun(pbt::Case& c, EvolutionOperatorType& op)
{
    Run r;
    ProbOpts o;
    o.maxElems = 10;
    op = Global;
    if (c.flip(1, 5)) { op = Hesthaven; o.types = "tT"; o.materials = false; }
    r.p = randomProblem(c, o);
    if (op == Hesthaven) r.p.basis = mfem::BasisType::GaussLobatto;
    if (c.flip(1, 6) && r.p.g.dim > 1 && op == Global) {
        r.p.curve = 2;
        double a = c.grid(-0.06, 0.06, 8);
        r.p.bend = [=](const mfem::Vector& x, mfem::Vector& y) { y = x; y[0] += a * x[1] * x[1]; };
        c.label("curved");
    }
    r.dt = c.flip(3, 4) ? c.logreal(1e-4, 1e-2) : 1e-3;
    r.steps = c.range(1, 25);
    // the last step is shortened or not; never so close to a multiple that rounding decides the number of steps
    bool exact = c.flip(1, 3);
    r.final = exact ? r.steps * r.dt : (r.steps - 1) * r.dt + r.dt * c.real(0.05, 0.95);
    if (exact) while (std::ceil(r.final / r.dt) > r.steps) r.final = std::nextafter(r.final, 0);
    c.label(exact ? "whole_steps" : "shortened_last_step");
    // initial values enter through sources so that the first record has something to show
    int k = c.range(1, 2);
    for (int i = 0; i < k; i++) {
        mfem::Vector ctr(3), zero(r.p.g.dim), pol({ 0.6, 0.48, 0.64 });
        zero = 0.0;
        auto x = r.p.g.centroid(r.p.g.el[c.below(r.p.g.el.size())]);
        for (int d = 0; d < 3; d++) ctr[d] = x[d];
        r.src.add(InitialField(Gaussian(c.logreal(0.3, 2), zero, r.p.g.dim), i % 2 ? H : E, pol, ctr, mfem::Vector({ 0.0, 0.0, 0.0 })));
    }
    return r;
}
static SolverOptions options(const Run& r, EvolutionOperatorType op)
{
    auto so = r.p.options(op);
    so.setTimeStep(r.dt).setFinalTime(r.final);
    return so;
}
/// The same run without probes, step by step.
static void follow(pbt::Case& c, Run& r, EvolutionOperatorType op, maxwell::Solver& s)
{
    r.state.push_back(s.getFields().allDOFs());
    r.time.push_back(s.getTime());
    for (int i = 0; i < r.steps; i++) { s.step(); r.state.push_back(s.getFields().allDOFs()); r.time.push_back(s.getTime()); }
    if (std::abs(s.getTime() - r.final) > 1e-9) c.fail("the run has another number of steps than expected");
}

static std::vector<std::vector<double>> readTable(pbt::Case& c, const std::string& path, std::vector<std::string>& head)
{
    std::ifstream in(path);
    c.expect(bool(in), "no file " + path);
    std::string l;
    for (int i = 0; i < 4 && std::getline(in, l); i++) head.push_back(l);
    std::vector<std::vector<double>> r;
    while (std::getline(in, l)) {
        std::istringstream s(l);
        std::vector<double> row;
        double v;
        while (s >> v) row.push_back(v);
        r.push_back(row);
    }
    return r;
}

FACET(points, 1300, 25000, "records of point and field probes in memory and in their files against the fields of a run without probes")
{
    EvolutionOperatorType op;
    Run r = randomRun(c, op);
    auto m = r.p.mesh();
    struct Want { Spot s; int every; FieldType ft; Direction d; };
    std::vector<Want> pts, fls;
    Probes pr;
    int np = c.range(0, 3), nf = c.range(np ? 0 : 1, 3);
    auto pace = [&](auto& probe, Want& w) {
        if (c.flip()) { int saves = c.range(1, 40); probe.setSaves(saves); w.every = interval(r.steps, saves); c.label("saves"); }
        else { w.every = c.pick(std::vector<int>{ 1, 2, 3, 5, 7, 40 }); probe.setVisSteps(w.every); c.label("steps"); }
    };
    auto point = [&](const Spot& s) { return maxwell::Point(s.x.begin(), s.x.begin() + r.p.g.dim); };
    for (int i = 0; i < np; i++) {
        Want w{ randomSpot(c, r.p, m), 1, E, X };
        PointProbe q(point(w.s), 1, true);
        q.setProbeID(i);
        pace(q, w);
        pr.pointProbes.push_back(q);
        pts.push_back(w);
    }
    for (int i = 0; i < nf; i++) {
        Want w{ randomSpot(c, r.p, m), 1, c.flip() ? E : H, (Direction)c.below(3) };
        FieldProbe q(w.ft, w.d, point(w.s), 1, true);
        q.setProbeID(i);
        pace(q, w);
        pr.fieldProbes.push_back(q);
        fls.push_back(w);
    }
    c.note() << r.p.text() << " dt " << pbt::str(r.dt) << " final " << pbt::str(r.final) << " steps " << r.steps;
    for (auto* l : { &pts, &fls }) for (auto& w : *l) c.note() << " " << w.s.text << "(" << w.s.x[0] << "," << w.s.x[1] << "," << w.s.x[2] << ")/" << w.every;
    maxwell::Solver plain(r.p.model(), Probes(), r.src, options(r, op));
    follow(c, r, op, plain);
    maxwell::Solver s(r.p.model(), pr, r.src, options(r, op));
    s.run();
    auto& fes = plain.getFES();
    double scale = 0;
    for (auto& x : r.state) scale = std::max(scale, maxAbs(x));
    c.nontrivial(scale > 1e-6 && r.steps > 1);
    // files are flushed when the solver goes; the buffers are checked through a copy of the records
    auto pp = std::vector<FieldMovies>();
    auto fm = std::vector<FieldMovie>();
    for (int i = 0; i < np; i++) pp.push_back(s.getPointProbe(i).getFieldMovies());
    for (int i = 0; i < nf; i++) fm.push_back(s.getFieldProbe(i).getFieldMovie());
    auto judge = [&](const Want& w, const std::vector<std::pair<double, std::vector<double>>>& rec, const std::vector<int>& comps, const std::string& what) {
        auto steps = cadence(r.steps, w.every);
        c.expect(rec.size() == steps.size(), pbt::cat(what, " has ", rec.size(), " records instead of ", steps.size(), " (", r.steps, " steps, every ", w.every, ")"));
        std::string why;
        bool any = false;
        for (auto& at : w.s.at) {
            bool ok = true;
            for (size_t k = 0; k < rec.size() && ok; k++) {
                int st = steps[k];
                if (!(std::abs(rec[k].first - r.time[st]) <= 1e-12 * (1 + r.final))) c.fail(pbt::cat(what, " record ", k, " has time ", pbt::str(rec[k].first), " instead of ", pbt::str(r.time[st])));
                for (size_t j = 0; j < comps.size() && ok; j++) {
                    double v = valueAt(fes, r.state[st], comps[j], at);
                    if (!(std::abs(rec[k].second[j] - v) <= 1e-6 * scale)) { ok = false; why = pbt::cat(what, " record ", k, " component ", comps[j], " is ", rec[k].second[j], " instead of ", v); }
                }
            }
            any |= ok;
        }
        c.expect(any, why);
        c.count((long)(rec.size() * comps.size()));
    };
    for (int i = 0; i < np; i++) {
        std::vector<std::pair<double, std::vector<double>>> rec;
        for (auto& [t, f] : pp[i]) rec.push_back({ t, { f.Ex, f.Ey, f.Ez, f.Hx, f.Hy, f.Hz } });
        judge(pts[i], rec, { 0, 1, 2, 3, 4, 5 }, pbt::cat("point probe ", i));
    }
    for (int i = 0; i < nf; i++) {
        std::vector<std::pair<double, std::vector<double>>> rec;
        for (auto& [t, f] : fm[i]) rec.push_back({ t, { f } });
        judge(fls[i], rec, { (fls[i].ft == E ? 0 : 3) + (int)fls[i].d }, pbt::cat("field probe ", i));
    }
}

FACET(files, 700, 15000, "the text files of point and field probes: header, order, SI times and all records, also after a second run in the same place")
{
    EvolutionOperatorType op;
    Run r = randomRun(c, op);
    auto m = r.p.mesh();
    Spot sp = randomSpot(c, r.p, m);
    int every = c.pick(std::vector<int>{ 1, 2, 3, 5, 40 });
    auto ft = c.flip() ? E : H;
    auto dir = (Direction)c.below(3);
    int id = (int)c.below(12);
    c.note() << r.p.text() << " dt " << pbt::str(r.dt) << " final " << pbt::str(r.final) << " steps " << r.steps << " every " << every << " id " << id;
    c.nontrivial(r.steps > 1);
    maxwell::Point pt(sp.x.begin(), sp.x.begin() + r.p.g.dim);
    int times = c.flip(1, 3) ? 2 : 1;
    FieldMovies pm;
    FieldMovie fm;
    for (int k = 0; k < times; k++) {
        PointProbe a(pt, every, true);
        FieldProbe b(ft, dir, pt, every, true);
        a.setProbeID(id);
        b.setProbeID(id + 1);
        Probes pr;
        pr.pointProbes.push_back(a);
        pr.fieldProbes.push_back(b);
        auto model = r.p.model();
        model.meshName_ = "case" + std::to_string(id);
        maxwell::Solver s(model, pr, r.src, options(r, op));
        s.run();
        pm = s.getPointProbe(0).getFieldMovies();
        fm = s.getFieldProbe(0).getFieldMovie();
    }
    const double c0 = 299792458.0;
    auto steps = cadence(r.steps, every);
    auto number = [&](double a, double b, const std::string& what) { c.close(a, b, 1e-5, 1e-300, what); };
    std::string base = "Exports/single-core/case" + std::to_string(id) + "/";
    std::vector<std::string> head;
    auto rows = readTable(c, base + "PointProbes/PointProbe" + std::to_string(id) + ".dat", head);
    c.expect(head.size() == 4 && head[0].find(std::to_string(id)) != std::string::npos, "the header does not name the probe");
    std::istringstream pos(head[2]);
    for (int d = 0; d < 3; d++) { double v = NAN; pos >> v; c.close(v, sp.x[d], 0, 1e-6, "position in the header"); }
    c.expect(rows.size() == steps.size(), pbt::cat(rows.size(), " rows in the point file instead of ", steps.size()));
    c.expect(pm.size() == steps.size() && fm.size() == steps.size(), "records in memory are incomplete");
    size_t k = 0;
    for (auto& [t, f] : pm) {
        c.expect(rows[k].size() == 7, pbt::cat("row ", k, " has ", rows[k].size(), " columns"));
        double v[7] = { t / c0, f.Ex, f.Ey, f.Ez, f.Hx, f.Hy, f.Hz };
        for (int j = 0; j < 7; j++) number(rows[k][j], v[j], pbt::cat("point file row ", k, " column ", j));
        k++;
    }
    head.clear();
    rows = readTable(c, base + "FieldProbes/FieldProbe" + std::to_string(id + 1) + ".dat", head);
    const char* names[] = { "Ex", "Ey", "Ez", "Hx", "Hy", "Hz" };
    c.expect(head.size() == 4 && head[3].find(names[(ft == E ? 0 : 3) + dir]) != std::string::npos, "the header does not name the component: " + (head.size() == 4 ? head[3] : ""));
    c.expect(rows.size() == steps.size(), pbt::cat(rows.size(), " rows in the field file instead of ", steps.size()));
    k = 0;
    for (auto& [t, f] : fm) {
        c.expect(rows[k].size() == 2, "wrong number of columns");
        number(rows[k][0], t / c0, pbt::cat("field file row ", k, " time"));
        number(rows[k][1], f, pbt::cat("field file row ", k, " value"));
        k++;
    }
    std::filesystem::remove_all("Exports");
}

FACET(exports, 700, 15000, "whole-domain exports and snapshots: steps at which they are written, times and all field values")
{
    EvolutionOperatorType op;
    Run r = randomRun(c, op);
    ExporterProbe ex;
    DomainSnapshotProbe ds;
    ex.name = "view";
    int eEvery, dEvery;
    auto pace = [&](int& steps, int& saves) {
        if (c.flip()) { saves = c.range(1, 40); steps = c.range(1, 9); return interval(r.steps, saves); }
        steps = c.pick(std::vector<int>{ 1, 2, 3, 5, 7, 40 });
        return steps;
    };
    eEvery = pace(ex.visSteps, ex.saves);
    dEvery = pace(ds.expSteps, ds.saves);
    Probes pr;
    pr.exporterProbes.push_back(ex);
    pr.domainSnapshotProbes.push_back(ds);
    c.note() << r.p.text() << " dt " << pbt::str(r.dt) << " final " << pbt::str(r.final) << " steps " << r.steps << " every " << eEvery << " and " << dEvery;
    maxwell::Solver plain(r.p.model(), Probes(), r.src, options(r, op));
    follow(c, r, op, plain);
    double scale = 0;
    for (auto& x : r.state) scale = std::max(scale, maxAbs(x));
    c.nontrivial(scale > 1e-6 && r.steps > 1);
    mfem::DataCollection::Log().clear();
    auto model = r.p.model();
    model.meshName_ = "snap";
    {
        maxwell::Solver s(model, pr, r.src, options(r, op));
        s.run();
    }
    auto& log = mfem::DataCollection::Log();
    auto es = cadence(r.steps, eEvery);
    const int n = plain.getFES().GetNDofs();
    std::vector<mfem::DataCollection::Record> mine;
    for (auto& l : log) if (l.name == "view") mine.push_back(l);
    c.expect(mine.size() == es.size(), pbt::cat(mine.size(), " exports instead of ", es.size()));
    for (size_t k = 0; k < es.size(); k++) {
        auto& l = mine[k];
        c.expect(l.cycle == es[k], pbt::cat("export ", k, " is numbered ", l.cycle, " instead of ", es[k]));
        c.expect(std::abs(l.time - r.time[es[k]]) <= 5.1e-4, pbt::cat("export ", k, " has time ", l.time, " instead of ", r.time[es[k]]));
        for (auto [name, at] : { std::make_pair("E", 0), std::make_pair("H", 3 * n) }) {
            c.expect(l.data.count(name) == 1 && (int)l.data[name].size() == 3 * n, pbt::cat("field ", name, " is missing or has another size"));
            for (int i = 0; i < 3 * n; i++) c.expect(std::abs(l.data[name][i] - r.state[es[k]][at + i]) <= 1e-12 * scale, pbt::cat("export ", k, " ", name, "[", i, "]"));
        }
    }
    auto dsn = cadence(r.steps, dEvery);
    std::string base = "Exports/single-core/snap/DomainSnapshotProbes/rank_0";
    std::set<std::string> dirs;
    c.expect(std::filesystem::exists(base), "no snapshots were written");
    for (auto& d : std::filesystem::directory_iterator(base)) dirs.insert(d.path().filename().string());
    c.expect(dirs.size() == dsn.size(), pbt::cat(dirs.size(), " snapshots instead of ", dsn.size()));
    for (int st : dsn) {
        char nm[32];
        snprintf(nm, sizeof nm, "cycle_%06d", st);
        c.expect(dirs.count(nm) == 1, pbt::cat("snapshot ", nm, " is missing"));
        std::ifstream t(base + "/" + nm + "/time.txt");
        double v = NAN;
        t >> v;
        c.close(v, r.time[st], 1e-5, 1e-12, "time of a snapshot");
        const char* names[] = { "Ex", "Ey", "Ez", "Hx", "Hy", "Hz" };
        for (int f = 0; f < 6; f++) {
            std::ifstream in(base + "/" + std::string(nm) + "/" + names[f] + ".gf");
            std::string l;
            while (std::getline(in, l)) if (l.find("Ordering") != std::string::npos) break;
            std::vector<double> vals;
            while (in >> v) vals.push_back(v);
            c.expect((int)vals.size() == n, pbt::cat(names[f], " of ", nm, " has ", vals.size(), " values instead of ", n));
            for (int i = 0; i < n; i++) c.close(vals[i], r.state[st][f * n + i], 1e-5, 1e-7 * scale, pbt::cat(names[f], " of ", nm, " entry ", i));
        }
    }
    std::filesystem::remove_all("Exports");
}

PBT_MAIN(pbt::info().rule = "fields above 1e-6 and at least two steps";
         pbt::info().assumptions = { "MFEM is replaced by the stand-in in shim/, including point location and file output of fields", "probe points lie inside the mesh; at points shared by elements the value of any one of them is right" })
