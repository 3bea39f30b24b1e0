// USES: SOLVER DRIVER
#include "casefile.h"
using namespace gen;
using namespace casefile;

/// Times of a run, given or left to the defaults
struct Times { double step = 0, final = 2; json options = json::object(); };
static Times randomTimes(pbt::Case& c)
{
    Times t;
    if (c.flip(3, 4)) { t.step = c.flip(1, 6) ? 0.0 : c.flip() ? c.pick({ 0.1, 0.01, 0.25, 0.3, 0.001 }) : c.logreal(1e-4, 0.7); t.options["time_step"] = t.step; }
    if (c.flip(3, 4)) { t.final = c.flip() ? c.range(1, 20) * 0.1 : c.logreal(0.05, 30); t.options["final_time"] = t.final; }
    return t;
}

/// The intervals that spread n saves over a run of about "final/step" steps; rounding may shift the count by one
static bool spreads(int interval, int n, double final, double step)
{
    if (n <= 0 || step <= 0) return interval == 1;
    const double steps = final / step;
    for (double s : { std::ceil(steps * (1 - 1e-9)), std::ceil(steps), std::ceil(steps * (1 + 1e-9)) })
        if (interval == std::max(1, (int)std::floor(s / n + 1e-12))) return true;
    return false;
}

struct Rate {
    int steps = 0, saves = 0;
    void write(json& j) const { if (steps) j["steps"] = steps; if (saves) j["saves"] = saves; }
    void check(pbt::Case& c, int interval, int kept, const Times& t, const char* what) const
    {
        if (steps) c.expect(interval == steps, pbt::cat(what, ": every ", interval, " steps instead of ", steps));
        else if (saves) c.expect(spreads(interval, saves, t.final, t.step), pbt::cat(what, ": every ", interval, " steps for ", saves, " saves of ", t.final, "/", t.step));
        else c.expect(interval == 1, pbt::cat(what, ": every ", interval, " steps by default"));
        // with an automatic step the count has to survive until the step is known
        if (!steps) c.expect(kept == saves, pbt::cat(what, ": ", kept, " saves asked for instead of ", saves));
    }
};
static Rate randomRate(pbt::Case& c)
{
    Rate r;
    int k = (int)c.below(3);
    if (k == 1) r.steps = c.flip() ? c.range(1, 5) : c.range(1, 5000);
    if (k == 2) r.saves = c.flip() ? c.range(1, 9) : c.range(1, 2000);
    return r;
}
static std::vector<int> randomTags(pbt::Case& c)
{
    std::vector<int> t(c.range(1, 4));
    for (auto& x : t) x = c.range(1, 30);
    return t;
}

FACET(entries, 100000, 1000000, "every kind of probe, several of each, with and without their optional parts")
{
    Times t = randomTimes(c);
    json j;
    const std::string stem = c.pick({ "box", "2D_x.y", "a b", "msh" });
    j["model"]["filename"] = stem + ".msh";
    if (!t.options.empty() || c.flip()) j["solver_options"] = t.options;
    json& p = j["probes"];
    p = json::object();
    struct PointE { std::vector<double> at; bool e; int d; Rate r; };
    struct SurfE { std::string name, path; std::vector<int> tags; Rate r; };
    struct MorE { std::string name; double a = 0, b = 0; int saves = 10; };
    std::vector<PointE> points, fields;
    std::vector<SurfE> far, rcs;
    std::vector<MorE> mor;
    Rate exp, snap;
    std::string expName, snapName;
    auto where = [&] { std::vector<double> v(c.range(1, 3)); for (auto& x : v) x = c.flip(1, 4) ? (double)c.range(-2, 2) : c.real(-5, 5); return v; };
    auto name = [&](json& e, std::string& out, const std::string& dflt) { out = dflt; if (c.flip()) e["name"] = out = c.pick({ "out", "the probe", "x_1" }); };
    const bool hasExp = c.flip(), hasSnap = c.flip();
    if (hasExp) { json e = json::object(); name(e, expName, stem); exp = randomRate(c); exp.write(e); p["exporter"] = e; }
    if (hasSnap) { json e = json::object(); name(e, snapName, stem); snap = randomRate(c); snap.write(e); p["domain_snapshot"] = e; }
    if (c.flip()) {
        p["point"] = json::array();
        for (int n = c.range(0, 3), i = 0; i < n; i++) { PointE q{ where(), true, 0, randomRate(c) }; json e{ { "position", q.at } }; q.r.write(e); p["point"].push_back(e); points.push_back(q); }
    }
    if (c.flip()) {
        p["field"] = json::array();
        for (int n = c.range(0, 3), i = 0; i < n; i++) {
            PointE q{ where(), c.flip(), (int)c.below(3), randomRate(c) };
            json e{ { "position", q.at }, { "field_type", q.e ? "electric" : "magnetic" }, { "polarization", std::string(1, "XYZ"[q.d]) } };
            q.r.write(e);
            p["field"].push_back(e);
            fields.push_back(q);
        }
    }
    for (int kind = 0; kind < 2; kind++) if (c.flip()) {
        auto& l = p[kind ? "rcssurface" : "farfield"];
        l = json::array();
        for (int n = c.range(0, 3), i = 0; i < n; i++) {
            SurfE q;
            q.tags = randomTags(c);
            q.r = randomRate(c);
            json e{ { "tags", q.tags } };
            if (c.flip()) e["name"] = q.name = c.pick({ "s1", "box surface", "z" });
            if (!kind && c.flip()) e["export_path"] = q.path = c.pick({ "./here/", "there" });
            q.r.write(e);
            l.push_back(e);
            (kind ? rcs : far).push_back(q);
        }
    }
    if (c.flip()) {
        p["mor_state"] = json::array();
        for (int n = c.range(0, 3), i = 0; i < n; i++) {
            MorE q;
            q.a = c.grid(0, 2, 20); q.b = q.a + c.grid(0, 2, 20); q.saves = c.range(1, 50);
            json e{ { "record_time_start", q.a }, { "record_time_final", q.b }, { "saves", q.saves } };
            if (c.flip()) e["name"] = q.name = c.pick({ "s1", "states" });
            else q.name = "MORState";
            p["mor_state"].push_back(e);
            mor.push_back(q);
        }
    }
    if (p.empty() && c.flip()) j.erase("probes");
    c.note() << j.dump();
    c.nontrivial(p.size() > 1);
    Probes r = driver::buildProbes(j);
    auto number = [&](size_t got, size_t want, const char* what) { c.expect(got == want, pbt::cat(got, " ", what, " probes instead of ", want)); };
    number(r.exporterProbes.size(), hasExp, "exporter");
    number(r.domainSnapshotProbes.size(), hasSnap, "snapshot");
    number(r.pointProbes.size(), points.size(), "point");
    number(r.fieldProbes.size(), fields.size(), "field");
    number(r.nearFieldProbes.size(), far.size(), "farfield");
    number(r.rcsSurfaceProbes.size(), rcs.size(), "surface");
    number(r.morStateProbes.size(), mor.size(), "state");
    if (hasExp) { c.expect(r.exporterProbes[0].name == expName, "exporter is called " + r.exporterProbes[0].name); exp.check(c, r.exporterProbes[0].visSteps, r.exporterProbes[0].saves, t, "exporter"); }
    if (hasSnap) { c.expect(r.domainSnapshotProbes[0].name == snapName, "snapshot is called " + r.domainSnapshotProbes[0].name); snap.check(c, r.domainSnapshotProbes[0].expSteps, r.domainSnapshotProbes[0].saves, t, "snapshot"); }
    for (size_t i = 0; i < points.size(); i++) {
        auto& q = r.pointProbes[i];
        c.expect(q.getPoint() == points[i].at, pbt::cat("position of point probe ", i));
        c.expect(q.getProbeID() == i, pbt::cat("number of point probe ", i));
        c.expect(q.write, "point probe writes its file");
        points[i].r.check(c, q.getVisSteps(), q.getSaves(), t, "point probe");
    }
    for (size_t i = 0; i < fields.size(); i++) {
        auto& q = r.fieldProbes[i];
        c.expect(q.getPoint() == fields[i].at, pbt::cat("position of field probe ", i));
        c.expect(q.getProbeID() == i, pbt::cat("number of field probe ", i));
        c.expect(q.getFieldType() == (fields[i].e ? E : H) && (int)q.getDirection() == fields[i].d, pbt::cat("component of field probe ", i));
        c.expect(q.write, "field probe writes its file");
        fields[i].r.check(c, q.getVisSteps(), q.getSaves(), t, "field probe");
    }
    for (size_t i = 0; i < far.size(); i++) {
        auto& q = r.nearFieldProbes[i];
        c.expect(q.tags == far[i].tags, pbt::cat("tags of farfield probe ", i));
        if (far[i].name.size()) c.expect(q.name == far[i].name, "farfield probe is called " + q.name);
        if (far[i].path.size()) c.expect(q.exportPath == far[i].path, "farfield probe goes to " + q.exportPath);
        far[i].r.check(c, q.expSteps, q.saves, t, "farfield probe");
    }
    for (size_t i = 0; i < rcs.size(); i++) {
        auto& q = r.rcsSurfaceProbes[i];
        c.expect(q.tags == rcs[i].tags, pbt::cat("tags of surface probe ", i));
        if (rcs[i].name.size()) c.expect(q.name == rcs[i].name, "surface probe is called " + q.name);
        rcs[i].r.check(c, q.expSteps, q.saves, t, "surface probe");
    }
    for (size_t i = 0; i < mor.size(); i++) {
        auto& q = r.morStateProbes[i];
        c.expect(q.name == mor[i].name, "state probe is called " + q.name);
        c.expect(q.record_time_start == mor[i].a && q.record_time_final == mor[i].b && q.saves == mor[i].saves, pbt::cat("window of state probe ", i));
    }
}

FACET(records, 6000, 50000, "a case file with point and field probes, run: what is recorded, and how often")
{
    ProbOpts o;
    o.maxElems = 8;
    o.materials = false;
    Prob p = randomProblem(c, o);
    json j;
    j["model"] = plainModel(p.g, "box.msh", "PEC");
    j["sources"] = json::array();
    const int dim = p.g.dim;
    // something to look at: a bump over the whole mesh
    std::vector<double> mid(dim, 0.3);
    j["sources"].push_back({ { "type", "initial" }, { "field_type", "electric" }, { "polarization", { 0.0, 0.6, 0.8 } }, { "center", mid }, { "dimension", dim }, { "magnitude", { { "type", "gaussian" }, { "spread", 0.8 } } } });
    // the automatic step is only offered in one dimension
    const bool automatic = dim == 1 && c.flip();
    const double dt = 1e-3;
    j["solver_options"] = { { "order", p.order } };
    if (!automatic) j["solver_options"]["time_step"] = dt;
    else j["solver_options"]["cfl"] = 0.4;
    // steps to make
    const int n = c.range(1, 40);
    double step = dt;
    std::filesystem::remove_all("w");
    spill("w/box/box.msh", gmsh(p.g));
    auto build = [&] { spill("w/box/box.json", j.dump()); return driver::buildSolverJson("w/box/box.json", false); };
    if (automatic) step = build().getTimeStep();
    const double final = step * (n - c.pick({ 0.0, 0.5, 0.3 }));
    j["solver_options"]["final_time"] = final;
    const int np = c.range(1, 3);
    std::vector<Rate> rate;
    std::vector<int> comp;
    std::vector<P3> at;
    for (int i = 0; i < np; i++) {
        // inside a random element
        const auto& e = p.g.el[c.below(p.g.el.size())];
        P3 x{ 0, 0, 0 };
        double sum = 0;
        std::vector<double> w;
        for (size_t k = 0; k < e.size(); k++) { w.push_back(c.real(0.2, 1)); sum += w.back(); }
        for (size_t k = 0; k < e.size(); k++) for (int q = 0; q < 3; q++) x[q] += w[k] / sum * p.g.v[e[k]][q];
        Rate r;
        if (c.flip(2, 3)) { if (c.flip()) r.steps = c.range(1, 12); else r.saves = c.range(1, 12); }
        json d{ { "position", std::vector<double>(x.begin(), x.begin() + dim) } };
        r.write(d);
        j["probes"]["point"].push_back(d);
        const int q = (int)c.below(6);
        d["field_type"] = q < 3 ? "electric" : "magnetic";
        d["polarization"] = std::string(1, "XYZ"[q % 3]);
        j["probes"]["field"].push_back(d);
        rate.push_back(r);
        comp.push_back(q);
        at.push_back(x);
    }
    c.note() << p.text() << " " << j.dump();
    c.nontrivial(n > 3);
    auto s = build();
    step = s.getTimeStep();
    s.run();
    for (int i = 0; i < np; i++) {
        auto& movie = s.getFieldProbe(i).getFieldMovie();
        auto& all = s.getPointProbe(i).getFieldMovies();
        std::vector<int> every;
        if (rate[i].steps) every = { rate[i].steps };
        else if (rate[i].saves) for (int k = 1; k <= n + 1; k++) { if (spreads(k, rate[i].saves, final, step)) every.push_back(k); }
        else every = { 1 };
        bool fits = false;
        for (int k : every) {
            std::vector<double> want;
            for (int m = 0; m * k < n; m++) want.push_back(m * k * step);
            want.push_back(final);
            bool same = movie.size() == want.size();
            size_t m = 0;
            for (auto& [t, f] : movie) if (m < want.size()) { same = same && std::fabs(t - want[m]) < 1e-9 * (1 + final); m++; }
            fits = fits || same;
        }
        std::ostringstream times;
        for (auto& [t, f] : movie) times << " " << t;
        c.expect(fits, pbt::cat("probe ", i, " recorded at", times.str(), " over ", n, " steps of ", step));
        c.expect(all.size() == movie.size(), "point and field probes with the same rate record equally often");
        auto one = movie.begin();
        for (auto& [t, f] : all) {
            const double v[6] = { f.Ex, f.Ey, f.Ez, f.Hx, f.Hy, f.Hz };
            c.close(one->first, t, 1e-12, 0, "times of the two records");
            c.close(one->second, v[comp[i]], 1e-12, 1e-14, "component of the field probe");
            ++one;
        }
        // the first record is the initial field, up to interpolation
        if (p.order >= 3 && dim == 1 && p.g.el.size() >= 4) {
            double w = std::exp(-std::pow(at[i][0] - 0.3, 2) / (2 * 0.64));
            c.close(all.begin()->second.Ez, 0.8 * w, 0, 0.05, "initial field at the probe");
        }
    }
}

FACET(refused, 2000, 20000, "probes without a surface, with an unknown field or component, are refused")
{
    json j;
    j["model"]["filename"] = "box.msh";
    json p{ { "position", { 0.5 } }, { "field_type", "electric" }, { "polarization", "X" } };
    json s{ { "tags", { 3 } }, { "steps", 2 } };
    const int kind = (int)c.below(5);
    switch (kind) {
    case 0: p["field_type"] = c.pick({ "Electric", "E", "", "both" }); break;
    case 1: p["polarization"] = c.pick({ "x", "W", "", "XY" }); break;
    case 2: s.erase("tags"); break;
    case 3: s.erase("tags"); break;
    default: s["tags"] = "3";
    }
    auto list = [&](const json& bad, const json& good) { json l = json::array(); for (int i = c.range(0, 2); i > 0; i--) l.push_back(good); l.insert(l.begin() + c.below(l.size() + 1), bad); return l; };
    json gp{ { "position", { 0.5 } }, { "field_type", "magnetic" }, { "polarization", "Z" } }, gs{ { "tags", { 1, 2 } } };
    if (kind < 2) j["probes"]["field"] = list(p, gp);
    else j["probes"][kind == 2 ? "farfield" : kind == 3 ? "rcssurface" : c.flip() ? "farfield" : "rcssurface"] = list(s, gs);
    c.note() << j.dump();
    c.nontrivial();
    bool refused = false;
    try { driver::buildProbes(j); } catch (const std::exception&) { refused = true; }
    c.expect(refused, "the probes were accepted");
}

PBT_MAIN(pbt::info().rule = "entries: more than one kind of probe; records: more than three steps; refused: all";
         pbt::info().assumptions = { "steps and saves are not given together (the README calls them mutually exclusive)", "an interval may come from a step count that differs by rounding" })
