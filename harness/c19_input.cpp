// USES: SOLVER DRIVER
#include "casefile.h"
using namespace gen;
using namespace casefile;

static const double Z0 = 4e-7 * M_PI * 299792458.0;   // ohm

static const char* name(BdrCond b) { return b == BdrCond::PEC ? "PEC" : b == BdrCond::PMC ? "PMC" : b == BdrCond::SMA ? "SMA" : "SGBC"; }

static void shuffle(pbt::Case& c, json& a)
{
    auto p = c.permutation((int)a.size());
    json b = a;
    for (size_t i = 0; i < p.size(); i++) b[p[i]] = a[i];
    a = b;
}

/// The materials and boundaries of a problem, in one of the many ways to write them down.
static json modelOf(pbt::Case& c, const Prob& p, const std::string& file)
{
    json m;
    m["filename"] = file;
    m["materials"] = json::array();
    m["boundaries"] = json::array();
    std::set<int> used(p.g.ea.begin(), p.g.ea.end());
    for (auto& [t, x] : p.mats) {
        if (!used.count(t)) continue;
        json e;
        if (x.eps != 1 || c.flip()) e["relative_permittivity"] = x.eps;
        if (x.mu != 1 || c.flip()) e["relative_permeability"] = x.mu;
        if (x.sigma != 0 || c.flip()) e["bulk_conductivity"] = x.sigma / Z0;
        if (c.flip(1, 4)) e["type"] = "dielectric";   // ignored
        bool joined = false;
        for (auto& o : m["materials"]) {
            json q = o;
            q.erase("tags");
            if (q == e && c.flip()) { o["tags"].push_back(t); joined = true; break; }
        }
        if (!joined) { e["tags"] = { t }; m["materials"].push_back(e); }
    }
    for (auto* l : { &p.bdr, &p.ibdr }) for (auto& [t, b] : *l) {
        bool joined = false;
        for (auto& o : m["boundaries"]) if (o["type"] == name(b) && c.flip()) { o["tags"].push_back(t); joined = true; break; }
        if (!joined) m["boundaries"].push_back({ { "tags", { t } }, { "type", name(b) } });
    }
    shuffle(c, m["materials"]);
    shuffle(c, m["boundaries"]);
    for (auto* k : { "materials", "boundaries" }) for (auto& e : m[k]) shuffle(c, e["tags"]);
    return m;
}

FACET(options, 60000, 800000, "every solver option alone and together, present or absent")
{
    json j = json::object(), o = json::object();
    SolverOptions w;   // documented defaults are spelled out here, not taken from the code
    double alpha = 1.0, finalTime = 2.0, step = 0.0, cfl = 1.0;
    int order = 2, basis = mfem::BasisType::GaussLobatto, ode = 0, op = 1;
    bool spectral = false, exporting = false;
    const bool section = c.flip(9, 10);
    if (section) {
        if (c.flip()) o["upwind_alpha"] = alpha = c.grid(0, 1, 20);
        if (c.flip()) o["final_time"] = finalTime = c.flip(1, 5) ? (double)c.range(0, 50) : c.logreal(1e-6, 1e4);
        if (c.flip()) o["time_step"] = step = c.flip(1, 5) ? 0.0 : c.logreal(1e-9, 10);
        if (c.flip()) o["cfl"] = cfl = c.grid(0.01, 1, 99);
        if (c.flip()) o["order"] = order = c.range(1, 9);
        if (c.flip()) o["basis_type"] = basis = c.range(0, 1);
        if (c.flip()) o["ode_type"] = ode = c.range(0, 6);
        if (c.flip()) o["spectral"] = spectral = c.flip();
        if (c.flip()) o["export_operator"] = exporting = c.flip();
        if (c.flip()) { op = c.range(0, 2); o["evolution_operator"] = op == 0 ? "maxwell" : op == 1 ? "global" : "hesthaven"; }
        // a whole number is as good as a real one
        for (auto* k : { "final_time", "time_step", "upwind_alpha" })
            if (o.contains(k) && o[k].get<double>() == std::floor(o[k].get<double>()) && o[k].get<double>() < 1e6 && c.flip()) o[k] = (int)o[k].get<double>();
        j["solver_options"] = o;
    }
    c.note() << j.dump();
    c.nontrivial(o.size() > 1);
    auto r = driver::buildSolverOptions(j);
    c.close(r.evolution.alpha, alpha, 0, 0, "upwind_alpha");
    c.close(r.final_time, finalTime, 0, 0, "final_time");
    c.close(r.time_step, step, 0, 0, "time_step");
    c.close(r.cfl, cfl, 0, 0, "cfl");
    c.expect(r.evolution.order == order, pbt::cat("order is ", r.evolution.order, " instead of ", order));
    c.expect(r.basis_type == basis, pbt::cat("basis_type is ", r.basis_type, " instead of ", basis));
    c.expect((int)r.ode_type == ode, pbt::cat("ode_type is ", r.ode_type, " instead of ", ode));
    c.expect(r.evolution.spectral == spectral, "spectral");
    c.expect(r.evolution.export_evolution_operator == exporting, "export_operator");
    c.expect((int)r.evolution.op == op, pbt::cat("evolution_operator is ", (int)r.evolution.op, " instead of ", op));
    if (section && c.flip()) {
        // one value of the wrong kind
        static const std::vector<std::pair<const char*, json>> bad{
            { "upwind_alpha", "much" }, { "upwind_alpha", json::array({ 1.0 }) }, { "final_time", "2.0" }, { "time_step", json::object() }, { "cfl", nullptr },
            { "order", "three" }, { "order", json::array() }, { "spectral", 1 }, { "spectral", "yes" }, { "export_operator", 0 }, { "evolution_operator", "newmark" },
            { "evolution_operator", "Global" }, { "evolution_operator", "" }, { "evolution_operator", 1 }, { "basis_type", "lobatto" }, { "ode_type", "RK4" } };
        auto& b = bad[c.below(bad.size())];
        j["solver_options"][b.first] = b.second;
        bool refused = false;
        try { driver::buildSolverOptions(j); } catch (const std::exception&) { refused = true; }
        c.expect(refused, pbt::cat(b.first, " = ", b.second.dump(), " was accepted"));
        c.label("ill_formed");
    }
}

FACET(models, 8000, 100000, "materials and conditions of random meshes, written down in random ways")
{
    ProbOpts o;
    o.losses = true;
    o.maxElems = 16;
    o.interior = 0.6;
    Prob p = randomProblem(c, o);
    std::filesystem::remove_all("w");
    // the name of the folder may look like anything
    const std::string dir = c.pick({ "w/box/", "w/a.json.d/box/", "w/x.msh/box/", "w/deep/er/box/" });
    const bool mesh = c.flip(1, 6);
    const std::string file = mesh ? "box.mesh" : "box.msh";
    if (mesh) { std::ostringstream s; s.precision(17); p.g.build().Print(s); spill(dir + file, s.str()); }
    else spill(dir + file, gmsh(p.g));
    json j;
    j["model"] = modelOf(c, p, file);
    const int refine = c.flip(1, 5) && p.g.el.size() <= 8 ? c.range(0, p.g.dim == 3 ? 1 : 2) : -1;
    if (refine >= 0) j["model"]["refinement"] = refine;
    j["sources"] = json::array();
    c.note() << p.text() << " " << j["model"].dump();
    c.nontrivial(j["model"]["materials"].size() + j["model"]["boundaries"].size() > 2);
    Model m = driver::buildModel(j, dir + "box.json", false);
    c.expect(m.meshName_ == "box", "the case is called " + m.meshName_);
    auto& pm = m.getMesh();
    const int grown = refine <= 0 ? 1 : (int)std::lround(std::pow(2.0, p.g.dim * refine));
    c.expect(pm.GetNE() == (int)p.g.el.size() * grown, pbt::cat(pm.GetNE(), " elements after ", refine, " refinements of ", p.g.el.size()));
    c.expect(pm.Dimension() == p.g.dim, "dimension");
    auto eps = m.buildEpsMuPiecewiseVector(E), mu = m.buildEpsMuPiecewiseVector(H), sigma = m.buildSigmaPiecewiseVector();
    Locator at(p.g), face(p.g, true);
    for (int e = 0; e < pm.GetNE(); e++) {
        int a = pm.GetAttribute(e);
        if (refine <= 0) { int k = at(pm, e); c.expect(k >= 0 && p.g.ea[k] == a, "region of an element"); }
        auto& w = p.mats.at(a);
        c.expect(eps.Size() >= a && mu.Size() >= a && sigma.Size() >= a, "no material for a region");
        c.close(eps[a - 1], w.eps, 1e-14, 0, "relative permittivity");
        c.close(mu[a - 1], w.mu, 1e-14, 0, "relative permeability");
        c.close(sigma[a - 1], w.sigma, 1e-9, 0, "conductivity");
    }
    auto on = [&](const BoundaryToMarker& map, BdrCond q, int a) { auto i = map.find(q); return i != map.end() && i->second[a - 1] == 1; };
    for (int b = 0; b < pm.GetNBE(); b++) {
        int a = pm.GetBdrAttribute(b);
        if (refine <= 0) { int k = face(pm, b); c.expect(k >= 0 && p.g.ba[k] == a, "tag of a boundary face"); }
        for (BdrCond q : { BdrCond::PEC, BdrCond::PMC, BdrCond::SMA }) {
            bool ext = p.bdr.count(a) && p.bdr.at(a) == q, in = p.ibdr.count(a) && p.ibdr.at(a) == q;
            c.expect(on(m.getBoundaryToMarker(), q, a) == ext, pbt::cat("exterior ", name(q), " on tag ", a));
            c.expect(on(m.getInteriorBoundaryToMarker(), q, a) == in, pbt::cat("interior ", name(q), " on tag ", a));
        }
    }
    c.count(pm.GetNE() + pm.GetNBE());
}

/// A small valid case in its own folder.
struct Box {
    Prob p;
    json j;
    std::string path = "w/box/box.json";
    void write() const { spill(path, j.dump(2)); }
};
static Box randomBox(pbt::Case& c, int elems = 12)
{
    Box b;
    ProbOpts o;
    o.losses = true;
    o.maxElems = elems;
    b.p = randomProblem(c, o);
    auto& p = b.p;
    std::filesystem::remove_all("w");
    spill("w/box/box.msh", gmsh(p.g));
    b.j["model"] = modelOf(c, p, "box.msh");
    json s = json::object();
    if (p.order != 2 || c.flip()) s["order"] = p.order;
    if (p.alpha != 1 || c.flip()) s["upwind_alpha"] = p.alpha;
    if (p.basis != mfem::BasisType::GaussLobatto || c.flip()) s["basis_type"] = p.basis;
    s["time_step"] = 1e-3;
    b.j["solver_options"] = s;
    b.j["sources"] = json::array();
    return b;
}

FACET(solver, 1500, 20000, "the solver built from a file computes what the solver built by hand does")
{
    Box b = randomBox(c);
    auto& p = b.p;
    EvolutionOperatorType op = c.flip(1, 4) ? Maxwell : Global;
    if (op == Maxwell) for (auto& [t, m] : p.mats) if (m.sigma != 0) op = Global;   // the per-term operator has no losses
    if (op != Global || c.flip()) b.j["solver_options"]["evolution_operator"] = op == Global ? "global" : "maxwell";
    const double dt = c.grid(1e-4, 1e-2, 50);
    b.j["solver_options"]["time_step"] = dt;
    b.j["solver_options"]["final_time"] = 3 * dt;
    b.write();
    c.note() << p.text() << " " << b.j.dump();
    c.nontrivial(p.g.el.size() > 1);
    auto read = driver::buildSolverJson(b.path, false);
    auto made = makeSolver(p, op);
    const int n = made->getFields().allDOFs().Size();
    c.expect(read.getFields().allDOFs().Size() == n, "number of unknowns");
    c.close(read.getTimeStep(), dt, 0, 0, "time step");
    auto x = randomState(c, n);
    mfem::Vector y(n), z(n);
    const_cast<mfem::TimeDependentOperator*>(read.getEvolTDO())->Mult(x, y);
    const_cast<mfem::TimeDependentOperator*>(made->getEvolTDO())->Mult(x, z);
    sameVector(c, y, z, 1e-9, 0, "time derivative of the solver read from the file");
    read.run();
    c.close(read.getTime(), 3 * dt, 1e-12, 0, "time at the end of the run");
}

FACET(refused, 6000, 80000, "files with something essential missing or wrong are refused with an error")
{
    Box b = randomBox(c, 8);
    auto& j = b.j;
    std::string what;
    auto& m = j["model"];
    const int nb = (int)m["boundaries"].size(), nm = (int)m["materials"].size();
    const int ib = (int)c.below(nb), im = (int)c.below(nm);
    auto layer = [&]() -> json { return { { "bulk_conductivity", 100.0 }, { "material_width", 1e-3 } }; };
    switch (c.below(22)) {
    case 0: j.erase("model"); what = "no model"; break;
    case 1: m.erase("materials"); what = "no materials"; break;
    case 2: m.erase("boundaries"); what = "no boundaries"; break;
    case 3: m.erase("filename"); what = "no mesh file name"; break;
    case 4: m["boundaries"][ib].erase("tags"); what = "boundary without tags"; break;
    case 5: m["boundaries"][ib]["tags"] = json::array(); what = "boundary with empty tags"; break;
    case 6: m["boundaries"][ib].erase("type"); what = "boundary without type"; break;
    case 7: m["boundaries"][ib]["type"] = c.pick({ "pec", "ABC", "", "PEC " }); what = "unknown boundary type"; break;
    case 8: m["materials"][im].erase("tags"); what = "material without tags"; break;
    case 9: m["materials"][im]["tags"].push_back(500); what = "material for a region that is not in the mesh"; break;
    case 10: m["boundaries"][ib]["tags"].push_back(500); what = "condition for a tag that is not in the mesh"; break;
    case 11: j.erase("sources"); what = "no sources"; break;
    case 12: m["boundaries"][ib]["type"] = "SGBC"; m["boundaries"][ib].erase("material"); what = "layer without material"; break;
    case 13: m["boundaries"][ib]["type"] = "SGBC"; { auto l = layer(); l.erase(c.flip() ? "bulk_conductivity" : "material_width"); if (c.flip()) m["boundaries"][ib]["material"] = l; else m["boundaries"][ib]["layers"] = { layer(), l }; } what = "layer without width or conductivity"; break;
    case 14: m["boundaries"][ib]["type"] = "SGBC"; m["boundaries"][ib]["material"] = layer(); m["boundaries"][ib]["sgbc_boundaries"] = { { c.flip() ? "left" : "right", c.pick({ "SGBC", "none", "pmc" }) } }; what = "unknown condition at the end of a layer"; break;
    case 15: j["solver_options"]["cfl"] = c.pick({ 0.0, -0.5, 1.5 }); what = "CFL out of range"; break;
    case 16: j["solver_options"]["ode_type"] = c.range(7, 99); what = "unknown integrator"; break;
    case 17: j["solver_options"]["final_time"] = -c.grid(0.1, 3, 10); what = "negative final time"; break;
    case 18: j["solver_options"]["order"] = -c.range(1, 3); what = "negative order"; break;
    case 19: m["materials"][im]["relative_permittivity"] = c.pick({ 0.5, 0.0, -1.0 }); what = "permittivity below one"; break;
    case 20: m["materials"][im]["relative_permeability"] = c.pick({ 0.5, 0.0, -1.0 }); what = "permeability below one"; break;
    default: m["materials"][im]["bulk_conductivity"] = -c.grid(0.1, 3, 10); what = "negative conductivity";
    }
    b.write();
    c.note() << what << ": " << j.dump();
    c.label(what);
    c.nontrivial();
    bool refused = false;
    std::string why;
    try { driver::buildSolverJson(b.path, false); }
    catch (const std::exception& e) { refused = true; why = e.what(); }
    c.expect(refused, what + " was accepted");
    c.expect(!why.empty(), what + " was refused without a message");
}

FACET(naming, 6000, 80000, "folder, case, mesh file and the name in the case have to agree")
{
    Box b = randomBox(c, 4);
    const std::vector<std::string> names{ "box", "Box", "box2", "a b", "box.v2" };
    std::string folder = c.pick(names), js = c.flip(2, 3) ? folder : c.pick(names), msh = c.flip(2, 3) ? js : c.pick(names), inside = c.flip(2, 3) ? msh : c.pick(names);
    std::string prefix = c.flip(1, 6) ? c.pick({ "./", "../", "sub/" }) : "", ext = c.flip(1, 8) ? ".mesh" : ".msh", jext = c.flip(1, 8) ? c.pick({ ".txt", ".JSON", "" }) : ".json";
    std::filesystem::remove_all("w");
    spill("w/" + folder + "/" + msh + ".msh", gmsh(b.p.g));
    b.j["model"]["filename"] = prefix + inside + ext;
    const bool bare = c.flip(1, 10);   // a path without a folder
    std::string path = bare ? js + jext : "w/" + folder + "/" + js + jext;
    spill(path, b.j.dump());
    bool good = folder == js && js == msh && msh == inside && prefix.empty() && ext == ".msh" && jext == ".json" && !bare;
    c.note() << path << " with " << msh << ".msh naming " << prefix << inside << ext;
    c.label(good ? "agree" : "disagree");
    c.nontrivial();
    bool refused = false;
    std::string why;
    try { driver::buildSolverJson(path, false); }
    catch (const std::exception& e) { refused = true; why = e.what(); }
    if (bare) std::filesystem::remove(path);
    c.expect(refused == !good, good ? "names that agree were refused: " + why : std::string("names that do not agree were accepted"));
}

PBT_MAIN(pbt::info().rule = "options: at least two set; models: more than two entries; solver: more than one element; refused and naming: all";
         pbt::info().assumptions = { "the documented meaning is the README's", "MFEM is replaced by the stand-in in shim/" })
