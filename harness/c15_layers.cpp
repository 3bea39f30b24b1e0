// USES: SOLVER DRIVER
#include "casefile.h"
#include "solver/SolverExtension.h"
using namespace gen;
using namespace casefile;

static const double C = 299792458.0, MU0 = 4e-7 * M_PI, EPS0 = 1 / (MU0 * C * C), Z0 = MU0 * C;

struct LayerIn {
    double eps = 1, mu = 1, sigma = 0, width = 1e-3;   // sigma in S/m
    int segments = 0, order = 0;                       // 0: left to the program
    json write(pbt::Case& c) const
    {
        json j{ { "bulk_conductivity", sigma }, { "material_width", width } };
        if (eps != 1 || c.flip()) j["relative_permittivity"] = eps;
        if (mu != 1 || c.flip()) j["relative_permeability"] = mu;
        if (segments) j["num_of_segments"] = segments;
        if (order) j["order"] = order;
        return j;
    }
};
static LayerIn randomLayer(pbt::Case& c)
{
    LayerIn l;
    if (c.flip()) l.eps = c.grid(1, 10, 18);
    if (c.flip(1, 3)) l.mu = c.grid(1, 5, 8);
    switch (c.below(4)) {
    case 0: break;
    case 1: l.sigma = c.logreal(1e-6, 1e-2); break;
    case 2: l.sigma = c.logreal(1e-2, 1e3); break;
    default: l.sigma = c.logreal(1e3, 6e7);
    }
    l.width = c.logreal(1e-6, 0.3);
    if (c.flip(1, 3)) l.segments = c.range(1, 40);
    if (c.flip(1, 3)) l.order = c.range(1, 6);
    return l;
}

/// What an unattended layer is resolved with, at frequency f: cells that put twenty unknowns on a wavelength and two
/// cells on a skin depth, between 4 and 1000 of them, of higher order the less it conducts.
static int autoOrder(const LayerIn& l, double f)
{
    double pe = l.sigma / (f * l.eps * EPS0);
    return pe > 100 ? 2 : pe < 0.1 && l.sigma < 1e-3 ? 4 : 3;
}
static bool autoSegments(const LayerIn& l, double f, int order, size_t n)
{
    double wave = C / (f * std::sqrt(l.eps * l.mu)) / std::ceil(20.0 / order), dx = wave;
    if (l.sigma > 0) dx = std::min(dx, 0.5 / std::sqrt(M_PI * f * l.mu * MU0 * l.sigma));
    for (double r : { 1 - 1e-9, 1.0, 1 + 1e-9 }) if ((double)n == std::clamp(std::ceil(l.width / dx * r), 4.0, 1000.0)) return true;
    return false;
}
static bool nearThreshold(const LayerIn& l, double f)
{
    double pe = l.sigma / (f * l.eps * EPS0);
    return std::fabs(pe / 100 - 1) < 1e-6 || std::fabs(pe / 0.1 - 1) < 1e-6;
}

struct SourceIn { json entry; double top; };   // highest frequency of interest, 0 if the source has none
static SourceIn randomSource(pbt::Case& c)
{
    SourceIn s;
    const double spread = c.logreal(0.01, 3), f = c.logreal(1e7, 2e10);
    s.top = C / (2 * spread);
    switch (c.below(5)) {
    case 0: s.entry = { { "type", "initial" }, { "field_type", "electric" }, { "polarization", { 0, 1, 0 } }, { "center", { 0.5 } }, { "dimension", 1 }, { "magnitude", { { "type", "gaussian" }, { "spread", spread } } } }; break;
    case 1: s.entry = { { "type", "initial" }, { "field_type", "electric" }, { "polarization", { 0, 1, 0 } }, { "magnitude", { { "type", "resonant" }, { "modes", { 2 } } } } }; s.top = 0; break;
    case 2: s.entry = { { "type", "planewave" }, { "polarization", { 0, 1, 0 } }, { "propagation", { 1, 0, 0 } }, { "magnitude", { { "spread", spread }, { "mean", { -3.0 } } } } }; break;
    case 3: s.entry = { { "type", "planewave" }, { "polarization", { 0, 1, 0 } }, { "propagation", { 1, 0, 0 } }, { "magnitude", { { "spread", spread }, { "mean", { -3.0 } }, { "frequency", f } } } }; s.top += f; break;
    default: s.entry = { { "type", "dipole" }, { "magnitude", { { "spread", spread }, { "mean", 1.0 }, { "length", 0.1 } } } };
    }
    if (s.entry["type"] != "initial") s.entry["tags"] = { 999 };
    if (s.entry["type"] == "planewave" && c.flip()) s.entry["magnitude"]["type"] = "gaussian";
    return s;
}

FACET(descriptions, 40000, 400000, "stacks on random surfaces of random meshes, with their resolution")
{
    ProbOpts o;
    o.maxElems = 10;
    Prob p = randomProblem(c, o);
    json j, boundaries = json::array();
    j["model"] = plainModel(p.g, "box.msh", "PEC");
    j["sources"] = json::array();
    double f = 0;
    for (int n = c.range(0, 3), i = 0; i < n; i++) { auto s = randomSource(c); j["sources"].push_back(s.entry); f = std::max(f, s.top); }
    if (f == 0) f = 1e9;
    // which tags become layers
    std::set<int> tags;
    for (size_t b = 0; b < p.g.bd.size(); b++) tags.insert(p.g.ba[b]);
    struct Stack { std::vector<int> tags; std::vector<LayerIn> layers; std::string left, right; };
    std::vector<Stack> stacks;
    const char* conds[] = { "PEC", "PMC", "SMA" };
    for (int t : tags) {
        if (c.flip() || (stacks.empty() && t == *tags.rbegin())) {
            if (!stacks.empty() && c.flip(1, 3)) { stacks.back().tags.push_back(t); continue; }
            Stack s;
            s.tags = { t };
            for (int n = c.flip() ? 1 : c.range(1, 4), i = 0; i < n; i++) s.layers.push_back(randomLayer(c));
            if (c.flip(1, 3)) s.left = conds[c.below(3)];
            if (c.flip(1, 3)) s.right = conds[c.below(3)];
            for (auto& l : s.layers) if (nearThreshold(l, f)) c.discard();
            stacks.push_back(s);
        }
        else boundaries.push_back({ { "tags", { t } }, { "type", conds[c.below(3)] } });
    }
    for (auto& s : stacks) {
        json b{ { "tags", s.tags }, { "type", "SGBC" } }, ends = json::object();
        if (s.left.size()) ends["left"] = s.left;
        if (s.right.size()) ends["right"] = s.right;
        const bool single = s.layers.size() == 1 && c.flip();
        if (single) b["material"] = s.layers[0].write(c);
        else { b["layers"] = json::array(); for (auto& l : s.layers) b["layers"].push_back(l.write(c)); }
        if (!ends.empty()) { if (single && c.flip()) b["material"]["sgbc_boundaries"] = ends; else b["sgbc_boundaries"] = ends; }
        c.label(single ? "material" : "layers");
        // where in the list does not matter, but stacks stay in their order
        boundaries.push_back(b);
    }
    j["model"]["boundaries"] = boundaries;
    std::filesystem::remove_all("w");
    spill("w/box/box.msh", gmsh(p.g));
    c.note() << j.dump();
    c.nontrivial();
    Model m = driver::buildModel(j, "w/box/box.json", false);
    auto& got = m.getSGBCProperties();
    c.expect(got.size() == stacks.size(), pbt::cat(got.size(), " stacks instead of ", stacks.size()));
    for (size_t i = 0; i < stacks.size(); i++) {
        auto& s = stacks[i];
        auto& g = got[i];
        c.expect(std::vector<int>(g.geom_tags.begin(), g.geom_tags.end()) == s.tags, "tags of a stack");
        c.expect(g.layers.size() == s.layers.size(), pbt::cat(g.layers.size(), " layers instead of ", s.layers.size()));
        double width = 0;
        size_t cells = 0, order = 1;
        for (size_t k = 0; k < s.layers.size(); k++) {
            auto& l = s.layers[k];
            auto& x = g.layers[k];
            c.close(x.material.getPermittivity(), l.eps, 1e-14, 0, "permittivity of a layer");
            c.close(x.material.getPermeability(), l.mu, 1e-14, 0, "permeability of a layer");
            c.close(x.material.getConductivity(), l.sigma * Z0, 1e-9, 0, "conductivity of a layer");
            c.close(x.width, l.width, 0, 0, "width of a layer");
            if (l.order) c.expect((int)x.order == l.order, pbt::cat("order ", x.order, " instead of ", l.order));
            else c.expect((int)x.order == autoOrder(l, f), pbt::cat("automatic order ", x.order, " at ", f, " Hz"));
            if (l.segments) c.expect((int)x.num_of_segments == l.segments, pbt::cat(x.num_of_segments, " cells instead of ", l.segments));
            else c.expect(autoSegments(l, f, autoOrder(l, f), x.num_of_segments), pbt::cat(x.num_of_segments, " automatic cells of order ", x.order, " for ", l.width, " m at ", f, " Hz"));
            if (l.sigma > 0) c.close(x.n_skin_depths, l.width * std::sqrt(M_PI * f * l.mu * MU0 * l.sigma), 1e-9, 0, "skin depths of a layer");
            width += l.width; cells += x.num_of_segments; order = std::max(order, x.order);
        }
        c.close(g.totalWidth(), width, 1e-12, 0, "width of a stack");
        c.expect(g.totalSegments() == cells && g.maxOrder() == order, "cells and order of a stack");
        auto same = [&](const SGBCBoundaryInfo& x, const std::string& w, const char* what) {
            c.expect(x.isOn == !w.empty(), pbt::cat(what, w.empty() ? " end has a condition nobody asked for" : " end lost its condition"));
            if (x.isOn) c.expect(x.bdrCond == (w == "PEC" ? BdrCond::PEC : w == "PMC" ? BdrCond::PMC : BdrCond::SMA), pbt::cat(what, " end has another condition"));
        };
        same(g.sgbc_bdr_info.first, s.left, "left");
        same(g.sgbc_bdr_info.second, s.right, "right");
        for (int t : s.tags) {
            bool marked = false;
            for (bool in : { true, false }) { auto& k = m.getMarker(BdrCond::SGBC, in); if (k.Size() >= t && k[t - 1] == 1) marked = true; }
            c.expect(marked, pbt::cat("tag ", t, " is not marked as a layer"));
        }
    }
}

/// The mesh a stack stands for, written out by hand.
static GMesh slab(const SGBCProperties& s, int pad)
{
    GMesh g;
    g.dim = 1;
    g.type = 's';
    const double d = s.totalWidth() / s.totalSegments();
    double x = 0;
    const int vac = (int)s.layers.size() + 1;
    auto cell = [&](double h, int a) { if (g.v.empty()) g.v.push_back({ 0, 0, 0 }); x += h; g.v.push_back({ x, 0, 0 }); g.el.push_back({ (int)g.v.size() - 2, (int)g.v.size() - 1 }); g.ea.push_back(a); };
    for (int i = 0; i < pad; i++) cell(d, vac);
    const int a = (int)g.v.size() - 1;
    for (size_t k = 0; k < s.layers.size(); k++) for (size_t i = 0; i < s.layers[k].num_of_segments; i++) cell(s.layers[k].width / s.layers[k].num_of_segments, (int)k + 1);
    const int b = (int)g.v.size() - 1;
    for (int i = 0; i < pad; i++) cell(d, vac);
    g.bd = { { 0 }, { (int)g.v.size() - 1 }, { a }, { b } };
    g.ba = { 1, 2, 3, 4 };
    return g;
}

FACET(slabs, 10000, 100000, "steps of a layer solver against a solver set up by hand for the padded stack")
{
    SGBCProperties s;
    for (int n = c.range(1, 4), i = 0; i < n; i++) {
        LayerIn l = randomLayer(c);
        SGBCLayer x(Material(l.eps, l.mu, c.flip(1, 4) ? 0.0 : c.logreal(1e-3, 1e5)), c.logreal(1e-4, 0.5));
        x.num_of_segments = c.range(1, 4);
        x.order = c.flip(1, 4) ? c.range(1, 4) : c.range(1, 2);
        s.layers.push_back(x);
    }
    s.geom_tags = { 5 };
    const BdrCond conds[] = { BdrCond::PEC, BdrCond::PMC, BdrCond::SMA };
    for (auto* e : { &s.sgbc_bdr_info.first, &s.sgbc_bdr_info.second }) if (c.flip(1, 3)) { e->isOn = true; e->bdrCond = conds[c.below(3)]; }
    for (auto& l : s.layers) c.note() << "layer(" << l.material.getPermittivity() << "," << l.material.getPermeability() << "," << l.material.getConductivity() << ") " << l.width << " in " << l.num_of_segments << " of order " << l.order << "; ";
    c.nontrivial(s.totalSegments() > 1);
    auto w = SGBCWrapper::buildSGBCWrapper(s);
    const int order = (int)s.maxOrder(), nodes = order + 1;
    const int n = w->getLocalFieldSize();
    c.expect(w->getStateSize() == 6 * n, "a state holds six fields");
    c.expect(n % nodes == 0, "whole cells");
    const int pad = (n / nodes - (int)s.totalSegments()) / 2;
    c.expect(pad >= 1 && pad * 2 + (int)s.totalSegments() == n / nodes, pbt::cat("padding of ", n / nodes, " cells around ", s.totalSegments()));
    c.expect(w->getLeftInterfaceIndex() == pad * nodes && w->getRightInterfaceIndex() == n - 1 - pad * nodes, pbt::cat("ends of the stack at ", w->getLeftInterfaceIndex(), " and ", w->getRightInterfaceIndex(), " of ", n));
    if (6 * n > 600) { c.label("long"); return; }   // solved iteratively, to a loose tolerance
    Prob p;
    p.g = slab(s, pad);
    for (size_t k = 0; k < s.layers.size(); k++) p.mats[(int)k + 1] = { s.layers[k].material.getPermittivity(), s.layers[k].material.getPermeability(), s.layers[k].material.getConductivity() };
    p.mats[(int)s.layers.size() + 1] = Mat();
    p.bdr = { { 1, BdrCond::SMA }, { 2, BdrCond::SMA } };
    if (s.sgbc_bdr_info.first.isOn) p.ibdr[3] = s.sgbc_bdr_info.first.bdrCond;
    if (s.sgbc_bdr_info.second.isOn) p.ibdr[4] = s.sgbc_bdr_info.second.bdrCond;
    p.order = order;
    p.alpha = 1;
    auto opts = p.options();
    const double dt = s.totalWidth() / s.totalSegments() * c.logreal(0.1, 10);
    if (dt < 1e-8) c.discard();
    opts.setODEType(ode_type::SDIRK33).setTimeStep(dt).setFinalTime(100.0);
    maxwell::Solver ref(p.model(), Probes(), Sources(), opts);
    SGBCState state;
    state.init(w->getStateSize());
    state.fields_state = randomState(c, 6 * n);
    auto& x = ref.getFields().allDOFs();
    c.expect(x.Size() == 6 * n, "unknowns");
    x = state.fields_state;
    const int steps = c.range(1, 3);
    std::unique_ptr<SGBCWrapper> copy;
    if (c.flip(1, 4)) { copy = w->clone(); std::swap(w, copy); c.label("clone"); }
    const double start = c.flip() ? 0.0 : c.grid(0, 5, 10);
    for (int i = 0; i < steps; i++) {
        // another state in between must not matter
        if (c.flip(1, 3)) { SGBCState other; other.init(6 * n); other.fields_state = 1.0; w->loadState(other); w->solve(start + i * dt, dt); w->saveState(other); }
        w->loadState(state);
        w->solve(start + i * dt, dt);
        w->saveState(state);
        ref.step();
    }
    sameVector(c, state.fields_state, x, 1e-7, 1e-9, "state of the layer");
}

PBT_MAIN(pbt::info().rule = "descriptions: all; slabs: more than one cell";
         pbt::info().assumptions = { "automatic segments follow the automatic order even when the order is given", "layers whose conductivity is within 1e-6 of a change of order are left out" })
