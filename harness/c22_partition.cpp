// USES: SOLVER DRIVER
#include "casefile.h"
#include "spmd.hpp"
using namespace gen;
using namespace casefile;

struct Surfaces {
    json sources = json::array(), boundaries = json::array(), probes = json::object();
    std::set<int> tags;      // tags of total-field, layer, conducting and recorded surfaces
};

/// Distributes the interior tags over total-field sources, layers and ordinary interior conditions.
static Surfaces describe(pbt::Case& c, GMesh& g)
{
    Surfaces s;
    for (auto& a : g.ba) a = c.range(1, 3);
    int nt = c.range(1, 5);
    double density = c.grid(0.05, 0.9, 16);
    for (auto& [k, f] : g.faces())
        if (f.els.size() == 2 && c.unit() < density) {
            auto w = f.v;
            if (g.dim > 1 && c.flip()) std::reverse(w.begin(), w.end());
            g.bd.push_back(w);
            g.ba.push_back(3 + c.range(1, nt));
        }
    std::set<int> have(g.ba.begin(), g.ba.end());
    std::vector<int> plain{ };
    std::vector<std::vector<int>> tf, layer;
    for (int t : have) {
        if (t <= 3) {
            // an exterior face may belong to a layer as well: it couples nothing
            if (c.flip(1, 6)) { layer.push_back({ t }); s.tags.insert(t); }
            else plain.push_back(t);
            continue;
        }
        switch (c.below(5)) {
        case 0: plain.push_back(t); s.tags.insert(t); break;
        case 1: case 2: if (!tf.empty() && c.flip()) tf.back().push_back(t); else tf.push_back({ t }); s.tags.insert(t); break;
        default: if (!layer.empty() && c.flip()) layer.back().push_back(t); else layer.push_back({ t }); s.tags.insert(t);
        }
    }
    for (auto& t : tf) {
        json j;
        j["type"] = c.flip() ? "planewave" : "dipole";
        j["tags"] = t;
        s.sources.push_back(j);
    }
    for (int n = c.flip(1, 3) ? c.range(1, 2) : 0; n > 0; n--) {
        // recorded surfaces may coincide with others
        std::vector<int> t;
        for (int x : have) if (x > 3 && c.flip(1, 3)) { t.push_back(x); s.tags.insert(x); }
        if (!t.empty()) s.probes[c.flip() ? "rcssurface" : "farfield"].push_back({ { "name", "p" }, { "tags", t } });
    }
    if (c.flip(1, 3)) s.sources.push_back({ { "type", "initial" }, { "field_type", "electric" } });
    if (!plain.empty()) s.boundaries.push_back({ { "tags", plain }, { "type", "PEC" } });
    for (auto& t : layer)
        s.boundaries.push_back({ { "tags", t }, { "type", "SGBC" }, { "material", { { "bulk_conductivity", 10.0 }, { "material_width", 1e-3 } } } });
    if (s.boundaries.empty()) s.boundaries.push_back({ { "tags", { *have.begin() } }, { "type", "PEC" } });
    return s;
}

FACET(coupled, 40000, 150000, "random meshes, surfaces, numbers of processes and starting partitions")
{
    MeshOpts o;
    o.maxElems = 60;
    GMesh g = randomMesh(c, o);
    Surfaces s = describe(c, g);
    const int ne = (int)g.el.size(), ranks = c.range(1, 6);
    std::vector<int> start(ne);
    switch (c.below(4)) {
    case 0: for (auto& r : start) r = (int)c.below(ranks); break;
    case 1: for (int e = 0; e < ne; e++) start[e] = e * ranks / ne; break;
    case 2: for (int e = 0; e < ne; e++) start[e] = e % ranks; break;
    default: { int one = (int)c.below(ranks); for (auto& r : start) r = one; }
    }
    // elements coupled through the surfaces
    std::vector<int> root(ne);
    for (int e = 0; e < ne; e++) root[e] = e;
    std::function<int(int)> find = [&](int x) { return root[x] == x ? x : root[x] = find(root[x]); };
    std::vector<char> coupled(ne, 0);
    auto faces = g.faces();
    int pairs = 0;
    for (size_t i = 0; i < g.bd.size(); i++) if (s.tags.count(g.ba[i])) {
        auto k = g.bd[i];
        std::sort(k.begin(), k.end());
        auto& f = faces[k];
        if (f.els.size() < 2) continue;
        pairs++;
        for (int e : f.els) coupled[e] = 1;
        root[find(f.els[0])] = find(f.els[1]);
    }
    std::filesystem::remove_all("w");
    spill("w/box/box.msh", gmsh(g));
    json j;
    j["model"] = plainModel(g, "box.msh");
    j["model"]["boundaries"] = s.boundaries;
    j["sources"] = s.sources;
    if (!s.probes.empty()) j["probes"] = s.probes;
    c.note() << ne << " elements of " << g.type << ", " << ranks << " processes, " << pairs << " coupled pairs, boundaries " << s.boundaries.dump() << " sources " << s.sources.dump() << " probes " << s.probes.dump();
    Locator at(g);
    mfem::Mesh::Partitioner = [&](const mfem::Mesh& m, int n, int* p) {
        for (int e = 0; e < m.GetNE(); e++) { int k = at(m, e); p[e] = k < 0 ? 0 : std::min(start[k], n - 1); }
    };
    struct Reset { ~Reset() { mfem::Mesh::Partitioner = nullptr; } } reset;
    std::vector<int> final(ne, -1), times(ne, 0);
    std::mutex lock;
    spmd::run(ranks, [&](int r) {
        Model m = driver::buildModel(j, "w/box/box.json", false);
        std::lock_guard<std::mutex> hold(lock);
        for (int e = 0; e < m.getMesh().GetNE(); e++) {
            int k = at(m.getMesh(), e);
            c.expect(k >= 0, "an element that is not in the mesh");
            final[k] = r;
            times[k]++;
        }
    });
    int groups = 0, moved = 0;
    std::set<int> roots;
    for (int e = 0; e < ne; e++) {
        c.expect(times[e] == 1, pbt::cat("element ", e, " is on ", times[e], " processes"));
        if (coupled[e]) {
            roots.insert(find(e));
            c.expect(final[e] == final[find(e)], pbt::cat("elements ", e, " and ", find(e), " are coupled but on processes ", final[e], " and ", final[find(e)]));
        }
        else c.expect(final[e] == start[e], pbt::cat("element ", e, " has nothing to do with the surfaces but moved from process ", start[e], " to ", final[e]));
        moved += final[e] != start[e];
    }
    groups = (int)roots.size();
    c.count(ne);
    c.label(g.dim == 1 ? "1D" : g.dim == 2 ? "2D" : "3D");
    c.label(pbt::cat(ranks, ranks == 1 ? "_process" : "_processes"));
    if (groups > 1) c.label("several_groups");
    if (moved) c.label("moved");
    if (!s.probes.empty()) c.label("recorded");
    c.nontrivial(ranks > 1 && pairs > 1 && groups < ne);
}

PBT_MAIN(pbt::info().rule = "at least two processes and at least two coupled pairs of elements";
         pbt::info().assumptions = { "processes are threads of one program", "the mesh and its first partition come from the stand-in in shim/ and the generator" })
