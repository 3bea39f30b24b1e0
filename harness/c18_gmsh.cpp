// USES: SOLVER DRIVER
#include "casefile.h"
#include "spmd.hpp"
#include <atomic>
#include <chrono>
#include <sys/stat.h>
#include <thread>
using namespace gen;
using namespace casefile;

static int dimensionOf(int type)
{
    static const std::map<int, int> d{ { 15, 0 }, { 1, 1 }, { 8, 1 }, { 26, 1 }, { 27, 1 }, { 28, 1 }, { 2, 2 }, { 9, 2 }, { 20, 2 }, { 21, 2 }, { 3, 2 }, { 10, 2 }, { 16, 2 },
                                       { 4, 3 }, { 11, 3 }, { 29, 3 }, { 5, 3 }, { 12, 3 }, { 17, 3 } };
    return d.at(type);
}

struct File {
    GMesh g;
    int order = 1;
    std::string head, foot;        // everything around the element lines
    std::string countLine;
    std::vector<Entity> el;
    std::vector<std::string> raw;  // the element lines as written
    std::string text() const
    {
        std::string s = head + "$Elements\n" + countLine + "\n";
        for (auto& r : raw) s += r + "\n";
        return s + "$EndElements\n" + foot;
    }
};

static File randomFile(pbt::Case& c)
{
    File f;
    MeshOpts o;
    o.maxElems = 16;
    f.g = randomMesh(c, o);
    auto& g = f.g;
    const int n0 = (int)g.v.size();
    // node numbers: in order, with gaps, or shuffled; some nodes belong to nothing
    std::vector<int> id;
    auto perm = c.permutation(n0 + 3);
    int mode = (int)c.below(3), shift = mode == 0 ? 1 : c.range(1, 2000);
    for (int i = 0; i < n0 + 3; i++) id.push_back(mode == 2 ? shift + 7 * perm[i] : mode == 1 ? shift + 3 * i : 1 + i);
    // interior faces are listed too
    for (auto& a : g.ea) a = c.range(1, 6);
    for (auto& a : g.ba) a = c.range(1, 6);
    for (auto& [k, x] : g.faces()) if (x.els.size() == 2 && c.flip(1, 4)) { g.bd.push_back(x.v); g.ba.push_back(c.range(7, 9)); }
    std::ostringstream nodes;
    std::vector<P3> pos = g.v;
    std::map<std::vector<int>, int> mid;
    if (g.type != 'H' && g.type != 'q' && c.flip(1, 4)) f.order = 2;
    auto middle = [&](int a, int b) {
        std::vector<int> k{ std::min(a, b), std::max(a, b) };
        if (!mid.count(k)) { mid[k] = (int)pos.size(); pos.push_back(g.centroid(k)); }
        return mid[k];
    };
    auto nodesOf = [&](int geo, const std::vector<int>& v) {   // geo: 0 point, 1 line, 2 triangle, 3 quad, 4 tet, 5 hex
        std::vector<int> r = v;
        if (f.order == 2) {
            if (geo == 1) r.push_back(middle(v[0], v[1]));
            if (geo == 2) for (auto [a, b] : { std::pair(0, 1), std::pair(1, 2), std::pair(2, 0) }) r.push_back(middle(v[a], v[b]));
            if (geo == 4) for (auto [a, b] : { std::pair(0, 1), std::pair(1, 2), std::pair(2, 0), std::pair(3, 0), std::pair(3, 2), std::pair(3, 1) }) r.push_back(middle(v[a], v[b]));
        }
        return r;
    };
    auto typeOf = [&](int geo) { static const int t1[] = { 15, 1, 2, 3, 4, 5 }, t2[] = { 15, 8, 9, 10, 11, 12 }; return f.order == 1 ? t1[geo] : t2[geo]; };
    auto add = [&](int geo, int tag, const std::vector<int>& v) {
        Entity e;
        e.type = typeOf(geo);
        // physical tag, geometric tag, then partitions
        int nt = c.flip(1, 5) ? c.range(3, 5) : 2;
        e.tags = { c.flip(1, 4) ? 0 : c.range(1, 40), tag };
        while ((int)e.tags.size() < nt) e.tags.push_back(c.range(1, 9));
        e.nodes = nodesOf(geo, v);
        f.el.push_back(e);
    };
    static const std::map<char, int> G{ { 's', 1 }, { 't', 2 }, { 'q', 3 }, { 'T', 4 }, { 'H', 5 } };
    static const std::map<char, int> F{ { 's', 0 }, { 't', 1 }, { 'q', 1 }, { 'T', 2 }, { 'H', 3 } };
    for (size_t i = 0; i < g.bd.size(); i++) add(F.at(g.type), g.ba[i], g.bd[i]);
    for (size_t i = 0; i < g.el.size(); i++) add(G.at(g.type), g.ea[i], g.el[i]);
    // points and lines of the geometry, as Gmsh saves them
    int np = c.flip() ? c.range(1, 5) : 0, nl = g.dim == 3 && c.flip() ? c.range(1, 6) : 0;
    if (g.dim > 1) for (int i = 0; i < np; i++) add(0, c.range(1, 12), { (int)c.below(n0) });
    for (int i = 0; i < nl; i++) {
        auto& e = g.el[c.below(g.el.size())];
        add(1, c.range(1, 12), { e[0], e[1] });
    }
    if (np && g.dim > 1) c.label("points");
    if (nl) c.label("lines");
    if (f.order == 2) c.label("second_order");
    c.label(g.type == 's' ? "segments" : g.type == 't' ? "triangles" : g.type == 'q' ? "quads" : g.type == 'T' ? "tets" : "hexes");
    // Gmsh lists lower dimensions first; keep the order within meshes but mix the extra entities in
    if (c.flip()) {
        auto p = c.permutation((int)f.el.size());
        std::vector<Entity> e(f.el.size());
        for (size_t i = 0; i < p.size(); i++) e[p[i]] = f.el[i];
        f.el = e;
        c.label("mixed_order");
    }
    while ((int)id.size() < (int)pos.size() + 3) id.push_back(*std::max_element(id.begin(), id.end()) + 1);
    int num = c.flip() ? 1 : c.range(1, 5000);
    for (auto& e : f.el) { e.id = num; num += c.flip(1, 3) ? c.range(2, 20) : 1; for (int& n : e.nodes) n = id[n]; }
    nodes << "$Nodes\n" << pos.size() + (mode == 1 ? 2 : 0) << "\n";
    for (size_t i = 0; i < pos.size(); i++) nodes << id[i] << " " << number(pos[i][0]) << " " << number(pos[i][1]) << " " << number(pos[i][2]) << "\n";
    // nodes that belong to nothing, inside the box
    if (mode == 1) for (int i = 0; i < 2; i++) nodes << id[pos.size() + i] << " " << number(pos[0][0]) << " " << number(pos[0][1]) << " " << number(pos[0][2]) << "\n";
    nodes << "$EndNodes\n";
    f.head = "$MeshFormat\n" + std::string(c.flip(1, 6) ? "2.1 0 8" : "2.2 0 8") + "\n$EndMeshFormat\n";
    if (c.flip(1, 3)) f.head += "$PhysicalNames\n2\n" + std::to_string(g.dim) + " 1 \"inside\"\n" + std::to_string(g.dim - 1) + " 2 \"walls and others\"\n$EndPhysicalNames\n";
    f.head += nodes.str();
    if (c.flip(1, 4)) f.foot = "$NodeData\n1\n\"a view\"\n1\n0.0\n3\n0\n1\n1\n1 0.5\n$EndNodeData\n";
    f.countLine = std::to_string(f.el.size());
    for (auto& e : f.el) {
        std::string l = e.line();
        if (c.flip(1, 12)) l = " " + l + " ";
        f.raw.push_back(l);
    }
    return f;
}

static json caseFor(const File& f, const std::string& name)
{
    json j;
    j["model"] = plainModel(f.g, name);
    j["sources"] = json::array();
    return j;
}

FACET(files, 36000, 150000, "Gmsh files with extra entities, tags, gaps in numbering and other sections, cleaned as part of building the model")
{
    File f = randomFile(c);
    c.note() << f.el.size() << " entities, first " << f.el[0].line();
    std::filesystem::remove_all("w");
    const bool test = c.flip(1, 3);   // the place the test cases are read from, or a user's own folder
    const std::string msh = test ? "./testData/maxwellInputs/box/box.msh" : "w/box/box.msh";
    spill(msh, f.text());
    auto load = [&](bool must) -> std::unique_ptr<Model> {
        try { return std::make_unique<Model>(driver::buildModel(caseFor(f, "box.msh"), "w/box/box.json", test)); }
        catch (const std::exception& e) { if (must) c.fail(std::string("the mesh could not be loaded: ") + e.what()); }
        return nullptr;
    };
    auto model = load(true);
    const std::string after = slurp(msh);
    // what should be there now
    bool simplex = f.g.type == 't' || f.g.type == 'T';
    std::vector<Entity> want;
    bool loose = false;
    for (auto& e : f.el) {
        int d = dimensionOf(e.type);
        if (simplex && d < f.g.dim - 1) continue;
        if (d < f.g.dim - 1) loose = true;
        want.push_back(e);
    }
    std::istringstream in(after);
    std::string line, got;
    std::vector<std::string> lines;
    while (std::getline(in, line)) lines.push_back(line);
    size_t i = 0;
    std::istringstream head(f.head), foot(f.foot);
    while (std::getline(head, line)) { c.expect(i < lines.size() && lines[i] == line, pbt::cat("line ", i + 1, " was '", line, "'")); i++; }
    c.expect(i < lines.size() && lines[i] == "$Elements", "the element section starts after the unchanged head");
    i++;
    c.expect(i < lines.size(), "no element count");
    const int count = atoi(lines[i++].c_str());
    std::vector<Entity> have;
    while (i < lines.size() && lines[i][0] != '$') {
        std::istringstream s(lines[i++]);
        Entity e;
        int nt, x;
        c.expect(bool(s >> e.id >> e.type >> nt), "element line is incomplete");
        for (int k = 0; k < nt; k++) { c.expect(bool(s >> x), "element tags are missing"); e.tags.push_back(x); }
        while (s >> x) e.nodes.push_back(x);
        have.push_back(e);
    }
    c.expect(i < lines.size() && lines[i++] == "$EndElements", "end of the element section");
    while (std::getline(foot, line)) { c.expect(i < lines.size() && lines[i] == line, pbt::cat("line ", i + 1, " was '", line, "'")); i++; }
    c.expect(i == lines.size(), "lines were added at the end");
    c.expect(count == (int)have.size(), pbt::cat("the count says ", count, " but there are ", have.size(), " elements"));
    std::set<int> ids;
    for (auto& e : have) ids.insert(e.id);
    c.expect(ids.size() == have.size(), "element numbers are not unique");
    c.expect(have.empty() || (*ids.begin() == 1 && *ids.rbegin() == (int)have.size()), "element numbers are not consecutive");
    size_t k = 0;
    for (auto& e : want) {
        bool optional = loose && dimensionOf(e.type) < f.g.dim - 1;
        bool same = k < have.size() && have[k].type == e.type && have[k].nodes == e.nodes && have[k].tags.size() == e.tags.size();
        if (!same && optional) continue;
        c.expect(same, pbt::cat("element '", e.line(), "' is missing or changed", k < have.size() ? ": " + have[k].line() : ""));
        c.expect(have[k].tags[0] == e.tags[1], pbt::cat("element '", e.line(), "' does not carry its geometric tag: ", have[k].line()));
        for (size_t t = 1; t < e.tags.size(); t++) c.expect(have[k].tags[t] == e.tags[t], pbt::cat("tag ", t + 1, " of '", e.line(), "' changed"));
        k++;
    }
    c.expect(k == have.size(), pbt::cat("an element that should have been dropped is still there: ", k < have.size() ? have[k].line() : ""));
    c.count((long)have.size());
    c.nontrivial(have.size() != f.el.size() || loose || f.order == 2);
    // again
    load(true);
    c.expect(slurp(msh) == after, "preparing the file a second time changed it");
    // and what the model sees
    Locator at(f.g);
    auto& m = model->getMesh();
    c.expect(m.GetNE() == (int)f.g.el.size(), "number of elements in the model");
    c.expect(m.GetNBE() == (int)f.g.bd.size(), "number of boundary faces in the model");
    for (int e = 0; e < m.GetNE(); e++) {
        int o = at(m, e);
        c.expect(o >= 0 && f.g.ea[o] == m.GetAttribute(e), pbt::cat("region of element ", e, " in the model"));
    }
    Locator face(f.g, true);
    for (int i = 0; i < m.GetNBE(); i++) {
        int o = face(m, i);
        c.expect(o >= 0 && f.g.ba[o] == m.GetBdrAttribute(i), pbt::cat("tag of boundary face ", i, " in the model"));
    }
}

FACET(left_alone, 24000, 100000, "MFEM meshes, Gmsh files of other versions or in binary, and empty files are not touched")
{
    int kind = (int)c.below(4);
    std::filesystem::remove_all("w");
    std::string name = "box.msh", text;
    GMesh g;
    if (kind == 0) {
        MeshOpts o;
        o.maxElems = 12;
        g = randomMesh(c, o);
        for (auto& a : g.ea) a = c.range(1, 5);
        for (auto& a : g.ba) a = c.range(1, 5);
        std::ostringstream s;
        s.precision(16);
        g.build().Print(s);
        name = "box.mesh";
        text = s.str();
        c.label("mfem");
    }
    else if (kind == 1) {
        // the layout of version 4.1: blocks of elements
        int n = c.range(1, 6);
        text = "$MeshFormat\n4.1 0 8\n$EndMeshFormat\n$Entities\n0 0 1 0\n1 0 0 0 1 1 0 0 0\n$EndEntities\n$Nodes\n1 4 1 4\n2 1 0 4\n1\n2\n3\n4\n0 0 0\n1 0 0\n1 1 0\n0 1 0\n$EndNodes\n$Elements\n1 "
            + std::to_string(n) + " 1 " + std::to_string(n) + "\n" + (c.flip() ? "2 1 2 " : "3 1 4 ") + std::to_string(n) + "\n";
        for (int i = 1; i <= n; i++) text += std::to_string(i) + " 1 2 3" + (c.flip() ? " 4" : "") + "\n";
        text += "$EndElements\n";
        c.label("version4");
    }
    else if (kind == 2) {
        text = "$MeshFormat\n2.2 1 8\n";
        text += std::string("\1\0\0\0\n", 5) + "$EndMeshFormat\n$Nodes\n1\n";
        for (int i = 0; i < 28; i++) text += (char)c.below(256);
        text += "\n$EndNodes\n$Elements\n1\n";
        for (int i = 0, n = c.range(8, 60); i < n; i++) text += (char)(c.flip(1, 5) ? ' ' : '0' + c.below(10));
        text += "\n$EndElements\n";
        c.label("binary");
    }
    else {
        text = c.flip() ? "" : "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n1\n1 0 0 0\n$EndNodes\n";
        c.label("no_elements");
    }
    c.nontrivial(kind < 3);
    c.note() << name << " " << text.substr(0, 40);
    spill("w/box/" + name, text);
    json j;
    if (kind == 0) j["model"] = plainModel(g, name);
    else j["model"] = { { "filename", name }, { "materials", { { { "tags", { 1 } } } } }, { "boundaries", { { { "tags", { 1 } }, { "type", "PEC" } } } } };
    j["sources"] = json::array();
    bool built = false;
    try { driver::buildModel(j, "w/box/box.json", false); built = true; }
    catch (const std::exception&) {}
    c.expect(slurp("w/box/" + name) == text, "the file was changed");
    if (kind == 0) c.expect(built, "an MFEM mesh was not accepted");
}

FACET(processes, 2400, 10000, "several processes reading the same file all see the cleaned mesh")
{
    File f = randomFile(c);
    std::filesystem::remove_all("w");
    spill("w/box/box.msh", f.text());
    const int ranks = c.range(2, 4);
    int total = 0;
    std::mutex lock;
    Locator at(f.g);
    // some processes are late to read the file; it must not be rewritten in place under their hands
    std::vector<std::vector<int>> late(ranks, std::vector<int>(4, 0));
    for (auto& l : late) for (int& t : l) t = c.flip() ? c.range(3, 8) : 0;
    std::vector<int> reads(ranks, 0);
    std::atomic<bool> touched{ false };
    spmd::beforeRead = [&](int r, const std::string& file) {
        int n = reads[r]++;
        if (n >= 4 || !late[r][n]) return;
        struct stat a {}, b {};
        stat(file.c_str(), &a);
        std::this_thread::sleep_for(std::chrono::milliseconds(late[r][n]));
        stat(file.c_str(), &b);
        if (a.st_ino == b.st_ino && (a.st_mtim.tv_sec != b.st_mtim.tv_sec || a.st_mtim.tv_nsec != b.st_mtim.tv_nsec)) touched = true;
    };
    struct Reset { ~Reset() { spmd::beforeRead = nullptr; } } reset;
    c.note() << f.el.size() << " entities on " << ranks << " processes";
    spmd::run(ranks, [&](int) {
        Model m = driver::buildModel(caseFor(f, "box.msh"), "w/box/box.json", false);
        std::lock_guard<std::mutex> hold(lock);
        total += m.getMesh().GetNE();
        for (int e = 0; e < m.getMesh().GetNE(); e++) {
            int o = at(m.getMesh(), e);
            c.expect(o >= 0 && f.g.ea[o] == m.getMesh().GetAttribute(e), pbt::cat("region of element ", e));
        }
    });
    c.expect(!touched, "one process rewrote the file while another was about to read it");
    c.expect(total == (int)f.g.el.size(), "number of elements over all processes");
    c.nontrivial(f.g.el.size() > 1);
}

PBT_MAIN(pbt::info().rule = "files: something was dropped, kept although of lower dimension, or of second order; left alone: a file with elements; processes: more than one element";
         pbt::info().assumptions = { "the mesh reader is the stand-in in shim/", "every element line has at least two tags, as Gmsh writes them" })
