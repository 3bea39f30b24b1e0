// USES: SOLVER DRIVER
// C14: thin layers inside a mesh, as a case file describes them.
#include "casefile.h"
using namespace gen;
using namespace casefile;

static const double C0 = 299792458.0, Z0 = 4e-7 * M_PI * C0;

struct Layer { double eps = 1, mu = 1, sigma = 0, width = 0.05; int cells = 4, order = 2; };   // sigma in solver units
struct Stack {
    std::vector<Layer> layers;
    std::string left, right;
    double width() const { double w = 0; for (auto& l : layers) w += l.width; return w; }
    Stack reversed() const { Stack s = *this; std::reverse(s.layers.begin(), s.layers.end()); std::swap(s.left, s.right); return s; }
    json entry(const std::vector<int>& tags) const
    {
        json j{ { "tags", tags }, { "type", "SGBC" }, { "layers", json::array() } };
        for (auto& l : layers)
            j["layers"].push_back({ { "relative_permittivity", l.eps }, { "relative_permeability", l.mu }, { "bulk_conductivity", l.sigma / Z0 }, { "material_width", l.width }, { "num_of_segments", l.cells }, { "order", l.order } });
        if (left.size()) j["sgbc_boundaries"]["left"] = left;
        if (right.size()) j["sgbc_boundaries"]["right"] = right;
        return j;
    }
    std::string text() const { return entry({}).dump(); }
    bool symmetric() const { return text() == reversed().text(); }
};
static Stack randomStack(pbt::Case& c, double thin, double thick, double most)
{
    Stack s;
    for (int n = c.range(1, 3), i = 0; i < n; i++) {
        Layer l;
        if (c.flip()) l.eps = c.real(1, 4);
        if (c.flip(1, 3)) l.mu = c.real(1, 2);
        if (c.flip(2, 3)) l.sigma = c.logreal(0.1, most);
        l.width = c.logreal(thin, thick) / n;
        l.order = 2;
        s.layers.push_back(l);
    }
    return s;
}

/// A row of cells along x with the surface (tag 9) after cell `at`; conditions 1 at the left end, 2 at the right, 3 at the sides.
struct Row { std::vector<double> x; int at = 0; };
static GMesh segments(const Row& r, bool surface = true)
{
    GMesh g;
    g.dim = 1; g.type = 's';
    for (double x : r.x) g.v.push_back({ x, 0, 0 });
    for (int i = 0; i + 1 < (int)r.x.size(); i++) { g.el.push_back({ i, i + 1 }); g.ea.push_back(1); }
    g.bd = { { 0 }, { (int)r.x.size() - 1 } };
    g.ba = { 1, 2 };
    if (surface) { g.bd.push_back({ r.at + 1 }); g.ba.push_back(9); }
    return g;
}

static json caseOf(const GMesh& g, const std::vector<json>& boundaries, int order, double dt, double final, double alpha, double spread)
{
    json j;
    std::set<int> r(g.ea.begin(), g.ea.end());
    j["model"]["filename"] = "box.msh";
    j["model"]["materials"] = json::array({ { { "tags", std::vector<int>(r.begin(), r.end()) } } });
    j["model"]["boundaries"] = boundaries;
    j["solver_options"] = { { "order", order }, { "time_step", dt }, { "final_time", final }, { "upwind_alpha", alpha } };
    j["sources"] = json::array({ { { "type", "initial" }, { "field_type", "electric" }, { "polarization", { 0.0, 0.0, 1.0 } }, { "center", std::vector<double>(g.dim, -1e3) }, { "dimension", g.dim }, { "magnitude", { { "type", "gaussian" }, { "spread", spread } } } } });
    return j;
}
static maxwell::Solver solverOf(const GMesh& g, const json& j)
{
    std::filesystem::remove_all("w");
    spill("w/box/box.msh", gmsh(g));
    spill("w/box/box.json", j.dump());
    return driver::buildSolverJson("w/box/box.json", false);
}
static json wall(std::vector<int> tags, const std::string& type) { return { { "tags", tags }, { "type", type } }; }

static mfem::FiniteElementSpace& spaceOf(maxwell::Solver& s) { return *s.getFields().get(E, X).ParFESpace(); }


static double energyOf(maxwell::Solver& s, const std::vector<double>& weights)
{
    auto& f = s.getFields().allDOFs();
    const int n = (int)weights.size();
    double e = 0;
    for (int q = 0; q < 6; q++) for (int i = 0; i < n; i++) e += weights[i] * f[q * n + i] * f[q * n + i];
    return e;
}

/// A pulse sent along a row of cells: into a layer in its middle, or into the same layer as a part of the mesh.
struct Pulse {
    double L = 3, at0 = 0.75, spread = 0.18;
    bool fromRight = false, y = false;
    int e() const { return y ? 1 : 2; }
    int h() const { return y ? 5 : 4; }
    double sign() const { return (fromRight ? -1 : 1) * (y ? 1 : -1); }   // Ey with Hz travels to the right, Ez with -Hy
    double value(double x) const { return std::exp(-std::pow((fromRight ? L - x : x) - at0, 2) / (2 * spread * spread)); }
    template <class F> void load(maxwell::Solver& q, const std::vector<P3>& at, F shift) const
    {
        auto& f = q.getFields().allDOFs();
        const int k = (int)at.size();
        f = 0.0;
        for (int i = 0; i < k; i++) { double v = value(shift(at[i][0])); f[e() * k + i] = v; f[h() * k + i] = sign() * v; }
    }
};
static Pulse randomPulse(pbt::Case& c)
{
    Pulse p;
    p.spread = c.real(0.14, 0.2);
    p.fromRight = c.flip();
    p.y = c.flip();
    c.note() << " spread " << p.spread << (p.fromRight ? " from the right" : " from the left") << (p.y ? " Ey" : " Ez");
    return p;
}
static Row evenRow(double L, int n)
{
    Row r;
    for (int i = 0; i <= n; i++) r.x.push_back(L * i / n);
    r.at = n / 2 - 1;
    return r;
}

FACET(resolved, 90, 3000, "a pulse through a layer against the same pulse through the layer as a part of the mesh")
{
    Stack s = randomStack(c, 0.02, 0.25, 60);
    const int n = 18, order = 3, cells = s.layers.size() == 1 ? 4 : s.layers.size() == 2 ? 3 : 2;
    for (auto& l : s.layers) l.cells = cells;
    c.note() << s.text();
    Pulse u = randomPulse(c);
    const Row r = evenRow(u.L, n);
    const double dt = 0.005, final = c.real(0.9, 1.5), w = s.width();
    c.note() << " until " << final;
    GMesh g = segments(r);
    auto sol = solverOf(g, caseOf(g, { wall({ 1, 2 }, "SMA"), s.entry({ 9 }) }, order, dt, final, 1, u.spread));
    auto at = nodePositions(spaceOf(sol));
    u.load(sol, at, [](double x) { return x; });
    // what lies behind the layer is moved by its thickness
    Row b;
    std::vector<int> mat;
    double least = 1;
    for (int i = 0; i <= n / 2; i++) { b.x.push_back(r.x[i]); if (i) mat.push_back(1); }
    for (size_t k = 0; k < s.layers.size(); k++) for (int i = 0; i < 3; i++) {
        double h = s.layers[k].width / 3;
        least = std::min(least, h * std::sqrt(s.layers[k].eps * s.layers[k].mu));
        b.x.push_back(b.x.back() + h);
        mat.push_back(2 + (int)k);
    }
    for (int i = n / 2 + 1; i <= n; i++) { b.x.push_back(r.x[i] + w); mat.push_back(1); }
    Prob p;
    p.g = segments(b, false);
    p.g.ea = mat;
    p.mats[1] = Mat();
    for (size_t k = 0; k < s.layers.size(); k++) p.mats[2 + (int)k] = { s.layers[k].eps, s.layers[k].mu, s.layers[k].sigma };
    p.bdr = { { 1, BdrCond::SMA }, { 2, BdrCond::SMA } };
    p.order = order;
    auto o = p.options();
    o.setTimeStep(final / std::ceil(final / std::min(dt, 0.06 * least))).setFinalTime(final);
    maxwell::Solver ref(p.model(), Probes(), Sources(), o);
    auto rat = nodePositions(spaceOf(ref));
    const double x1 = u.L / 2;
    u.load(ref, rat, [&](double x) { return x < x1 + w / 2 ? std::min(x, x1) : std::max(x - w, x1); });
    // trapezoid weights are enough for an energy
    std::vector<double> weights(at.size(), u.L / n / (order + 1));
    const double before = energyOf(sol, weights);
    sol.run();
    ref.run();
    auto& a = sol.getFields().allDOFs();
    auto& d = ref.getFields().allDOFs();
    const int na = (int)at.size(), nd = (int)rat.size(), half = n / 2 * (order + 1);
    double worst = 0;
    for (int i = 0; i < na; i++) for (int q = 0; q < 6; q++) {
        double e = std::fabs(a[q * na + i] - d[q * nd + (i < half ? i : nd - na + i)]);
        if (!(e <= worst)) worst = e;
    }
    c.label(worst < 0.005 ? "error<0.005" : worst < 0.01 ? "error<0.01" : worst < 0.02 ? "error<0.02" : "error>0.02");
    c.nontrivial();
    c.expect(worst < 0.03, pbt::cat("fields differ by ", worst, " from those with the layer in the mesh"));
    c.expect(energyOf(sol, weights) < 1.02 * before, "more energy leaves the layer than arrives");
}

FACET(conductor, 80, 2000, "a layer of a good conductor reflects like a perfect one")
{
    Stack s;
    Layer l;
    l.sigma = c.logreal(3e4, 1e8);
    l.width = c.logreal(0.01, 0.1);
    if (c.flip()) l.eps = c.real(1, 4);
    s.layers = { l };
    if (c.flip(1, 3)) { Layer k; k.sigma = l.sigma; k.width = l.width; k.cells = l.cells = 2; s.layers = { l, k }; }
    c.note() << s.text();
    Pulse u = randomPulse(c);
    const int n = 18, order = 3;
    const Row r = evenRow(u.L, n);
    const double dt = 0.005, final = c.real(0.9, 1.4);
    GMesh g = segments(r);
    auto sol = solverOf(g, caseOf(g, { wall({ 1, 2 }, "SMA"), s.entry({ 9 }) }, order, dt, final, 1, u.spread));
    auto ref = solverOf(g, caseOf(g, { wall({ 1, 2 }, "SMA"), wall({ 9 }, "PEC") }, order, dt, final, 1, u.spread));
    for (auto* q : { &sol, &ref }) u.load(*q, nodePositions(spaceOf(*q)), [](double x) { return x; });
    sol.run();
    ref.run();
    double worst = 0;
    for (int i = 0; i < sol.getFields().allDOFs().Size(); i++) {
        double e = std::fabs(sol.getFields().allDOFs()[i] - ref.getFields().allDOFs()[i]);
        if (!(e <= worst)) worst = e;
    }
    c.label(worst < 0.005 ? "error<0.005" : worst < 0.01 ? "error<0.01" : worst < 0.02 ? "error<0.02" : worst < 0.03 ? "error<0.03" : worst < 0.04 ? "error<0.04" : "error>0.04");
    c.nontrivial();
    c.expect(worst < 0.06, pbt::cat("fields differ by ", worst, " from those at a perfect conductor"));
}

/// n x m (x k) cells in a block, the first direction along a row.
static GMesh block(const Row& r, int m, int k)
{
    GMesh g;
    g.dim = k ? 3 : 2;
    g.type = k ? 'H' : 'q';
    const int nx = (int)r.x.size() - 1;
    auto id = [&](int a, int b, int d) { return (d * (m + 1) + b) * (nx + 1) + a; };
    for (int d = 0; d <= k; d++) for (int b = 0; b <= m; b++) for (int a = 0; a <= nx; a++) g.v.push_back({ r.x[a], 0.3 * b, 0.4 * d });
    for (int d = 0; d < std::max(k, 1); d++) for (int b = 0; b < m; b++) for (int a = 0; a < nx; a++) {
        if (!k) g.el.push_back({ id(a, b, 0), id(a + 1, b, 0), id(a + 1, b + 1, 0), id(a, b + 1, 0) });
        else g.el.push_back({ id(a, b, d), id(a + 1, b, d), id(a + 1, b + 1, d), id(a, b + 1, d), id(a, b, d + 1), id(a + 1, b, d + 1), id(a + 1, b + 1, d + 1), id(a, b + 1, d + 1) });
        g.ea.push_back(1);
    }
    return g;
}
/// whether the normal of a listed face (to the right of a segment, right-handed for a polygon) points along d
static bool along(const GMesh& g, const std::vector<int>& f, const P3& d)
{
    P3 n;
    auto diff = [&](int i, int j) { P3 x; for (int q = 0; q < 3; q++) x[q] = g.v[f[i]][q] - g.v[f[j]][q]; return x; };
    P3 a = diff(1, 0);
    if (g.dim == 2) n = { a[1], -a[0], 0 };
    else { P3 b = diff(2, 0); n = { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
    return n[0] * d[0] + n[1] * d[1] + n[2] * d[2] > 0;
}

FACET(dimensions, 500, 10000, "a layer across a block of cells, turned any way, against the layer in a row of cells")
{
    Stack s = randomStack(c, 0.02, 0.25, 200);
    for (auto& l : s.layers) l.cells = c.range(1, 2);
    for (auto* e : { &s.left, &s.right }) if (c.flip(1, 6)) *e = c.flip() ? "PEC" : "PMC";
    Row r;
    const int nx = c.range(2, 5);
    r.x = { 0 };
    for (int i = 0; i < nx; i++) r.x.push_back(r.x.back() + c.real(0.2, 0.5));
    r.at = c.range(0, nx - 2);
    const int order = c.range(1, 3), steps = c.range(1, 4);
    const double alpha = c.flip() ? 1.0 : c.real(0, 1), dt = c.logreal(0.002, 0.05);
    const std::string ends[2] = { c.pick({ "PEC", "PMC", "SMA" }), c.pick({ "PEC", "PMC", "SMA" }) };
    const bool solid = c.flip(1, 3), y = c.flip(), turned = c.flip();
    GMesh line = segments(r), g = block(r, c.range(1, 2), solid ? c.range(1, order > 2 ? 1 : 2) : 0);
    // conditions: ends as in the row, sides that the field does not notice
    std::map<std::vector<int>, int> tag;
    std::vector<std::vector<int>> surface;
    for (auto& [key, f] : g.faces()) {
        auto m = g.centroid(f.v);
        if (f.els.size() == 2) { if (std::fabs(m[0] - r.x[r.at + 1]) < 1e-9) surface.push_back(f.v); continue; }
        int t = m[0] < 1e-9 ? 1 : m[0] > r.x.back() - 1e-9 ? 2 : 0;
        if (!t) {
            double ys = 0;
            for (int v : f.v) ys = std::max(ys, std::fabs(g.v[v][1] - m[1]));
            t = ys < 1e-9 ? 3 : 4;     // faces across y, faces across z
        }
        g.bd.push_back(f.v);
        g.ba.push_back(t);
    }
    const bool any = s.symmetric();
    for (auto f : surface) {
        if (any ? c.flip() : along(g, f, { 1, 0, 0 }) == turned) std::reverse(f.begin(), f.end());
        if (solid) std::rotate(f.begin(), f.begin() + c.range(0, 3), f.end());
        size_t at = c.below(g.bd.size() + 1);
        g.bd.insert(g.bd.begin() + at, f);
        g.ba.insert(g.ba.begin() + at, 9);
    }
    // any order of the elements, any attitude
    auto perm = c.permutation((int)g.el.size());
    // layers are listed from the side with the lower numbers on, which is where the faces point away from
    if (!any) std::stable_sort(perm.begin(), perm.end(), [&](int i, int j) {
        auto right = [&](int e) { return (g.centroid(g.el[e])[0] > r.x[r.at + 1]) != turned; };
        return right(i) < right(j);
    });
    { auto el = g.el; for (size_t i = 0; i < el.size(); i++) { g.el[i] = el[perm[i]]; turn(c, g.type, g.el[i]); } }
    std::vector<P3> flat = g.v;
    const auto R = solid ? randomRotation(c) : rotationZ(c.real(-M_PI, M_PI));
    const P3 shift{ c.real(-2, 2), c.real(-2, 2), solid ? c.real(-2, 2) : 0.0 };
    for (auto& v : g.v) { v = rotated(R, v); for (int d = 0; d < 3; d++) v[d] += shift[d]; }
    c.note() << s.text() << " cells at";
    for (double x : r.x) c.note() << " " << x;
    c.note() << " surface after cell " << r.at << " order " << order << " alpha " << alpha << " ends " << ends[0] << " " << ends[1] << (solid ? " hexahedra " : " quadrilaterals ") << g.el.size() << (y ? " Ey" : " Ez") << (turned ? " turned" : "") << " steps " << steps << " of " << dt;
    std::vector<json> walls{ wall({ 1 }, ends[0]), wall({ 2 }, ends[1]) }, walls1 = walls;
    walls.push_back(wall({ 3 }, y ? "PEC" : "PMC"));
    if (solid) walls.push_back(wall({ 4 }, y ? "PMC" : "PEC"));
    walls.push_back((turned ? s.reversed() : s).entry({ 9 }));
    walls1.push_back(s.entry({ 9 }));
    auto one = solverOf(line, caseOf(line, walls1, order, dt, 100, alpha, 0.5));
    auto two = solverOf(g, caseOf(g, walls, order, dt, 100, alpha, 0.5));
    auto& f1 = one.getFields().allDOFs();
    auto& f2 = two.getFields().allDOFs();
    auto& fes = spaceOf(two);
    auto at1 = nodePositions(spaceOf(one)), at2 = nodePositions(fes);
    const int n1 = (int)at1.size(), n2 = (int)at2.size();
    // which node of the row a node of the block belongs to
    std::vector<int> of(n2, -1);
    for (int e = 0; e < (int)g.el.size(); e++) {
        double mid = 0;
        for (int v : g.el[e]) mid += flat[v][0] / g.el[e].size();
        int cell = 0;
        while (r.x[cell + 1] < mid) cell++;
        mfem::Array<int> dofs;
        fes.GetElementDofs(e, dofs);
        for (int i : dofs) {
            double x = 0;
            for (int d = 0; d < 3; d++) x += R[d][0] * (at2[i][d] - shift[d]);
            int best = cell * (order + 1);
            for (int k = best; k < (cell + 1) * (order + 1); k++) if (std::fabs(at1[k][0] - x) < std::fabs(at1[best][0] - x)) best = k;
            c.expect(std::fabs(at1[best][0] - x) < 1e-9, "nodes of the block do not match those of the row");
            of[i] = best;
        }
    }
    f1 = 0.0;
    const int e = y ? 1 : 2, h = y ? 5 : 4;
    for (int i = 0; i < n1; i++) { f1[e * n1 + i] = c.gauss(); f1[h * n1 + i] = c.gauss(); }
    for (int i = 0; i < n2; i++) for (int q = 0; q < 2; q++) for (int d = 0; d < 3; d++) {
        double v = 0;
        for (int m = 0; m < 3; m++) v += R[d][m] * f1[(3 * q + m) * n1 + of[i]];
        f2[(3 * q + d) * n2 + i] = v;
    }
    for (int i = 0; i < steps; i++) { one.step(); two.step(); }
    const double scale = std::max(1.0, maxAbs(f1));
    c.label(solid ? "hexahedra" : "quadrilaterals");
    c.nontrivial();
    for (int i = 0; i < n2; i++) for (int q = 0; q < 2; q++) for (int m = 0; m < 3; m++) {
        double v = 0;
        for (int d = 0; d < 3; d++) v += R[d][m] * f2[(3 * q + d) * n2 + i];
        c.close(v, f1[(3 * q + m) * n1 + of[i]], 0, 1e-7 * scale, pbt::cat(q ? "H" : "E", "xyz"[m], " at node ", i));
    }
}

FACET(mirror, 400, 8000, "a row of cells and its mirror image with the layers in reverse")
{
    Stack s = randomStack(c, 0.02, 0.25, 200);
    for (auto& l : s.layers) l.cells = c.range(1, 3);
    for (auto* e : { &s.left, &s.right }) if (c.flip(1, 6)) *e = c.pick({ "PEC", "PMC", "SMA" });
    Row r, b;
    const int nx = c.range(2, 6);
    r.x = { 0 };
    for (int i = 0; i < nx; i++) r.x.push_back(r.x.back() + c.real(0.2, 0.5));
    r.at = c.range(0, nx - 2);
    for (int i = nx; i >= 0; i--) b.x.push_back(r.x.back() - r.x[i]);
    b.at = nx - 2 - r.at;
    const int order = c.range(1, 4), steps = c.range(1, 8);
    const double alpha = c.flip() ? 1.0 : c.real(0, 1), dt = c.logreal(0.002, 0.05);
    const std::string e0 = c.pick({ "PEC", "PMC", "SMA" }), e1 = c.pick({ "PEC", "PMC", "SMA" });
    c.note() << s.text() << " cells at";
    for (double x : r.x) c.note() << " " << x;
    c.note() << " surface after cell " << r.at << " order " << order << " alpha " << alpha << " ends " << e0 << " " << e1 << " steps " << steps << " of " << dt;
    GMesh g = segments(r), k = segments(b);
    auto one = solverOf(g, caseOf(g, { wall({ 1 }, e0), wall({ 2 }, e1), s.entry({ 9 }) }, order, dt, 100, alpha, 0.5));
    auto two = solverOf(k, caseOf(k, { wall({ 1 }, e1), wall({ 2 }, e0), s.reversed().entry({ 9 }) }, order, dt, 100, alpha, 0.5));
    auto& f1 = one.getFields().allDOFs();
    auto& f2 = two.getFields().allDOFs();
    const int n = f1.Size() / 6;
    for (int i = 0; i < 6 * n; i++) f1[i] = c.gauss();
    // E is a vector, H an axial vector; the mirror turns x around
    const double flip[6] = { -1, 1, 1, 1, -1, -1 };
    for (int q = 0; q < 6; q++) for (int i = 0; i < n; i++) f2[q * n + i] = flip[q] * f1[q * n + n - 1 - i];
    for (int i = 0; i < steps; i++) { one.step(); two.step(); }
    c.nontrivial();
    const double scale = std::max(1.0, maxAbs(f1));
    for (int q = 0; q < 6; q++) for (int i = 0; i < n; i++) c.close(f2[q * n + i], flip[q] * f1[q * n + n - 1 - i], 0, 1e-7 * scale, pbt::cat("component ", q, " at node ", i, " from the right"));
}

FACET(scaled, 250, 5000, "a row of cells and layers, and the same made larger or smaller with its times")
{
    Stack s = randomStack(c, 0.02, 0.25, 60), t;
    for (auto& l : s.layers) l.cells = c.range(1, 3);
    for (auto* e : { &s.left, &s.right }) if (c.flip(1, 6)) *e = c.pick({ "PEC", "PMC", "SMA" });
    const double k = std::ldexp(1.0, c.range(-14, 6));
    t = s;
    for (auto& l : t.layers) { l.width *= k; l.sigma /= k; }
    Row r, b;
    const int nx = c.range(2, 5);
    r.x = { 0 };
    for (int i = 0; i < nx; i++) r.x.push_back(r.x.back() + c.real(0.2, 0.5));
    b.at = r.at = c.range(0, nx - 2);
    for (double x : r.x) b.x.push_back(x * k);
    const int order = c.range(1, 3), steps = c.range(2, 10);
    const double alpha = c.flip() ? 1.0 : c.real(0, 1), dt = c.logreal(0.002, 0.05);
    const std::string e0 = c.pick({ "PEC", "PMC", "SMA" }), e1 = c.pick({ "PEC", "PMC", "SMA" });
    c.note() << s.text() << " " << nx << " cells, surface after cell " << r.at << " order " << order << " alpha " << alpha << " ends " << e0 << " " << e1 << " steps " << steps << " of " << dt << " times " << k;
    GMesh g = segments(r), h = segments(b);
    auto one = solverOf(g, caseOf(g, { wall({ 1 }, e0), wall({ 2 }, e1), s.entry({ 9 }) }, order, dt, 100, alpha, 0.5));
    auto two = solverOf(h, caseOf(h, { wall({ 1 }, e0), wall({ 2 }, e1), t.entry({ 9 }) }, order, dt * k, 100 * k, alpha, 0.5 * k));
    auto& f1 = one.getFields().allDOFs();
    auto& f2 = two.getFields().allDOFs();
    for (int i = 0; i < f1.Size(); i++) f1[i] = f2[i] = c.gauss();
    for (int i = 0; i < steps; i++) { one.step(); two.step(); }
    c.label(k < 0.01 ? "below a hundredth" : k < 1 ? "smaller" : "larger");
    c.nontrivial(k != 1);
    const double scale = std::max(1.0, maxAbs(f1));
    for (int i = 0; i < f1.Size(); i++) c.close(f2[i], f1[i], 0, 1e-6 * scale, pbt::cat("value ", i));
}

/// A surface between two halves of a mesh: side 1 has the higher numbers, and the faces point there.
struct Surface { std::vector<std::vector<int>> faces; std::vector<char> side; bool twice = false; };
static Surface halves(pbt::Case& c, GMesh& g)
{
    Surface s;
    const int ne = (int)g.el.size();
    if (ne < 2) c.discard();
    const int seed = (int)c.below(ne);
    const double ang = c.real(-M_PI, M_PI);
    P3 n{ cos(ang), sin(ang), g.dim > 2 ? c.real(-1, 1) : 0.0 }, m = g.centroid(g.el[seed]);
    if (g.dim == 1) n = { 1, 0, 0 };
    auto far = [&](const std::vector<int>& e) { auto b = g.centroid(e); double d = 0; for (int q = 0; q < 3; q++) d += (b[q] - m[q]) * n[q]; return d; };
    std::vector<int> order(ne);
    for (int i = 0; i < ne; i++) order[i] = i;
    if (g.dim == 1) std::sort(order.begin(), order.end(), [&](int i, int j) { return far(g.el[i]) < far(g.el[j]); });
    else std::stable_sort(order.begin(), order.end(), [&](int i, int j) { return (far(g.el[i]) > 1e-12) < (far(g.el[j]) > 1e-12); });
    auto el = g.el; auto ea = g.ea;
    for (int i = 0; i < ne; i++) { g.el[i] = el[order[i]]; g.ea[i] = ea[order[i]]; s.side.push_back(far(g.el[i]) > 1e-12); }
    std::set<std::vector<int>> keys;
    std::map<int, int> touched;
    for (auto& [key, f] : g.faces()) if (f.els.size() == 2 && s.side[f.els[0]] != s.side[f.els[1]]) {
        auto w = f.v;
        const int a = s.side[f.els[0]] ? f.els[1] : f.els[0], b = f.els[0] + f.els[1] - a;
        P3 x = g.centroid(g.el[a]), y = g.centroid(g.el[b]), d;
        for (int q = 0; q < 3; q++) d[q] = y[q] - x[q];
        if (g.dim > 1 && !along(g, w, d)) std::reverse(w.begin(), w.end());
        s.faces.push_back(w);
        keys.insert(key);
        for (int e : f.els) if (++touched[e] > 1) s.twice = true;
    }
    if (s.faces.empty()) c.discard();
    for (size_t i = 0; i < g.bd.size();) {
        auto k = g.bd[i];
        std::sort(k.begin(), k.end());
        if (keys.count(k)) { g.bd.erase(g.bd.begin() + i); g.ba.erase(g.ba.begin() + i); }
        else i++;
    }
    return s;
}
static json caseOf(const Prob& p, const std::vector<json>& more, double dt)
{
    auto j = caseOf(p.g, {}, p.order, dt, 100, p.alpha, 0.5);
    j["model"]["materials"] = json::array();
    std::set<int> r(p.g.ea.begin(), p.g.ea.end());
    for (int t : r) { auto& m = p.mats.at(t); j["model"]["materials"].push_back({ { "tags", { t } }, { "relative_permittivity", m.eps }, { "relative_permeability", m.mu }, { "bulk_conductivity", m.sigma / Z0 } }); }
    auto name = [](BdrCond b) { return b == BdrCond::PEC ? "PEC" : b == BdrCond::PMC ? "PMC" : "SMA"; };
    std::set<int> used(p.g.ba.begin(), p.g.ba.end());
    for (auto* m : { &p.bdr, &p.ibdr }) for (auto& [t, b] : *m) if (used.count(t)) j["model"]["boundaries"].push_back(wall({ t }, name(b)));
    for (auto& w : more) j["model"]["boundaries"].push_back(w);
    return j;
}

FACET(orientation, 400, 8000, "any mesh: the layers in reverse on the surface seen from the other side change nothing")
{
    ProbOpts o;
    o.types = "tqTH";
    o.maxElems = 16;
    o.interior = 0;
    Prob p = randomProblem(c, o);
    p.order = std::min(p.order, p.g.dim == 3 ? 2 : 3);
    const GMesh plain = p.g;
    auto surf = halves(c, p.g);
    for (int k = 0; k < 8 && surf.twice; k++) { p.g = plain; surf = halves(c, p.g); }
    if (surf.twice) c.discard();      // see walls
    Stack s = randomStack(c, 0.02, 0.25, 200);
    for (auto& l : s.layers) l.cells = c.range(1, 2);
    for (auto* e : { &s.left, &s.right }) if (c.flip(1, 6)) *e = c.pick({ "PEC", "PMC", "SMA" });
    Prob q = p;
    const int ne = (int)p.g.el.size();
    // the other half first
    std::vector<int> order(ne);
    for (int i = 0; i < ne; i++) order[i] = i;
    std::stable_sort(order.begin(), order.end(), [&](int i, int j) { return surf.side[i] > surf.side[j]; });
    for (int i = 0; i < ne; i++) { q.g.el[i] = p.g.el[order[i]]; q.g.ea[i] = p.g.ea[order[i]]; }
    for (auto f : surf.faces) {
        size_t at = c.below(p.g.bd.size() + 1);
        p.g.bd.insert(p.g.bd.begin() + at, f);
        p.g.ba.insert(p.g.ba.begin() + at, 99);
        std::reverse(f.begin(), f.end());
        if (p.g.dim == 3) std::rotate(f.begin(), f.begin() + c.range(0, (int)f.size() - 1), f.end());
        q.g.bd.insert(q.g.bd.begin() + at, f);
        q.g.ba.insert(q.g.ba.begin() + at, 99);
    }
    const int steps = c.range(1, 4);
    const double dt = c.logreal(0.002, 0.05);
    c.note() << p.text() << " faces " << surf.faces.size() << " " << s.text() << " steps " << steps << " of " << dt;
    auto one = solverOf(p.g, caseOf(p, { s.entry({ 99 }) }, dt)), two = solverOf(q.g, caseOf(q, { s.reversed().entry({ 99 }) }, dt));
    auto& f1 = one.getFields().allDOFs();
    auto& f2 = two.getFields().allDOFs();
    const int n = f1.Size() / 6;
    { const auto r0 = randomState(c, 6 * n); f1 = r0; }      // by copy: the components are views into it
    // node for node
    auto map = [&](bool back) {
        for (int e = 0; e < ne; e++) {
            mfem::Array<int> a, b;
            spaceOf(one).GetElementDofs(order[e], a);
            spaceOf(two).GetElementDofs(e, b);
            for (int i = 0; i < a.Size(); i++) for (int k = 0; k < 6; k++) {
                if (back) c.close(f2[k * n + b[i]], f1[k * n + a[i]], 0, 1e-7 * std::max(1.0, maxAbs(f1)), pbt::cat("component ", k, " at node ", a[i]));
                else f2[k * n + b[i]] = f1[k * n + a[i]];
            }
        }
    };
    map(false);
    for (int i = 0; i < steps; i++) { one.step(); two.step(); }
    c.nontrivial();
    map(true);
}

FACET(walls, 600, 12000, "any mesh: a layer closed on both sides by a condition is that condition")
{
    ProbOpts o;
    o.maxElems = 16;
    o.interior = 0;
    Prob p = randomProblem(c, o);
    p.order = std::min(p.order, p.g.dim == 3 ? 2 : 4);
    auto surf = halves(c, p.g);
    Stack s = randomStack(c, 0.02, 0.25, 200);
    for (auto& l : s.layers) l.cells = c.range(1, 2);
    s.left = s.right = c.pick({ "PEC", "PMC", "SMA" });
    if (s.left == "SMA") p.alpha = 1;      // absorbing faces are always upwind
    for (auto& f : surf.faces) {
        if (c.flip() && p.g.dim > 1) std::reverse(f.begin(), f.end());
        size_t at = c.below(p.g.bd.size() + 1);
        p.g.bd.insert(p.g.bd.begin() + at, f);
        p.g.ba.insert(p.g.ba.begin() + at, 99);
    }
    const int steps = c.range(1, 4);
    const double dt = c.logreal(0.002, 0.05);
    c.note() << p.text() << " faces " << surf.faces.size() << " " << s.text() << " steps " << steps << " of " << dt;
    auto one = solverOf(p.g, caseOf(p, { s.entry({ 99 }) }, dt)), two = solverOf(p.g, caseOf(p, { wall({ 99 }, s.left) }, dt));
    auto& f1 = one.getFields().allDOFs();
    auto& f2 = two.getFields().allDOFs();
    { const auto r0 = randomState(c, f1.Size()); f1 = r0; }      // by copy: the components are views into it
    f2 = f1;
    for (int i = 0; i < steps; i++) { one.step(); two.step(); }
    c.nontrivial();
    c.label(s.left);
    if (surf.twice) {
        c.label("an element on the surface twice");
        for (int i = 0; i < f1.Size(); i++) if (!(std::fabs(f1[i] - f2[i]) <= 1e-7 * std::max(1.0, maxAbs(f2)))) c.known("element-touches-layer-twice", pbt::cat("a closed layer differs from its condition by ", std::fabs(f1[i] - f2[i])));
        return;
    }
    sameVector(c, f1, f2, 1e-7, 1e-7 * std::max(1.0, maxAbs(f2)), "fields next to the closed layer");
}

PBT_MAIN(
    pbt::info().rule = "a surface with at least one face and fields that are not zero next to it";
    pbt::info().assumptions = {
        "MFEM is replaced by the stand-in in shim/",
        "resolved and conductor compare with an explicit fine-mesh reference at time step 0.005: the coupling is first order in the time step, measured differences stay below 0.01 (resolved) and 0.02 (conductor)",
        "surfaces lie inside the mesh; layers are listed from the side with the lower element numbers on; exact comparisons use elements with at most one face on the surface" })
