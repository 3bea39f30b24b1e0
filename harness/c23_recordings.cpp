// USES: SOLVER DRIVER
#include "surface.h"
#include "solver/ProbesManager.h"
#include "spmd.hpp"
using namespace surface;
using namespace casefile;

/// A mesh with a surface, and fields given at some times.
struct History {
    Prob p;
    std::set<int> tags;
    std::vector<double> t;
    std::vector<mfem::Vector> x;
    int every = 1;
    std::vector<int> kept;                 // the times that are recorded
};

static void pickFields(pbt::Case& c, History& h)
{
    mfem::Mesh mesh = h.p.mesh();
    mfem::DG_FECollection fec(h.p.order, h.p.g.dim, h.p.basis);
    const int n = mfem::FiniteElementSpace(&mesh, &fec).GetNDofs();
    const int ns = c.range(1, 8);
    double now = c.flip() ? 0 : c.real(0, 2);
    for (int i = 0; i < ns; i++) {
        h.t.push_back(now);
        now += c.real(0.05, 2);
        h.x.push_back(randomState(c, 6 * n));
    }
    h.every = c.flip() ? 1 : c.range(1, 4);
    for (int i = 0; i < ns; i++) if (i % h.every == 0 || i == ns - 1) h.kept.push_back(i);
}

static History randomHistory(pbt::Case& c)
{
    History h;
    ProbOpts o;
    o.types = "tqTH";
    o.maxElems = 14;
    o.interior = 0.3;
    h.p = randomProblem(c, o);
    h.p.order = std::min(h.p.order, h.p.g.dim == 3 ? 2 : 3);
    const int tag = tagFaces(c, h.p.g, someElements(c, h.p.g));
    if (!tag) c.discard();
    if (c.flip(1, 3)) for (auto& a : h.p.g.ba) if (a == tag && c.flip()) a++;
    for (int a : h.p.g.ba) if (a >= tag) h.tags.insert(a);
    pickFields(c, h);
    c.note() << h.p.text() << " surface of " << h.tags.size() << " tags, " << h.t.size() << " times, every " << h.every;
    return h;
}

/// Records a history with the elements spread over processes; `after` is called by every process after each time.
static void record(const History& h, const std::vector<int>& part, int ranks, const std::function<void(int)>& after = {})
{
    const GMesh& g = h.p.g;
    spmd::run(ranks, [&](int r) {
        auto copy = part;
        mfem::Mesh mesh = h.p.mesh();
        mfem::ParMesh pmesh(MPI_COMM_WORLD, mesh, copy.data());
        mfem::DG_FECollection fec(h.p.order, g.dim, h.p.basis);
        mfem::FiniteElementSpace whole(&mesh, &fec);
        mfem::ParFiniteElementSpace fes(&pmesh, &fec);
        AllFields fields(fes);
        fields.allDOFs() = 0.0;
        const int n = fes.GetNDofs(), all = whole.GetNDofs();
        Locator at(g);
        std::vector<int> to(n);
        for (int e = 0; e < pmesh.GetNE(); e++) {
            mfem::Array<int> a, b;
            fes.GetElementDofs(e, a);
            whole.GetElementDofs(at(pmesh, e), b);
            for (int i = 0; i < a.Size(); i++) to[a[i]] = b[i];
        }
        RCSSurfaceProbe probe;
        probe.name = "s";
        probe.tags = { h.tags.begin(), h.tags.end() };
        probe.expSteps = h.every;
        Probes probes;
        probes.rcsSurfaceProbes.push_back(probe);
        SolverOptions opts;
        opts.final_time = h.t.back();
        ProbesManager pm(probes, fes, fields, opts);
        pm.setCaseName("case");
        for (size_t i = 0; i < h.t.size(); i++) {
            mfem::Vector s(6 * n);
            for (int k = 0; k < 6; k++) for (int v = 0; v < n; v++) s[k * n + v] = h.x[i][k * all + to[v]];
            fields.allDOFs() = s;
            pm.updateProbes(h.t[i]);
            if (after) after((int)i);
        }
    });
}

/// A partition that keeps the two elements of each recorded face together, as the driver does.
static std::vector<int> spread(pbt::Case& c, const History& h, int ranks)
{
    const GMesh& g = h.p.g;
    const int ne = (int)g.el.size();
    std::vector<int> part(ne), root(ne);
    for (int e = 0; e < ne; e++) root[e] = e;
    std::function<int(int)> find = [&](int x) { return root[x] == x ? x : root[x] = find(root[x]); };
    auto faces = g.faces();
    for (size_t i = 0; i < g.bd.size(); i++) if (h.tags.count(g.ba[i])) {
        auto k = g.bd[i];
        std::sort(k.begin(), k.end());
        auto& f = faces[k];
        if (f.els.size() == 2) root[find(f.els[0])] = find(f.els[1]);
    }
    const int kind = (int)c.below(3), shift = (int)c.below(ranks);
    for (int e = 0; e < ne; e++) part[e] = kind == 0 ? (int)c.below(ranks) : kind == 1 ? (e * ranks / ne + shift) % ranks : (e + shift) % ranks;
    for (int e = 0; e < ne; e++) part[e] = part[find(e)];
    return part;
}

/// One recording file read by the layout its header announces.
struct File {
    int32_t head[5];
    std::vector<double> pos, nor, wei;
    struct Shot { double t; std::vector<double> f[6]; };
    std::vector<Shot> shots;
    size_t start = 0, step = 0;
};
static File parse(pbt::Case& c, const std::string& name)
{
    const std::string s = slurp(name);
    File f;
    size_t at = 0;
    auto take = [&](void* to, size_t n) { c.expect(at + n <= s.size(), "a recording that ends early"); memcpy(to, s.data() + at, n); at += n; };
    auto list = [&](size_t n) { std::vector<double> v(n); if (n) take(v.data(), n * 8); return v; };
    take(f.head, 20);
    const size_t q = f.head[3];
    c.expect(f.head[0] >= 2 && f.head[0] <= 3 && f.head[1] > 0 && f.head[3] > 0 && f.head[3] < 1000000 && f.head[1] < 1000000, "strange sizes in the header");
    f.pos = list(q * f.head[0]);
    f.nor = list(3 * q);
    f.wei = list(q);
    f.start = at;
    f.step = 8 + 48 * (size_t)f.head[1];
    while (at < s.size()) {
        File::Shot x;
        take(&x.t, 8);
        for (auto& v : x.f) v = list(f.head[1]);
        f.shots.push_back(x);
    }
    return f;
}

/// A polynomial in space times a vector, integrated over the surface against the normal.
struct Poly {
    double a[10];
    double operator()(const double* x, int dim) const
    {
        const double y[3] = { x[0], x[1], dim == 3 ? x[2] : 0 };
        double r = a[0];
        for (int d = 0; d < 3; d++) r += a[1 + d] * y[d] + a[4 + d] * y[d] * y[d] + a[7 + d] * y[d] * y[(d + 1) % 3];
        return r;
    }
};

FACET(recorded, 12000, 60000, "surfaces on any number of processes: header, geometry, times and values in the files")
{
    History h = randomHistory(c);
    GMesh& g = h.p.g;
    const int dim = g.dim, ne = (int)g.el.size(), ranks = c.flip() ? 1 : c.flip(1, 6) ? c.range(9, 14) : c.range(2, 5);
    auto part = ranks == 1 ? std::vector<int>(ne, 0) : spread(c, h, ranks);
    c.note() << ", " << ranks << " processes";
    std::filesystem::remove_all("Exports");
    record(h, part, ranks);
    mfem::Mesh mesh = h.p.mesh();
    mfem::DG_FECollection fec(h.p.order, dim, h.p.basis);
    mfem::FiniteElementSpace fes(&mesh, &fec);
    auto where = nodePositions(fes);
    const int all = (int)where.size();
    Locator at(g);
    // elements on the recorded side
    std::set<int> layer, seen;
    std::set<int> holders;
    for (int b = 0; b < mesh.GetNBE(); b++) if (h.tags.count(mesh.GetBdrAttribute(b))) {
        const int e = mesh.GetInternalBdrFaceTransformations(b)->Elem1No;
        layer.insert(e);
        holders.insert(part[e]);
    }
    Poly poly;
    for (auto& a : poly.a) a = c.real(-1, 1);
    double got[3] = { 0, 0, 0 }, area = 0, size = 0;
    const std::string dir = folder("s");
    for (int r = 0; r < ranks; r++) {
        const std::string rank = dir + "/rank" + std::to_string(r);
        if (!holders.count(r)) { c.expect(!std::filesystem::exists(rank + "/surface_data.bin"), "a recording by a process without surface"); continue; }
        File f = parse(c, rank + "/surface_data.bin");
        c.expect(f.head[0] == dim, "dimension in the header");
        c.expect(f.head[4] == h.p.basis, "basis in the header");
        for (int q = 0; q < f.head[3]; q++) {
            const double* n = &f.nor[3 * q];
            c.close(n[0] * n[0] + n[1] * n[1] + n[2] * n[2], 1, 1e-9, 0, "length of a normal");
            c.expect(f.wei[q] > 0, "a weight that is not positive");
            const double v = poly(&f.pos[dim * q], dim) * f.wei[q];
            for (int d = 0; d < 3; d++) got[d] += v * n[d];
            size += std::fabs(v);
            area += f.wei[q];
        }
        c.expect(f.shots.size() == h.kept.size(), pbt::cat(f.shots.size(), " snapshots instead of ", h.kept.size()));
        mfem::Mesh sub = mfem::Mesh::LoadFromFile((rank + "/mesh").c_str(), 1, 0);
        mfem::FiniteElementSpace sfes(&sub, &fec);
        c.expect(sfes.GetNDofs() == f.head[1], "number of values in the header");
        for (int e = 0; e < sub.GetNE(); e++) {
            const int k = at(sub, e);
            c.expect(k >= 0 && layer.count(k) && part[k] == r, pbt::cat("element ", k, " recorded by process ", r));
            c.expect(seen.insert(k).second, "an element recorded twice");
            mfem::Array<int> own, dofs;
            sfes.GetElementDofs(e, own);
            fes.GetElementDofs(k, dofs);
            auto* T = sub.GetElementTransformation(e);
            const auto& nodes = sfes.GetFE(e)->GetNodes();
            for (int i = 0; i < own.Size(); i++) {
                mfem::Vector y(dim);
                T->Transform(nodes.IntPoint(i), y);
                int best = -1;
                double near = 1e30;
                for (int v : dofs) {
                    double d = 0;
                    for (int q = 0; q < dim; q++) d += (where[v][q] - y[q]) * (where[v][q] - y[q]);
                    if (d < near) { near = d; best = v; }
                }
                c.expect(near < 1e-12, "a node that is not one of the mesh");
                for (size_t s = 0; s < f.shots.size(); s++) for (int q = 0; q < 6; q++) {
                    const double w = h.x[h.kept[s]][q * all + best];
                    c.expect(f.shots[s].f[q][own[i]] == w, pbt::cat("component ", q, " of snapshot ", s, " is ", f.shots[s].f[q][own[i]], " instead of ", w));
                }
            }
        }
        for (size_t s = 0; s < f.shots.size(); s++) c.expect(f.shots[s].t == h.t[h.kept[s]], pbt::cat("snapshot ", s, " at ", f.shots[s].t, " instead of ", h.t[h.kept[s]]));
    }
    c.expect(seen == layer, pbt::cat(seen.size(), " elements recorded instead of ", layer.size()));
    // the same integral by hand, normals pointing out of the recorded side
    double want[3] = { 0, 0, 0 }, surface = 0;
    for (int b = 0; b < mesh.GetNBE(); b++) if (h.tags.count(mesh.GetBdrAttribute(b))) {
        auto* T = mesh.GetInternalBdrFaceTransformations(b);
        const auto& ir = mfem::IntRules.Get(T->GetGeometryType(), 16);
        for (int q = 0; q < ir.GetNPoints(); q++) {
            T->SetAllIntPoints(&ir.IntPoint(q));
            mfem::Vector o(dim), y(dim);
            mfem::CalcOrtho(T->Jacobian(), o);
            T->Face->Transform(ir.IntPoint(q), y);
            for (int d = 0; d < dim; d++) want[d] += o[d] * ir.IntPoint(q).weight * poly(y.GetData(), dim);
            surface += o.Norml2() * ir.IntPoint(q).weight;
        }
    }
    const bool bent = h.p.curve > 0;
    c.close(area, surface, bent ? 0.02 : 1e-9, 0, "area of the surface");
    for (int d = 0; d < 3; d++) c.close(got[d], want[d], 0, (bent ? 0.02 : 1e-9) * (size + 1e-12), "integral over the surface");
    c.label(pbt::cat(ranks, ranks == 1 ? "_process" : "_processes"));
    c.label(pbt::cat(dim, "D"));
    if ((int)holders.size() < ranks) c.label("process_without_surface");
    c.nontrivial(h.kept.size() > 1 || ranks > 1);
    c.count((long)seen.size() * (long)h.kept.size());
}

static std::vector<double> frequencies(pbt::Case& c)
{
    std::vector<double> f{ c.logreal(0.005, 0.5) };
    if (c.flip()) f.push_back(f[0] * c.real(1.1, 3));
    return f;
}

/// Compares results with those of the first snapshots of a history.
static void same(pbt::Case& c, const std::vector<Result>& got, const std::vector<Result>& want, double scale, const std::string& what)
{
    c.expect(got.size() == want.size(), what + ": number of results");
    for (size_t i = 0; i < got.size(); i++) {
        c.close(got[i].far, want[i].far, 1e-9, 1e-11 * scale, what + ": far field");
        c.close(got[i].rcs * want[i].far, want[i].rcs * got[i].far, 1e-9, 0, what + ": cross section");
    }
}

FACET(processes, 5000, 25000, "the same recording made by one and by several processes")
{
    History h = randomHistory(c);
    const int ne = (int)h.p.g.el.size(), ranks = c.flip(1, 5) ? c.range(9, 14) : c.range(2, 6);
    auto part = spread(c, h, ranks);
    c.note() << ", " << ranks << " processes";
    auto f = frequencies(c);
    auto angles = randomAngles(c, h.p.g.dim, 3);
    Wave w;
    w.delay = c.real(0, 6);
    w.write("case.json");
    std::filesystem::remove_all("Exports");
    record(h, std::vector<int>(ne, 0), 1);
    auto one = process(folder("s"), "case.json", f, angles);
    std::filesystem::remove_all("Exports");
    record(h, part, ranks);
    auto many = process(folder("s"), "case.json", f, angles);
    double scale = 0;
    for (auto& y : h.x) scale = std::max(scale, maxAbs(y));
    same(c, many, one, scale * scale, "several processes");
    c.label(pbt::cat(ranks, "_processes"));
    c.nontrivial();
}

FACET(cut, 10000, 50000, "recordings cut at any byte, copied while they are being made, or limited in time")
{
    History h = randomHistory(c);
    const int ne = (int)h.p.g.el.size();
    auto f = frequencies(c);
    auto angles = randomAngles(c, h.p.g.dim, 2);
    Wave w;
    w.delay = c.real(0, 6);
    w.write("case.json");
    double scale = 0;
    for (auto& y : h.x) scale = std::max(scale, maxAbs(y));
    // what the first k snapshots give
    auto expected = [&](size_t k) {
        History first = h;
        first.t.clear(); first.x.clear();
        for (size_t i = 0; i < k; i++) { first.t.push_back(h.t[h.kept[i]]); first.x.push_back(h.x[h.kept[i]]); }
        first.every = 1;
        std::filesystem::remove_all("Exports");
        record(first, std::vector<int>(ne, 0), 1);
        return process(folder("s"), "case.json", f, angles);
    };
    auto judge = [&](const std::string& dir, size_t k, std::optional<double> limit, const std::string& what) {
        std::vector<Result> got;
        bool refused = false;
        try { got = process(dir, "case.json", f, angles, limit); }
        catch (const std::exception&) { refused = true; }
        if (!k) { c.expect(refused, what + ": results without a complete snapshot"); return; }
        c.expect(!refused, what + ": refused");
        same(c, got, expected(k), scale * scale, what);
    };
    std::filesystem::remove_all("Exports");
    std::filesystem::remove_all("copy");
    const int kind = (int)c.below(3);
    if (kind == 0) {
        const int stop = (int)c.below(h.t.size());
        c.label("copied_while_recording");
        record(h, std::vector<int>(ne, 0), 1, [&](int i) { if (i == stop) std::filesystem::copy(folder("s"), "copy", std::filesystem::copy_options::recursive); });
        size_t k = 0;
        for (int i : h.kept) k += i <= stop;
        c.note() << ", copied after time " << stop;
        judge("copy", k, std::nullopt, "copy");
    }
    else if (kind == 1) {
        record(h, std::vector<int>(ne, 0), 1);
        std::filesystem::copy(folder("s"), "copy", std::filesystem::copy_options::recursive);
        const std::string file = "copy/rank0/surface_data.bin";
        File whole = parse(c, file);
        const size_t size = std::filesystem::file_size(file);
        size_t to = 0;
        switch (c.below(4)) {
        case 0: to = c.below(whole.start + 1); c.label("cut_before_the_first_snapshot"); break;
        case 1: to = whole.start + whole.step * c.below(whole.shots.size() + 1); c.label("cut_between_snapshots"); break;
        case 2: to = whole.start + whole.step * c.below(whole.shots.size()) + c.range(1, 8); c.label("cut_in_a_time"); break;
        default: to = whole.start + c.below(size - whole.start); c.label("cut_in_a_snapshot");
        }
        std::filesystem::resize_file(file, to);
        c.note() << ", cut to " << to << " of " << size << " bytes";
        judge("copy", to < whole.start ? 0 : (to - whole.start) / whole.step, std::nullopt, "cut");
    }
    else {
        record(h, std::vector<int>(ne, 0), 1);
        std::filesystem::copy(folder("s"), "copy", std::filesystem::copy_options::recursive);
        const double limit = c.flip(1, 3) ? h.t[c.below(h.t.size())] : c.real(h.t[0] - 1, h.t.back() + 1);
        size_t k = 0;
        for (int i : h.kept) k += h.t[i] <= limit;
        c.label("limited_in_time");
        c.note() << ", up to time " << limit;
        judge("copy", k, limit, "limit");
    }
    c.nontrivial();
}

PBT_MAIN(pbt::info().rule = "at least two snapshots or two processes; every cut, copied or limited recording";
         pbt::info().assumptions = { "processes are threads of one program", "a crash leaves a prefix of what was written", "elements inside the surface carry the lower numbers" })
