// USES: SOLVER DRIVER
#include "casefile.h"
#include "spmd.hpp"
#include <mutex>
using namespace gen;
using namespace casefile;

/// Any distribution in which every process has an element and the tagged faces are not cut; one surface may be asked
/// to be on one process.
static std::vector<int> distribute(pbt::Case& c, const GMesh& g, int ranks, const std::set<int>& whole, int onOne = 0)
{
    const int ne = (int)g.el.size();
    std::vector<int> part(ne), root(ne);
    for (int e = 0; e < ne; e++) root[e] = e;
    std::function<int(int)> find = [&](int x) { return root[x] == x ? x : root[x] = find(root[x]); };
    auto faces = g.faces();
    for (size_t i = 0; i < g.bd.size(); i++) if (whole.count(g.ba[i])) {
        auto k = g.bd[i];
        std::sort(k.begin(), k.end());
        auto& f = faces[k];
        if (f.els.size() == 2) root[find(f.els[0])] = find(f.els[1]);
    }
    int first = -1;
    for (size_t i = 0; i < g.bd.size(); i++) if (onOne && g.ba[i] == onOne) {
        auto k = g.bd[i];
        std::sort(k.begin(), k.end());
        if (first >= 0) root[find(first)] = find(faces[k].els[0]);
        first = faces[k].els[0];
    }
    const int kind = (int)c.below(3), shift = (int)c.below(ranks);
    for (int e = 0; e < ne; e++) part[e] = kind == 0 ? (int)c.below(ranks) : kind == 1 ? (e * ranks / ne + shift) % ranks : (e + shift) % ranks;
    for (int e = 0; e < ne; e++) part[e] = part[find(e)];
    for (int r = 0; r < ranks; r++) if (!std::count(part.begin(), part.end(), r)) {
        // an idle process takes over a group of another that has several
        std::map<int, std::set<int>> groups;
        for (int e = 0; e < ne; e++) groups[part[e]].insert(find(e));
        for (auto& [q, s] : groups) if (s.size() > 1) {
            for (int e = 0; e < ne; e++) if (find(e) == *s.begin()) part[e] = r;
            break;
        }
        if (!std::count(part.begin(), part.end(), r)) c.discard();
    }
    return part;
}

/// The part of a problem that one process has.
static Model share(const Prob& p, mfem::Mesh& m, const std::vector<int>& part)
{
    GeomTagToMaterial gm;
    for (auto& [t, x] : p.mats) gm.emplace(t, Material(x.eps, x.mu, x.sigma));
    GeomTagToInteriorBoundary in;
    for (auto& [t, b] : p.ibdr) if (b != BdrCond::TotalFieldIn) in.emplace(t, b);
    auto copy = part;
    Model r(m, GeomTagToMaterialInfo(gm, {}), GeomTagToBoundaryInfo(GeomTagToBoundary(p.bdr.begin(), p.bdr.end()), in), copy.data());
    // the driver marks the surface on the processes that have some of it
    auto& pm = r.getMesh();
    mfem::Array<int> tf(pm.bdr_attributes.Size() ? pm.bdr_attributes.Max() : 0);
    tf = 0;
    for (int b = 0; b < pm.GetNBE(); b++) {
        auto i = p.ibdr.find(pm.GetBdrAttribute(b));
        if (i != p.ibdr.end() && i->second == BdrCond::TotalFieldIn) tf[i->first - 1] = 1;
    }
    if (tf.Size() && tf.Max() == 1) r.getTotalFieldScatteredFieldToMarker().insert(std::make_pair(BdrCond::TotalFieldIn, tf));
    return r;
}

/// Where the unknowns of a process are among those of the whole problem.
static std::vector<int> numbering(const Prob& p, mfem::ParFiniteElementSpace& fes)
{
    mfem::Mesh mesh = p.mesh();
    mfem::DG_FECollection fec(p.order, p.g.dim, p.basis);
    mfem::FiniteElementSpace whole(&mesh, &fec);
    Locator at(p.g);
    const int n = fes.GetNDofs(), all = whole.GetNDofs();
    std::vector<int> to(6 * n);
    for (int e = 0; e < fes.GetNE(); e++) {
        mfem::Array<int> a, b;
        fes.GetElementDofs(e, a);
        whole.GetElementDofs(at(*fes.GetParMesh(), e), b);
        for (int i = 0; i < a.Size(); i++) for (int k = 0; k < 6; k++) to[k * n + a[i]] = k * all + b[i];
    }
    return to;
}

static std::vector<int> pickPartition(pbt::Case& c, const Prob& p, int& ranks, int onOne = 0)
{
    const int ne = (int)p.g.el.size();
    if (ne < 2) c.discard();
    ranks = c.range(2, std::min(5, ne));
    // interior conditions and surfaces are not cut, as the driver sees to
    std::set<int> whole;
    for (auto& [t, b] : p.ibdr) whole.insert(t);
    auto part = distribute(c, p.g, ranks, whole, onOne);
    int cut = 0;
    for (auto& [k, f] : p.g.faces()) cut += f.els.size() == 2 && part[f.els[0]] != part[f.els[1]];
    c.label(pbt::cat(ranks, "ranks"));
    c.label(cut ? "cut" : "nothing_cut");
    c.nontrivial(cut > 0);
    c.note() << p.text() << " over " << ranks << " processes, " << cut << " faces cut";
    return part;
}

/// The derivative of a state at some time, computed by several processes together.
static mfem::Vector derivative(const Prob& p, const std::vector<int>& part, int ranks, const SolverOptions& o, const Sources& src, const mfem::Vector& x, double t)
{
    mfem::Vector y(x.Size());
    std::mutex lock;
    spmd::run(ranks, [&](int) {
        mfem::Mesh mesh = p.mesh();
        maxwell::Solver s(share(p, mesh, part), Probes(), src, o);
        auto to = numbering(p, s.getFES());
        mfem::Vector a((int)to.size()), b((int)to.size());
        for (size_t i = 0; i < to.size(); i++) a[(int)i] = x[to[i]];
        auto* op = const_cast<mfem::TimeDependentOperator*>(s.getEvolTDO());
        op->SetTime(t);
        op->Mult(a, b);
        std::lock_guard<std::mutex> hold(lock);
        for (size_t i = 0; i < to.size(); i++) y[to[i]] = b[(int)i];
    });
    return y;
}

static int unknowns(const Prob& p)
{
    mfem::Mesh mesh = p.mesh();
    mfem::DG_FECollection fec(p.order, p.g.dim, p.basis);
    return 6 * mfem::FiniteElementSpace(&mesh, &fec).GetNDofs();
}


static std::vector<int> together(const Prob& p) { return std::vector<int>(p.g.el.size(), 0); }

FACET(rate, 3000, 30000, "the time derivative of any state, for any distribution of the elements over processes")
{
    ProbOpts o;
    o.maxElems = 20;
    const auto op = c.flip(2, 3) ? Global : Maxwell;
    o.losses = op == Global;
    Prob p = randomProblem(c, o);
    if (p.g.dim == 3) p.order = std::min(p.order, 2);
    int ranks;
    auto part = pickPartition(c, p, ranks);
    auto x = randomState(c, unknowns(p));
    auto so = p.options(op);
    c.label(op == Global ? "assembled" : "per_term");
    auto one = derivative(p, together(p), 1, so, Sources(), x, 0);
    auto many = derivative(p, part, ranks, so, Sources(), x, 0);
    sameVector(c, many, one, 1e-11, 0, "time derivative on several processes against one");
}

/// The processes that have faces of a surface.
static std::set<int> ownersOf(const GMesh& g, int tag, const std::vector<int>& part)
{
    std::set<int> owners;
    auto faces = g.faces();
    for (size_t i = 0; i < g.bd.size(); i++) if (g.ba[i] == tag) {
        auto k = g.bd[i];
        std::sort(k.begin(), k.end());
        owners.insert(part[faces[k].els[0]]);
    }
    return owners;
}

FACET(waves, 2500, 30000, "the derivative with a wave entering through a total-field surface")
{
    ProbOpts o;
    o.maxElems = 20;
    o.interior = 0.2;
    Prob p = randomProblem(c, o);
    if (p.g.dim == 3) p.order = std::min(p.order, 2);
    std::vector<char> side;
    const int tag = addTotalField(c, p, side);
    Sources src;
    src.add(TotalField(randomPlanewave(c, &c.note())));
    if (c.flip(1, 4)) src.add(TotalField(randomPlanewave(c, &c.note())));
    int ranks;
    auto part = pickPartition(c, p, ranks);
    const auto owners = ownersOf(p.g, tag, part);
    c.label((int)owners.size() == ranks ? "surface_everywhere" : owners.size() > 1 ? "surface_spread" : "surface_on_one");
    mfem::Vector x(unknowns(p));
    if (c.flip()) x = 0.0; else x = randomState(c, x.Size());
    const double t = c.real(0, 3);
    const auto op = c.flip(2, 3) ? Global : Maxwell;
    auto so = p.options(op);
    // how much the operator makes of fields of size one
    mfem::Vector u(x.Size());
    for (int i = 0; i < u.Size(); i++) u[i] = std::sin(1.0 + 37.0 * i);
    const double size = maxAbs(derivative(p, together(p), 1, so, Sources(), u, 0));
    auto one = derivative(p, together(p), 1, so, src, x, t);
    auto many = derivative(p, part, ranks, so, src, x, t);
    // the sides are told apart by the part of the surface that a process has; and the operator by terms takes the wave,
    // as interpolated in each element, across all faces between elements along the surface that one process has
    const char* key = p.g.dim != 2 && owners.size() > 1 ? (p.g.dim == 1 ? "spread_points" : "spread_surface")
                    : op == Maxwell && p.basis == mfem::BasisType::GaussLegendre ? "inner_faces" : nullptr;
    if (key) {
        double worst = 0, s = std::max(maxAbs(one), size);
        for (int i = 0; i < one.Size(); i++) worst = std::max(worst, std::abs(one[i] - many[i]));
        if (!(worst <= 1e-7 * s)) c.known(key, pbt::cat("time derivative on several processes against one differs by ", worst));
        return;
    }
    // a process may leave out a wave whose values on its part of the surface are below 1e-8
    sameVector(c, many, one, 1e-7, size, "time derivative on several processes against one");
}

/// What a run leaves behind.
struct Outcome {
    mfem::Vector x;
    double dt = 0, time = 0;
    std::vector<std::map<double, std::vector<double>>> seen;   // by point: time to fields
    std::vector<int> watchers;                                 // how many processes wrote about it
};

static Outcome runTogether(const Prob& p, const std::vector<int>& part, int ranks, const SolverOptions& o, const Sources& src, const std::vector<mfem::Vector>& points, int every, const mfem::Vector* start)
{
    Outcome out;
    out.x.SetSize(unknowns(p));
    out.seen.resize(points.size());
    out.watchers.assign(points.size(), 0);
    std::mutex lock;
    spmd::run(ranks, [&](int r) {
        mfem::Mesh mesh = p.mesh();
        Probes pr;
        for (auto& q : points) pr.pointProbes.push_back(PointProbe(std::vector<double>(q.begin(), q.end()), every, false));
        maxwell::Solver s(share(p, mesh, part), pr, src, o);
        auto to = numbering(p, s.getFES());
        if (start) {
            mfem::Vector a((int)to.size());
            for (size_t i = 0; i < to.size(); i++) a[(int)i] = (*start)[to[i]];
            s.getFields().allDOFs() = a;
        }
        s.run();
        std::lock_guard<std::mutex> hold(lock);
        auto& b = s.getFields().allDOFs();
        for (size_t i = 0; i < to.size(); i++) out.x[to[i]] = b[(int)i];
        if (r == 0) { out.dt = s.getTimeStep(); out.time = s.getTime(); }
        for (size_t k = 0; k < points.size(); k++) {
            auto& m = s.getPointProbe(k).getFieldMovies();
            if (m.empty()) continue;
            out.watchers[k]++;
            for (auto& [t, f] : m) out.seen[k][t] = { f.Ex, f.Ey, f.Ez, f.Hx, f.Hy, f.Hz };
        }
    });
    return out;
}

static std::vector<mfem::Vector> somePoints(pbt::Case& c, const GMesh& g)
{
    std::vector<mfem::Vector> r;
    for (int n = c.range(0, 3); n > 0; n--) {
        // well inside of an element
        auto& e = c.pick(g.el);
        auto m = g.centroid(e);
        auto& v = g.v[e[c.below(e.size())]];
        const double w = c.grid(0, 0.6, 6);
        mfem::Vector x(g.dim);
        for (int d = 0; d < g.dim; d++) x[d] = m[d] + w * (v[d] - m[d]);
        r.push_back(x);
    }
    return r;
}

static void sameOutcome(pbt::Case& c, const Outcome& a, const Outcome& b, double tol, double scale = 0)
{
    c.expect(std::abs(a.dt - b.dt) <= 1e-12 * b.dt, pbt::cat("time step ", a.dt, " instead of ", b.dt));
    c.expect(std::abs(a.time - b.time) <= 1e-12 * b.time, pbt::cat("final time ", a.time, " instead of ", b.time));
    sameVector(c, a.x, b.x, tol, scale, "fields on several processes against one");
    const double s = std::max(scale, maxAbs(b.x));
    for (size_t k = 0; k < a.seen.size(); k++) {
        c.expect(a.watchers[k] == 1, pbt::cat("point ", k, " is recorded by ", a.watchers[k], " processes"));
        c.expect(a.seen[k].size() == b.seen[k].size(), pbt::cat("point ", k, " has ", a.seen[k].size(), " records instead of ", b.seen[k].size()));
        auto i = b.seen[k].begin();
        for (auto& [t, f] : a.seen[k]) {
            c.expect(std::abs(t - i->first) <= 1e-12 * (1 + t), "time of a record");
            for (int q = 0; q < 6; q++) {
                double m = s;
                for (double v : i->second) m = std::max(m, std::abs(v));
                c.expect(std::abs(f[q] - i->second[q]) <= 10 * tol * m, pbt::cat("point ", k, " at ", t, " component ", q, " is ", f[q], " instead of ", i->second[q]));
            }
            ++i;
        }
    }
}

FACET(runs, 700, 8000, "fields, times and point records of whole runs, with given and automatic steps")
{
    ProbOpts o;
    o.maxElems = 12;
    o.losses = true;
    Prob p = randomProblem(c, o);
    for (auto& [t, m] : p.mats) m.sigma = std::min(m.sigma, 5.0);
    if (p.g.dim == 3) p.order = 1;
    Sources src;
    std::vector<char> side;
    int tag = 0;
    if (c.flip(1, 3)) { tag = addTotalField(c, p, side); src.add(TotalField(randomPlanewave(c, &c.note()))); c.label("wave"); }
    int ranks;
    auto part = pickPartition(c, p, ranks, p.g.dim != 2 ? tag : 0);
    const auto op = c.flip(2, 3) ? Global : Maxwell;
    // see the facet above
    if (op == Maxwell && tag) p.basis = mfem::BasisType::GaussLobatto;
    auto so = p.options(op);
    const int steps = c.range(1, 8);
    if (c.flip()) { so.setTimeStep(0).setFinalTime(1e-9).setCFL(c.real(0.1, 0.7)); c.label("automatic"); }
    else { const double dt = c.logreal(1e-4, 5e-3); so.setTimeStep(dt).setFinalTime(steps * dt); }
    auto points = somePoints(c, p.g);
    if (so.time_step == 0) {
        // the step is known to a solver only: let it tell how long the run has to be
        spmd::run(1, [&](int) { mfem::Mesh mesh = p.mesh(); maxwell::Solver s(share(p, mesh, together(p)), Probes(), src, so); so.setFinalTime(steps * s.getTimeStep()); });
    }
    const int every = c.range(1, 3);
    auto x = randomState(c, unknowns(p));
    c.note() << " " << steps << " steps";
    auto one = runTogether(p, together(p), 1, so, src, points, every, &x);
    auto many = runTogether(p, part, ranks, so, src, points, every, &x);
    sameOutcome(c, many, one, tag ? 2e-6 : 1e-9, tag ? 1 : 0);
}

FACET(implicit, 500, 6000, "the same for every implicit integrator")
{
    ProbOpts o;
    o.types = "sstqT";
    o.maxElems = 8;
    o.maxOrder = 2;
    o.losses = true;
    Prob p = randomProblem(c, o);
    for (auto& [t, m] : p.mats) m.sigma = std::min(m.sigma, 5.0);
    if (p.g.dim > 1) p.order = 1;
    int ranks;
    auto part = pickPartition(c, p, ranks);
    // every process has a neighbour
    for (int r = 0; r < ranks; r++) {
        bool any = false;
        for (auto& [k, f] : p.g.faces()) any = any || (f.els.size() == 2 && part[f.els[0]] != part[f.els[1]] && (part[f.els[0]] == r || part[f.els[1]] == r));
        if (!any) c.discard();
    }
    auto so = p.options();
    const int steps = c.range(1, 3), ode = c.range(1, 6);
    const double dt = c.logreal(1e-3, 0.1);
    so.setTimeStep(dt).setFinalTime(steps * dt).setODEType(ode);
    auto points = somePoints(c, p.g);
    auto x = randomState(c, unknowns(p));
    c.note() << " integrator " << ode << " " << steps << " steps of " << dt;
    c.label("integrator" + std::to_string(ode));
    auto one = runTogether(p, together(p), 1, so, Sources(), points, 1, &x);
    auto many = runTogether(p, part, ranks, so, Sources(), points, 1, &x);
    sameOutcome(c, many, one, 1e-5, 1);
}

/// A layer and sources as a case file has them.
static json caseFile(pbt::Case& c, Prob& p, int& tf)
{
    static const double Z0 = 4e-7 * M_PI * 299792458.0;
    std::vector<char> side;
    if (c.flip()) { tf = addTotalField(c, p, side); c.label("wave"); }
    json j, m = json::array(), b = json::array();
    for (auto& [t, x] : p.mats) if (std::count(p.g.ea.begin(), p.g.ea.end(), t))
        m.push_back({ { "tags", { t } }, { "relative_permittivity", x.eps }, { "relative_permeability", x.mu }, { "bulk_conductivity", x.sigma / Z0 } });
    auto name = [](BdrCond k) { return k == BdrCond::PEC ? "PEC" : k == BdrCond::PMC ? "PMC" : "SMA"; };
    for (auto& [t, k] : p.bdr) b.push_back({ { "tags", { t } }, { "type", name(k) } });
    bool layer = false;
    for (auto& [t, k] : p.ibdr) {
        if (t == tf) continue;
        if (c.flip(2, 3)) {
            json l{ { "tags", { t } }, { "type", "SGBC" }, { "layers", json::array() } };
            for (int n = c.range(1, 2); n > 0; n--)
                l["layers"].push_back({ { "relative_permittivity", c.real(1, 4) }, { "relative_permeability", 1.0 }, { "bulk_conductivity", c.logreal(0.1, 50) / Z0 }, { "material_width", c.real(0.02, 0.1) }, { "num_of_segments", c.range(2, 4) }, { "order", c.range(1, 2) } });
            b.push_back(l);
            layer = true;
        }
        else b.push_back({ { "tags", { t } }, { "type", name(k) } });
    }
    if (layer) c.label("layer");
    j["model"] = { { "filename", "box.msh" }, { "materials", m }, { "boundaries", b } };
    j["sources"] = json::array();
    auto near = p.g.centroid(p.g.el[c.below(p.g.el.size())]);
    if (!tf || c.flip())
        j["sources"].push_back({ { "type", "initial" }, { "field_type", c.flip() ? "electric" : "magnetic" }, { "polarization", { 0.0, 0.0, 1.0 } }, { "center", std::vector<double>(near.begin(), near.begin() + p.g.dim) }, { "dimension", p.g.dim }, { "magnitude", { { "type", "gaussian" }, { "spread", c.real(0.3, 1) } } } });
    if (tf)
        j["sources"].push_back({ { "type", "planewave" }, { "polarization", { 0.0, 0.0, 1.0 } }, { "propagation", { 1.0, 0.0, 0.0 } }, { "tags", { tf } }, { "magnitude", { { "type", "gaussian" }, { "spread", c.real(0.3, 1) }, { "mean", { -1.0 } } } } });
    const double dt = c.logreal(2e-4, 3e-3);
    j["solver_options"] = { { "order", p.order }, { "upwind_alpha", p.alpha }, { "time_step", dt }, { "final_time", c.range(1, 5) * dt } };
    return j;
}

FACET(cases, 500, 5000, "case files with conductors, layers, waves and initial fields, distributed by the driver")
{
    ProbOpts o;
    o.maxElems = 12;
    o.losses = true;
    o.interior = 0.8;
    Prob p = randomProblem(c, o);
    p.basis = mfem::BasisType::GaussLobatto;
    for (auto& [t, m] : p.mats) m.sigma = std::min(m.sigma, 5.0);
    if (p.g.dim == 3) p.order = 1;
    const int ne = (int)p.g.el.size();
    if (ne < 2) c.discard();
    if (p.g.dim == 1) {
        // layers between segments count on their order
        std::vector<std::pair<double, int>> order;
        for (int e = 0; e < ne; e++) order.push_back({ p.g.centroid(p.g.el[e])[0], e });
        std::sort(order.begin(), order.end());
        auto el = p.g.el; auto ea = p.g.ea;
        for (int e = 0; e < ne; e++) { p.g.el[e] = el[order[e].second]; p.g.ea[e] = ea[order[e].second]; }
    }
    int tf = 0;
    json j = caseFile(c, p, tf);
    const int ranks = c.range(2, std::min(5, ne));
    std::vector<int> start(ne);
    const bool blocks = c.flip();
    for (int e = 0; e < ne; e++) start[e] = blocks ? e * ranks / ne : (int)c.below(ranks);
    c.note() << p.text() << " over " << ranks << " processes, case " << j.dump();
    c.label(pbt::cat(ranks, "ranks"));
    auto x = randomState(c, unknowns(p));
    const bool given = c.flip();
    Locator at(p.g);
    bool idle = false, apart = false;
    std::vector<int> part(ne, -1);
    auto go = [&](int n) {
        std::filesystem::remove_all("w");
        std::filesystem::remove_all("Exports");
        spill("w/box/box.msh", gmsh(p.g));
        spill("w/box/box.json", j.dump());
        mfem::Mesh::Partitioner = [&](const mfem::Mesh& m, int k, int* q) {
            for (int e = 0; e < m.GetNE(); e++) { int i = at(m, e); q[e] = i < 0 || k == 1 ? 0 : start[i]; }
        };
        struct Reset { ~Reset() { mfem::Mesh::Partitioner = nullptr; } } reset;
        mfem::Vector y(x.Size());
        std::mutex lock;
        spmd::run(n, [&](int) {
            if (n > 1) {
                // the case is dropped when the driver leaves a process without elements
                Model m = driver::buildModel(j, "w/box/box.json", false);
                int mine = m.getMesh().GetNE() == 0, any = 0;
                MPI_Allreduce(&mine, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
                if (any) { idle = true; return; }
                spmd::exchange(nullptr, [&](auto&) { std::lock_guard<std::mutex> hold(lock); for (int e = 0; e < m.getMesh().GetNE(); e++) part[at(m.getMesh(), e)] = mfem::Mpi::WorldRank(); });
                // see the facet above for surfaces in pieces
                if (tf && p.g.dim != 2 && ownersOf(p.g, tf, part).size() > 1) { apart = true; return; }
            }
            maxwell::Solver s = driver::buildSolverJson("w/box/box.json", false);
            auto to = numbering(p, s.getFES());
            if (given) {
                mfem::Vector a((int)to.size());
                for (size_t i = 0; i < to.size(); i++) a[(int)i] = x[to[i]];
                s.getFields().allDOFs() = a;
            }
            s.run();
            std::lock_guard<std::mutex> hold(lock);
            auto& b = s.getFields().allDOFs();
            for (size_t i = 0; i < to.size(); i++) y[to[i]] = b[(int)i];
        });
        return y;
    };
    auto many = go(ranks);
    if (idle || apart) c.discard();
    auto one = go(1);
    int cut = 0;
    for (auto& [k, f] : p.g.faces()) cut += f.els.size() == 2 && part[f.els[0]] != part[f.els[1]];
    c.nontrivial(cut > 0);
    // waves and layers below 1e-8 may be left out
    sameVector(c, many, one, 1e-6, 0.1, "fields on several processes against one");
}

PBT_MAIN(pbt::info().rule = "at least one face between elements of different processes";
         pbt::info().assumptions = { "processes are threads of one program", "the mesh, its distribution and the exchange with neighbouring processes come from the stand-in in shim/" })
