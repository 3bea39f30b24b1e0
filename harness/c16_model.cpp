// USES: SOLVER DRIVER
#include "gen.h"
#include "spmd.hpp"
using namespace gen;

static const std::vector<BdrCond> CONDS{ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA, BdrCond::SGBC };

struct Case16 {
    GMesh g;
    std::map<int, Mat> mats;            // region tags with a material; other regions are vacuum
    std::map<int, BdrCond> bdr, ibdr;   // boundary tags with a condition
    GeomTagToMaterialInfo materials() const
    {
        GeomTagToMaterial m;
        for (auto& [t, x] : mats) m.emplace(t, Material(x.eps, x.mu, x.sigma));
        return { m, {} };
    }
    GeomTagToBoundaryInfo boundaries() const { return { GeomTagToBoundary(bdr.begin(), bdr.end()), GeomTagToInteriorBoundary(ibdr.begin(), ibdr.end()) }; }
};

static Case16 describe(pbt::Case& c, const std::vector<BdrCond>& conds)
{
    Case16 r;
    MeshOpts o;
    o.maxElems = 20;
    r.g = randomMesh(c, o);
    // regions: any tags; materials for some of them and for tags the mesh does not have
    const int top = c.range(1, 9);
    for (auto& a : r.g.ea) a = c.range(1, top);
    for (int t = 1; t <= top + 3; t++) if (c.flip(2, 3)) {
        Mat m;
        m.eps = 1 + c.grid(0, 8, 32);
        m.mu = 1 + c.grid(0, 4, 32);
        if (c.flip()) m.sigma = c.grid(0, 5, 20);
        r.mats[t] = m;
    }
    // exterior and interior boundary tags, interleaved at random; some without a condition, some not in the mesh
    std::vector<int> et, it;
    const int bt = c.range(1, 9);
    for (int t = 1; t <= bt; t++) (c.flip(2, 3) ? et : it).push_back(t);
    if (et.empty()) et.push_back(it.back()), it.pop_back();
    for (auto& a : r.g.ba) a = c.pick(et);
    if (!it.empty())
        for (auto& [k, f] : r.g.faces())
            if (f.els.size() == 2 && c.flip(1, 3)) { r.g.bd.push_back(f.v); r.g.ba.push_back(c.pick(it)); }
    int high = *std::max_element(r.g.ba.begin(), r.g.ba.end());
    for (int t : et) if (t <= high && c.flip(4, 5)) r.bdr[t] = c.pick(conds);
    for (int t : it) if (t <= high && c.flip(4, 5)) r.ibdr[t] = c.pick(conds);
    c.label(r.g.dim == 1 ? "1D" : r.g.dim == 2 ? "2D" : "3D");
    if (!r.ibdr.empty()) c.label("interior");
    if (r.mats.empty()) c.label("no_materials");
    c.nontrivial(r.mats.size() > 1 && r.bdr.size() + r.ibdr.size() > 1);
    auto& s = c.note();
    s << r.g.el.size() << " elements of " << r.g.type << "; materials";
    for (auto& [t, m] : r.mats) s << " " << t;
    s << "; exterior";
    for (auto& [t, b] : r.bdr) s << " " << t << ":" << (int)b;
    s << "; interior";
    for (auto& [t, b] : r.ibdr) s << " " << t << ":" << (int)b;
    return r;
}

static void checkMaterials(pbt::Case& c, const Case16& k, Model& m)
{
    auto eps = m.buildEpsMuPiecewiseVector(E), mu = m.buildEpsMuPiecewiseVector(H), sigma = m.buildSigmaPiecewiseVector();
    mfem::PWConstCoefficient ce(eps), cm(mu), cs(sigma);
    for (int e = 0; e < m.getMesh().GetNE(); e++) {
        int a = m.getMesh().GetAttribute(e);
        auto x = k.mats.find(a);
        Mat want = x == k.mats.end() ? Mat() : x->second;
        auto at = [&](mfem::PWConstCoefficient& q, const mfem::Vector& v, const char* what) {
            c.expect(a <= v.Size(), pbt::cat("no ", what, " for region ", a));
            auto* T = m.getMesh().GetElementTransformation(e);
            auto& ip = mfem::Geometries.GetCenter(m.getMesh().GetElementBaseGeometry(e));
            T->SetIntPoint(&ip);
            return q.Eval(*T, ip);
        };
        c.close(at(ce, eps, "permittivity"), want.eps, 1e-15, 0, pbt::cat("permittivity of element ", e, " in region ", a));
        c.close(at(cm, mu, "permeability"), want.mu, 1e-15, 0, pbt::cat("permeability of element ", e, " in region ", a));
        c.close(at(cs, sigma, "conductivity"), want.sigma, 1e-15, 0, pbt::cat("conductivity of element ", e, " in region ", a));
    }
    c.count(m.getMesh().GetNE());
}

static void checkBoundaries(pbt::Case& c, const Case16& k, Model& m)
{
    auto carried = [&](const BoundaryToMarker& map, int a) {
        std::set<int> r;
        for (auto& [cond, marker] : map) {
            c.expect(marker.Size() >= a, pbt::cat("a marker has no room for tag ", a));
            c.expect(marker[a - 1] == 0 || marker[a - 1] == 1, "marker entries are 0 or 1");
            if (marker[a - 1]) r.insert((int)cond);
        }
        return r;
    };
    for (int b = 0; b < m.getMesh().GetNBE(); b++) {
        int a = m.getMesh().GetBdrAttribute(b);
        std::set<int> ext, in;
        if (k.bdr.count(a)) ext.insert((int)k.bdr.at(a));
        if (k.ibdr.count(a)) in.insert((int)k.ibdr.at(a));
        c.expect(carried(m.getBoundaryToMarker(), a) == ext, pbt::cat("exterior conditions of boundary tag ", a));
        c.expect(carried(m.getInteriorBoundaryToMarker(), a) == in, pbt::cat("interior conditions of boundary tag ", a));
        for (BdrCond q : CONDS) for (bool interior : { false, true }) {
            auto& marker = m.getMarker(q, interior);
            bool on = marker.Size() && marker[a - 1], want = (interior ? in : ext).count((int)q);
            c.expect(on == want, pbt::cat("marker of condition ", (int)q, interior ? " inside" : " outside", " for tag ", a));
        }
    }
    c.count(m.getMesh().GetNBE());
    // nothing more was marked than was asked for
    size_t asked = 0, marked = 0;
    for (auto* map : { &k.bdr, &k.ibdr }) asked += map->size();
    for (auto* map : { &m.getBoundaryToMarker(), &m.getInteriorBoundaryToMarker() })
        for (auto& [cond, marker] : *map) for (int i = 0; i < marker.Size(); i++) marked += marker[i] != 0;
    c.expect(asked == marked, pbt::cat(marked, " tags were marked, ", asked, " asked for"));
    for (auto& [t, b] : k.bdr) c.expect(m.getGeomTagToBoundaryCond().count(t) && m.getGeomTagToBoundaryCond().at(t) == b, "exterior map");
    for (auto& [t, b] : k.ibdr) c.expect(m.getGeomTagToIntBoundaryCond().count(t) && m.getGeomTagToIntBoundaryCond().at(t) == b, "interior map");
}

FACET(assignment, 25000, 400000, "materials of every element and conditions of every boundary face")
{
    Case16 k = describe(c, CONDS);
    auto mesh = k.g.build();
    Model m(mesh, k.materials(), k.boundaries());
    checkMaterials(c, k, m);
    checkBoundaries(c, k, m);
}

FACET(distributed, 3000, 40000, "the same on every process of a distributed mesh, with the map between numberings")
{
    Case16 k = describe(c, CONDS);
    auto mesh = k.g.build();
    const int ranks = c.range(1, 4), ne = mesh.GetNE();
    std::vector<int> part(ne);
    for (auto& p : part) p = (int)c.below(ranks);
    std::vector<int> seen(ne, 0);
    std::mutex lock;
    spmd::run(ranks, [&](int) {
        mfem::Mesh mine(mesh);
        std::vector<int> copy = part;
        Model m(mine, k.materials(), k.boundaries(), copy.data());
        std::lock_guard<std::mutex> hold(lock);
        checkMaterials(c, k, m);
        checkBoundaries(c, k, m);
        auto map = buildGlobalToPartitionLocalElementMap(buildSerialElem2CenterMap(m.getSerialMesh()), buildPartitionElem2CenterMap(m.getMesh()));
        c.expect((int)map.size() == m.getMesh().GetNE(), "every element of this process has one global number");
        for (auto [g, l] : map) {
            seen[g]++;
            c.expect(m.getMesh().GetAttribute(l) == mesh.GetAttribute(g), "region of the element under both numberings");
        }
    });
    for (int e = 0; e < ne; e++) c.expect(seen[e] == 1, pbt::cat("element ", e, " is on ", seen[e], " processes"));
    c.label(pbt::cat(ranks, "ranks"));
}

FACET(response, 1200, 15000, "tags, gaps and unused entries do not influence the computed derivative: only what they stand for does")
{
    Case16 k = describe(c, { BdrCond::PEC, BdrCond::PMC, BdrCond::SMA });
    // the same problem with dense tags and every region spelled out
    Case16 d = k;
    d.mats.clear(); d.bdr.clear(); d.ibdr.clear();
    std::map<int, int> region, side;
    for (auto& a : d.g.ea) {
        int old = a;
        if (!region.count(old)) { int n = (int)region.size() + 1; region[old] = n; }
        a = region[old];
        d.mats[a] = k.mats.count(old) ? k.mats[old] : Mat();
    }
    std::set<int> used(k.g.ba.begin(), k.g.ba.end());
    auto order = c.permutation((int)used.size());
    for (int t : used) { int i = (int)side.size(); side[t] = order[i] + 1; }
    for (auto& a : d.g.ba) a = side[a];
    for (auto& [t, b] : k.bdr) if (side.count(t)) d.bdr[side[t]] = b;
    for (auto& [t, b] : k.ibdr) if (side.count(t)) d.ibdr[side[t]] = b;
    SolverOptions o;
    o.setOrder(c.range(1, 2)).setUpwindAlpha(c.grid(0, 1, 4)).setTimeStep(1e-3).setFinalTime(1);
    auto derivative = [&](const Case16& q) {
        auto mesh = q.g.build();
        Model m(mesh, q.materials(), q.boundaries());
        maxwell::Solver s(m, Probes(), Sources(), o);
        mfem::Vector y(s.getFields().allDOFs().Size()), x(y.Size());
        for (int i = 0; i < x.Size(); i++) x[i] = std::sin(1.0 + 37.0 * i);
        const_cast<mfem::TimeDependentOperator*>(s.getEvolTDO())->Mult(x, y);
        return y;
    };
    auto a = derivative(k), b = derivative(d);
    sameVector(c, a, b, 1e-12, 0, "time derivative with sparse tags against dense ones");
}

FACET(refused, 12000, 150000, "tags that are not positive or not in the mesh, and meshes of mixed elements, are refused")
{
    Case16 k = describe(c, CONDS);
    auto mesh = k.g.build();
    auto refused = [&](mfem::Mesh& m, const GeomTagToBoundaryInfo& b) {
        try { Model x(m, k.materials(), b); }
        catch (const std::runtime_error&) { return true; }
        return false;
    };
    auto b = k.boundaries();
    int kind = (int)c.below(3);
    if (kind == 2) {
        const int nt = c.range(1, 4), nq = c.range(1, 4);
        mfem::Mesh mix(2, 2 * (nt + nq) + 2 + nt, 2 * nt + nq + nt, 0, 2);
        int n = nt + nq;
        auto kinds = c.permutation(n);
        for (int i = 0; i <= n; i++) { mix.AddVertex(i, 0); mix.AddVertex(i, 1); }
        for (int i = 0; i < n; i++) {
            int p = 2 * i, q = 2 * i + 1, r = 2 * i + 3, s = 2 * i + 2;
            if (kinds[i] < nt) { mix.AddTriangle(p, s, r); mix.AddTriangle(p, r, q); }
            else mix.AddQuad(p, s, r, q);
        }
        mix.FinalizeTopology();
        mix.Finalize();
        c.label("mixed_elements");
        bool no = false;
        try { Model x(mix); } catch (const std::runtime_error&) { no = true; }
        c.expect(no, "a mesh of triangles and quadrilaterals was accepted");
        return;
    }
    int high = mesh.bdr_attributes.Max();
    int tag = kind == 0 ? -c.range(0, 5) : high + c.range(1, 5);
    BdrCond q = c.pick(CONDS);
    if (c.flip()) b.gt2b[tag] = q; else b.gt2ib[tag] = q;
    c.label(kind == 0 ? "not_positive" : "not_in_mesh");
    c.note() << " extra tag " << tag;
    c.expect(refused(mesh, b), pbt::cat("tag ", tag, " was accepted (largest in the mesh: ", high, ")"));
    c.expect(!refused(mesh, k.boundaries()), "a valid description was refused");
}

PBT_MAIN(pbt::info().rule = "at least two materials and at least two boundary tags with a condition";
         pbt::info().assumptions = { "MFEM's meshes are replaced by the stand-in in shim/", "processes are threads of one program" })
