// USES: SOLVER DRIVER
#include "gen.h"
#include "components/SubMesher.h"
using namespace gen;

static std::set<int> parents(const mfem::SubMesh* s)
{
    std::set<int> r;
    if (s) for (int e : s->GetParentElementIDMap()) r.insert(e);
    return r;
}
static std::string show(const std::set<int>& s)
{
    std::ostringstream o;
    for (int e : s) o << e << " ";
    return o.str();
}
static void sameSet(pbt::Case& c, const std::set<int>& got, const std::set<int>& want, const char* what)
{
    c.expect(got == want, pbt::cat(what, " holds elements ", show(got), "instead of ", show(want)));
}

/// the sub-mesh has the parent's geometry, and its fields land on the parent's nodes at the same place
static void faithful(pbt::Case& c, mfem::SubMesh& s, mfem::Mesh& m, const char* what)
{
    const int sd = m.SpaceDimension();
    c.expect(s.GetNE() == s.GetParentElementIDMap().Size(), "number of elements");
    for (int e = 0; e < s.GetNE(); e++) c.expect(s.GetAttribute(e) == 1, "sub-mesh elements have the neutral attribute");
    int order = c.range(1, 3);
    mfem::DG_FECollection fec(order, m.Dimension(), c.flip() ? mfem::BasisType::GaussLobatto : mfem::BasisType::GaussLegendre);
    mfem::FiniteElementSpace sub(&s, &fec), par(&m, &fec);
    std::set<int> in = parents(&s);
    for (int d = 0; d < sd; d++) {
        mfem::FunctionCoefficient x([d](const mfem::Vector& p) { return p[d]; });
        mfem::GridFunction a(&sub), b(&par), z(&par);
        a.ProjectCoefficient(x);
        b.ProjectCoefficient(x);
        z = 0.0;
        MaxwellTransferMap t(a, z);
        t.TransferAdd(a, z);
        mfem::Array<int> dofs;
        for (int e = 0; e < m.GetNE(); e++) {
            par.GetElementDofs(e, dofs);
            for (int i : dofs) c.close(z[i], in.count(e) ? b[i] : 0.0, 0, 1e-12, pbt::cat(what, ": coordinate ", d, " carried to element ", e));
        }
        t.TransferAdd(a, z);
        t.TransferSub(a, z);
        t.TransferSub(a, z);
        for (int i = 0; i < z.Size(); i++) c.close(z[i], 0.0, 0, 1e-12, "adding and taking away leaves nothing");
    }
}

/// the surface, and nothing else, carries the mark of the surface in a one-sided sub-mesh
static void marked(pbt::Case& c, mfem::SubMesh& s, const std::vector<P3>& centres, int value, const char* what)
{
    std::vector<P3> got;
    for (int b = 0; b < s.GetNBE(); b++) if (s.GetBdrAttribute(b) == value) {
        mfem::Array<int> v;
        s.GetBdrElementVertices(b, v);
        P3 x{ 0, 0, 0 };
        for (int i : v) for (int d = 0; d < s.SpaceDimension(); d++) x[d] += s.GetVertex(i)[d] / v.Size();
        got.push_back(x);
    }
    c.expect(got.size() == centres.size(), pbt::cat(what, " has ", got.size(), " faces of the surface instead of ", centres.size()));
    for (auto& x : centres) {
        bool hit = false;
        for (auto& y : got) hit |= std::abs(x[0] - y[0]) + std::abs(x[1] - y[1]) + std::abs(x[2] - y[2]) < 1e-9;
        c.expect(hit, pbt::cat(what, " lacks the surface face at ", x[0], " ", x[1], " ", x[2]));
    }
}

static std::vector<int> attributes(const mfem::Mesh& m)
{
    std::vector<int> r;
    for (int e = 0; e < m.GetNE(); e++) r.push_back(m.GetAttribute(e));
    for (int b = 0; b < m.GetNBE(); b++) r.push_back(m.GetBdrAttribute(b));
    return r;
}

FACET(surfaces, 120000, 400000, "sides, geometry, field transfer and marks of the sub-meshes along random closed and open surfaces")
{
    ProbOpts o;
    o.maxElems = 30;
    Prob p = randomProblem(c, o);
    std::vector<char> side;
    int tag = addTotalField(c, p, side, false);
    if (c.flip(1, 5) && p.g.dim == 2) {
        p.curve = 2;
        double a = c.grid(-0.06, 0.06, 8);
        p.bend = [=](const mfem::Vector& x, mfem::Vector& y) { y = x; y[0] += a * x[1] * x[1]; };
        c.label("curved");
    }
    auto m = p.mesh();
    c.note() << p.text();
    mfem::Array<int> marker(m.bdr_attributes.Max());
    marker = 0;
    marker[tag - 1] = 1;
    std::set<int> tf, sf, all;
    std::vector<P3> centres;
    auto faces = p.g.faces();
    for (size_t i = 0; i < p.g.bd.size(); i++) if (p.g.ba[i] == tag) {
        auto k = p.g.bd[i];
        centres.push_back(p.g.centroid(k));
        std::sort(k.begin(), k.end());
        for (int e : faces[k].els) { (side[e] ? tf : sf).insert(e); all.insert(e); }
    }
    c.label(pbt::cat(p.g.dim, "D"));
    c.nontrivial(centres.size() > 1 && all.size() < p.g.el.size());
    auto before = attributes(m);
    TotalFieldScatteredFieldSubMesher s(m, marker);
    c.expect(attributes(m) == before, "the mesh itself was changed");
    sameSet(c, parents(s.getTFSubMesh()), tf, "the total-field side");
    sameSet(c, parents(s.getSFSubMesh()), sf, "the scattered-field side");
    sameSet(c, parents(s.getGlobalTFSFSubMesh()), all, "the neighbourhood");
    faithful(c, *s.getTFSubMesh(), m, "total-field side");
    faithful(c, *s.getSFSubMesh(), m, "scattered-field side");
    faithful(c, *s.getGlobalTFSFSubMesh(), m, "neighbourhood");
    if (!p.curve) {
        marked(c, *s.getTFSubMesh(), centres, (int)BdrCond::TotalFieldIn, "total-field side");
        marked(c, *s.getSFSubMesh(), centres, (int)BdrCond::TotalFieldIn, "scattered-field side");
    }
}

FACET(points, 60000, 200000, "one or two points of a line, also at its ends; other numbers are refused")
{
    const int n = c.range(1, 9);
    mfem::Mesh m(1, n + 1, n, n + 1, 1);
    double x = c.grid(-2, 2, 8);
    std::vector<double> xs;
    for (int i = 0; i <= n; i++) { m.AddVertex(x); xs.push_back(x); x += c.grid(0.1, 1, 9); }
    std::vector<int> at;
    for (int i = 0; i < n; i++) { at.push_back(c.range(1, 4)); m.AddSegment(i, i + 1, at[i]); }
    int k = c.flip(1, 6) ? c.range(3, 5) : c.flip(1, 12) ? 0 : c.range(1, 2);
    std::set<int> pts;
    std::vector<int> left;
    for (int v = 0; v <= n; v++) left.push_back(v);
    for (int i = 0; i < std::min(k, n + 1); i++) {
        const int j = (int)c.below(left.size());
        pts.insert(left[j]);
        left.erase(left.begin() + j);
    }
    std::vector<int> list(pts.begin(), pts.end());
    // the ends carry their own tags unless they belong to the surface
    std::vector<std::pair<int, int>> b;
    for (int v : { 0, n }) if (!pts.count(v)) b.push_back({ v, c.range(1, 2) });
    for (int v : list) b.push_back({ v, 3 });
    for (auto& [v, t] : b) m.AddBdrPoint(v, t);
    m.FinalizeTopology(false);
    m.Finalize();
    mfem::Array<int> marker(3);
    marker = 0;
    marker[2] = 1;
    c.note() << n << " segments, points";
    for (int v : list) c.note() << " " << v;
    c.label(pbt::cat(list.size(), "points"));
    c.nontrivial(n > 2 && !list.empty());
    if (list.size() != 1 && list.size() != 2) {
        bool refused = false;
        try { TotalFieldScatteredFieldSubMesher s(m, marker); }
        catch (const std::exception&) { refused = true; }
        c.expect(refused, pbt::cat(list.size(), " points were accepted"));
        return;
    }
    std::set<int> tf, sf;
    for (size_t i = 0; i < list.size(); i++) {
        int v = list[i];
        bool right = i == 0;   // the total field lies to the right of the first point and to the left of the second
        if (v == 0) { if (i == 0) tf.insert(0); }
        else if (v == n) { tf.insert(n - 1); }
        else { (right ? sf : tf).insert(v - 1); (right ? tf : sf).insert(v); }
    }
    // a single segment between a total-field and a scattered-field point has no side of its own
    for (int e : tf) if (sf.count(e)) c.discard();
    // the right end as the first of two points does not occur
    auto before = attributes(m);
    TotalFieldScatteredFieldSubMesher s(m, marker);
    c.expect(attributes(m) == before, "the mesh itself was changed");
    std::set<int> all = tf;
    all.insert(sf.begin(), sf.end());
    sameSet(c, parents(s.getTFSubMesh()), tf, "the total-field side");
    sameSet(c, parents(s.getSFSubMesh()), sf, "the scattered-field side");
    sameSet(c, parents(s.getGlobalTFSFSubMesh()), all, "the neighbourhood");
    if (s.getTFSubMesh()) faithful(c, *s.getTFSubMesh(), m, "total-field side");
    if (s.getSFSubMesh()) faithful(c, *s.getSFSubMesh(), m, "scattered-field side");
    c.expect(bool(s.getGlobalTFSFSubMesh()), "no neighbourhood");
    faithful(c, *s.getGlobalTFSFSubMesh(), m, "neighbourhood");
}

FACET(near_field, 60000, 200000, "the layer of elements kept for near-to-far-field surfaces: the lower-numbered side of every face")
{
    ProbOpts o;
    o.maxElems = 30;
    o.types = "tqTH";
    Prob p = randomProblem(c, o);
    std::vector<char> side;
    int tag = addTotalField(c, p, side, false, true);
    auto m = p.mesh();
    c.note() << p.text();
    mfem::Array<int> marker(m.bdr_attributes.Max());
    marker = 0;
    marker[tag - 1] = 1;
    std::set<int> want;
    std::multiset<int> faceOwners;
    std::vector<P3> centres;
    auto faces = p.g.faces();
    for (size_t i = 0; i < p.g.bd.size(); i++) if (p.g.ba[i] == tag) {
        auto k = p.g.bd[i];
        centres.push_back(p.g.centroid(k));
        std::sort(k.begin(), k.end());
        auto& f = faces[k];
        int e = std::min(f.els[0], f.els[1]);
        want.insert(e);
        faceOwners.insert(e);
    }
    c.nontrivial(centres.size() > 1);
    mfem::ParMesh pm(MPI_COMM_SELF, m);
    mfem::DG_FECollection fec(1, m.Dimension());
    mfem::ParFiniteElementSpace fes(&pm, &fec);
    auto before = attributes(pm);
    NearToFarFieldSubMesher s(pm, fes, marker);
    c.expect(attributes(pm) == before, "the mesh itself was changed");
    sameSet(c, parents(s.getSubMesh()), want, "the near-field layer");
    faithful(c, *s.getSubMesh(), m, "near-field layer");
    marked(c, *s.getSubMesh(), centres, (int)BdrCond::NearToFarField, "near-field layer");
    std::multiset<int> got;
    for (auto& [e, f] : s.getEl2Face()) got.insert(e);
    c.expect(got == faceOwners, "the list of faces does not match the surface");
}

PBT_MAIN(pbt::info().rule = "the surface has more than one face and does not touch every element; on lines, more than two segments";
         pbt::info().assumptions = { "MFEM's meshes and sub-meshes are replaced by the stand-in in shim/" })
