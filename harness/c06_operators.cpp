// USES: SOLVER DRIVER
#include "gen.h"
using namespace gen;

static void compare(pbt::Case& c, const Prob& p, EvolutionOperatorType op, double tol)
{
    auto a = makeSolver(p, Global), b = makeSolver(p, op);
    const int n = 6 * a->getFES().GetNDofs();
    c.expect(6 * b->getFES().GetNDofs() == n, "different numbers of unknowns");
    for (int k = 0; k < 2; k++) {
        auto x = randomState(c, n);
        mfem::Vector y(n), z(n);
        y = NAN; z = NAN;
        a->getEvolTDO()->Mult(x, y);
        b->getEvolTDO()->Mult(x, z);
        sameVector(c, z, y, tol, 0, "time derivative of the other operator");
    }
}

FACET(perterm, 600, 15000, "per-term against assembled operator: lossless materials, all boundary conditions")
{
    ProbOpts o;
    o.interior = 0.5;
    o.warpHexes = true;
    Prob p = randomProblem(c, o);
    c.note() << p.text();
    c.nontrivial(p.g.el.size() > 1);
    compare(c, p, EvolutionOperatorType::Maxwell, 1e-10);
}

FACET(elementwise, 1000, 25000, "element-wise against assembled operator: vacuum, straight triangles and tetrahedra")
{
    ProbOpts o;
    o.types = "tT";
    o.materials = false;
    o.interior = 0.5;
    Prob p = randomProblem(c, o);
    p.basis = mfem::BasisType::GaussLobatto;
    // several regions, all of vacuum
    if (c.flip()) { int t = c.range(2, 4); p.mats[t] = Mat(); for (auto& a : p.g.ea) if (c.flip()) a = t; }
    c.note() << p.text();
    c.nontrivial(p.g.el.size() > 1);
    compare(c, p, Hesthaven, 1e-10);
}

FACET(curved, 200, 5000, "element-wise against assembled operator with some curved elements, no interior conductors")
{
    ProbOpts o;
    o.types = "tT";
    o.materials = false;
    o.interiors = false;
    o.maxElems = 14;
    Prob p = randomProblem(c, o);
    p.basis = mfem::BasisType::GaussLobatto;
    p.order = std::max(2, p.order);
    p.curve = 2;
    double a = c.grid(-0.15, 0.15, 8), x0 = c.real(-1, 1);
    int axis = c.range(0, p.g.dim - 1);
    // bends only what lies beyond a plane
    p.bend = [=](const mfem::Vector& x, mfem::Vector& y) { y = x; double t = std::max(0.0, x[axis] - x0); y[(axis + 1) % x.Size()] += a * t * t; };
    c.note() << p.text() << " bend " << a << " beyond " << x0;
    // elements count as curved when a node moves by more than a set tolerance; leave out those close to it
    Prob q = p;
    q.curve = 0;
    auto A = makeSolver(p), B = makeSolver(q);
    auto xa = nodePositions(A->getFES());
    int curved = 0;
    for (int e = 0; e < A->getFES().GetNE(); e++) {
        mfem::Array<int> d;
        A->getFES().GetElementDofs(e, d);
        auto bent = [&](const P3& x) { mfem::Vector u(p.g.dim), v(p.g.dim); for (int k = 0; k < p.g.dim; k++) u[k] = x[k]; p.bend(u, v); P3 r{ 0, 0, 0 }; for (int k = 0; k < p.g.dim; k++) r[k] = v[k]; return r; };
        // straight element through the bent vertices, evaluated at the nodes of the straight one
        mfem::Array<int> vs;
        B->getFES().GetMesh()->GetElementVertices(e, vs);
        auto& ir = B->getFES().GetFE(e)->GetNodes();
        double dev = 0;
        for (int i = 0; i < d.Size(); i++) {
            auto& ip = ir.IntPoint(i);
            double w[4] = { 1 - ip.x - ip.y - (p.g.dim > 2 ? ip.z : 0), ip.x, ip.y, ip.z };
            P3 lin{ 0, 0, 0 };
            for (int k = 0; k <= p.g.dim; k++) {
                P3 v{ 0, 0, 0 };
                for (int m = 0; m < p.g.dim; m++) v[m] = B->getFES().GetMesh()->GetVertex(vs[k])[m];
                v = bent(v);
                for (int m = 0; m < 3; m++) lin[m] += w[k] * v[m];
            }
            for (int m = 0; m < 3; m++) dev = std::max(dev, std::abs(lin[m] - xa[d[i]][m]));
        }
        if (dev > 1e-10 && dev < 5e-5) c.discard();
        curved += dev >= 5e-5;
    }
    c.label(curved == 0 ? "all_straight" : curved == (int)p.g.el.size() ? "all_curved" : "some_curved");
    c.nontrivial(curved > 0);
    compare(c, p, Hesthaven, 1e-9);
}

PBT_MAIN(pbt::info().rule = "meshes with more than one element";
         pbt::info().assumptions = { "MFEM is replaced by the stand-in in shim/" })
