// USES: SOLVER DRIVER
#include "ref.h"
using namespace gen;

static void compare(pbt::Case& c, const Prob& p, double tol)
{
    auto s = makeSolver(p);
    auto& fes = s->getFES();
    ref::DG dg(p, fes);
    const int n = 6 * fes.GetNDofs();
    for (int k = 0; k < 2; k++) {
        auto x = randomState(c, n);
        mfem::Vector y(n);
        y = NAN;
        s->getEvolTDO()->Mult(x, y);
        auto want = dg.derivative(x);
        sameVector(c, y, want, tol, 0, "time derivative against the reference discretisation");
    }
}

FACET(reference, 1200, 40000, "time derivative against an independently written DG discretisation")
{
    ProbOpts o;
    o.losses = true;
    o.interior = 0.5;
    Prob p = randomProblem(c, o);
    c.note() << p.text();
    c.nontrivial(p.g.el.size() > 1);
    compare(c, p, 1e-9);
}

FACET(warped, 120, 5000, "the same on hexahedra with curved faces, for centered fluxes")
{
    // with upwinding the penalty is not a polynomial on such faces and quadrature is not exact
    ProbOpts o;
    o.types = "H";
    o.warpHexes = true;
    o.alphaHi = 0;
    o.sma = false;
    o.losses = true;
    o.maxElems = 6;
    Prob p = randomProblem(c, o);
    c.note() << p.text();
    c.nontrivial(!p.g.affine && p.g.el.size() > 1);
    compare(c, p, 1e-9);
}

// a continuous polynomial field of the discretisation order
struct Poly {
    std::vector<std::array<int, 3>> ex;
    std::array<std::vector<double>, 6> co;
    double val(int f, const P3& x, int d = -1) const
    {
        double s = 0;
        for (size_t a = 0; a < ex.size(); a++) {
            double r = co[f][a];
            for (int k = 0; k < 3; k++) {
                int e = ex[a][k];
                if (k == d) { r *= e; e--; }
                if (e < 0) { r = 0; break; }
                r *= std::pow(x[k], e);
            }
            s += r;
        }
        return s;
    }
};

FACET(polynomials, 700, 25000, "continuous polynomial fields: exact curls over permittivity and permeability, minus losses, away from boundaries")
{
    ProbOpts o;
    o.losses = true;
    o.interiors = false;
    o.maxElems = 40;
    o.rigid = true;
    o.warpQuads = false;
    Prob p = randomProblem(c, o);
    c.note() << p.text();
    auto s = makeSolver(p);
    auto& fes = s->getFES();
    const int n = fes.GetNDofs();
    auto pos = nodePositions(fes);
    Poly f;
    for (int k = 0; k <= (p.g.dim > 2 ? p.order : 0); k++)
        for (int j = 0; j <= (p.g.dim > 1 ? p.order : 0); j++)
            for (int i = 0; i <= p.order; i++) if (i + j + k <= p.order) f.ex.push_back({ i, j, k });
    for (auto& v : f.co) for (size_t a = 0; a < f.ex.size(); a++) v.push_back(c.grid(-1, 1, 8));
    mfem::Vector x(6 * n), y(6 * n);
    for (int q = 0; q < 6; q++) for (int i = 0; i < n; i++) x[q * n + i] = f.val(q, pos[i]);
    y = NAN;
    s->getEvolTDO()->Mult(x, y);
    // elements without an exterior face
    std::set<int> touching;
    mfem::Mesh& m = *fes.GetMesh();
    GMesh g = p.g;
    for (int e = 0; e < m.GetNE(); e++) { mfem::Array<int> v; m.GetElementVertices(e, v); g.el[e].assign(v.begin(), v.end()); }
    for (auto& [k, fc] : g.faces()) if (fc.els.size() == 1) touching.insert(fc.els[0]);
    double scale = std::max(1.0, maxAbs(x)) * 20;
    int inside = 0;
    for (int e = 0; e < m.GetNE(); e++) {
        if (touching.count(e)) continue;
        inside++;
        auto mt = p.mats.at(m.GetAttribute(e));
        mfem::Array<int> d;
        fes.GetElementDofs(e, d);
        for (int i = 0; i < d.Size(); i++)
            for (int q = 0; q < 3; q++) {
                int j = (q + 1) % 3, k = (q + 2) % 3;
                const P3& at = pos[d[i]];
                double cH = f.val(3 + k, at, j) - f.val(3 + j, at, k), cE = f.val(k, at, j) - f.val(j, at, k);
                c.close(y[q * n + d[i]], (cH - mt.sigma * f.val(q, at)) / mt.eps, 1e-8, 1e-8 * scale * (1 + mt.sigma), pbt::cat("dE/dt component ", q));
                c.close(y[(3 + q) * n + d[i]], -cE / mt.mu, 1e-8, 1e-8 * scale, pbt::cat("dH/dt component ", q));
            }
    }
    c.nontrivial(inside > 0);
    if (inside) c.label("has_inner_elements");
}

PBT_MAIN(pbt::info().rule = "meshes with more than one element; for polynomial fields at least one element away from the boundary";
         pbt::info().assumptions = { "MFEM is replaced by the stand-in in shim/" })
