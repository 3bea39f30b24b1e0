// USES: SOLVER DRIVER
#include "gen.h"
using namespace gen;

static P3 rot(const std::array<P3, 3>& R, const P3& v) { return rotated(R, v); }

FACET(renumber, 1000, 30000, "derivative after renumbering, relabelling, moving and turning the mesh")
{
    ProbOpts o;
    o.losses = true;
    o.interior = 0.5;
    o.warpHexes = true;
    o.renumber = false;
    Prob p = randomProblem(c, o);
    Prob q = p;
    auto& g = q.g;
    // renumber
    auto pe = c.permutation((int)g.el.size());
    auto pv = c.permutation((int)g.v.size());
    auto pb = c.permutation((int)g.bd.size());
    for (size_t i = 0; i < p.g.v.size(); i++) g.v[pv[i]] = p.g.v[i];
    for (size_t i = 0; i < p.g.el.size(); i++) {
        auto e = p.g.el[i];
        for (auto& k : e) k = pv[k];
        if (g.dim > 1) turn(c, g.type, e);
        g.el[pe[i]] = e;
        g.ea[pe[i]] = p.g.ea[i];
    }
    for (size_t i = 0; i < p.g.bd.size(); i++) {
        auto e = p.g.bd[i];
        for (auto& k : e) k = pv[k];
        if (g.dim == 3) std::rotate(e.begin(), e.begin() + c.range(0, (int)e.size() - 1), e.end());
        if (g.dim > 1 && c.flip()) std::reverse(e.begin(), e.end());
        g.bd[pb[i]] = e;
        g.ba[pb[i]] = p.g.ba[i];
    }
    // move
    bool turnIt = c.flip(2, 3);
    auto R = !turnIt ? rotationZ(0) : g.dim == 3 ? randomRotation(c) : g.dim == 2 ? rotationZ(c.real(-M_PI, M_PI)) : rotationZ(0);
    P3 s{ c.real(-3, 3), g.dim > 1 ? c.real(-3, 3) : 0.0, g.dim > 2 ? c.real(-3, 3) : 0.0 };
    if (c.flip(1, 3)) s = { 0, 0, 0 };
    for (auto& v : g.v) { v = rot(R, v); for (int d = 0; d < 3; d++) v[d] += s[d]; }
    // in one dimension the transverse plane may turn
    auto F = R;
    if (g.dim == 1 && turnIt) { double a = c.real(-M_PI, M_PI); F = { P3{ 1, 0, 0 }, P3{ 0, cos(a), -sin(a) }, P3{ 0, sin(a), cos(a) } }; }
    c.note() << p.text() << " shift " << s[0] << "," << s[1] << "," << s[2] << (turnIt ? " turned" : "");
    c.nontrivial(p.g.el.size() > 1);

    auto A = makeSolver(p), B = makeSolver(q);
    auto &fa = A->getFES(), &fb = B->getFES();
    const int n = fa.GetNDofs();
    c.expect(n == fb.GetNDofs(), "number of unknowns changed");
    auto xa = nodePositions(fa), xb = nodePositions(fb);
    std::vector<int> match(n, -1);
    for (int e = 0; e < fa.GetNE(); e++) {
        mfem::Array<int> da, db;
        fa.GetElementDofs(e, da);
        fb.GetElementDofs(pe[e], db);
        for (int i : da) {
            P3 want = rot(R, xa[i]);
            for (int d = 0; d < 3; d++) want[d] += s[d];
            double best = 1e300;
            for (int j : db) {
                double r = 0;
                for (int d = 0; d < 3; d++) r += std::pow(xb[j][d] - want[d], 2);
                if (r < best) { best = r; match[i] = j; }
            }
            c.expect(best < 1e-20, "no node at the moved position");
        }
    }
    auto map = [&](const mfem::Vector& x) {
        mfem::Vector y(6 * n);
        for (int i = 0; i < n; i++)
            for (int f = 0; f < 6; f += 3) {
                P3 v = rot(F, { x[f * n + i], x[(f + 1) * n + i], x[(f + 2) * n + i] });
                for (int d = 0; d < 3; d++) y[(f + d) * n + match[i]] = v[d];
            }
        return y;
    };
    auto x = randomState(c, 6 * n);
    mfem::Vector ya(6 * n), yb(6 * n);
    ya = NAN; yb = NAN;
    A->getEvolTDO()->Mult(x, ya);
    B->getEvolTDO()->Mult(map(x), yb);
    // faces of warped hexahedra are integrated along directions that depend on the labelling
    sameVector(c, yb, map(ya), p.g.type == 'H' && !p.g.affine && p.alpha > 0 ? 1e-9 : 1e-10, 0, "derivative after renumbering and moving");
}

FACET(split, 250, 6000, "cutting a segment mesh's coordinate at any place: shared faces give the same whichever element comes first")
{
    // two elements, both orders of listing, all boundary conditions
    ProbOpts o;
    o.losses = true;
    o.maxElems = 12;
    o.interior = 1;
    o.renumber = false;
    Prob p = randomProblem(c, o), q = p;
    const int ne = (int)p.g.el.size();
    for (int i = 0; i < ne; i++) { q.g.el[ne - 1 - i] = p.g.el[i]; q.g.ea[ne - 1 - i] = p.g.ea[i]; }
    c.note() << p.text();
    c.nontrivial(ne > 1);
    auto A = makeSolver(p), B = makeSolver(q);
    auto &fa = A->getFES(), &fb = B->getFES();
    const int n = fa.GetNDofs();
    auto x = randomState(c, 6 * n);
    mfem::Vector z(6 * n), ya(6 * n), yb(6 * n), back(6 * n);
    std::vector<int> match(n);
    for (int e = 0; e < ne; e++) {
        mfem::Array<int> da, db;
        fa.GetElementDofs(e, da);
        fb.GetElementDofs(ne - 1 - e, db);
        for (int i = 0; i < da.Size(); i++) match[da[i]] = db[i];
    }
    for (int f = 0; f < 6; f++) for (int i = 0; i < n; i++) z[f * n + match[i]] = x[f * n + i];
    ya = NAN; yb = NAN;
    A->getEvolTDO()->Mult(x, ya);
    B->getEvolTDO()->Mult(z, yb);
    for (int f = 0; f < 6; f++) for (int i = 0; i < n; i++) back[f * n + i] = yb[f * n + match[i]];
    sameVector(c, back, ya, 1e-10, 0, "derivative after reversing the element list");
}

PBT_MAIN(pbt::info().rule = "meshes with more than one element";
         pbt::info().assumptions = { "MFEM is replaced by the stand-in in shim/" })
