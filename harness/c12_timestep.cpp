// USES: SOLVER DRIVER
#include "ref.h"
#include <Eigen/Dense>
#include <Eigen/Eigenvalues>
using namespace gen;

static double automatic(const Prob& p, EvolutionOperatorType op, double cfl)
{
    auto so = p.options(op);
    so.setTimeStep(0.0).setCFL(cfl);
    maxwell::Solver s(p.model(), Probes(), Sources(), so);
    return s.getTimeStep();
}

static EvolutionOperatorType anyOperator(pbt::Case& c, ProbOpts& o)
{
    int k = (int)c.below(5);
    if (k == 3) { o.types = "stqT"; c.label("perterm"); return EvolutionOperatorType::Maxwell; }
    if (k == 4) { o.types = "tT"; o.materials = false; c.label("elementwise"); return Hesthaven; }
    c.label("assembled");
    return Global;
}

FACET(scaling, 800, 20000, "proportional to the CFL factor and the mesh size, unchanged by renumbering and rigid motion, smaller for higher orders and for squeezed meshes")
{
    ProbOpts o;
    o.maxElems = 12;
    o.interiors = false;
    auto op = anyOperator(c, o);
    o.warpQuads = false;
    o.renumber = false;
    Prob p = randomProblem(c, o);
    if (op == Hesthaven) p.basis = mfem::BasisType::GaussLobatto;
    double cfl = c.grid(0.05, 1, 19), other = c.grid(0.05, 1, 19);
    c.note() << p.text() << " cfl " << cfl;
    double dt = automatic(p, op, cfl);
    c.expect(std::isfinite(dt) && dt > 0, pbt::cat("step ", dt));
    c.close(automatic(p, op, other), dt * other / cfl, 1e-9, 0, "step at another CFL factor");
    double f = c.logreal(1e-3, 1e3);
    Prob q = p;
    for (auto& v : q.g.v) for (auto& x : v) x *= f;
    c.close(automatic(q, op, cfl), dt * f, 1e-7, 0, pbt::cat("step on a mesh scaled by ", f));
    // moved and renumbered
    q = p;
    auto R = p.g.dim == 3 ? randomRotation(c) : p.g.dim == 2 ? rotationZ(c.real(-M_PI, M_PI)) : rotationZ(0);
    P3 sh{ c.real(-3, 3), p.g.dim > 1 ? c.real(-3, 3) : 0.0, p.g.dim > 2 ? c.real(-3, 3) : 0.0 };
    for (auto& v : q.g.v) { v = rotated(R, v); for (int d = 0; d < 3; d++) v[d] += sh[d]; }
    auto pe = c.permutation((int)q.g.el.size());
    for (size_t i = 0; i < pe.size(); i++) { q.g.el[pe[i]] = p.g.el[i]; q.g.ea[pe[i]] = p.g.ea[i]; }
    if (q.g.dim > 1) for (auto& e : q.g.el) turn(c, q.g.type, e);
    c.close(automatic(q, op, cfl), dt, 1e-7, 0, "step on the moved and renumbered mesh");
    // squeezed along one axis
    q = p;
    int ax = (int)c.below(p.g.dim);
    double sq = c.grid(0.2, 1, 8);
    for (auto& v : q.g.v) v[ax] *= sq;
    double s = automatic(q, op, cfl);
    c.expect(s <= dt * (1 + 1e-7), pbt::cat("squeezing axis ", ax, " by ", sq, " raised the step from ", dt, " to ", s));
    // one order higher
    q = p;
    q.order++;
    s = automatic(q, op, cfl);
    c.expect(s <= dt * (1 + 1e-7), pbt::cat("order ", q.order, " raised the step from ", dt, " to ", s));
    c.nontrivial(p.g.el.size() > 1);
    c.count(6);
}

FACET(stability, 350, 8000, "growth of the explicit integrator's step matrix with the automatic step: none over many steps, for all states at once")
{
    ProbOpts o;
    o.maxElems = 8;
    auto op = anyOperator(c, o);
    Prob p = randomProblem(c, o);
    if (op == Hesthaven) p.basis = mfem::BasisType::GaussLobatto;
    if (p.g.dim == 3) p.order = std::min(p.order, p.g.type == 'H' || p.g.el.size() > 6 ? 1 : 2);
    // The whole documented range in one dimension. In two and three the step is an undocumented heuristic
    // that is too large near one, so that stability is claimed up to one half only.
    double top = p.g.dim == 1 ? 1 : 0.5, cfl = c.flip(2, 3) ? top : c.grid(0.1 * top, top, 9);
    if (op == Hesthaven && p.g.type == 'T') p.order = std::max(2, p.order);
    c.note() << p.text() << " cfl " << cfl;
    auto so = p.options(op);
    so.setTimeStep(0.0).setCFL(cfl).setFinalTime(1e9);
    maxwell::Solver s(p.model(), Probes(), Sources(), so);
    const int n = 6 * s.getFES().GetNDofs();
    if (n > 420) c.discard();
    Eigen::MatrixXd A(n, n);
    mfem::Vector e(n), y(n);
    for (int j = 0; j < n; j++) { e = 0.0; e[j] = 1; s.getEvolTDO()->Mult(e, y); for (int i = 0; i < n; i++) A(i, j) = y[i]; }
    Eigen::MatrixXd Z = s.getTimeStep() * A, P = Eigen::MatrixXd::Identity(n, n), M = P;
    for (int k = 1; k <= 4; k++) { P = (P * Z / k).eval(); M += P; }
    // the matrix is what a step does
    auto x = randomState(c, n);
    s.getFields().allDOFs() = x;
    s.step();
    Eigen::VectorXd v(n);
    for (int i = 0; i < n; i++) v[i] = x[i];
    v = M * v;
    for (int i = 0; i < n; i++) e[i] = v[i];
    sameVector(c, s.getFields().allDOFs(), e, 1e-9, 1, "one step");
    // energy of many steps: 2^14 of them
    ref::DG dg(p, s.getFES());
    // listed as a finding: first order in one dimension with a CFL factor above one half
    std::string key = p.g.dim == 1 && p.order == 1 && cfl > 0.5 ? "segments-first-order-cfl-above-0.5" : "";
    auto grows = [&](const std::string& m) { c.nontrivial(p.g.el.size() > 1); if (key.empty()) c.fail(m); c.known(key, m); };
    auto Q = M;
    for (int k = 0; k < 14; k++) {
        Q = (Q * Q).eval();
        if (!Q.allFinite()) { grows(pbt::cat("the fields overflow within ", 1 << (k + 1), " steps")); return; }
    }
    double e0 = dg.energy(x), worst = 0;
    for (int k = 0; k < 12; k++) {
        auto u = randomState(c, n);
        for (int i = 0; i < n; i++) v[i] = u[i];
        v = Q * v;
        mfem::Vector w(n);
        for (int i = 0; i < n; i++) w[i] = v[i];
        worst = std::max(worst, dg.energy(w) / std::max(1e-300, dg.energy(u)));
    }
    if (!(worst <= 1 + 1e-6)) grows(pbt::cat("energy grew by a factor ", worst, " over 16384 steps of ", s.getTimeStep()));
    c.nontrivial(e0 > 0 && p.g.el.size() > 1);
    c.count(12);
}

PBT_MAIN(pbt::info().rule = "meshes of at least two elements";
         pbt::info().assumptions = { "MFEM is replaced by the stand-in in shim/", "lossless materials: explicit steps are not limited by conductivity" })
