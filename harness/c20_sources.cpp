// USES: SOLVER DRIVER
#include "casefile.h"
#include "spmd.hpp"
#include <mutex>
using namespace gen;
using namespace casefile;

static const double C = 299792458.0;
static P3 cross(const P3& a, const P3& b) { return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; }
static double dot(const P3& a, const P3& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static P3 scaled(const P3& a, double s) { return { a[0] * s, a[1] * s, a[2] * s }; }
static P3 unit(const P3& a) { return scaled(a, 1 / std::sqrt(dot(a, a))); }

/// A described source and the field it stands for, written from the README and the textbook formulas.
struct Described {
    json entry;
    int need = 1;                                            // components a position must have
    bool singular = false;                                   // not to be evaluated at the origin
    std::function<P3(bool electric, const P3& x, double t)> field;
};

static json vec(pbt::Case& c, const P3& v)
{
    // trailing zeros may be left out
    int n = 3;
    while (n > 1 && v[n - 1] == 0 && c.flip()) n--;
    json j = json::array();
    for (int i = 0; i < n; i++) {
        if (v[i] == std::floor(v[i]) && c.flip()) j.push_back((int)v[i]);
        else j.push_back(v[i]);
    }
    return j;
}
static P3 direction(pbt::Case& c)
{
    P3 v{ 0, 0, 0 };
    if (c.flip()) v[c.below(3)] = c.sign();
    else if (c.flip(1, 3)) { int k = (int)c.below(3); v[k] = c.grid(0.2, 2, 9) * c.sign(); v[(k + 1) % 3] = c.grid(0.2, 2, 9) * c.sign(); }
    else for (auto& x : v) x = c.grid(0.1, 2, 19) * c.sign();
    return v;
}
static P3 normalTo(pbt::Case& c, const P3& k)
{
    P3 p = cross(k, direction(c));
    if (dot(p, p) < 1e-2 * dot(k, k)) { p = cross(k, { k[1] + 1, -k[2], k[0] }); if (dot(p, p) < 1e-4) p = cross(k, { 0.3, 1, -0.7 }); }
    if (dot(p, p) < 1e-4) c.discard();
    return p;
}

static Described initial(pbt::Case& c)
{
    Described d;
    const bool electric = c.flip();
    const P3 pol = unit(direction(c));
    d.entry["type"] = "initial";
    d.entry["field_type"] = electric ? "electric" : "magnetic";
    d.entry["polarization"] = vec(c, pol);
    std::function<double(const P3&)> f;
    switch (c.below(4)) {
    case 0: {
        const int dim = c.range(1, 3), given = c.range(1, 3);
        const double s = c.logreal(0.05, 3);
        P3 at{ 0, 0, 0 };
        json center = json::array();
        for (int i = 0; i < given; i++) { at[i] = c.grid(-1, 1, 20); center.push_back(at[i]); }
        d.entry["magnitude"] = { { "type", "gaussian" }, { "spread", s } };
        d.entry["center"] = center;
        d.entry["dimension"] = dim;
        d.need = dim;
        f = [=](const P3& x) { double r = 0; for (int i = 0; i < dim; i++) r += std::pow(x[i] - at[i], 2); return std::exp(-r / (2 * s * s)); };
        c.label("gaussian");
        break;
    }
    case 1: {
        const int dim = c.range(1, 3);
        std::vector<int> m(dim);
        for (auto& v : m) v = c.range(0, 6);
        d.entry["magnitude"] = { { "type", "resonant" }, { "modes", m } };
        d.need = dim;
        f = [=](const P3& x) { double r = 1; for (int i = 0; i < dim; i++) r *= std::sin(M_PI * m[i] * x[i]); return r; };
        c.label("resonant");
        break;
    }
    case 2:
        d.entry["magnitude"] = { { "type", "besselj6_2D" } };
        d.need = 2;
        // vanishes on the unit circle: the second zero of the Bessel function of order six
        f = [](const P3& x) { return std::cyl_bessel_j(6.0, 13.589290170541217 * std::hypot(x[0], x[1])) * std::cos(6 * std::atan2(x[1], x[0])); };
        c.label("bessel2");
        break;
    default:
        d.entry["magnitude"] = { { "type", "besselj6_3D" } };
        d.need = 3;
        f = [](const P3& x) {
            double r = std::sqrt(dot(x, x));
            if (r == 0) return 0.0;
            return std::sph_bessel(6, 13.589290170541217 * r) * std::sph_legendre(6, 6, std::acos(x[2] / r)) * std::cos(6 * std::atan2(x[1], x[0]));
        };
        c.label("bessel3");
    }
    d.field = [=](bool e, const P3& x, double) { return e == electric ? scaled(pol, f(x)) : P3{ 0, 0, 0 }; };
    return d;
}

static Described planewave(pbt::Case& c, bool delay = true)
{
    Described d;
    const P3 k = direction(c), pol = normalTo(c, k), K = unit(k), Q = unit(pol);
    const double s = c.logreal(0.05, 3);
    d.entry["type"] = "planewave";
    d.entry["polarization"] = vec(c, pol);
    d.entry["propagation"] = vec(c, k);
    d.entry["magnitude"]["spread"] = s;
    if (c.flip()) d.entry["magnitude"]["type"] = "gaussian";   // written in the examples, without effect
    d.entry["tags"] = { 1 };
    double m = 0, f = 0;
    if (delay) {
        P3 mean{ 0, 0, 0 };
        json j = json::array();
        for (int n = c.range(1, 3), i = 0; i < n; i++) { mean[i] = c.grid(-3, 3, 30); j.push_back(mean[i]); }
        m = dot(mean, K);
        d.entry["magnitude"]["mean"] = j;
    }
    if (c.flip(1, 3)) { f = c.logreal(1e7, 2e9); d.entry["magnitude"]["frequency"] = f; }
    c.label(f ? "modulated" : "planewave");
    d.field = [=](bool e, const P3& x, double t) {
        double u = dot(K, x) - t - m;
        return scaled(e ? Q : cross(K, Q), std::exp(-u * u / (2 * s * s)) * std::cos(2 * M_PI * f / C * u));
    };
    return d;
}

static Described dipole(pbt::Case& c, double mean, bool given)
{
    Described d;
    const double l = c.logreal(0.01, 2), s = c.logreal(0.1, 2);
    if (!given) mean = 5 * std::sqrt(2.0) * s;
    d.entry["type"] = "dipole";
    d.entry["magnitude"] = { { "length", l }, { "spread", s } };
    if (given) d.entry["magnitude"]["mean"] = mean;
    d.entry["tags"] = { 1 };
    d.need = 3;
    d.singular = true;
    c.label("dipole");
    d.field = [=](bool e, const P3& x, double t) {
        // a short current element along z with moment l g(t), g(u) = s e exp(-u^2/2s^2) / sqrt 2
        const double r = std::sqrt(dot(x, x)), u = t - mean - r, a = s * std::exp(1.0) / std::sqrt(2.0);
        const double g = a * std::exp(-u * u / (2 * s * s)), g1 = -u / (s * s) * g, g2 = (u * u / (s * s * s * s) - 1 / (s * s)) * g;
        const P3 n = scaled(x, 1 / r), z{ 0, 0, 1 };
        P3 res{ 0, 0, 0 };
        if (e) for (int i = 0; i < 3; i++)
            res[i] = l / (4 * M_PI) * ((3 * n[i] * n[2] - z[i]) * (g / (r * r * r) + g1 / (r * r)) + (n[i] * n[2] - z[i]) * g2 / r);
        else res = scaled(cross(z, n), l / (4 * M_PI) * (g2 / r + g1 / (r * r)));
        return res;
    };
    return d;
}

static mfem::Vector position(const P3& x, int n)
{
    mfem::Vector v(n);
    for (int i = 0; i < n; i++) v[i] = x[i];
    return v;
}

FACET(fields, 100000, 1000000, "one to four entries of every kind, sampled at random points and times")
{
    const int n = c.range(1, 4);
    std::vector<Described> d;
    json j;
    j["sources"] = json::array();
    for (int i = 0; i < n; i++) {
        switch (c.below(3)) {
        case 0: d.push_back(initial(c)); break;
        case 1: d.push_back(planewave(c)); break;
        default: d.push_back(dipole(c, c.grid(-2, 6, 32), c.flip(3, 4)));
        }
        j["sources"].push_back(d.back().entry);
    }
    c.note() << j.dump();
    c.nontrivial();
    Sources s = driver::buildSources(j);
    c.expect(std::distance(s.begin(), s.end()) == n, pbt::cat(std::distance(s.begin(), s.end()), " sources from ", n, " entries"));
    int i = 0;
    for (auto& src : s) {
        for (int rep = 0; rep < 4; rep++) {
            const int comps = c.range(d[i].need, 3);
            P3 x{ 0, 0, 0 };
            for (int k = 0; k < comps; k++) x[k] = rep == 0 && !d[i].singular ? (double)c.range(-1, 1) : c.real(-1.5, 1.5);
            if (d[i].singular && dot(x, x) < 0.02) x[(int)c.below(3)] = 0.5;
            const double t = c.grid(0, 4, 40);
            for (bool e : { true, false }) {
                P3 w = d[i].field(e, x, t);
                for (int q = 0; q < 3; q++) {
                    double got = src->eval(position(x, comps), t, e ? E : H, q);
                    c.close(got, w[q], 1e-9, 1e-11, pbt::cat(e ? "E" : "H", q, " of source ", i, " at (", x[0], ",", x[1], ",", x[2], ") t ", t));
                }
            }
        }
        i++;
    }
}

FACET(delay, 12000, 100000, "plane waves and dipoles without a delay are negligible on their surface when the run starts, on every process")
{
    ProbOpts o;
    o.maxElems = 24;
    Prob p = randomProblem(c, o);
    std::vector<char> side;
    const int tag = addTotalField(c, p, side);
    const bool wave = p.g.dim < 3 || c.flip();
    Described d = wave ? planewave(c, false) : dipole(c, 0, false);
    // short pulses on large elements are the difficult ones
    const double s = d.entry["magnitude"]["spread"];
    d.entry["tags"] = { tag };
    if (c.flip(1, 3)) d.entry["tags"].insert(d.entry["tags"].begin(), tag + 7);
    json j;
    j["sources"] = { d.entry };
    c.note() << p.text() << " " << d.entry.dump();
    c.nontrivial();
    const int ranks = c.flip() ? 1 : c.range(2, 3);
    std::vector<int> part(p.g.el.size());
    for (auto& r : part) r = (int)c.below(ranks);
    if (ranks > 1) {
        // the driver keeps the surface on one process
        for (auto& [k, f] : p.g.faces()) for (size_t b = 0; b < p.g.bd.size(); b++) {
            auto w = p.g.bd[b];
            std::sort(w.begin(), w.end());
            auto key = std::vector<int>(k.begin(), k.end());
            std::sort(key.begin(), key.end());
            if (p.g.ba[b] == tag && key == w) for (int e : f.els) part[e] = 0;
        }
    }
    std::vector<P3> at;
    for (size_t b = 0; b < p.g.bd.size(); b++) if (p.g.ba[b] == tag) {
        if (wave) for (int v : p.g.bd[b]) at.push_back(p.g.v[v]);
        else at.push_back(p.g.centroid(p.g.bd[b]));
    }
    std::mutex lock;
    spmd::run(ranks, [&](int) {
        mfem::Mesh mesh = p.mesh();
        std::vector<int> mine = part;
        mfem::ParMesh pm(MPI_COMM_WORLD, mesh, ranks > 1 ? mine.data() : nullptr);
        Sources src = driver::buildSources(j, &pm);
        std::lock_guard<std::mutex> hold(lock);
        for (auto& x : at) {
            double peak = 0, now = 0;
            auto size = [&](double t) { double e = 0; for (int q = 0; q < 3; q++) e = std::max(e, std::fabs((*src.begin())->eval(position(x, p.g.dim), t, E, q))); return e; };
            now = size(0);
            for (double t = -4 * s; t < 24 * s; t += 0.2 * s) { double v = size(t); if (v > peak) peak = v; }
            if (wave) peak = 1;
            // five standard deviations times the square root of two: exp(-25), and a polynomial in front for dipoles
            c.expect(now <= (wave ? 2e-11 : 1e-7 * peak), pbt::cat("the field on the surface at (", x[0], ",", x[1], ",", x[2], ") starts at ", now, " of a peak of ", peak));
        }
        if (wave) {
            // it does arrive, and soon: the first point of the surface sees the pulse within ten standard deviations
            double best = 0;
            for (auto& x : at) for (double t = 5 * s; t < 10 * s; t += 0.05 * s) for (int q = 0; q < 3; q++) best = std::max(best, std::fabs((*src.begin())->eval(position(x, p.g.dim), t, E, q)));
            c.expect(best > 0.1, pbt::cat("the wave has not reached its surface after ten standard deviations: ", best));
        }
    });
    c.label(pbt::cat(ranks, "ranks"));
}

FACET(injected, 3000, 20000, "a case file with a plane wave or dipole drives the solver like the same sources added by hand")
{
    ProbOpts o;
    o.maxElems = 14;
    Prob p = randomProblem(c, o);
    std::vector<char> side;
    const int tag = addTotalField(c, p, side);
    json j;
    j["model"] = plainModel(p.g, "box.msh", "PEC");
    j["model"]["materials"] = json::array();
    std::set<int> used(p.g.ea.begin(), p.g.ea.end());
    for (auto& [t, m] : p.mats) if (used.count(t)) j["model"]["materials"].push_back({ { "tags", { t } }, { "relative_permittivity", m.eps }, { "relative_permeability", m.mu } });
    for (auto& [t, m] : p.mats) m.sigma = 0;
    j["model"]["boundaries"] = json::array();
    auto name = [](BdrCond b) { return b == BdrCond::PEC ? "PEC" : b == BdrCond::PMC ? "PMC" : "SMA"; };
    for (auto* l : { &p.bdr, &p.ibdr }) for (auto& [t, b] : *l) if (b != BdrCond::TotalFieldIn) j["model"]["boundaries"].push_back({ { "tags", { t } }, { "type", name(b) } });
    const bool far = p.g.dim == 3 && c.flip(1, 3);
    std::vector<Described> d;
    for (int n = c.range(1, 2), i = 0; i < n; i++) {
        d.push_back(far ? dipole(c, c.grid(-2, 2, 8), true) : planewave(c));
        d.back().entry["tags"] = { tag };
        j["sources"].push_back(d.back().entry);
    }
    j["solver_options"] = { { "order", p.order }, { "upwind_alpha", p.alpha }, { "basis_type", p.basis }, { "time_step", 1e-3 } };
    const bool perTerm = c.flip(1, 5);
    j["solver_options"]["evolution_operator"] = perTerm ? "maxwell" : "global";
    std::filesystem::remove_all("w");
    spill("w/box/box.msh", gmsh(p.g));
    spill("w/box/box.json", j.dump());
    c.note() << p.text() << " " << j.dump();
    c.nontrivial();
    auto read = driver::buildSolverJson("w/box/box.json", false);
    struct Wrapped : EHFieldFunction {
        Described d;
        Wrapped(const Described& x) : d(x) {}
        std::unique_ptr<EHFieldFunction> clone() const override { return std::make_unique<Wrapped>(*this); }
        double eval(const maxwell::Position& x, const Time& t, const FieldType& f, const Direction& q) const override
        {
            P3 y{ 0, 0, 0 };
            for (int i = 0; i < x.Size(); i++) y[i] = x[i];
            return d.field(f == E, y, t)[q];
        }
    };
    Sources src;
    for (auto& x : d) src.add(TotalField(Wrapped(x)));
    auto made = makeSolver(p, perTerm ? EvolutionOperatorType::Maxwell : Global, src);
    const int n = made->getFields().allDOFs().Size();
    c.expect(read.getFields().allDOFs().Size() == n, "number of unknowns");
    mfem::Vector x = randomState(c, n), y(n), z(n);
    if (c.flip()) x = 0.0;
    const double t = c.grid(0, 3, 30);
    auto* a = const_cast<mfem::TimeDependentOperator*>(read.getEvolTDO());
    auto* b = const_cast<mfem::TimeDependentOperator*>(made->getEvolTDO());
    a->SetTime(t); b->SetTime(t);
    a->Mult(x, y); b->Mult(x, z);
    for (int i = 0; i < n; i++) if (!std::isfinite(z[i])) c.discard();   // a dipole on a node
    // waves below 1e-8 on the surface are not injected
    sameVector(c, y, z, 1e-9, 1e-6, "time derivative");
}

FACET(refused, 20000, 200000, "entries that describe nothing known are refused")
{
    json j;
    j["sources"] = json::array();
    const int n = c.range(1, 3), bad = (int)c.below(n);
    for (int i = 0; i < n; i++) {
        Described d = c.flip() ? initial(c) : c.flip() ? planewave(c) : dipole(c, 1, true);
        if (i == bad) {
            const std::string kind = d.entry["type"];
            switch (c.below(4)) {
            case 0: d.entry["type"] = c.pick({ "Initial", "plane", "", "dipoles", "current" }); break;
            case 1: if (kind != "initial") c.discard(); d.entry["magnitude"]["type"] = c.pick({ "Gaussian", "sinusoidal", "besselj6", "" }); break;
            case 2: if (kind != "initial") c.discard(); d.entry["field_type"] = c.pick({ "Electric", "E", "", "charge" }); break;
            default: if (kind == "dipole") c.discard(); d.entry["polarization"] = { 0.0, 1.0, 0.0, 0.0 };
            }
        }
        j["sources"].push_back(d.entry);
    }
    c.note() << j.dump();
    c.nontrivial();
    bool refused = false;
    try { driver::buildSources(j); } catch (const std::exception&) { refused = true; }
    c.expect(refused, "the entries were accepted");
}

PBT_MAIN(pbt::info().rule = "every case has at least one source entry";
         pbt::info().assumptions = { "polarisations of initial fields have unit length, those of plane waves are normal to the direction of propagation", "automatic delays are judged at the corners of the surface (plane waves) or the centres of its faces (dipoles)" })
