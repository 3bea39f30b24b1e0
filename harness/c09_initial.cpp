// USES: SOLVER DRIVER
#include "gen.h"
#include "driver/driver.h"
using namespace gen;

struct Item { int kind; double spread, freq; P3 mean, ctr, pol; FieldType ft; std::vector<std::size_t> modes; int dim; };

static double scalar(const Item& s, const P3& x)
{
    P3 r;
    for (int d = 0; d < 3; d++) r[d] = x[d] - s.ctr[d];
    switch (s.kind) {
    case 0: { double q = 0; for (int d = 0; d < s.dim; d++) q += (r[d] - s.mean[d]) * (r[d] - s.mean[d]); return std::exp(-q / 2 / s.spread / s.spread); }
    case 1: { double a = r[0] - s.mean[0]; return std::exp(-a * a / 2 / s.spread / s.spread) * std::cos(2 * M_PI * s.freq * a); }
    case 2: { double q = 1; for (size_t d = 0; d < s.modes.size(); d++) q *= std::sin(M_PI * double(s.modes[d]) * r[d]); return q; }
    case 3: { double rho = std::hypot(r[0], r[1]); return std::cyl_bessel_j(6, 13.589290170541217 * rho) * std::cos(6 * std::atan2(r[1], r[0])); }
    default: {
        double rr = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
        if (rr == 0) return 0;
        double st = std::hypot(r[0], r[1]) / rr, y66 = std::sqrt(13.0 / (4 * M_PI) / 479001600.0) * 10395 * std::pow(st, 6);
        return std::sph_bessel(6, 13.589290170541217 * rr) * y66 * std::cos(6 * std::atan2(r[1], r[0]));
    }
    }
}

static Item randomItem(pbt::Case& c, int dim)
{
    Item s;
    s.dim = c.range(1, dim);
    s.kind = dim == 3 ? (int)c.below(5) : dim == 2 ? (int)c.below(4) : (int)c.below(3);
    s.spread = c.logreal(0.1, 3);
    s.freq = c.real(0, 2);
    s.ft = c.flip() ? E : H;
    for (int d = 0; d < 3; d++) { s.mean[d] = d < s.dim ? c.grid(-1, 1, 40) : 0; s.ctr[d] = c.grid(-2, 2, 40); s.pol[d] = c.flip(1, 3) ? 0 : c.gauss(); }
    double n = std::sqrt(s.pol[0] * s.pol[0] + s.pol[1] * s.pol[1] + s.pol[2] * s.pol[2]);
    if (n < 1e-2) { s.pol = { 0, 0, 0 }; s.pol[c.below(3)] = 1; n = 1; }
    for (auto& p : s.pol) p /= n;
    for (int d = 0; d < s.dim; d++) s.modes.push_back(c.below(5));
    return s;
}

static void add(Sources& src, const Item& s, int centreSize)
{
    mfem::Vector mean(s.dim), ctr(centreSize), pol(3);
    for (int d = 0; d < s.dim; d++) mean[d] = s.mean[d];
    for (int d = 0; d < centreSize; d++) ctr[d] = s.ctr[d];
    for (int d = 0; d < 3; d++) pol[d] = s.pol[d];
    mfem::Vector ang({ 0.0, 0.0, 0.0 });
    switch (s.kind) {
    case 0: src.add(InitialField(Gaussian(s.spread, mean, s.dim), s.ft, pol, ctr, ang)); break;
    case 1: src.add(InitialField(ModulatedGaussian(s.spread, mean, s.freq, s.dim), s.ft, pol, ctr, ang)); break;
    case 2: src.add(InitialField(SinusoidalMode(s.modes), s.ft, pol, ctr, ang)); break;
    case 3: src.add(InitialField(BesselJ6(), s.ft, pol, ctr, ang)); break;
    default: src.add(InitialField(SphericalBesselJ6(), s.ft, pol, ctr, ang));
    }
}

static void compare(pbt::Case& c, maxwell::Solver& s, const std::vector<Item>& items)
{
    auto x = nodePositions(s.getFES());
    auto& got = s.getFields().allDOFs();
    const int n = (int)x.size();
    double big = 0;
    for (int i = 0; i < n; i++)
        for (int f = 0; f < 6; f++) {
            double want = 0;
            bool touched = false;
            for (auto& s : items) if ((f < 3) == (s.ft == E) && s.pol[f % 3] != 0) { touched = true; want += scalar(s, x[i]) * s.pol[f % 3]; }
            big = std::max(big, std::abs(want));
            if (!touched) c.expect(got[f * n + i] == 0.0, pbt::cat("component ", f, " node ", i, " is ", got[f * n + i], " instead of zero"));
            else c.close(got[f * n + i], want, 1e-9, 1e-9, pbt::cat("component ", f, " at node ", i));
            // the same values through the named component
            double named = s.getFields().get(f < 3 ? E : H, f % 3)[i];
            c.expect(named == got[f * n + i], pbt::cat("named component ", f, " at node ", i, " is ", named, " instead of ", got[f * n + i]));
        }
    c.count(6 * n);
    c.nontrivial(big > 1e-4);
}

FACET(fields, 2000, 60000, "node values at time zero for random functions, centres, polarisations and sums of them")
{
    ProbOpts o;
    o.maxElems = 12;
    Prob p = randomProblem(c, o);
    if (c.flip(1, 5) && p.g.dim > 1) {
        p.curve = 2;
        double a = c.grid(-0.1, 0.1, 8);
        p.bend = [=](const mfem::Vector& x, mfem::Vector& y) { y = x; y[0] += a * x[1] * x[1]; };
    }
    int k = c.range(1, 4);
    Sources src;
    std::vector<Item> items;
    for (int i = 0; i < k; i++) {
        items.push_back(randomItem(c, p.g.dim));
        add(src, items.back(), c.flip() ? 3 : p.g.dim);
        c.note() << " kind" << items.back().kind << (items.back().ft == E ? "E" : "H");
    }
    c.note() << " " << p.text();
    c.label(pbt::cat("sources", k));
    auto s = makeSolver(p, Global, src);
    compare(c, *s, items);
    c.expect(s->getTime() == 0.0, "the clock does not start at zero");
}

FACET(json, 2000, 50000, "the same for initial sources described in a case file")
{
    ProbOpts o;
    o.maxElems = 8;
    o.interiors = false;
    Prob p = randomProblem(c, o);
    nlohmann::json cd;
    cd["sources"] = nlohmann::json::array();
    std::vector<Item> items;
    int k = c.range(1, 3);
    for (int i = 0; i < k; i++) {
        Item s = randomItem(c, p.g.dim);
        if (s.kind == 1) s.kind = 0;
        s.mean = { 0, 0, 0 };
        // Centres apply to gaussians only; coordinates left out of a centre are zero.
        int given = s.kind == 0 ? c.range(s.dim, 3) : 0;
        std::vector<double> centre;
        for (int d = 0; d < 3; d++) if (d < given) centre.push_back(s.ctr[d]); else s.ctr[d] = 0;
        nlohmann::json j;
        j["type"] = "initial";
        j["field_type"] = s.ft == E ? "electric" : "magnetic";
        if (s.kind == 0) j["center"] = centre;
        j["polarization"] = { s.pol[0], s.pol[1], s.pol[2] };
        c.label(given && given < p.g.dim ? "short centre" : "full centre");
        if (s.kind == 0) { j["dimension"] = s.dim; j["magnitude"] = { { "type", "gaussian" }, { "spread", s.spread } }; }
        else if (s.kind == 2) j["magnitude"] = { { "type", "resonant" }, { "modes", s.modes } };
        else j["magnitude"] = { { "type", s.kind == 3 ? "besselj6_2D" : "besselj6_3D" } };
        cd["sources"].push_back(j);
        items.push_back(s);
    }
    c.note() << cd.dump() << " " << p.text();
    auto src = driver::buildSources(cd);
    auto s = makeSolver(p, Global, src);
    compare(c, *s, items);
}

PBT_MAIN(pbt::info().rule = "a field above 1e-4 somewhere on the mesh";
         pbt::info().assumptions = { "MFEM is replaced by the stand-in in shim/" })
