// USES: SOLVER DRIVER
#include "surface.h"
#include "components/FarField.h"
using namespace surface;
using namespace casefile;

static double longest(const GMesh& g)
{
    double h = 0;
    for (auto& e : g.el) for (int i : e) for (int j : e) {
        double d = 0;
        for (int q = 0; q < 3; q++) d += (g.v[i][q] - g.v[j][q]) * (g.v[i][q] - g.v[j][q]);
        h = std::max(h, sqrt(d));
    }
    return h;
}

FACET(transform, 40000, 200000, "samples at any times and frequencies")
{
    const int n = c.range(1, 12), nf = c.range(1, 5), nt = c.range(1, 8);
    std::vector<double> f;
    for (int i = 0; i < nf; i++) f.push_back(c.flip(1, 8) ? 0 : c.logreal(1e-3, 30));
    std::vector<std::vector<cplx>> sum(nf, std::vector<cplx>(n)), want(nf, std::vector<cplx>(n));
    double size = 0;
    for (int k = 0; k < nt; k++) {
        const double t = c.flip(1, 8) ? 0 : c.real(-2, 40);
        mfem::Vector x(n), y(n), z(n);
        const double a = c.real(-3, 3);
        for (int i = 0; i < n; i++) { x[i] = c.gauss(); y[i] = c.gauss(); z[i] = x[i] + a * y[i]; size = std::max(size, std::fabs(z[i])); }
        auto X = calculateDFT(x, f, t), Y = calculateDFT(y, f, t), Z = calculateDFT(z, f, t);
        c.expect((int)Z.size() == nf, "one spectrum per frequency");
        for (int i = 0; i < nf; i++) {
            c.expect((int)Z[i].size() == n, "one value per sample");
            for (int v = 0; v < n; v++) {
                c.close(std::abs(Z[i][v] - X[i][v] - a * Y[i][v]), 0, 0, 1e-12 * std::max(1.0, 4 * size), "linearity");
                sum[i][v] += Z[i][v];
                want[i][v] += z[v] * std::polar(1.0, -2 * M_PI * f[i] * t);
            }
        }
    }
    c.nontrivial();
    c.note() << n << " values " << nf << " frequencies " << nt << " times";
    for (int i = 0; i < nf; i++) for (int v = 0; v < n; v++) c.close(std::abs(sum[i][v] - want[i][v]), 0, 0, 1e-11 * std::max(1.0, size) * nt, "Fourier sum");
}

FACET(phase, 200000, 500000, "points in any position to the direction, the origin included")
{
    SphericalAngles a = randomAngles(c, 3, 1)[0];
    const bool flat = c.flip();
    if (flat) a.theta = M_PI_2;
    const double f = c.logreal(1e-3, 10);
    mfem::Vector p(flat ? 2 : 3), r(3);
    r[0] = sin(a.theta) * cos(a.phi); r[1] = sin(a.theta) * sin(a.phi); r[2] = cos(a.theta);
    const int kind = (int)c.below(6);
    const double s = c.logreal(1e-6, 1e2) * c.sign();
    if (kind == 0) p = 0.0;
    else if (kind == 1) for (int d = 0; d < p.Size(); d++) p[d] = s * r[d];
    else if (kind == 2) { p = 0.0; p[c.below(p.Size())] = s; }
    else if (kind == 3) { p = 0.0; p[0] = -s * r[1]; p[1] = s * r[0]; }
    else for (int d = 0; d < p.Size(); d++) p[d] = c.gauss() * c.logreal(1e-3, 10);
    double x = 0, size = 0;
    for (int d = 0; d < p.Size(); d++) { x += p[d] * r[d]; size += std::fabs(p[d]); }
    c.label(kind == 0 ? "origin" : kind == 1 ? "along the direction" : kind == 2 ? "on an axis" : kind == 3 ? "across the direction" : "anywhere");
    c.note() << "point " << p[0] << " " << p[1] << " " << (flat ? 0.0 : p[2]) << " theta " << a.theta << " phi " << a.phi << " f " << f;
    c.nontrivial(kind != 0 || true);
    const double re = flat ? func_exp_real_part_2D(p, f, a) : func_exp_real_part_3D(p, f, a), im = flat ? func_exp_imag_part_2D(p, f, a) : func_exp_imag_part_3D(p, f, a);
    const double tol = 1e-12 * (1 + 2 * M_PI * f * size);
    c.close(re, cos(2 * M_PI * f * x), 0, tol, "real part");
    c.close(im, sin(2 * M_PI * f * x), 0, tol, "imaginary part");
}

static std::set<int> used(const GMesh& g, const std::set<int>& tags)
{
    std::set<int> r;
    for (int a : g.ba) if (tags.count(a)) r.insert(a);
    return r;
}

/// The row of a result file for this frequency: direction, frequency in Hz, value and wavelength or its square.
static void written(pbt::Case& c, const std::string& stem, const SphericalAngles& a, double f, double value, int dim)
{
    std::ifstream in(stem + "Th_" + std::to_string(a.theta) + "_Phi_" + std::to_string(a.phi) + "_dgtd.dat");
    std::string line;
    c.expect((bool)std::getline(in, line), "no result file for a direction");
    double th, ph, hz, v, norm;
    while (in >> th >> ph >> hz >> v >> norm) {
        if (std::fabs(hz - f * physicalConstants::speedOfLight_SI) > 2e-5 * hz) continue;
        c.close(th, a.theta, 1e-5, 1e-12, "direction in the file");
        c.close(ph, a.phi, 1e-5, 1e-12, "direction in the file");
        c.close(v, value, 1e-5, 1e-300, "value in the file");
        c.close(norm, dim == 2 ? 1 / f : 1 / (f * f), 1e-5, 0, "wavelength in the file");
        return;
    }
    // a value that is no number is written as one that cannot be read
    c.expect(!std::isfinite(value), "no row for a frequency in the file");
}

FACET(radiation, 5000, 20000, "recorded fields of any shape on any surface: radiation integrals and cross section")
{
    ProbOpts o;
    o.types = "tqTH";
    o.maxElems = 14;
    o.interior = 0.3;
    Prob p = randomProblem(c, o);
    p.order = std::min(p.order, p.g.dim == 3 ? 2 : 3);
    const int tag = tagFaces(c, p.g, someElements(c, p.g));
    if (!tag) c.discard();
    // sometimes a point of the surface sits at the origin
    if (c.flip(1, 4)) {
        for (size_t b = 0; b < p.g.bd.size(); b++) if (p.g.ba[b] == tag) {
            const P3 m = p.g.centroid(p.g.bd[b]);
            for (auto& v : p.g.v) for (int q = 0; q < 3; q++) v[q] -= m[q];
            c.label("a face around the origin");
            break;
        }
    }
    std::set<int> tags{ tag };
    if (c.flip(1, 3)) for (auto& a : p.g.ba) if (a == tag && c.flip()) { a++; tags.insert(a); }
    tags = used(p.g, tags);
    c.note() << p.text() << " surface " << tag << " of " << tags.size() << " tags";
    Recorder r(p, { tags.begin(), tags.end() }, "s");
    const int ns = c.range(1, 6);
    std::vector<double> t;
    std::vector<mfem::Vector> x;
    double now = c.flip() ? 0 : c.real(0, 2);
    for (int i = 0; i < ns; i++) {
        t.push_back(now);
        now += c.real(0.05, 2);
        x.push_back(randomState(c, 6 * r.n));
        r.snapshot(t.back(), x.back());
    }
    r.out.reset();
    const double h = longest(p.g);
    std::vector<double> f;
    for (int i = c.range(1, 3); i > 0; i--) f.push_back(c.logreal(0.02, 0.5) / h / (2 * M_PI));
    std::sort(f.begin(), f.end());
    f.erase(std::unique(f.begin(), f.end(), [](double a, double b) { return b < 1.01 * a; }), f.end());
    auto angles = randomAngles(c, p.g.dim, 4);
    Wave w;
    w.spread = c.logreal(0.3, 3);
    w.delay = c.real(0, 4);
    if (c.flip(1, 3)) w.carrier = c.logreal(1e-3, 0.3) * physicalConstants::speedOfLight_SI;
    auto got = process(folder("s"), w.write("case.json"), f, angles);
    auto U = spectrum(t, x, f);
    double most = 0;
    for (auto& y : x) most = std::max(most, maxAbs(y));
    size_t k = 0;
    for (size_t i = 0; i < f.size(); i++) {
        const double P = w.power(t, f[i]);
        for (auto& a : angles) {
            auto want = radiated(r, tags, U[i], f[i], a);
            auto& g = got[k++];
            const std::string where = pbt::cat(" at theta ", a.theta, " phi ", a.phi, " f ", f[i]);
            c.close(g.far, want.value, 1e-6, 1e-4 * want.scale + 1e-14 * most * most, "far field" + where);
            const double kk = 2 * M_PI * f[i];
            written(c, folder("s") + "/farfield/farfieldData_", a, f[i], g.far, p.g.dim);
            written(c, folder("s") + "/rcs/rcsData_", a, f[i], g.rcs, p.g.dim);
            if (P > 1e-12) c.close(g.rcs, (p.g.dim == 2 ? 4 / (kk * P) : 4 * M_PI / P) * g.far, 1e-6, 0, "cross section" + where);
        }
    }
    c.label(pbt::cat(p.g.dim, "D"));
    c.nontrivial();
}

FACET(snapshots, 1500, 6000, "fields saved snapshot by snapshot on a surface: radiation integrals in three dimensions")
{
    ProbOpts o;
    o.types = "TH";
    o.maxElems = 10;
    o.interior = 0;
    Prob p = randomProblem(c, o);
    p.order = std::min(p.order, 2);
    const int tag = tagFaces(c, p.g, someElements(c, p.g));
    if (!tag) c.discard();
    c.note() << p.text() << " surface " << tag;
    Recorder r(p, { tag }, "s");
    mfem::Array<int> marker(r.pmesh->bdr_attributes.Max());
    marker = 0;
    marker[tag - 1] = 1;
    NearToFarFieldSubMesher sub(*r.pmesh, *r.fes, marker);
    mfem::FiniteElementSpace sfes(sub.getSubMesh(), r.fec.get());
    mfem::GridFunction gf(&sfes);
    const int ns = c.range(1, 4);
    std::vector<double> t;
    std::vector<mfem::Vector> x;
    std::filesystem::remove_all("near");
    std::filesystem::create_directories("near");
    for (int i = 0; i < ns; i++) {
        t.push_back((i ? t.back() : c.range(0, 40) / 16.0) + c.range(1, 32) / 16.0);
        x.push_back(randomState(c, 6 * r.n));
        const std::string dir = pbt::cat("near/s_", i < 10 ? "00000" : "0000", i);
        std::filesystem::create_directories(dir);
        std::ofstream(dir + "/time.txt") << t.back();
        const char* name[] = { "Ex", "Ey", "Ez", "Hx", "Hy", "Hz" };
        for (int k = 0; k < 6; k++) {
            mfem::GridFunction all(r.fes.get());
            for (int v = 0; v < r.n; v++) all[v] = x.back()[k * r.n + v];
            mfem::SubMesh::CreateTransferMap(all, gf).Transfer(all, gf);
            std::ofstream out(dir + "/" + name[k] + ".gf");
            out.precision(16);
            gf.Save(out);
        }
    }
    sub.getSubMesh()->SetCurvature(1);
    sub.getSubMesh()->Save("near/mesh", 16);
    std::vector<double> f{ c.logreal(0.02, 0.5) / longest(p.g) / (2 * M_PI) };
    if (c.flip()) f.push_back(f[0] * c.real(0.3, 0.9));
    auto angles = randomAngles(c, 3, 3);
    FarField far("near", Wave().write("case.json"), f, angles);
    auto U = spectrum(t, x, f);
    double most = 0;
    for (auto& y : x) most = std::max(most, maxAbs(y));
    for (size_t i = 0; i < f.size(); i++) for (auto& a : angles) {
        auto want = radiated(r, { tag }, U[i], f[i], a);
        c.close(far.getPotRad(a, f[i]), want.value, 1e-6, 1e-4 * want.scale + 1e-14 * most * most, pbt::cat("far field at theta ", a.theta, " phi ", a.phi, " f ", f[i]));
    }
    c.nontrivial();
}

FACET(near_field, 500, 2500, "runs with a probe that saves the near field: far field made from its files")
{
    ProbOpts o;
    o.types = "TH";
    o.maxElems = 8;
    o.interior = 0;
    Prob p = randomProblem(c, o);
    p.order = std::min(p.order, 2);
    const int tag = tagFaces(c, p.g, someElements(c, p.g));
    if (!tag) c.discard();
    const double dt = 1e-3 * c.range(1, 8) * c.pick(std::vector<double>{ 1, 5, 20 });
    const int steps = c.range(1, 6), every = c.range(1, 4);
    c.note() << p.text() << " surface " << tag << " dt " << dt << " steps " << steps << " every " << every;
    auto so = p.options();
    so.setTimeStep(dt).setFinalTime(steps * dt);
    NearFieldProbe probe;
    probe.name = "near";
    probe.expSteps = every;
    probe.tags = { tag };
    Probes pr;
    pr.nearFieldProbes.push_back(probe);
    auto model = p.model();
    model.meshName_ = "ball";
    std::filesystem::remove_all("Exports");
    mfem::Vector start;
    {
        maxwell::Solver s(model, pr, Sources(), so);
        start = randomState(c, 6 * s.getFES().GetNDofs());
        s.getFields().allDOFs() = start;
        s.run();
    }
    maxwell::Solver plain(p.model(), Probes(), Sources(), so);
    plain.getFields().allDOFs() = start;
    std::vector<double> t;
    std::vector<mfem::Vector> x;
    for (int i = 0; i <= steps; i++) {
        if (i) plain.step();
        if (i % every && i != steps) continue;
        t.push_back(i * dt);
        x.push_back(plain.getFields().allDOFs());
        std::ifstream in(pbt::cat("Exports/single-core/ball/NearToFarFieldProbes/near/rank0/near_00000", i, "/time.txt"));
        double saved = NAN;
        in >> saved;
        c.close(saved, i * dt, 1e-5, 1e-12, "time of a saved near field");
    }
    x[0] = 0.0; // saved when the solver was made
    std::vector<double> f{ c.logreal(0.02, 0.5) / longest(p.g) / (2 * M_PI) };
    if (c.flip()) f.push_back(f[0] * c.real(0.3, 0.9));
    auto angles = randomAngles(c, 3, 2);
    FarField far("Exports/single-core/ball/NearToFarFieldProbes/near/rank0", Wave().write("case.json"), f, angles);
    Recorder r(p, { tag }, "s");
    auto U = spectrum(t, x, f);
    for (size_t i = 0; i < f.size(); i++) for (auto& a : angles) {
        auto want = radiated(r, { tag }, U[i], f[i], a);
        c.close(far.getPotRad(a, f[i]), want.value, 1e-4, 1e-4 * want.scale, pbt::cat("far field at theta ", a.theta, " phi ", a.phi, " f ", f[i]));
    }
    c.label(pbt::cat(t.size(), " saved"));
    c.nontrivial(t.size() > 2);
}

/// Fields in free space of an oscillating electric dipole (magnetic ones by duality), phase exp(+j 2 pi f t).
static std::array<cplx, 6> dipole(const P3& moment, bool magnetic, const P3& at, double k)
{
    const double r = sqrt(at[0] * at[0] + at[1] * at[1] + at[2] * at[2]);
    const P3 n{ at[0] / r, at[1] / r, at[2] / r };
    const P3 nxp{ n[1] * moment[2] - n[2] * moment[1], n[2] * moment[0] - n[0] * moment[2], n[0] * moment[1] - n[1] * moment[0] };
    const P3 tr{ nxp[1] * n[2] - nxp[2] * n[1], nxp[2] * n[0] - nxp[0] * n[2], nxp[0] * n[1] - nxp[1] * n[0] };
    const double np = n[0] * moment[0] + n[1] * moment[1] + n[2] * moment[2];
    const cplx j(0, 1), e = std::exp(-j * k * r) / (4 * M_PI);
    std::array<cplx, 6> u;
    for (int d = 0; d < 3; d++) {
        const cplx E = e * (k * k * tr[d] / r + (3 * n[d] * np - moment[d]) * (1 / (r * r * r) + j * k / (r * r)));
        const cplx H = e * k * k * nxp[d] * (1 / r) * (1.0 + 1.0 / (j * k * r));
        if (magnetic) { u[d] = -H; u[3 + d] = E; } else { u[d] = E; u[3 + d] = H; }
    }
    return u;
}

FACET(dipoles, 600, 3000, "a dipole inside a closed surface radiates its pattern, one outside nothing")
{
    // a box of hexahedra or tetrahedra, twice bent a little; the surface is that of a smaller box in its middle
    MeshOpts mo;
    const bool tets = c.flip(1, 3);
    const int m = tets ? 4 : 5, order = 2;
    Prob p;
    GMesh& g = p.g;
    g.dim = 3;
    g.type = tets ? 'T' : 'H';
    auto id = [&](int i, int j, int l) { return (l * (m + 1) + j) * (m + 1) + i; };
    const double jitter = c.real(0, 0.1);
    for (int l = 0; l <= m; l++) for (int j = 0; j <= m; j++) for (int i = 0; i <= m; i++) {
        P3 v{ (double)i - m / 2.0, (double)j - m / 2.0, (double)l - m / 2.0 };
        if (tets) for (auto& q : v) q += c.real(-jitter, jitter);
        g.v.push_back(v);
    }
    std::vector<char> in;
    std::vector<std::vector<int>> cells;
    for (int l = 0; l < m; l++) for (int j = 0; j < m; j++) for (int i = 0; i < m; i++) {
        std::vector<int> e{ id(i, j, l), id(i + 1, j, l), id(i + 1, j + 1, l), id(i, j + 1, l), id(i, j, l + 1), id(i + 1, j, l + 1), id(i + 1, j + 1, l + 1), id(i, j + 1, l + 1) };
        const bool inner = i > 0 && j > 0 && l > 0 && i < m - 1 && j < m - 1 && l < m - 1;
        if (tets) {
            static const int t[6][4] = { { 0, 1, 2, 6 }, { 0, 2, 3, 6 }, { 0, 3, 7, 6 }, { 0, 7, 4, 6 }, { 0, 4, 5, 6 }, { 0, 5, 1, 6 } };
            for (auto& q : t) { cells.push_back({ e[q[0]], e[q[1]], e[q[2]], e[q[3]] }); in.push_back(inner); }
        } else { cells.push_back(e); in.push_back(inner); }
    }
    // the inner elements first: they are the side that is recorded
    std::vector<int> ord(cells.size());
    for (size_t i = 0; i < ord.size(); i++) ord[i] = (int)i;
    std::stable_sort(ord.begin(), ord.end(), [&](int a, int b) { return in[a] > in[b]; });
    std::vector<char> inside;
    for (int i : ord) { g.el.push_back(cells[i]); g.ea.push_back(1); inside.push_back(in[i]); }
    for (auto& [k, f] : g.faces()) if (f.els.size() == 1) { g.bd.push_back(f.v); g.ba.push_back(1); }
    p.mats[1] = Mat();
    p.bdr[1] = BdrCond::SMA;
    p.order = order;
    const int tag = tagFaces(c, g, inside);
    Recorder r(p, { tag }, "s");
    // whole periods at a sampling that keeps the frequency apart from its image
    const double f = c.real(0.02, 0.06), k = 2 * M_PI * f;
    const int ns = c.range(5, 12), periods = c.range(1, 2);
    const bool magnetic = c.flip(), outside = c.flip(1, 3);
    P3 mom{ c.gauss(), c.gauss(), c.gauss() };
    const double half = m / 2.0 - 1, lim = half * 0.25;
    P3 at{ c.real(-lim, lim), c.real(-lim, lim), c.real(-lim, lim) };
    if (outside) { const int d = (int)c.below(3); at[d] = c.sign() * c.real(2.2, 3) * half; }
    auto pos = nodePositions(*r.fes);
    std::vector<std::array<cplx, 6>> u;
    double size = 0, mm = mom[0] * mom[0] + mom[1] * mom[1] + mom[2] * mom[2];
    for (auto& x : pos) u.push_back(dipole(mom, magnetic, { x[0] - at[0], x[1] - at[1], x[2] - at[2] }, k));
    const double amp = c.logreal(1e-3, 1e3), turn = c.real(0, 2 * M_PI), start = c.real(0, 5);
    std::vector<double> t;
    for (int s = 0; s < ns; s++) {
        t.push_back(start + periods * s / (f * ns));
        mfem::Vector x(6 * r.n);
        for (int i = 0; i < r.n; i++) for (int q = 0; q < 6; q++) x[q * r.n + i] = amp * (u[i][q] * std::polar(1.0, k * t.back() + turn)).real();
        r.snapshot(t.back(), x);
    }
    r.out.reset();
    c.note() << (magnetic ? "magnetic" : "electric") << (outside ? " outside" : " inside") << " at " << at[0] << " " << at[1] << " " << at[2] << " moment " << mom[0] << " " << mom[1] << " " << mom[2] << " f " << f << " samples " << ns << " in " << periods << " periods" << (tets ? " tets" : " hexes");
    c.label(pbt::cat(magnetic ? "magnetic" : "electric", outside ? " outside" : " inside"));
    auto angles = randomAngles(c, 3, 4);
    auto got = process(folder("s"), Wave().write("case.json"), { f }, angles);
    // amplitude one half of a cosine's: E = k^2 (r x p) x r / (4 pi), power E^2 / (2 Z) per unit angle with peak values
    const double front = std::pow(amp / 2, 2) * std::pow(k, 4) / (32 * M_PI * M_PI);
    double worst = 0;
    for (size_t i = 0; i < angles.size(); i++) {
        const auto& a = angles[i];
        const double pr = sin(a.theta) * cos(a.phi) * mom[0] + sin(a.theta) * sin(a.phi) * mom[1] + cos(a.theta) * mom[2];
        const double want = outside ? 0 : front * (mm - pr * pr);
        worst = std::max(worst, std::fabs(got[i].far - want) / (front * mm));
        c.expect(std::isfinite(got[i].far), "the far field is not finite");
    }
    (void)size;
    c.label(worst < 0.003 ? "error<0.003" : worst < 0.01 ? "error<0.01" : worst < 0.03 ? "error<0.03" : worst < 0.1 ? "error<0.1" : "error>0.1");
    c.nontrivial();
    c.expect(worst < 0.15, pbt::cat("the far field is off by ", worst, " of its peak"));
}

PBT_MAIN(
    pbt::info().rule = "a recorded surface with at least one face and fields that are not zero, or at least one sample";
    pbt::info().assumptions = {
        "MFEM is replaced by the stand-in in shim/",
        "radiation integrals are compared at up to half a radian per element, where the quadrature error stays below 1e-4 of the absolute integral" })
