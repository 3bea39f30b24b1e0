// USES: SOLVER DRIVER
// C30: what a user writes and reads in SI units means what it says.
// The laws are evaluated in SI units with constants of their own; only the case file goes in and only the written files come out.
#include "casefile.h"
#include "math/PhysicalConstants.h"

using namespace gen;
using namespace casefile;

namespace {

const double C0 = 299792458.0, EPS0 = 8.8541878128e-12, MU0 = 1.25663706212e-6, Z00 = 376.730313668;   // CODATA 2018

std::vector<std::vector<double>> table(pbt::Case& c, const std::string& f)
{
    std::ifstream in(f);
    c.expect((bool)in, "no file " + f);
    std::vector<std::vector<double>> r;
    std::string l;
    for (int i = 0; i < 4; i++) std::getline(in, l);     // what the probe is and where
    while (std::getline(in, l)) {
        std::istringstream s(l);
        std::vector<double> row;
        double x;
        while (s >> x) row.push_back(x);
        if (row.size() > 1) r.push_back(row);
    }
    return r;
}

/// the value after a heading of the statistics file
double statistic(pbt::Case& c, const std::string& f, const std::string& name, const std::string& unit)
{
    std::ifstream in(f);
    std::string l;
    while (std::getline(in, l))
        if (l.rfind(name + ":", 0) == 0) {
            c.expect(l.find("(" + unit + ")") != std::string::npos, name + " is not given in " + unit);
            return std::stod(l.substr(name.size() + 1));
        }
    c.fail("no " + name + " in " + f);
    return 0;
}

/// runs w/box/box.json and compares the times it reports, in seconds
void runAndCheckTimes(pbt::Case& c, const json& j, double dt, double final)
{
    std::filesystem::remove_all("Exports");
    spill("w/box/box.json", j.dump());
    {
        auto s = driver::buildSolverJson("w/box/box.json", false);
        s.run();
    }
    const std::string stats = "Exports/single-core/box/SimulationStats/statistics_rank0.dat";
    c.close(statistic(c, stats, "Final Time", "ns") * 1e-9, final / C0, 1e-4, 0, "final time in the statistics");
    c.close(statistic(c, stats, "Time Step", "ns") * 1e-9, dt / C0, 1e-4, 0, "time step in the statistics");
}

}

FACET(constants, 20000, 200000, "constants and the quantities derived from them")
{
    namespace k = physicalConstants;
    const double t = c.logreal(1e-15, 1e-3), f = c.logreal(1e3, 1e15), s = c.logreal(1e-9, 1e9), er = c.real(1, 80), mr = c.real(1, 80);
    c.note() << "t " << t << " f " << f << " sigma " << s << " eps " << er << " mu " << mr;
    c.nontrivial();
    c.close(k::speedOfLight_SI, C0, 0, 0, "speed of light");
    c.close(k::vacuumPermittivity_SI, EPS0, 1e-8, 0, "permittivity");
    c.close(k::vacuumPermeability_SI, MU0, 1e-8, 0, "permeability");
    c.close(k::freeSpaceImpedance_SI, Z00, 1e-8, 0, "impedance");
    c.close(k::speedOfLight * k::vacuumPermittivity * k::vacuumPermeability * k::freeSpaceImpedance, 1, 0, 0, "product of normalised constants");
    for (double x : { k::speedOfLight, k::vacuumPermittivity, k::vacuumPermeability, k::freeSpaceImpedance }) c.close(x, 1, 0, 0, "normalised constant");
    c.close(1 / (k::vacuumPermittivity_SI * k::vacuumPermeability_SI), C0 * C0, 1e-8, 0, "c from permittivity and permeability");
    c.close(k::invFourPi * 4 * M_PI, 1, 1e-15, 0, "1/4pi");
    c.close(k::invFourPiEps0_SI * k::vacuumPermittivity_SI, k::invFourPiEps0 * k::vacuumPermittivity, 1e-14, 0, "1/4pi eps0");
    // a phase, a decay and a skin depth come out the same in both systems
    const double tn = t * k::speedOfLight_SI, fn = f / k::speedOfLight_SI, sn = s * k::freeSpaceImpedance_SI;
    c.close(fn * tn, f * t, 1e-14, 0, "phase");
    c.close(sn * tn / er, s * t / (EPS0 * er), 1e-8, 0, "decay exponent");
    c.close(M_PI * fn * mr * sn, M_PI * f * MU0 * mr * s, 1e-8, 0, "inverse square of the skin depth");
}

FACET(decay, 3000, 40000, "a uniform field in a conductor decays as exp(-sigma t / eps), with sigma in S/m and t in seconds")
{
    ProbOpts o;
    o.maxElems = 8;
    Prob p = randomProblem(c, o);
    const int dim = p.g.dim;
    const int n = c.range(20, 60);
    const double dt = c.logreal(1e-4, 2e-3), final = n * dt;
    const double tau = final / C0 / c.real(0.3, 3);          // seconds
    std::set<int> region(p.g.ea.begin(), p.g.ea.end()), faces(p.g.ba.begin(), p.g.ba.end());
    // faces inside the mesh would be walls of their own; the field is uniform on both sides all the same
    json j;
    j["model"] = plainModel(p.g, "box.msh", "PMC");
    j["model"]["materials"] = json::array();
    for (int r : region) {
        const double er = c.real(1, 9), s = EPS0 * er / tau;
        json m{ { "tags", { r } }, { "bulk_conductivity", s }, { "relative_permittivity", er } };
        if (c.flip()) m["relative_permeability"] = c.real(1, 5);
        j["model"]["materials"].push_back(m);
    }
    const bool one = region.size() == 1;
    // a bump so wide that it is flat
    P3 pol{ c.real(-1, 1), c.real(-1, 1), c.real(0.2, 1) };
    double l = std::sqrt(pol[0] * pol[0] + pol[1] * pol[1] + pol[2] * pol[2]);
    for (auto& x : pol) x /= l;
    j["sources"] = json::array({ { { "type", "initial" }, { "field_type", "electric" }, { "polarization", { pol[0], pol[1], pol[2] } }, { "center", std::vector<double>(dim, 0.0) }, { "dimension", dim }, { "magnitude", { { "type", "gaussian" }, { "spread", 1e8 } } } } });
    j["solver_options"] = { { "order", p.order }, { "time_step", dt }, { "final_time", final } };
    const auto& e = p.g.el[c.below(p.g.el.size())];
    P3 x = p.g.centroid(e);
    j["probes"]["point"] = json::array({ { { "position", std::vector<double>(x.begin(), x.begin() + dim) }, { "steps", c.range(1, 5) } } });
    c.note() << p.text() << " " << j.dump();
    c.label(one ? "one material" : "several materials");
    c.nontrivial();
    std::filesystem::remove_all("w");
    spill("w/box/box.msh", gmsh(p.g));
    runAndCheckTimes(c, j, dt, final);
    auto rows = table(c, "Exports/single-core/box/PointProbes/PointProbe0.dat");
    c.expect(rows.size() >= 2, "too few records");
    for (auto& r : rows) {
        c.expect(r.size() == 7, "a record has seven columns");
        const double want = std::exp(-r[0] / tau);
        for (int d = 0; d < 3; d++) c.close(r[1 + d], pol[d] * want, 1e-4, 1e-5, pbt::cat("E", "xyz"[d], " after ", r[0], " s of relaxation time ", tau, " s"));
    }
    c.close(rows.back()[0], final / C0, 2e-5, 0, "time of the last record");
    std::filesystem::remove_all("Exports");
}

FACET(resonance, 600, 10000, "a cavity filled with a medium oscillates at its frequency in Hz, with t in seconds")
{
    const bool flat = c.flip(1, 3);
    const double er = c.flip() ? 1 : c.real(1, 6), mr = c.flip() ? 1 : c.real(1, 4);
    const int m = c.range(1, flat ? 2 : 5), k = flat ? c.range(1, 2) : 0;
    const double L = flat ? 1 : c.range(1, 2);
    GMesh g;
    g.dim = flat ? 2 : 1;
    g.type = flat ? 'q' : 's';
    const int n = flat ? 4 : (int)std::ceil(m * L * M_PI / 0.5), nx = n, ny = flat ? n : 0;
    for (int b = 0; b <= ny; b++) for (int a = 0; a <= nx; a++) g.v.push_back(P3{ a * L / nx, flat ? b * 1.0 / ny : 0, 0 });
    auto id = [&](int a, int b) { return b * (nx + 1) + a; };
    if (flat) { for (int b = 0; b < ny; b++) for (int a = 0; a < nx; a++) g.el.push_back({ id(a, b), id(a + 1, b), id(a + 1, b + 1), id(a, b + 1) }); }
    else for (int a = 0; a < nx; a++) g.el.push_back({ a, a + 1 });
    g.ea.assign(g.el.size(), 1);
    for (auto& [key, f] : g.faces()) if (f.els.size() == 1) { g.bd.push_back(f.v); g.ba.push_back(2); }
    const int order = flat ? 4 : 3;
    const double h = 1.0 / (flat ? 4 : n / L), w = std::sqrt(er * mr), dt = (flat ? 0.1 : 0.2) * h * w / (order * order);
    const double f = C0 / 2 * std::sqrt(double(m * m + k * k)) / w;      // the mode is sin(m pi x) sin(k pi y)
    const double final = c.real(0.6, 1.6) / f * C0;
    const int every = c.range(3, 9);
    json j;
    j["model"] = plainModel(g, "box.msh", "PEC");
    j["model"]["materials"] = json::array({ { { "tags", { 1 } }, { "relative_permittivity", er }, { "relative_permeability", mr } } });
    const bool alongY = !flat && c.flip();
    std::vector<int> modes{ m };
    if (flat) modes.push_back(k);
    j["sources"] = json::array({ { { "type", "initial" }, { "field_type", "electric" }, { "polarization", { 0.0, alongY ? 1.0 : 0.0, alongY ? 0.0 : 1.0 } }, { "center", std::vector<double>(g.dim, 0.0) }, { "dimension", g.dim }, { "magnitude", { { "type", "resonant" }, { "modes", modes } } } } });
    j["solver_options"] = { { "order", order }, { "time_step", dt }, { "final_time", final } };
    std::vector<double> at{ c.real(0.05, 0.95) * L };
    if (flat) at.push_back(c.real(0.05, 0.95));
    json probe{ { "position", at }, { "field_type", "electric" }, { "polarization", alongY ? "Y" : "Z" }, { "steps", every } };
    j["probes"]["field"] = json::array({ probe });
    c.note() << "cells " << n << " " << j.dump();
    const double amp = std::sin(m * M_PI * at[0]) * (flat ? std::sin(k * M_PI * at[1]) : 1);
    c.label(flat ? "rectangle" : "segment");
    c.nontrivial(std::fabs(amp) > 0.1);
    std::filesystem::remove_all("w");
    spill("w/box/box.msh", gmsh(g));
    runAndCheckTimes(c, j, dt, final);
    auto rows = table(c, "Exports/single-core/box/FieldProbes/FieldProbe0.dat");
    c.expect(rows.size() >= 5, "too few records");
    for (auto& r : rows) c.close(r[1], amp * std::cos(2 * M_PI * f * r[0]), 0, 4e-3, pbt::cat("field after ", r[0], " s at ", f, " Hz"));
    c.close(rows.back()[0], final / C0, 2e-5, 0, "time of the last record");
    std::filesystem::remove_all("Exports");
}

PBT_MAIN(pbt::info().rule = "constants and decay: all; resonance: the probe is not at a node of the mode";
         pbt::info().assumptions = { "probe files carry six significant digits, the statistics file five", "decay: at least twenty steps, relative error of the time integration below 1e-4", "resonance: at least twelve points per wavelength, absolute error below 4e-3" })
