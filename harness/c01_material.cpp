// USES: components/Material.cpp
// NOSHIM
#include "pbt.h"
#include "components/Material.h"
#include <cfloat>
#include <limits>

using maxwell::Material;

// values around a limit, one rounding unit either side, and far away on both sides
static double around(pbt::Case& c, double limit, double far)
{
    switch (c.below(9)) {
    case 0: return limit;
    case 1: return std::nextafter(limit, 1e300);
    case 2: return std::nextafter(limit, -1e300);
    case 3: return limit + c.logreal(1e-15, far);
    case 4: return limit - c.logreal(1e-15, far);
    case 5: return limit + c.real(0, 10);
    case 6: return c.sign() * c.logreal(1e-300, 1e300);
    case 7: return limit + std::round(c.real(0, 100));
    default: return c.pick({ 0.0, -0.0, 1.0, 2.0, -1.0, 0.5, 1e-12, 4.0, DBL_MIN, 5e-324, -5e-324 });
    }
}
static std::string show(double e, double m, double s) { return pbt::cat("eps ", e, " mu ", m, " sigma ", s); }

FACET(acceptance, 1600000, 4000000, "accepted exactly when eps >= 1, mu >= 1 and sigma >= 0, and the values are kept")
{
    double e = around(c, 1.0, 1e6), m = around(c, 1.0, 1e6), s = around(c, 0.0, 1e10);
    c.note() << show(e, m, s);
    bool want = e >= 1.0 && m >= 1.0 && s >= 0.0;
    c.label(want ? "accepted" : "refused");
    int bad = (e < 1.0) + (m < 1.0) + (s < 0.0);
    c.nontrivial(std::abs(e - 1) < 1e-3 || std::abs(m - 1) < 1e-3 || std::abs(s) < 1e-3 || bad == 1);
    bool got = true;
    double ge = 0, gm = 0, gs = 0;
    try { Material mat(e, m, s); ge = mat.getPermittivity(); gm = mat.getPermeability(); gs = mat.getConductivity(); }
    catch (const std::exception&) { got = false; }
    c.expect(got == want, std::string(got ? "accepted " : "refused ") + show(e, m, s));
    if (got) c.expect(ge == e && gm == m && gs == s, "reports other values than given: " + show(ge, gm, gs) + " for " + show(e, m, s));
}

FACET(lossless, 1600000, 4000000, "impedance, admittance and wave speed of lossless media against their definitions and each other")
{
    double e = 1 + (c.flip() ? c.logreal(1e-12, 1e8) : c.range(0, 50)), m = 1 + (c.flip() ? c.logreal(1e-12, 1e8) : c.range(0, 50));
    double s = c.flip(1, 4) ? -0.0 : 0.0;
    c.note() << show(e, m, s);
    c.nontrivial(e != m && e != 1 && m != 1);
    if (e > m) c.label("eps>mu"); else c.label("eps<=mu");
    Material mat(e, m, s);
    Material copy(mat);
    Material other = maxwell::buildVacuumMaterial();
    other = copy;
    double z = other.getImpedance(), y = copy.getAdmittance(), v = mat.getSpeedOfWave();
    const double t = 1e-13;
    c.close(z, std::sqrt(m) / std::sqrt(e), t, 0, "impedance");
    c.close(y, std::sqrt(e) / std::sqrt(m), t, 0, "admittance");
    c.close(v, 1 / std::sqrt(e) / std::sqrt(m), t, 0, "wave speed");
    c.close(z * y, 1, t, 0, "impedance times admittance");
    c.close(z, m * v, t, 0, "impedance against permeability times speed");
    c.close(v * v * e * m, 1, t, 0, "speed squared times eps mu");
    c.expect(v <= 1.0 + 1e-15, "wave faster than light: " + pbt::str(v));
}

FACET(conductive, 800000, 2000000, "lossless-only quantities are refused for every positive conductivity")
{
    double e = 1 + c.real(0, 20), m = 1 + c.real(0, 20);
    double s = c.flip(1, 3) ? c.pick({ 5e-324, DBL_MIN, DBL_EPSILON, 1e-9, 1e-3, 1.0, 376.73, 2.25e10 }) : c.logreal(1e-300, 1e12);
    c.note() << show(e, m, s);
    c.nontrivial();
    c.label(s < 1e-6 ? "tiny" : "ordinary");
    Material mat(e, m, s);
    int thrown = 0;
    try { mat.getImpedance(); } catch (const std::exception&) { thrown++; }
    try { mat.getAdmittance(); } catch (const std::exception&) { thrown++; }
    try { mat.getSpeedOfWave(); } catch (const std::exception&) { thrown++; }
    c.expect(thrown == 3, pbt::cat(3 - thrown, " lossless quantities returned for ", show(e, m, s)));
    c.expect(mat.getConductivity() == s, "conductivity changed");
}

FACET(vacuum, 4, 4, "the vacuum material has unit properties")
{
    (void)c.below(1000000);
    c.nontrivial();
    auto v = maxwell::buildVacuumMaterial();
    c.expect(v.getPermittivity() == 1 && v.getPermeability() == 1 && v.getConductivity() == 0, "vacuum properties");
    c.expect(v.getImpedance() == 1 && v.getAdmittance() == 1 && v.getSpeedOfWave() == 1, "vacuum derived quantities");
}

PBT_MAIN(pbt::info().rule = "values within 1e-3 of an acceptance limit or exactly one invalid value; eps, mu and 1 all different for lossless relations; any positive conductivity")
