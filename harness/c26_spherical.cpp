// USES: components/Spherical.cpp
#include "pbt.h"
#include "components/Spherical.h"
#include "math/Calculus.h"
using namespace maxwell;

// a coordinate that is often exactly zero, tiny or huge compared with the others
static double coord(pbt::Case& c)
{
    switch (c.below(6)) {
    case 0: return c.sign() * 0.0;
    case 1: return c.sign() * 1.0;
    case 2: return c.sign() * c.logreal(1e-12, 1e12);
    case 3: return c.sign() * c.logreal(1e-9, 1e-5);
    default: return c.real(-3, 3);
    }
}
// a point 1e-9 or so from an axis loses half its digits through the arc cosine
static const double TOL = 4e-8;

FACET(roundtrip, 1600000, 4000000, "Cartesian to spherical and back, angle ranges, radius")
{
    int n = c.flip(1, 4) ? 2 : 3;
    std::vector<double> p(n);
    for (auto& x : p) x = coord(c);
    bool asVector = c.flip();
    c.note() << "point";
    for (auto x : p) c.note() << ' ' << x;
    int zeros = 0;
    for (auto x : p) zeros += x == 0;
    c.label(n == 2 ? "2D" : zeros == 3 ? "origin" : zeros == 2 ? "axis" : zeros == 1 ? "plane" : "general");
    c.nontrivial(zeros > 0 || n == 2 || p[0] < 0 || p[1] < 0 || p[n - 1] < 0);
    mfem::Vector mv(n);
    for (int i = 0; i < n; i++) mv[i] = p[i];
    SphericalVector s = asVector ? SphericalVector(mv) : SphericalVector(p);
    double r = 0;
    for (auto x : p) r = std::hypot(r, x);
    c.close(s.radius, r, 1e-13, 0, "radius");
    c.expect(s.theta >= 0 && s.theta <= M_PI + 1e-15, "polar angle outside [0, pi]: " + pbt::str(s.theta));
    c.expect(s.phi >= -M_PI - 1e-15 && s.phi <= M_PI + 1e-15, "azimuth outside [-pi, pi]: " + pbt::str(s.phi));
    auto q = s.convertToCartesian();
    c.expect(q.size() == 3, "three components");
    for (int i = 0; i < 3; i++) c.close(q[i], i < n ? p[i] : 0.0, 0, TOL * r, pbt::cat("component ", i));
    SphericalVector t(s.radius, s.theta, s.phi);
    c.expect(t.radius == s.radius && t.theta == s.theta && t.phi == s.phi, "values given are not kept");
}

FACET(angles, 1600000, 4000000, "spherical to Cartesian and back returns the angles")
{
    double r = c.logreal(1e-6, 1e6), th = c.real(1e-3, M_PI - 1e-3), ph = c.real(-M_PI + 1e-6, M_PI - 1e-6);
    c.note() << "r " << r << " theta " << th << " phi " << ph;
    c.nontrivial(ph < 0 || th > M_PI / 2);
    auto q = SphericalVector(r, th, ph).convertToCartesian();
    c.close(q[0], r * std::sin(th) * std::cos(ph), 0, 1e-13 * r, "x");
    c.close(q[1], r * std::sin(th) * std::sin(ph), 0, 1e-13 * r, "y");
    c.close(q[2], r * std::cos(th), 0, 1e-13 * r, "z");
    SphericalVector s(q);
    c.close(s.radius, r, 1e-13, 0, "radius");
    c.close(s.theta, th, 0, 1e-11, "theta");
    c.close(s.phi, ph, 0, 1e-11, "phi");
}

FACET(vectors, 1600000, 4000000, "vector components: a rotation whose columns are the unit vectors of the spherical frame")
{
    double th, ph;
    if (c.flip(1, 4)) { th = c.pick({ 0.0, M_PI / 2, M_PI }); ph = c.pick({ 0.0, M_PI / 2, M_PI, -M_PI / 2 }); c.label("axis"); }
    else { th = c.real(0, M_PI); ph = c.real(-M_PI, M_PI); }
    SphericalVector s(c.logreal(1e-3, 1e3), th, ph);
    double a[3], b[3];
    for (auto& x : a) x = coord(c);
    for (auto& x : b) x = c.real(-2, 2);
    c.note() << "theta " << th << " phi " << ph << " vector " << a[0] << ' ' << a[1] << ' ' << a[2];
    auto u = s.convertSphericalVectorFieldToCartesian(a[0], a[1], a[2]);
    auto v = s.convertSphericalVectorFieldToCartesian(b[0], b[1], b[2]);
    double na = std::hypot(a[0], a[1], a[2]), nb = std::hypot(b[0], b[1], b[2]);
    c.nontrivial(a[0] != 0 && a[1] != 0 && a[2] != 0);
    c.close(std::hypot(u[0], u[1], u[2]), na, 1e-12, 0, "length");
    c.close(u[0] * v[0] + u[1] * v[1] + u[2] * v[2], a[0] * b[0] + a[1] * b[1] + a[2] * b[2], 0, 1e-12 * na * nb + 1e-300, "inner product");
    const double st = std::sin(th), ct = std::cos(th), sp = std::sin(ph), cp = std::cos(ph);
    const double er[3] = { st * cp, st * sp, ct }, et[3] = { ct * cp, ct * sp, -st }, ep[3] = { -sp, cp, 0 };
    for (int i = 0; i < 3; i++) c.close(u[i], a[0] * er[i] + a[1] * et[i] + a[2] * ep[i], 0, 1e-12 * na, pbt::cat("component ", i));
    // the frame is right-handed and its first vector points along the point itself
    auto R = s.convertSphericalVectorFieldToCartesian(s.radius, 0, 0), q = s.convertToCartesian();
    for (int i = 0; i < 3; i++) c.close(R[i], q[i], 0, 1e-12 * s.radius, "radial vector against the point");
}

FACET(cross, 800000, 2000000, "cross products: antisymmetric, orthogonal to both factors, right-handed on the axes")
{
    mfem::Vector a(3), b(3);
    for (int i = 0; i < 3; i++) { a[i] = coord(c); b[i] = c.real(-2, 2); }
    c.note() << "a " << a[0] << ' ' << a[1] << ' ' << a[2] << " b " << b[0] << ' ' << b[1] << ' ' << b[2];
    auto x = crossProduct(a, b), y = crossProduct(b, a);
    double s = a.Norml2() * b.Norml2();
    c.nontrivial(x.Norml2() > 1e-3 * s);
    c.close(x * a, 0, 0, 1e-12 * s * a.Norml2(), "orthogonal to the first factor");
    c.close(x * b, 0, 0, 1e-12 * s * b.Norml2(), "orthogonal to the second factor");
    for (int i = 0; i < 3; i++) {
        c.close(x[i], -y[i], 0, 1e-12 * s, "antisymmetry");
        int j = (i + 1) % 3, k = (i + 2) % 3;
        c.close(x[i], a[j] * b[k] - a[k] * b[j], 0, 1e-12 * s, "component");
        auto e = crossProduct(unitVec(i), unitVec(j));
        auto m = minusUnitVec(k);
        for (int d = 0; d < 3; d++) { c.expect(e[d] == (d == k ? 1.0 : 0.0), "unit vectors"); c.expect(m[d] == (d == k ? -1.0 : 0.0), "minus unit vectors"); }
    }
}

PBT_MAIN(pbt::info().rule = "points on an axis, a coordinate plane, in 2D or with a negative coordinate; vectors with three non-zero components")
