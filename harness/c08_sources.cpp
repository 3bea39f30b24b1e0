// USES: components/Spherical.cpp components/Sources.cpp
#include "pbt.h"
#include "components/Sources.h"
using namespace maxwell;
using mfem::Vector;

static Vector vec3(double a, double b, double d) { Vector v(3); v[0] = a; v[1] = b; v[2] = d; return v; }
static Vector direction(pbt::Case& c)
{
    if (c.flip(1, 4)) { Vector v(3); v = 0.0; v[c.range(0, 2)] = c.sign() * c.logreal(0.1, 10); return v; }
    for (int k = 0; k < 20; k++) {
        Vector v = vec3(c.real(-1, 1), c.real(-1, 1), c.flip(1, 4) ? 0.0 : c.real(-1, 1));
        if (v.Norml2() > 0.1) { v *= c.logreal(0.05, 20); return v; }
    }
    return vec3(1, 0, 0);
}
static Vector transverse(pbt::Case& c, const Vector& k)
{
    Vector u(k);
    u /= k.Norml2();
    for (int t = 0; t < 20; t++) {
        Vector v = vec3(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1));
        double s = v * u;
        for (int d = 0; d < 3; d++) v[d] -= s * u[d];
        if (v.Norml2() > 0.1) { v *= c.logreal(0.05, 20); return v; }
    }
    Vector v = vec3(0, 0, 0);
    int m = std::abs(u[0]) < 0.9 ? 0 : 1;
    v[m] = 1;
    double s = v * u;
    for (int d = 0; d < 3; d++) v[d] -= s * u[d];
    return v;
}
struct Wave {
    std::unique_ptr<EHFieldFunction> f;
    double scale;                 // length over which the field changes
    double operator()(const Vector& p, double t, FieldType ft, int d) const { return f->eval(p, t, ft, (Direction)d); }
};
// eighth-order central difference
template <class F> static double diff(F f, double h)
{
    return (4.0 / 5 * (f(h) - f(-h)) - 1.0 / 5 * (f(2 * h) - f(-2 * h)) + 4.0 / 105 * (f(3 * h) - f(-3 * h)) - 1.0 / 280 * (f(4 * h) - f(-4 * h))) / h;
}
static void maxwellResidual(pbt::Case& c, const Wave& w, const Vector& p, double t, const std::string& what)
{
    const double h = 0.01 * w.scale;
    double D[2][3][3], T[2][3], big = 0;
    for (int f = 0; f < 2; f++)
        for (int i = 0; i < 3; i++) {
            FieldType ft = f ? H : E;
            for (int d = 0; d < 3; d++) {
                D[f][i][d] = diff([&](double s) { Vector q(p); q[d] += s; return w(q, t, ft, i); }, h);
                big = std::max(big, std::abs(D[f][i][d]));
            }
            T[f][i] = diff([&](double s) { return w(p, t + s, ft, i); }, h);
            big = std::max({ big, std::abs(T[f][i]), std::abs(w(p, t, ft, i)) * 1e-5 / h });
        }
    c.nontrivial(big > 1e-6);
    const double tol = 2e-6 * big;
    for (int i = 0; i < 3; i++) {
        int j = (i + 1) % 3, k = (i + 2) % 3;
        c.close(D[0][k][j] - D[0][j][k], -T[1][i], 0, tol, what + pbt::cat(": curl E + dH/dt, component ", i));
        c.close(D[1][k][j] - D[1][j][k], T[0][i], 0, tol, what + pbt::cat(": curl H - dE/dt, component ", i));
    }
    for (int f = 0; f < 2; f++) c.close(D[f][0][0] + D[f][1][1] + D[f][2][2], 0, 0, tol, what + (f ? ": div H" : ": div E"));
}
static Wave planewave(pbt::Case& c, Vector& k, Vector& pol, FieldType& ft, double& mean, double& spread, double& freq)
{
    k = direction(c);
    pol = transverse(c, k);
    ft = c.flip() ? H : E;
    spread = c.logreal(0.05, 5);
    mean = c.real(-3, 3);
    bool mod = c.flip();
    freq = mod ? c.logreal(0.01, 1.5) / spread : 0;
    c.label(mod ? "modulated" : "gaussian");
    c.label(ft == E ? "E" : "H");
    Vector m(1);
    m[0] = mean;
    Wave w;
    w.scale = mod ? std::min(spread, 1 / (2 * M_PI * freq)) : spread;
    if (mod) w.f = Planewave(ModulatedGaussian(spread, m, freq), pol, k, ft).clone();
    else w.f = Planewave(Gaussian(spread, m), pol, k, ft).clone();
    c.note() << "k " << k[0] << ' ' << k[1] << ' ' << k[2] << " pol " << pol[0] << ' ' << pol[1] << ' ' << pol[2] << (ft == E ? " E" : " H") << " spread " << spread << " mean " << mean << " freq " << freq;
    return w;
}

FACET(planewaves, 960000, 2400000, "plane waves satisfy Maxwell's equations, are transverse, balanced and travel along the propagation direction")
{
    Vector k, pol;
    FieldType ft;
    double mean, spread, freq;
    Wave w = planewave(c, k, pol, ft, mean, spread, freq);
    Vector u(k), n(pol);
    u /= k.Norml2();
    n /= pol.Norml2();
    double t = c.real(-5, 5);
    // a point at a chosen phase, so that the pulse is actually there
    double arg = mean + spread * c.real(-2.5, 2.5);
    Vector p = vec3(c.real(-3, 3), c.real(-3, 3), c.real(-3, 3));
    double shift = arg + t - (p * u);
    for (int d = 0; d < 3; d++) p[d] += shift * u[d];
    c.note() << " at " << p[0] << ' ' << p[1] << ' ' << p[2] << " t " << t;
    maxwellResidual(c, w, p, t, "plane wave");
    Vector e(3), h(3);
    for (int d = 0; d < 3; d++) { e[d] = w(p, t, E, d); h[d] = w(p, t, H, d); }
    double g = std::exp(-std::pow(arg - mean, 2) / (2 * spread * spread)) * std::cos(2 * M_PI * freq * (arg - mean));
    const double tol = 1e-9;
    c.close(e * u, 0, 0, tol, "E along k");
    c.close(h * u, 0, 0, tol, "H along k");
    c.close(e * h, 0, 0, tol, "E.H");
    c.close(e.Norml2(), h.Norml2(), 0, tol, "|E| = |H|");
    c.close(e.Norml2(), std::abs(g), 0, 1e-8, "amplitude");
    Vector s = crossProduct(e, h);
    for (int d = 0; d < 3; d++) {
        c.close(s[d], g * g * u[d], 0, 1e-8, "Poynting vector");
        c.close((ft == E ? e : h)[d], g * n[d], 0, 1e-8, "polarisation");
    }
    // the pulse moves with unit speed along k
    double tau = c.real(-4, 4);
    Vector q(p);
    for (int d = 0; d < 3; d++) q[d] += tau * u[d];
    for (int d = 0; d < 3; d++) { c.close(w(q, t + tau, E, d), e[d], 0, 1e-8, "travelling E"); c.close(w(q, t + tau, H, d), h[d], 0, 1e-8, "travelling H"); }
}

FACET(lowdim, 640000, 1600000, "in one and two dimensions the missing coordinates count as zero, and a source evaluates like its function")
{
    Vector k, pol;
    FieldType ft;
    double mean, spread, freq;
    Wave w = planewave(c, k, pol, ft, mean, spread, freq);
    int n = c.range(1, 2);
    Vector p(n), full = vec3(0, 0, 0);
    for (int d = 0; d < n; d++) full[d] = p[d] = c.real(-2, 2);
    Vector u(k);
    u /= k.Norml2();
    double t = (full * u) - mean - spread * c.real(-2, 2);
    TotalField src(*w.f);
    auto cl = src.clone();
    c.label(n == 1 ? "1D" : "2D");
    for (int f = 0; f < 2; f++)
        for (int d = 0; d < 3; d++) {
            FieldType q = f ? H : E;
            double v = w(full, t, q, d);
            c.nontrivial(std::abs(v) > 1e-6);
            c.close(w(p, t, q, d), v, 1e-12, 1e-15, "short position");
            c.close(src.eval(p, t, q, (Direction)d), v, 1e-12, 1e-15, "source");
            c.close(cl->eval(full, t, q, (Direction)d), v, 1e-12, 1e-15, "copied source");
        }
}

FACET(dipole, 480000, 1200000, "the dipole field satisfies Maxwell's equations away from its centre and behaves as an axial dipole")
{
    double len = c.logreal(1e-3, 10), spread = c.logreal(0.1, 3), mean = c.real(-2, 6);
    Wave w;
    w.f = DerivGaussDipole(len, spread, mean).clone();
    double r = spread * c.logreal(0.3, 10), th = c.flip(1, 6) ? c.pick({ 1e-3, M_PI / 2, M_PI - 1e-3 }) : c.real(0.02, M_PI - 0.02), ph = c.real(-M_PI, M_PI);
    w.scale = std::min(spread, r);
    Vector p = vec3(r * std::sin(th) * std::cos(ph), r * std::sin(th) * std::sin(ph), r * std::cos(th));
    double t = mean + r + spread * c.real(-2, 2);
    c.note() << "length " << len << " spread " << spread << " mean " << mean << " r " << r << " theta " << th << " phi " << ph << " t " << t;
    c.label(r < spread ? "near" : r < 3 * spread ? "middle" : "far");
    // scaled to unit length, the field being linear in it
    struct Scaled : EHFieldFunction {
        const EHFieldFunction* f; double s;
        double eval(const Position& p, const Time& t, const FieldType& ft, const Direction& d) const override { return f->eval(p, t, ft, d) * s; }
        std::unique_ptr<EHFieldFunction> clone() const override { return nullptr; }
    };
    auto sc = std::make_unique<Scaled>();
    double mag = 0;
    for (int d = 0; d < 3; d++) mag = std::max({ mag, std::abs(w(p, t, E, d)), std::abs(w(p, t, H, d)) });
    if (mag == 0) c.discard();
    sc->f = w.f.get();
    sc->s = 1 / mag;
    Wave u;
    u.scale = w.scale;
    u.f = std::move(sc);
    maxwellResidual(c, u, p, t, "dipole");
    // twice the length, twice the field
    DerivGaussDipole twice(2 * len, spread, mean);
    for (int f = 0; f < 2; f++)
        for (int d = 0; d < 3; d++) c.close(twice.eval(p, t, f ? H : E, (Direction)d), 2 * w(p, t, f ? H : E, d), 1e-12, 1e-14 * mag, "linear in its length");
    // H is azimuthal, E lies in the meridian plane, and the field does not depend on the azimuth
    Vector e = vec3(w(p, t, E, 0), w(p, t, E, 1), w(p, t, E, 2)), h = vec3(w(p, t, H, 0), w(p, t, H, 1), w(p, t, H, 2));
    c.close(h[2], 0, 0, 1e-9 * mag, "axial H");
    c.close(h * p, 0, 0, 1e-9 * mag * r, "radial H");
    Vector az = vec3(-std::sin(ph), std::cos(ph), 0);
    c.close(e * az, 0, 0, 1e-9 * mag, "azimuthal E");
    double p2 = c.real(-M_PI, M_PI);
    Vector q = vec3(r * std::sin(th) * std::cos(p2), r * std::sin(th) * std::sin(p2), r * std::cos(th));
    c.close(w(q, t, E, 2), e[2], 0, 1e-8 * mag, "rotated about the axis: Ez");
    c.close(w(q, t, H, 1) * std::cos(p2) - w(q, t, H, 0) * std::sin(p2), h * az, 0, 1e-8 * mag, "rotated about the axis: Hphi");
}

// normalised: sum of second differences, eighth order
template <class F> static double laplacian(F f, const Vector& p, double h)
{
    static const double k[5] = { -205.0 / 72, 8.0 / 5, -1.0 / 5, 8.0 / 315, -1.0 / 560 };
    double s = 0;
    for (int d = 0; d < p.Size(); d++)
        for (int i = -4; i <= 4; i++) { Vector q(p); q[d] += i * h; s += k[std::abs(i)] * f(q); }
    return s / (h * h);
}

FACET(resonances, 640000, 1600000, "mode functions solve the wave equation with their own frequency and vanish on the walls they belong to")
{
    int kind = c.range(0, 3);
    if (kind == 0) {
        int n = c.range(1, 3);
        std::vector<std::size_t> m(n);
        double k2 = 0;
        for (auto& x : m) { x = c.range(1, 5); k2 += std::pow(M_PI * x, 2); }
        SinusoidalMode f(m);
        c.expect(f.dimension() == n, "dimension");
        Vector p(n);
        for (int d = 0; d < n; d++) p[d] = c.real(0, 1);
        c.label("sinusoidal");
        c.note() << "sinusoidal mode in " << n << "D";
        double v = f.eval(p);
        c.nontrivial(std::abs(v) > 1e-3);
        double prod = 1;
        for (int d = 0; d < n; d++) prod *= std::sin(m[d] * M_PI * p[d]);
        c.close(v, prod, 0, 1e-12, "value");
        c.close(laplacian([&](const Vector& q) { return f.eval(q); }, p, 0.01), -k2 * v, 0, 1e-4 * k2, "wave equation");
        Vector wall(p);
        wall[c.range(0, n - 1)] = c.flip() ? 1.0 : 0.0;
        c.close(f.eval(wall), 0, 0, 1e-12, "wall");
    }
    else if (kind == 1) {
        BesselJ6 f;
        c.expect(f.dimension() == 2, "dimension");
        double r = c.real(0.15, 1.1), a = c.real(-M_PI, M_PI), k = 13.589290170541217;
        Vector p(2);
        p[0] = r * std::cos(a);
        p[1] = r * std::sin(a);
        c.label("disc");
        c.note() << "disc mode at r " << r << " angle " << a;
        double v = f.eval(p);
        c.nontrivial(std::abs(v) > 1e-3);
        c.close(v, std::cyl_bessel_j(6.0, k * r) * std::cos(6 * a), 0, 1e-10, "value");
        c.close(laplacian([&](const Vector& q) { return f.eval(q); }, p, 0.01), -k * k * v, 0, 1e-3 * k * k * 0.35, "wave equation");
        Vector wall(2);
        wall[0] = std::cos(a);
        wall[1] = std::sin(a);
        c.close(f.eval(wall), 0, 0, 1e-10, "wall of the unit disc");
    }
    else if (kind == 2) {
        SphericalBesselJ6 f;
        c.expect(f.dimension() == 3, "dimension");
        double r = c.real(0.2, 1.1), th = c.real(0.3, M_PI - 0.3), a = c.real(-M_PI, M_PI), k = 13.589290170541217;
        Vector p = vec3(r * std::sin(th) * std::cos(a), r * std::sin(th) * std::sin(a), r * std::cos(th));
        c.label("ball");
        c.note() << "ball mode at r " << r << " theta " << th << " phi " << a;
        double v = f.eval(p);
        c.nontrivial(std::abs(v) > 1e-4);
        c.close(laplacian([&](const Vector& q) { return f.eval(q); }, p, 0.01), -k * k * v, 0, 1e-3 * k * k * 0.1, "wave equation");
        double want = std::sph_bessel(6, k * r) * std::sph_legendre(6, 6, th) * std::cos(6 * a);
        c.close(std::abs(v), std::abs(want), 0, 1e-9, "value");
        Vector o = vec3(0, 0, 0);
        c.expect(f.eval(o) == 0, "centre");
    }
    else {
        std::vector<std::size_t> m{ (std::size_t)c.range(1, 4), (std::size_t)c.range(1, 4) };
        std::vector<double> L{ c.real(0.5, 3), c.real(0.5, 3) };
        TM2DSinusoidalMode f(m, L);
        TM2D_Dx_SinusoidalMode fx(m, L);
        TM2D_Dy_SinusoidalMode fy(m, L);
        Vector p(2);
        for (int d = 0; d < 2; d++) p[d] = c.real(0, L[d]);
        double t = c.real(-3, 3), w = M_PI * std::hypot(m[0] / L[0], m[1] / L[1]);
        c.label("cavity");
        c.note() << "cavity mode " << m[0] << ',' << m[1] << " box " << L[0] << 'x' << L[1] << " t " << t;
        double v = f.eval(p, t);
        c.nontrivial(std::abs(v) > 1e-3);
        c.close(laplacian([&](const Vector& q) { return f.eval(q, t); }, p, 0.01), -w * w * v, 0, 1e-4 * w * w, "Helmholtz");
        Vector tt(1);
        tt[0] = t;
        c.close(laplacian([&](const Vector& q) { return f.eval(p, q[0]); }, tt, 0.01), -w * w * v, 0, 1e-4 * w * w, "wave equation in time");
        c.close(diff([&](double s) { Vector q(p); q[0] += s; return f.eval(q, t); }, 0.01), w * fx.eval(p, t), 0, 1e-5 * w, "x derivative");
        c.close(diff([&](double s) { Vector q(p); q[1] += s; return f.eval(q, t); }, 0.01), w * fy.eval(p, t), 0, 1e-5 * w, "y derivative");
        int d = c.range(0, 1);
        Vector wall(p);
        wall[d] = c.flip() ? L[d] : 0.0;
        c.close(f.eval(wall, t), 0, 0, 1e-12, "wall");
    }
}

PBT_MAIN(pbt::info().rule = "the field or mode is not negligible at the sampled point")
