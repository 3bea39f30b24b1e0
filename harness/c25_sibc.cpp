// USES: components/SIBCPoleResidueFitting.cpp components/Material.cpp
#include "pbt.h"
#include "components/SIBCPoleResidueFitting.h"
using namespace maxwell;
using cx = std::complex<double>;

// surface impedance of the layer, written from transmission-line theory: eta * coth(gamma d)
static cx layerImpedance(double eps, double mu, double sigma, double d, double f)
{
    const double e0 = 8.8541878188e-12, m0 = 4e-7 * M_PI, w = 2 * M_PI * f;
    const cx jwm(0, w * m0 * mu), y(sigma, w * e0 * eps);
    const cx gamma = std::sqrt(jwm * y), eta = std::sqrt(jwm / y);
    return eta * std::cosh(gamma * d) / std::sinh(gamma * d);
}

FACET(fits, 48000, 60000, "reported stability, error, pole count and tolerance against the returned rational function")
{
    double eps = c.flip() ? 1.0 : 1 + c.real(0, 9), mu = c.flip() ? 1.0 : 1 + c.real(0, 9), sigma = c.logreal(1, 6e7);
    int nl = c.range(1, 3);
    double d = c.logreal(1e-7, 1e-2), f0 = c.logreal(1e3, 1e8), f1 = f0 * c.logreal(2, 1e4);
    int pts = c.pick({ 20, 50, 100, 200 }), maxp = c.range(1, 8);
    double tol = c.pick({ 0.5, 0.1, 0.01, 1e-3, 1e-6 });
    // the layer must not be many skin depths thick, or the reference itself overflows
    double skin = std::sqrt(2 / (2 * M_PI * f1 * 4e-7 * M_PI * mu * sigma));
    d = c.flip() ? skin * c.logreal(0.3, 60) : std::min(d, 100 * skin);
    c.note() << "eps " << eps << " mu " << mu << " sigma " << sigma << " d " << d << " band " << f0 << ".." << f1 << " points " << pts << " maxPoles " << maxp << " tol " << tol;
    SGBCProperties props;
    double left = d;
    for (int l = 0; l < nl; l++) {
        double w = l + 1 == nl ? left : left * c.real(0.2, 0.8);
        left -= w;
        props.layers.push_back(SGBCLayer(Material(eps, mu, sigma), w));
    }
    if (nl > 1) c.label("several_layers");
    auto r = findOptimalPoles(props, f0, f1, pts, maxp, tol);
    c.label(r.N == 0 ? "no_stable_fit" : r.max_error < tol ? "within_tolerance" : "best_effort");
    c.label(pbt::cat("N", r.N));
    c.nontrivial(r.N >= 2);
    if (r.N == 0) {
        c.expect(!r.stable, "no fit, yet reported stable");
        c.expect(r.poles.size() == 0 && r.residues.size() == 0, "no fit, yet poles returned");
        c.expect(r.max_error > tol, "no fit, yet within tolerance");
        return;
    }
    c.expect(r.N >= 1 && r.N <= maxp, pbt::cat("pole count ", r.N, " outside 1..", maxp));
    c.expect(r.poles.size() == r.N && r.residues.size() == r.N, "sizes do not match the reported pole count");
    c.expect(r.stable, "an unstable fit was returned");
    for (int i = 0; i < r.N; i++) c.expect(r.poles[i].real() <= 1e-6, pbt::cat("pole ", r.poles[i].real(), " in the right half plane reported stable"));
    double worst = 0;
    for (int k = 0; k < pts; k++) {
        double f = f0 * std::pow(f1 / f0, double(k) / (pts - 1));
        cx s(0, 2 * M_PI * f), z = 0, want = layerImpedance(eps, mu, sigma, d, f);
        for (int j = 0; j < r.N; j++) z += r.residues[j] / (s - r.poles[j]);
        worst = std::max(worst, std::abs(z - want) / std::abs(want));
        c.count();
    }
    // sample frequencies are accumulated by multiplication, so they agree to about pts rounding units
    c.close(r.max_error, worst, 1e-6, 1e-8, "reported maximum error");
    // a smaller budget never gives a better fit
    if (maxp > 1) {
        auto q = findOptimalPoles(props, f0, f1, pts, maxp - 1, tol);
        if (q.N > 0 && q.max_error < tol) c.expect(q.N == r.N && std::abs(q.max_error - r.max_error) <= 1e-9 * q.max_error, "a fit within tolerance with fewer poles was passed over");
        else if (q.N > 0) c.expect(r.max_error <= q.max_error * (1 + 1e-9), pbt::cat("allowing more poles made the fit worse: ", r.max_error, " after ", q.max_error));
    }
    // the tolerance decides when to stop, nothing else
    if (r.max_error >= tol) {
        auto q = findOptimalPoles(props, f0, f1, pts, maxp, 0.0);
        c.expect(q.N == r.N && q.max_error == r.max_error, "the best effort differs from the fit without tolerance");
    }
}

FACET(thin, 24000, 30000, "thin good conductors are fitted to the requested tolerance")
{
    // an electrically thin sheet is a resistance in series with small reactances: one or two poles
    double sigma = c.logreal(1e3, 1e7), mu = 1 + c.range(0, 3);
    double f1 = c.logreal(1e6, 1e9), f0 = f1 / c.logreal(10, 1000);
    double skin = std::sqrt(2 / (2 * M_PI * f1 * 4e-7 * M_PI * mu * sigma));
    double d = skin * c.real(0.05, 1.0);
    c.note() << "mu " << mu << " sigma " << sigma << " d " << d << " band " << f0 << ".." << f1;
    c.nontrivial();
    SGBCProperties props;
    props.layers.push_back(SGBCLayer(Material(1, mu, sigma), d));
    auto r = findOptimalPoles(props, f0, f1);
    c.expect(r.N >= 1 && r.N <= 10 && r.stable && r.max_error < 0.01, pbt::cat("no fit within the default tolerance: N ", r.N, " error ", r.max_error));
}

PBT_MAIN(pbt::info().rule = "fits with two or more poles; every thin-sheet case";
         pbt::info().assumptions = { "the conductivity given to the fit is in S/m, as in the existing test of the fit" })
