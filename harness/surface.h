// Recordings on near-field surfaces and what their far field is by definition.
#pragma once
#include "casefile.h"
#include "components/RCSSurfaceExporter.h"
#include "components/RCSSurfacePostProcessor.h"
#include "math/PhysicalConstants.h"
#include <complex>

namespace surface {

using namespace gen;
using cplx = std::complex<double>;
using AllFields = Fields<mfem::ParFiniteElementSpace, mfem::ParGridFunction>;

/// Tags the faces between some elements, which get the lower numbers, and the rest; faces are listed in any
/// direction. Returns the tag. Surfaces are recorded from their lower-numbered side.
inline int tagFaces(pbt::Case& c, GMesh& g, std::vector<char> inside)
{
    std::vector<int> order(g.el.size());
    for (size_t i = 0; i < order.size(); i++) order[i] = (int)i;
    std::stable_sort(order.begin(), order.end(), [&](int a, int b) { return inside[a] > inside[b]; });
    { auto el = g.el; auto ea = g.ea; auto in = inside; for (size_t i = 0; i < order.size(); i++) { g.el[i] = el[order[i]]; g.ea[i] = ea[order[i]]; inside[i] = in[order[i]]; } }
    int tag = 1;
    for (int t : g.ba) tag = std::max(tag, t);
    tag += c.range(1, 2);
    int n = 0;
    std::set<std::vector<int>> taken;
    for (auto b : g.bd) { std::sort(b.begin(), b.end()); taken.insert(b); }
    for (auto& [k, f] : g.faces()) {
        if (f.els.size() != 2 || inside[f.els[0]] == inside[f.els[1]]) continue;
        auto w = f.v, s = f.v;
        std::sort(s.begin(), s.end());
        if (taken.count(s)) continue;
        if (c.flip()) std::reverse(w.begin(), w.end());
        size_t at = c.below(g.bd.size() + 1);
        g.bd.insert(g.bd.begin() + at, w);
        g.ba.insert(g.ba.begin() + at, tag);
        n++;
    }
    return n ? tag : 0;
}

inline std::vector<char> someElements(pbt::Case& c, const GMesh& g)
{
    std::vector<char> in(g.el.size(), 0);
    const double share = c.grid(0.1, 0.9, 8);
    for (auto& x : in) x = c.unit() < share;
    return in;
}

/// A discretised problem with a recorded surface, whose fields are set by hand.
struct Recorder {
    std::unique_ptr<mfem::Mesh> mesh;
    std::unique_ptr<mfem::ParMesh> pmesh;
    std::unique_ptr<mfem::DG_FECollection> fec;
    std::unique_ptr<mfem::ParFiniteElementSpace> fes;
    std::unique_ptr<AllFields> fields;
    std::unique_ptr<RCSSurfaceExporter> out;
    int n = 0;

    Recorder(const Prob& p, std::vector<int> tags, const std::string& name, int every = 1, int* part = nullptr)
    {
        mesh = std::make_unique<mfem::Mesh>(p.mesh());
        pmesh = std::make_unique<mfem::ParMesh>(MPI_COMM_WORLD, *mesh, part);
        fec = std::make_unique<mfem::DG_FECollection>(p.order, p.g.dim, p.basis);
        fes = std::make_unique<mfem::ParFiniteElementSpace>(pmesh.get(), fec.get());
        fields = std::make_unique<AllFields>(*fes);
        fields->allDOFs() = 0.0;
        n = fes->GetNDofs();
        RCSSurfaceProbe probe;
        probe.name = name;
        probe.tags = tags;
        probe.expSteps = every;
        out = std::make_unique<RCSSurfaceExporter>(probe, fec.get(), *fes, *fields, "case");
    }
    void snapshot(double time, const mfem::Vector& state, int cycle = 0, double final = 1e30)
    {
        fields->allDOFs() = state;
        out->write(time, cycle, final);
    }
};

/// The folder a recording of this name went to.
inline std::string folder(const std::string& name)
{
    for (auto& e : std::filesystem::recursive_directory_iterator("Exports"))
        if (e.is_directory() && e.path().filename() == name && e.path().parent_path().filename() == "RCSSurface") return e.path().string();
    return "";
}

/// Spectrum, normalised by the number of samples.
inline std::vector<std::vector<cplx>> spectrum(const std::vector<double>& t, const std::vector<mfem::Vector>& x, const std::vector<double>& f)
{
    std::vector<std::vector<cplx>> r(f.size(), std::vector<cplx>(x.at(0).Size()));
    for (size_t i = 0; i < f.size(); i++) for (size_t k = 0; k < t.size(); k++) {
        const cplx w = std::polar(1.0, -2 * M_PI * f[i] * t[k]) / (double)t.size();
        for (int v = 0; v < x[k].Size(); v++) r[i][v] += w * x[k][v];
    }
    return r;
}

struct Radiated { double value = 0, scale = 0; };

/// Power radiated per unit angle by the fields on the tagged faces, seen from their lower-numbered elements.
inline Radiated radiated(Recorder& r, const std::set<int>& tags, const std::vector<cplx>& u, double freq, const SphericalAngles& a, int extra = 8)
{
    const int dim = r.mesh->Dimension(), n = r.n;
    const double k = 2 * M_PI * freq;
    const P3 rh{ sin(a.theta) * cos(a.phi), sin(a.theta) * sin(a.phi), cos(a.theta) };
    const P3 th{ cos(a.theta) * cos(a.phi), cos(a.theta) * sin(a.phi), -sin(a.theta) };
    const P3 ph{ -sin(a.phi), cos(a.phi), 0 };
    std::array<cplx, 3> N{}, L{};
    double size = 0;
    for (int b = 0; b < r.mesh->GetNBE(); b++) {
        if (!tags.count(r.mesh->GetBdrAttribute(b))) continue;
        auto* T = r.mesh->GetInternalBdrFaceTransformations(b);
        auto* fe = r.fes->GetFE(T->Elem1No);
        mfem::Array<int> dofs;
        r.fes->GetElementDofs(T->Elem1No, dofs);
        const auto& ir = mfem::IntRules.Get(T->GetGeometryType(), 2 * fe->GetOrder() + 2 * T->Order() + extra);
        for (int q = 0; q < ir.GetNPoints(); q++) {
            const auto& ip = ir.IntPoint(q);
            T->SetAllIntPoints(&ip);
            mfem::Vector shape(fe->GetDof()), x(dim), o(dim);
            fe->CalcShape(T->GetElement1IntPoint(), shape);
            T->Face->Transform(ip, x);
            mfem::CalcOrtho(T->Jacobian(), o);
            P3 m{ 0, 0, 0 };
            double phase = 0;
            for (int d = 0; d < dim; d++) { m[d] = o[d] * ip.weight; phase += k * rh[d] * x[d]; }
            std::array<cplx, 6> F{};
            for (int i = 0; i < dofs.Size(); i++) for (int g = 0; g < 6; g++) F[g] += shape[i] * u[g * n + dofs[i]];
            const cplx w = std::polar(1.0, phase);
            for (int i = 0; i < 3; i++) {
                const int j = (i + 1) % 3, l = (i + 2) % 3;
                N[i] += w * (m[j] * F[3 + l] - m[l] * F[3 + j]);
                L[i] -= w * (m[j] * F[l] - m[l] * F[j]);
            }
            for (auto& f : F) size += std::abs(f) * o.Norml2() * ip.weight;
        }
    }
    auto dot = [](const P3& x, const std::array<cplx, 3>& y) { return x[0] * y[0] + x[1] * y[1] + x[2] * y[2]; };
    const double front = k * k / 32 / (dim == 3 ? M_PI * M_PI : 1.0);
    Radiated s;
    s.value = front * (std::norm(dot(ph, L) + dot(th, N)) + std::norm(dot(th, L) - dot(ph, N)));
    s.scale = front * size * size;
    return s;
}

/// A case file with a plane wave, which the post-processor needs for the incident power.
struct Wave {
    double spread = 1, delay = 3, carrier = 0;      // carrier in Hz
    std::string write(const std::string& file) const
    {
        nlohmann::json m{ { "type", carrier ? "modulated" : "gaussian" }, { "spread", spread }, { "mean", { 0.0, 0.0, -delay } } };
        if (carrier) m["frequency"] = carrier;
        nlohmann::json j;
        j["model"] = { { "filename", "x.msh" } };
        j["sources"] = { { { "type", "planewave" }, { "polarization", { 1.0, 0.0, 0.0 } }, { "propagation", { 0.0, 0.0, 1.0 } }, { "magnitude", m } } };
        casefile::spill(file, j.dump());
        return file;
    }
    double power(const std::vector<double>& t, double f) const
    {
        cplx s = 0;
        for (double x : t) s += exp(-(x - delay) * (x - delay) / (2 * spread * spread)) * cos(2 * M_PI * carrier / physicalConstants::speedOfLight_SI * (x - delay)) * std::polar(1.0, -2 * M_PI * f * x);
        return std::norm(s / (double)t.size()) / 2;
    }
};

/// The far field and cross section in one direction.
struct Result { double far = 0, rcs = 0; };
inline std::vector<Result> process(const std::string& dir, const std::string& json, const std::vector<double>& f, const std::vector<SphericalAngles>& angles, std::optional<double> maxTime = std::nullopt)
{
    std::vector<double> hz;
    for (double x : f) hz.push_back(x * physicalConstants::speedOfLight_SI);
    RCSSurfacePostProcessor pp(dir, json, hz, angles, maxTime);
    std::vector<Result> r;
    for (double x : hz) for (auto& a : angles) r.push_back({ pp.getFarField(a, x / physicalConstants::speedOfLight_SI), pp.getRCS(a, x / physicalConstants::speedOfLight_SI) });
    return r;
}

inline std::vector<SphericalAngles> randomAngles(pbt::Case& c, int dim, int most)
{
    std::vector<SphericalAngles> r;
    std::set<std::pair<long, long>> seen;       // results are filed under six digits
    for (int i = c.range(1, most); i > 0; i--) {
        SphericalAngles a;
        a.theta = dim == 2 ? M_PI_2 : c.flip(1, 3) ? c.range(0, 4) * M_PI / 4 : c.real(0, M_PI);
        a.phi = c.flip(1, 3) ? c.range(-4, 8) * M_PI / 4 : c.real(-M_PI, 2 * M_PI);
        if (seen.insert({ std::lround(a.theta * 1e4), std::lround(a.phi * 1e4) }).second) r.push_back(a);
    }
    return r;
}

} // namespace surface
