// Reference geometries, quadrature, elements, transformations, coefficients, integrators.
#include "mfem.hpp"
#include <atomic>
#include <cstring>
#include <unordered_map>

namespace mfem {

const char* Geometry::Name[] = { "Point", "Segment", "Triangle", "Square", "Tetrahedron", "Cube", "Prism", "Pyramid" };
const double Geometry::Volume[] = { 1, 1, 0.5, 1, 1. / 6, 1, 0.5, 1. / 3 };
const int Geometry::Dimension[] = { 0, 1, 2, 2, 3, 3, 3, 3 };
const int Geometry::NumVerts[] = { 1, 2, 3, 4, 4, 8, 6, 5 };
const int Geometry::NumEdges[] = { 0, 1, 3, 4, 6, 12, 9, 8 };
const int Geometry::NumFaces[] = { 0, 0, 1, 1, 4, 6, 5, 5 };
Geometry Geometries;
thread_local IntegrationRules IntRules;

static const std::vector<std::vector<double>>& refVerts(int g)
{
    static const std::vector<std::vector<std::vector<double>>> v = {
        { { 0, 0, 0 } },
        { { 0, 0, 0 }, { 1, 0, 0 } },
        { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 } },
        { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 1, 0 } },
        { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } },
        { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 }, { 0, 1, 1 } },
    };
    MFEM_VERIFY(g >= 0 && g < (int)v.size(), "geometry not supported: " << g);
    return v[g];
}
Geometry::Geometry()
{
    for (int g = POINT; g <= CUBE; g++) {
        auto& v = refVerts(g);
        verts_[g] = IntegrationRule((int)v.size());
        double c[3] = { 0, 0, 0 };
        for (size_t i = 0; i < v.size(); i++) {
            verts_[g].IntPoint((int)i).Set3(v[i].data());
            for (int k = 0; k < 3; k++) c[k] += v[i][k] / v.size();
        }
        center_[g].Set3(c);
    }
}
const IntegrationRule* Geometry::GetVertices(int g) const { return &verts_[g]; }
const IntegrationPoint& Geometry::GetCenter(int g) const { return center_[g]; }
bool Geometry::CheckPoint(int g, const IntegrationPoint& ip, double e)
{
    switch (g) {
        case POINT: return true;
        case SEGMENT: return ip.x >= -e && ip.x <= 1 + e;
        case TRIANGLE: return ip.x >= -e && ip.y >= -e && ip.x + ip.y <= 1 + e;
        case SQUARE: return ip.x >= -e && ip.x <= 1 + e && ip.y >= -e && ip.y <= 1 + e;
        case TETRAHEDRON: return ip.x >= -e && ip.y >= -e && ip.z >= -e && ip.x + ip.y + ip.z <= 1 + e;
        case CUBE: return ip.x >= -e && ip.x <= 1 + e && ip.y >= -e && ip.y <= 1 + e && ip.z >= -e && ip.z <= 1 + e;
    }
    return false;
}

// ---------------------------------------------------------------- one-dimensional points

static void legendre(int n, double x, double& p, double& dp)
{
    double p0 = 1, p1 = x;
    if (n == 0) { p = 1; dp = 0; return; }
    for (int k = 2; k <= n; k++) { double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
    p = p1;
    dp = n * (x * p1 - p0) / (x * x - 1);
}
static void gaussLegendre(int n, std::vector<double>& x, std::vector<double>& w)
{
    x.assign(n, 0); w.assign(n, 0);
    for (int i = 0; i < n; i++) {
        double z = std::cos(M_PI * (i + 0.75) / (n + 0.5)), p, dp;
        for (int it = 0; it < 100; it++) { legendre(n, z, p, dp); double d = p / dp; z -= d; if (std::abs(d) < 1e-16) break; }
        legendre(n, z, p, dp);
        x[n - 1 - i] = 0.5 * (1 + z);
        w[n - 1 - i] = 1.0 / ((1 - z * z) * dp * dp);
    }
    if (n % 2) x[n / 2] = 0.5;
}
static std::vector<double> gaussLobatto(int n)
{
    if (n == 1) return { 0.5 };
    std::vector<double> x(n);
    x[0] = 0; x[n - 1] = 1;
    const int N = n - 1;
    for (int i = 1; i < n - 1; i++) {
        double z = -std::cos(M_PI * i / N), p, dp;
        for (int it = 0; it < 100; it++) {
            legendre(N, z, p, dp);
            double d2 = (2 * z * dp - N * (N + 1) * p) / (1 - z * z);
            double d = dp / d2;
            z -= d;
            if (std::abs(d) < 1e-16) break;
        }
        x[i] = 0.5 * (1 + z);
    }
    for (int i = 0; i < n / 2; i++) { double s = 0.5 * (x[i] + 1 - x[n - 1 - i]); x[i] = s; x[n - 1 - i] = 1 - s; }
    if (n % 2) x[n / 2] = 0.5;
    return x;
}
static std::vector<double> points1d(int p, int btype)
{
    std::vector<double> x, w;
    switch (btype) {
        case BasisType::GaussLegendre: gaussLegendre(p + 1, x, w); return x;
        case BasisType::GaussLobatto: return gaussLobatto(p + 1);
        case BasisType::OpenUniform: for (int i = 0; i <= p; i++) x.push_back(double(i + 1) / (p + 2)); return x;
        case BasisType::ClosedUniform: if (p == 0) return { 0.5 }; for (int i = 0; i <= p; i++) x.push_back(double(i) / p); return x;
        case BasisType::OpenHalfUniform: for (int i = 0; i <= p; i++) x.push_back((i + 0.5) / (p + 1)); return x;
        case BasisType::ClosedGL: {
            if (p == 0) return { 0.5 };
            gaussLegendre(p, x, w);
            std::vector<double> c{ 0.0 };
            for (int i = 1; i < p; i++) c.push_back(0.5 * (x[i - 1] + x[i]));
            c.push_back(1.0);
            return c;
        }
    }
    MFEM_ABORT("basis type " << btype << " not supported");
}
const char* BasisType::Name(int b) { static const char* n[] = { "Gauss-Legendre", "Gauss-Lobatto", "Positive", "Open uniform", "Closed uniform", "Open half uniform", "Serendipity", "Closed Gauss-Legendre", "Integrated GLL" }; return n[Check(b)]; }

const IntegrationRule& IntegrationRules::Get(int geom, int order)
{
    if (order < 0) order = 0;
    auto& slot = rules_[{ geom, order }];
    if (slot) return *slot;
    std::vector<double> x, w;
    std::vector<std::array<double, 4>> p;
    if (geom == Geometry::POINT) p.push_back({ 0, 0, 0, 1 });
    else if (geom == Geometry::SEGMENT || geom == Geometry::SQUARE || geom == Geometry::CUBE) {
        gaussLegendre(order / 2 + 1, x, w);
        const int n = (int)x.size(), d = Geometry::Dimension[geom];
        for (int k = 0; k < (d > 2 ? n : 1); k++) for (int j = 0; j < (d > 1 ? n : 1); j++) for (int i = 0; i < n; i++)
            p.push_back({ x[i], d > 1 ? x[j] : 0, d > 2 ? x[k] : 0, w[i] * (d > 1 ? w[j] : 1) * (d > 2 ? w[k] : 1) });
    }
    else if (geom == Geometry::TRIANGLE) {
        gaussLegendre((order + 1) / 2 + 1, x, w);
        for (size_t j = 0; j < x.size(); j++) for (size_t i = 0; i < x.size(); i++)
            p.push_back({ x[i] * (1 - x[j]), x[j], 0, w[i] * w[j] * (1 - x[j]) });
    }
    else if (geom == Geometry::TETRAHEDRON) {
        gaussLegendre((order + 2) / 2 + 1, x, w);
        for (size_t k = 0; k < x.size(); k++) for (size_t j = 0; j < x.size(); j++) for (size_t i = 0; i < x.size(); i++) {
            double a = 1 - x[k], b = 1 - x[j];
            p.push_back({ x[i] * b * a, x[j] * a, x[k], w[i] * w[j] * w[k] * b * a * a });
        }
    }
    else MFEM_ABORT("no quadrature for geometry " << geom);
    slot = std::make_unique<IntegrationRule>((int)p.size());
    slot->SetOrder(order);
    for (size_t i = 0; i < p.size(); i++) { auto& ip = slot->IntPoint((int)i); ip.Set(p[i][0], p[i][1], p[i][2], p[i][3]); ip.index = (int)i; }
    return *slot;
}

// ---------------------------------------------------------------- elements

static int nodalDofs(Geometry::Type g, int p)
{
    switch (g) {
        case Geometry::POINT: return 1;
        case Geometry::SEGMENT: return p + 1;
        case Geometry::TRIANGLE: return (p + 1) * (p + 2) / 2;
        case Geometry::SQUARE: return (p + 1) * (p + 1);
        case Geometry::TETRAHEDRON: return (p + 1) * (p + 2) * (p + 3) / 6;
        case Geometry::CUBE: return (p + 1) * (p + 1) * (p + 1);
        default: MFEM_ABORT("geometry not supported");
    }
}
static bool simplex(Geometry::Type g) { return g == Geometry::TRIANGLE || g == Geometry::TETRAHEDRON; }

static void chebyshev(int p, double x, std::vector<double>& u, std::vector<double>& d)
{
    u.assign(p + 1, 0); d.assign(p + 1, 0);
    const double z = 2 * x - 1;
    u[0] = 1;
    if (p >= 1) { u[1] = z; d[1] = 2; }
    for (int n = 2; n <= p; n++) { u[n] = 2 * z * u[n - 1] - u[n - 2]; d[n] = 4 * u[n - 1] + 2 * z * d[n - 1] - d[n - 2]; }
}

NodalFiniteElement::NodalFiniteElement(Geometry::Type g, int p, const std::vector<double>& n1, int bt)
    : FiniteElement(Geometry::Dimension[g], g, nodalDofs(g, p), g == Geometry::POINT ? 0 : p, (simplex(g) || g == Geometry::POINT) ? FunctionSpace::Pk : FunctionSpace::Qk), btype_(bt), n1_(n1)
{
    // MFEM gives segments the Pk function space.
    if (g == Geometry::SEGMENT) func_space = FunctionSpace::Pk;
    int o = 0;
    if (g == Geometry::POINT) Nodes.IntPoint(0).Set3(0, 0, 0);
    else if (g == Geometry::SEGMENT) for (int i = 0; i <= p; i++) Nodes.IntPoint(i).Set1(n1[i]);
    else if (g == Geometry::SQUARE) { for (int j = 0; j <= p; j++) for (int i = 0; i <= p; i++) Nodes.IntPoint(o++).Set2(n1[i], n1[j]); }
    else if (g == Geometry::CUBE) { for (int k = 0; k <= p; k++) for (int j = 0; j <= p; j++) for (int i = 0; i <= p; i++) Nodes.IntPoint(o++).Set3(n1[i], n1[j], n1[k]); }
    else if (g == Geometry::TRIANGLE) { for (int j = 0; j <= p; j++) for (int i = 0; i + j <= p; i++) { double w = n1[i] + n1[j] + n1[p - i - j]; Nodes.IntPoint(o++).Set2(n1[i] / w, n1[j] / w); } }
    else for (int k = 0; k <= p; k++) for (int j = 0; j + k <= p; j++) for (int i = 0; i + j + k <= p; i++) { double w = n1[i] + n1[j] + n1[k] + n1[p - i - j - k]; Nodes.IntPoint(o++).Set3(n1[i] / w, n1[j] / w, n1[k] / w); }
    for (int i = 0; i < dof; i++) lex_.Append(i);
    if (simplex(g)) {
        Vinv_.SetSize(dof);
        std::vector<double> ux, uy, uz, t;
        for (int m = 0; m < dof; m++) {
            auto& ip = Nodes.IntPoint(m);
            chebyshev(p, ip.x, ux, t); chebyshev(p, ip.y, uy, t); chebyshev(p, ip.z, uz, t);
            int q = 0;
            if (dim == 2) { for (int j = 0; j <= p; j++) for (int i = 0; i + j <= p; i++) Vinv_(q++, m) = ux[i] * uy[j]; }
            else for (int k = 0; k <= p; k++) for (int j = 0; j + k <= p; j++) for (int i = 0; i + j + k <= p; i++) Vinv_(q++, m) = ux[i] * uy[j] * uz[k];
        }
        Vinv_.Invert();
    }
}
void NodalFiniteElement::basis1d(double x, std::vector<double>& u, std::vector<double>& d) const
{
    const int n = (int)n1_.size();
    u.assign(n, 1.0); d.assign(n, 0.0);
    for (int i = 0; i < n; i++) {
        double den = 1;
        for (int k = 0; k < n; k++) if (k != i) den *= n1_[i] - n1_[k];
        double v = 1;
        for (int k = 0; k < n; k++) if (k != i) v *= x - n1_[k];
        u[i] = v / den;
        double s = 0;
        for (int l = 0; l < n; l++) if (l != i) { double t = 1; for (int k = 0; k < n; k++) if (k != i && k != l) t *= x - n1_[k]; s += t; }
        d[i] = s / den;
    }
}
void NodalFiniteElement::CalcShape(const IntegrationPoint& ip, Vector& s) const
{
    if (s.Size() < dof) s.SetSize(dof);
    if (geom_type == Geometry::POINT) { s(0) = 1; return; }
    // the same few quadrature points come back thousands of times
    struct Kept { double x, y, z; std::vector<double> v; };
    static thread_local std::unordered_map<size_t, Kept> memo;
    uint64_t bits[3];
    std::memcpy(bits, &ip.x, 8); std::memcpy(bits + 1, &ip.y, 8); std::memcpy(bits + 2, &ip.z, 8);
    const size_t key = (((bits[0] * 0x9E3779B97F4A7C15ull ^ bits[1]) * 0xC2B2AE3D27D4EB4Full ^ bits[2]) * 0x165667B19E3779F9ull) ^ (id_ * 0x27D4EB2F165667C5ull);
    auto hit = memo.find(key);
    if (hit != memo.end() && hit->second.x == ip.x && hit->second.y == ip.y && hit->second.z == ip.z && (int)hit->second.v.size() == dof) {
        std::copy(hit->second.v.begin(), hit->second.v.end(), s.GetData());
        return;
    }
    computeShape(ip, s);
    if (memo.size() > 20000) memo.clear();
    memo[key] = { ip.x, ip.y, ip.z, std::vector<double>(s.GetData(), s.GetData() + dof) };
}
size_t NodalFiniteElement::nextId() { static std::atomic<size_t> n{ 1 }; return n++; }
void NodalFiniteElement::computeShape(const IntegrationPoint& ip, Vector& s) const
{
    std::vector<double> ux, uy, uz, t;
    const int p = order;
    int o = 0;
    if (simplex(geom_type)) {
        chebyshev(p, ip.x, ux, t); chebyshev(p, ip.y, uy, t); chebyshev(p, ip.z, uz, t);
        std::vector<double> u(dof);
        if (dim == 2) { for (int j = 0; j <= p; j++) for (int i = 0; i + j <= p; i++) u[o++] = ux[i] * uy[j]; }
        else for (int k = 0; k <= p; k++) for (int j = 0; j + k <= p; j++) for (int i = 0; i + j + k <= p; i++) u[o++] = ux[i] * uy[j] * uz[k];
        Vinv_.Mult(u.data(), s.GetData());
        return;
    }
    basis1d(ip.x, ux, t);
    if (dim > 1) basis1d(ip.y, uy, t);
    if (dim > 2) basis1d(ip.z, uz, t);
    for (int k = 0; k <= (dim > 2 ? p : 0); k++) for (int j = 0; j <= (dim > 1 ? p : 0); j++) for (int i = 0; i <= p; i++)
        s(o++) = ux[i] * (dim > 1 ? uy[j] : 1) * (dim > 2 ? uz[k] : 1);
}
void NodalFiniteElement::CalcDShape(const IntegrationPoint& ip, DenseMatrix& ds) const
{
    if (ds.Height() != dof || ds.Width() != dim) ds.SetSize(dof, dim);
    if (geom_type == Geometry::POINT) return;
    std::vector<double> ux, uy, uz, dx, dy, dz;
    const int p = order;
    int o = 0;
    if (simplex(geom_type)) {
        chebyshev(p, ip.x, ux, dx); chebyshev(p, ip.y, uy, dy); chebyshev(p, ip.z, uz, dz);
        DenseMatrix u(dof, dim);
        if (dim == 2) { for (int j = 0; j <= p; j++) for (int i = 0; i + j <= p; i++, o++) { u(o, 0) = dx[i] * uy[j]; u(o, 1) = ux[i] * dy[j]; } }
        else for (int k = 0; k <= p; k++) for (int j = 0; j + k <= p; j++) for (int i = 0; i + j + k <= p; i++, o++) {
            u(o, 0) = dx[i] * uy[j] * uz[k]; u(o, 1) = ux[i] * dy[j] * uz[k]; u(o, 2) = ux[i] * uy[j] * dz[k];
        }
        mfem::Mult(Vinv_, u, ds);
        return;
    }
    basis1d(ip.x, ux, dx);
    if (dim > 1) basis1d(ip.y, uy, dy);
    if (dim > 2) basis1d(ip.z, uz, dz);
    for (int k = 0; k <= (dim > 2 ? p : 0); k++) for (int j = 0; j <= (dim > 1 ? p : 0); j++) for (int i = 0; i <= p; i++, o++) {
        double y = dim > 1 ? uy[j] : 1, z = dim > 2 ? uz[k] : 1;
        ds(o, 0) = dx[i] * y * z;
        if (dim > 1) ds(o, 1) = ux[i] * dy[j] * z;
        if (dim > 2) ds(o, 2) = ux[i] * y * dz[k];
    }
}
std::vector<double> NodalFiniteElement::VertexWeights(int n) const
{
    auto& ip = Nodes.IntPoint(n);
    const double x = ip.x, y = ip.y, z = ip.z;
    switch (geom_type) {
        case Geometry::POINT: return { 1 };
        case Geometry::SEGMENT: return { 1 - x, x };
        case Geometry::TRIANGLE: return { 1 - x - y, x, y };
        case Geometry::SQUARE: return { (1 - x) * (1 - y), x * (1 - y), x * y, (1 - x) * y };
        case Geometry::TETRAHEDRON: return { 1 - x - y - z, x, y, z };
        case Geometry::CUBE: return { (1 - x) * (1 - y) * (1 - z), x * (1 - y) * (1 - z), x * y * (1 - z), (1 - x) * y * (1 - z), (1 - x) * (1 - y) * z, x * (1 - y) * z, x * y * z, (1 - x) * y * z };
        default: MFEM_ABORT("geometry");
    }
}
void FiniteElement::CalcPhysShape(ElementTransformation& T, Vector& s) const { CalcShape(T.GetIntPoint(), s); }
void FiniteElement::CalcPhysDShape(ElementTransformation& T, DenseMatrix& ds) const
{
    DenseMatrix d(dof, dim);
    CalcDShape(T.GetIntPoint(), d);
    ds.SetSize(dof, T.InverseJacobian().Width());
    mfem::Mult(d, T.InverseJacobian(), ds);
}

NodalCollection_::NodalCollection_(int p, int d, int bt, bool disc) : FiniteElementCollection(p, d), btype_(bt), disc_(disc)
{
    MFEM_VERIFY(p >= (disc ? 0 : 1), "order " << p << " not valid");
    std::ostringstream s;
    s << (disc ? "L2_" : "H1_");
    if (bt != (disc ? (int)BasisType::GaussLegendre : (int)BasisType::GaussLobatto)) s << (disc ? "T" : "@") << bt << "_";
    s << d << "D_P" << p;
    name_ = s.str();
    points1d(p, bt);
}
const FiniteElement* NodalCollection_::FiniteElementForGeometry(Geometry::Type g) const
{
    auto& f = fe_[g];
    if (!f) f = std::make_unique<NodalFiniteElement>(g, order, points1d(order, btype_), btype_);
    return f.get();
}
FiniteElementCollection* FiniteElementCollection::New(const char* n)
{
    std::string s(n);
    int d, p, t;
    if (std::sscanf(n, "L2_T%d_%dD_P%d", &t, &d, &p) == 3) return new L2_FECollection(p, d, t);
    if (std::sscanf(n, "L2_%dD_P%d", &d, &p) == 2) return new L2_FECollection(p, d);
    if (std::sscanf(n, "H1_%dD_P%d", &d, &p) == 2) return new H1_FECollection(p, d);
    if (std::sscanf(n, "H1_@%d_%dD_P%d", &t, &d, &p) == 3) return new H1_FECollection(p, d, t);
    if (s == "Linear") return new H1_FECollection(1, 3);
    if (s == "Quadratic") return new H1_FECollection(2, 3);
    MFEM_ABORT("unknown collection " << n);
}
const FiniteElement* LinearElement_(Geometry::Type g)
{
    static thread_local std::map<int, std::unique_ptr<NodalFiniteElement>> c;
    auto& f = c[g];
    if (!f) f = std::make_unique<NodalFiniteElement>(g, 1, std::vector<double>{ 0, 1 }, BasisType::GaussLobatto);
    return f.get();
}

// ---------------------------------------------------------------- transformations

void IsoparametricTransformation::SetIdentityTransformation(Geometry::Type g)
{
    SetFE(LinearElement_(g));
    auto& n = FElem->GetNodes();
    PointMat.SetSize(Geometry::Dimension[g], n.GetNPoints());
    for (int i = 0; i < n.GetNPoints(); i++) { double p[3]; n.IntPoint(i).Get(p, 3); for (int d = 0; d < Geometry::Dimension[g]; d++) PointMat(d, i) = p[d]; }
}
void IsoparametricTransformation::Transform(const IntegrationPoint& ip, Vector& v)
{
    Vector s(FElem->GetDof());
    FElem->CalcShape(ip, s);
    v.SetSize(PointMat.Height());
    PointMat.Mult(s.GetData(), v.GetData());
}
void IsoparametricTransformation::Transform(const IntegrationRule& ir, DenseMatrix& m)
{
    m.SetSize(PointMat.Height(), ir.GetNPoints());
    Vector v;
    for (int i = 0; i < ir.GetNPoints(); i++) { Transform(ir.IntPoint(i), v); for (int d = 0; d < v.Size(); d++) m(d, i) = v(d); }
}
void IsoparametricTransformation::evalJ()
{
    DenseMatrix ds(FElem->GetDof(), FElem->GetDim());
    static const IntegrationPoint origin;
    FElem->CalcDShape(IntPoint ? *IntPoint : origin, ds);
    dFdx.SetSize(PointMat.Height(), ds.Width());
    mfem::Mult(PointMat, ds, dFdx);
}
int IsoparametricTransformation::OrderJ() const { return FElem->Space() == FunctionSpace::Pk ? FElem->GetOrder() - 1 : FElem->GetOrder(); }
int IsoparametricTransformation::OrderW() const { return FElem->Space() == FunctionSpace::Pk ? (FElem->GetOrder() - 1) * FElem->GetDim() : FElem->GetOrder() * FElem->GetDim() - 1; }
int IsoparametricTransformation::OrderGrad(const FiniteElement* fe) const
{
    int k = FElem->GetOrder(), d = FElem->GetDim(), l = fe->GetOrder();
    return FElem->Space() == FunctionSpace::Pk ? (k - 1) * (d - 1) + (l - 1) : k * (d - 1) + (l - 1);
}
int IsoparametricTransformation::TransformBack(const Vector& pt, IntegrationPoint& ip)
{
    const int d = GetDimension();
    const IntegrationPoint* saved = IntPoint;
    IntegrationPoint cur = Geometries.GetCenter(geom);
    Vector x, r(d);
    double scale = PointMat.MaxMaxNorm();
    bool ok = false;
    for (int it = 0; it < 60; it++) {
        Transform(cur, x);
        Vector e(x.Size());
        double en = 0;
        for (int i = 0; i < x.Size(); i++) { e(i) = pt(i) - x(i); en = std::max(en, std::abs(e(i))); }
        if (en <= 1e-14 * std::max(scale, 1e-300)) { ok = true; break; }
        SetIntPoint(&cur);
        const DenseMatrix& inv = InverseJacobian();
        inv.Mult(e.GetData(), r.GetData());
        double mx = 0;
        for (int i = 0; i < d; i++) mx = std::max(mx, std::abs(r(i)));
        if (!std::isfinite(mx)) break;
        if (mx > 1.0) r *= 1.0 / mx;
        cur.x += r(0); if (d > 1) cur.y += r(1); if (d > 2) cur.z += r(2);
        if (mx < 1e-14) { ok = true; break; }
        if (std::abs(cur.x) + std::abs(cur.y) + std::abs(cur.z) > 20) break;
    }
    SetIntPoint(saved);
    ip = cur; ip.weight = 0;
    if (!ok) return InverseElementTransformation::Unknown;
    return Geometry::CheckPoint(geom, cur, 1e-8) ? InverseElementTransformation::Inside : InverseElementTransformation::Outside;
}
void IntegrationPointTransformation::Transform(const IntegrationPoint& ip, IntegrationPoint& o)
{
    Vector v;
    Transf.Transform(ip, v);
    o.x = v(0); o.y = v.Size() > 1 ? v(1) : 0; o.z = v.Size() > 2 ? v(2) : 0;
    o.weight = ip.weight; o.index = ip.index;
}
void FaceElementTransformations::SetAllIntPoints(const IntegrationPoint* ip)
{
    IsoparametricTransformation::SetIntPoint(ip);
    if (Elem1) { Loc1.Transform(*ip, eip1); Elem1->SetIntPoint(&eip1); }
    if (Elem2) { Loc2.Transform(*ip, eip2); Elem2->SetIntPoint(&eip2); }
}

// ---------------------------------------------------------------- integrators

const IntegrationRule& MassIntegrator::GetRule(const FiniteElement& a, const FiniteElement& b, const ElementTransformation& T)
{ return IntRules.Get(a.GetGeomType(), a.GetOrder() + b.GetOrder() + T.OrderW()); }
void MassIntegrator::AssembleElementMatrix2(const FiniteElement& trial, const FiniteElement& test, ElementTransformation& T, DenseMatrix& m)
{
    m.SetSize(test.GetDof(), trial.GetDof());
    m = 0.0;
    Vector s(trial.GetDof()), t(test.GetDof());
    const IntegrationRule& ir = IntRule ? *IntRule : GetRule(trial, test, T);
    for (int i = 0; i < ir.GetNPoints(); i++) {
        auto& ip = ir.IntPoint(i);
        T.SetIntPoint(&ip);
        trial.CalcShape(ip, s); test.CalcShape(ip, t);
        double w = T.Weight() * ip.weight;
        if (Q) w *= Q->Eval(T, ip);
        AddMult_a_VWt(w, t, s, m);
    }
}
void DerivativeIntegrator::AssembleElementMatrix2(const FiniteElement& trial, const FiniteElement& test, ElementTransformation& T, DenseMatrix& m)
{
    m.SetSize(test.GetDof(), trial.GetDof());
    m = 0.0;
    DenseMatrix ds(trial.GetDof(), trial.GetDim());
    Vector t(test.GetDof()), g(trial.GetDof());
    int order = trial.Space() == FunctionSpace::Pk ? trial.GetOrder() + test.GetOrder() - 1 : trial.GetOrder() + test.GetOrder() + trial.GetDim();
    const IntegrationRule& ir = IntRule ? *IntRule : IntRules.Get(trial.GetGeomType(), order);
    for (int i = 0; i < ir.GetNPoints(); i++) {
        auto& ip = ir.IntPoint(i);
        T.SetIntPoint(&ip);
        trial.CalcDShape(ip, ds); test.CalcShape(ip, t);
        const DenseMatrix& adj = T.AdjugateJacobian();
        for (int a = 0; a < trial.GetDof(); a++) { double s = 0; for (int k = 0; k < trial.GetDim(); k++) s += ds(a, k) * adj(k, xi); g(a) = s; }
        double w = ip.weight;
        if (Q) w *= Q->Eval(T, ip);
        AddMult_a_VWt(w, t, g, m);
    }
}
void ConvectionIntegrator::AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m)
{
    m.SetSize(el.GetDof());
    m = 0.0;
    DenseMatrix ds(el.GetDof(), el.GetDim());
    Vector s(el.GetDof()), g(el.GetDof()), q;
    const IntegrationRule& ir = IntRule ? *IntRule : IntRules.Get(el.GetGeomType(), T.OrderGrad(&el) + T.Order() + el.GetOrder());
    for (int i = 0; i < ir.GetNPoints(); i++) {
        auto& ip = ir.IntPoint(i);
        T.SetIntPoint(&ip);
        el.CalcDShape(ip, ds); el.CalcShape(ip, s);
        Q->Eval(q, T, ip);
        const DenseMatrix& adj = T.AdjugateJacobian();
        for (int a = 0; a < el.GetDof(); a++) { double x = 0; for (int k = 0; k < el.GetDim(); k++) for (int d = 0; d < q.Size(); d++) x += ds(a, k) * adj(k, d) * q(d); g(a) = x; }
        AddMult_a_VWt(alpha * ip.weight, s, g, m);
    }
}
void DiffusionIntegrator::AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m)
{
    m.SetSize(el.GetDof());
    m = 0.0;
    DenseMatrix ds(el.GetDof(), el.GetDim()), g(el.GetDof(), T.GetSpaceDim());
    const IntegrationRule& ir = IntRule ? *IntRule : IntRules.Get(el.GetGeomType(), 2 * el.GetOrder() + 2);
    for (int i = 0; i < ir.GetNPoints(); i++) {
        auto& ip = ir.IntPoint(i);
        T.SetIntPoint(&ip);
        el.CalcDShape(ip, ds);
        mfem::Mult(ds, T.InverseJacobian(), g);
        double w = ip.weight * T.Weight();
        if (Q) w *= Q->Eval(T, ip);
        AddMult_a_ABt(w, g, g, m);
    }
}
void DGTraceIntegrator::AssembleFaceMatrix(const FiniteElement& e1, const FiniteElement& e2, FaceElementTransformations& T, DenseMatrix& m)
{
    const int n1 = e1.GetDof(), n2 = T.Elem2No >= 0 ? e2.GetDof() : 0, dim = e1.GetDim();
    m.SetSize(n1 + n2);
    m = 0.0;
    Vector s1(n1), s2(n2), nor(dim), vu(dim);
    int order = T.Elem2No >= 0 ? std::min(T.Elem1->OrderW(), T.Elem2->OrderW()) + 2 * std::max(e1.GetOrder(), e2.GetOrder()) : T.Elem1->OrderW() + 2 * e1.GetOrder();
    if (e1.Space() == FunctionSpace::Pk) order++;
    const IntegrationRule& ir = IntRule ? *IntRule : IntRules.Get(T.GetGeometryType(), order);
    for (int p = 0; p < ir.GetNPoints(); p++) {
        auto& ip = ir.IntPoint(p);
        T.SetAllIntPoints(&ip);
        e1.CalcShape(T.GetElement1IntPoint(), s1);
        u->Eval(vu, *T.Elem1, T.GetElement1IntPoint());
        if (dim == 1) nor(0) = 2 * T.GetElement1IntPoint().x - 1.0; else CalcOrtho(T.Jacobian(), nor);
        const double un = vu * nor;
        double a = 0.5 * alpha * un, b = beta * std::abs(un), w = ip.weight * (a + b);
        if (w != 0.0) for (int i = 0; i < n1; i++) for (int j = 0; j < n1; j++) m(i, j) += w * s1(i) * s1(j);
        if (n2) {
            e2.CalcShape(T.GetElement2IntPoint(), s2);
            if (w != 0.0) for (int i = 0; i < n2; i++) for (int j = 0; j < n1; j++) m(n1 + i, j) -= w * s2(i) * s1(j);
            w = ip.weight * (b - a);
            if (w != 0.0) {
                for (int i = 0; i < n2; i++) for (int j = 0; j < n2; j++) m(n1 + i, n1 + j) += w * s2(i) * s2(j);
                for (int i = 0; i < n1; i++) for (int j = 0; j < n2; j++) m(i, n1 + j) -= w * s1(i) * s2(j);
            }
        }
    }
}
void DomainLFIntegrator::AssembleRHSElementVect(const FiniteElement& el, ElementTransformation& T, Vector& v)
{
    v.SetSize(el.GetDof()); v = 0.0;
    Vector s(el.GetDof());
    const IntegrationRule& ir = IntRule ? *IntRule : IntRules.Get(el.GetGeomType(), oa * el.GetOrder() + ob);
    for (int i = 0; i < ir.GetNPoints(); i++) { auto& ip = ir.IntPoint(i); T.SetIntPoint(&ip); el.CalcShape(ip, s); v.Add(ip.weight * T.Weight() * Q.Eval(T, ip), s); }
}
void BoundaryLFIntegrator::AssembleRHSElementVect(const FiniteElement& el, ElementTransformation& T, Vector& v)
{
    v.SetSize(el.GetDof()); v = 0.0;
    Vector s(el.GetDof());
    const IntegrationRule& ir = IntRule ? *IntRule : IntRules.Get(el.GetGeomType(), oa * el.GetOrder() + ob);
    for (int i = 0; i < ir.GetNPoints(); i++) { auto& ip = ir.IntPoint(i); T.SetIntPoint(&ip); el.CalcShape(ip, s); v.Add(ip.weight * T.Weight() * Q.Eval(T, ip), s); }
}
void BoundaryLFIntegrator::AssembleRHSElementVect(const FiniteElement& el, FaceElementTransformations& T, Vector& v)
{
    v.SetSize(el.GetDof()); v = 0.0;
    Vector s(el.GetDof());
    const IntegrationRule& ir = IntRule ? *IntRule : IntRules.Get(T.GetGeometryType(), oa * el.GetOrder() + ob);
    for (int i = 0; i < ir.GetNPoints(); i++) { auto& ip = ir.IntPoint(i); T.SetAllIntPoints(&ip); el.CalcShape(T.GetElement1IntPoint(), s); v.Add(ip.weight * T.Weight() * Q.Eval(T, ip), s); }
}

} // namespace mfem
