// Generators shared by the solver checks: meshes, materials, boundary conditions, states.
#pragma once
#include "pbt.h"
#include "solver/Solver.h"
#include <array>
#include <map>
#include <set>

namespace gen {

using namespace maxwell;
using P3 = std::array<double, 3>;
using Vec3 = std::array<double, 3>;

/// A mesh as plain lists, so that it can be renumbered, moved and written out.
struct GMesh {
    int dim = 1;
    char type = 's';                       // s segment, t triangle, q quadrilateral, T tetrahedron, H hexahedron
    std::vector<P3> v;
    std::vector<std::vector<int>> el, bd;  // elements and boundary faces (exterior and interior)
    std::vector<int> ea, ba;               // their attributes
    bool affine = true;                    // straight element maps (constant Jacobian)

    std::vector<std::vector<int>> localFaces() const
    {
        switch (type) {
        case 's': return { { 0 }, { 1 } };
        case 't': return { { 0, 1 }, { 1, 2 }, { 2, 0 } };
        case 'q': return { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 } };
        case 'T': return { { 1, 2, 3 }, { 0, 3, 2 }, { 0, 1, 3 }, { 0, 2, 1 } };
        default: return { { 3, 2, 1, 0 }, { 0, 1, 5, 4 }, { 1, 2, 6, 5 }, { 2, 3, 7, 6 }, { 3, 0, 4, 7 }, { 4, 5, 6, 7 } };
        }
    }
    struct Face { std::vector<int> v; std::vector<int> els; };
    /// all faces with their vertices in the order of the first element
    std::map<std::vector<int>, Face> faces() const
    {
        std::map<std::vector<int>, Face> f;
        auto lf = localFaces();
        for (int e = 0; e < (int)el.size(); e++)
            for (auto& l : lf) {
                std::vector<int> w;
                for (int i : l) w.push_back(el[e][i]);
                auto k = w;
                std::sort(k.begin(), k.end());
                auto& x = f[k];
                if (x.els.empty()) x.v = w;
                x.els.push_back(e);
            }
        return f;
    }
    P3 centroid(const std::vector<int>& ids) const
    {
        P3 c{ 0, 0, 0 };
        for (int i : ids) for (int d = 0; d < 3; d++) c[d] += v[i][d] / ids.size();
        return c;
    }
    mfem::Mesh build() const
    {
        mfem::Mesh m(dim, (int)v.size(), (int)el.size(), (int)bd.size(), dim);
        for (auto& p : v) m.AddVertex(p.data());
        for (size_t i = 0; i < el.size(); i++) {
            const int* e = el[i].data();
            switch (type) {
            case 's': m.AddSegment(e, ea[i]); break;
            case 't': m.AddTriangle(e, ea[i]); break;
            case 'q': m.AddQuad(e, ea[i]); break;
            case 'T': m.AddTet(e, ea[i]); break;
            default: m.AddHex(e, ea[i]);
            }
        }
        for (size_t i = 0; i < bd.size(); i++) {
            const int* b = bd[i].data();
            switch (type) {
            case 's': m.AddBdrPoint(b[0], ba[i]); break;
            case 't': case 'q': m.AddBdrSegment(b, ba[i]); break;
            case 'T': m.AddBdrTriangle(b, ba[i]); break;
            default: m.AddBdrQuad(b, ba[i]);
            }
        }
        m.FinalizeTopology();
        m.Finalize(false, true);
        return m;
    }
};

struct MeshOpts {
    std::string types = "stqTH";
    int maxElems = 24;
    bool jitter = true;
    bool warpQuads = true;     // non-parallelogram quadrilaterals
    bool warpHexes = false;    // hexahedra with curved faces
    bool renumber = true;
    bool rigid = true;         // random rotation and shift
    double interior = 0.3;     // chance that a problem has interior boundary faces
};

inline char typeDim(char t) { return t == 's' ? 1 : t == 't' || t == 'q' ? 2 : 3; }

inline std::array<P3, 3> randomRotation(pbt::Case& c)
{
    double a = c.real(-M_PI, M_PI), b = c.real(-M_PI, M_PI), g = c.real(-M_PI, M_PI);
    double ca = cos(a), sa = sin(a), cb = cos(b), sb = sin(b), cg = cos(g), sg = sin(g);
    return { P3{ ca * cb, ca * sb * sg - sa * cg, ca * sb * cg + sa * sg }, P3{ sa * cb, sa * sb * sg + ca * cg, sa * sb * cg - ca * sg }, P3{ -sb, cb * sg, cb * cg } };
}
inline std::array<P3, 3> rotationZ(double a) { return { P3{ cos(a), -sin(a), 0 }, P3{ sin(a), cos(a), 0 }, P3{ 0, 0, 1 } }; }
inline P3 rotated(const std::array<P3, 3>& R, const P3& p)
{
    P3 q{ 0, 0, 0 };
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) q[i] += R[i][j] * p[j];
    return q;
}

/// Relabel vertices of an element without changing its orientation.
inline void turn(pbt::Case& c, char type, std::vector<int>& e)
{
    if (type == 't') std::rotate(e.begin(), e.begin() + c.range(0, 2), e.end());
    else if (type == 'q') std::rotate(e.begin(), e.begin() + c.range(0, 3), e.end());
    else if (type == 'T') {
        std::rotate(e.begin(), e.begin() + c.range(0, 2), e.begin() + 3);
        if (c.flip()) { std::swap(e[0], e[3]); std::swap(e[1], e[2]); }
    }
    else if (type == 'H') {
        int k = c.range(0, 3);
        std::rotate(e.begin(), e.begin() + k, e.begin() + 4);
        std::rotate(e.begin() + 4, e.begin() + 4 + k, e.begin() + 8);
        if (c.flip()) { std::vector<int> o = e; e = { o[0], o[4], o[5], o[1], o[3], o[7], o[6], o[2] }; }   // another axis upwards
        if (c.flip()) { std::vector<int> o = e; e = { o[5], o[4], o[7], o[6], o[1], o[0], o[3], o[2] }; }   // upside down
    }
}

/// Exterior faces first, in no particular order; interior faces are added by the caller.
inline GMesh randomMesh(pbt::Case& c, const MeshOpts& o)
{
    GMesh m;
    m.type = o.types[c.below(o.types.size())];
    m.dim = typeDim(m.type);
    int per = m.type == 't' ? 2 : m.type == 'T' ? 6 : 1, n[3] = { 1, 1, 1 };
    int budget = std::max(1, o.maxElems / per);
    for (int d = 0; d < m.dim; d++) { n[d] = c.range(1, std::max(1, std::min(m.dim == 1 ? 12 : m.dim == 2 ? 5 : 3, budget))); budget = std::max(1, budget / n[d]); }
    double len[3];
    for (int d = 0; d < 3; d++) len[d] = c.logreal(0.5, 2.0);
    bool jit = o.jitter && c.flip(3, 4);
    if (m.type == 'q' && !o.warpQuads) jit = false;
    if (m.type == 'H' && !o.warpHexes) jit = false;
    if ((m.type == 'q' || m.type == 'H') && jit) m.affine = false;
    auto id = [&](int i, int j, int k) { return i + (n[0] + 1) * (j + (m.dim > 1 ? n[1] + 1 : 1) * k); };
    for (int k = 0; k <= (m.dim > 2 ? n[2] : 0); k++)
        for (int j = 0; j <= (m.dim > 1 ? n[1] : 0); j++)
            for (int i = 0; i <= n[0]; i++) {
                int q[3] = { i, j, k };
                P3 p{ 0, 0, 0 };
                for (int d = 0; d < m.dim; d++) {
                    double x = q[d];
                    if (jit) x += c.real(-0.22, 0.22) * (m.type == 'H' ? 0.6 : 1);
                    p[d] = x * len[d] / n[d];
                }
                m.v.push_back(p);
            }
    for (int k = 0; k < (m.dim > 2 ? n[2] : 1); k++)
        for (int j = 0; j < (m.dim > 1 ? n[1] : 1); j++)
            for (int i = 0; i < n[0]; i++) {
                if (m.dim == 1) { m.el.push_back({ id(i, 0, 0), id(i + 1, 0, 0) }); continue; }
                int a = id(i, j, k), b = id(i + 1, j, k), d = id(i + 1, j + 1, k), e = id(i, j + 1, k);
                if (m.type == 'q') m.el.push_back({ a, b, d, e });
                else if (m.type == 't') {
                    if (c.flip()) { m.el.push_back({ a, b, d }); m.el.push_back({ a, d, e }); }
                    else { m.el.push_back({ a, b, e }); m.el.push_back({ b, d, e }); }
                }
                else {
                    int w[8] = { a, b, d, e, id(i, j, k + 1), id(i + 1, j, k + 1), id(i + 1, j + 1, k + 1), id(i, j + 1, k + 1) };
                    if (m.type == 'H') m.el.push_back(std::vector<int>(w, w + 8));
                    else {
                        // six tetrahedra around the main diagonal, conforming between cells
                        static const int t[6][4] = { { 0, 1, 2, 6 }, { 0, 2, 3, 6 }, { 0, 3, 7, 6 }, { 0, 7, 4, 6 }, { 0, 4, 5, 6 }, { 0, 5, 1, 6 } };
                        for (auto& q : t) m.el.push_back({ w[q[0]], w[q[1]], w[q[2]], w[q[3]] });
                    }
                }
            }
    // a shear keeps parallelograms affine and makes them oblique
    if (m.dim > 1 && c.flip()) {
        double s = c.real(-0.5, 0.5), t = m.dim > 2 ? c.real(-0.4, 0.4) : 0;
        for (auto& p : m.v) { p[0] += s * p[1]; if (m.dim > 2) p[1] += t * p[2]; }
    }
    if (o.rigid && c.flip()) {
        auto R = m.dim == 3 ? randomRotation(c) : m.dim == 2 ? rotationZ(c.real(-M_PI, M_PI)) : rotationZ(0);
        P3 s{ c.real(-2, 2), m.dim > 1 ? c.real(-2, 2) : 0.0, m.dim > 2 ? c.real(-2, 2) : 0.0 };
        for (auto& p : m.v) { p = rotated(R, p); for (int d = 0; d < 3; d++) p[d] += s[d]; }
    }
    m.ea.assign(m.el.size(), 1);
    for (auto& [key, f] : m.faces()) if (f.els.size() == 1) { m.bd.push_back(f.v); m.ba.push_back(1); }
    if (o.renumber && c.flip()) {
        auto pv = c.permutation((int)m.v.size());
        std::vector<P3> nv(m.v.size());
        for (size_t i = 0; i < pv.size(); i++) nv[pv[i]] = m.v[i];
        m.v = nv;
        for (auto& e : m.el) for (auto& i : e) i = pv[i];
        for (auto& e : m.bd) for (auto& i : e) i = pv[i];
        auto pe = c.permutation((int)m.el.size());
        auto ne = m.el;
        for (size_t i = 0; i < pe.size(); i++) ne[pe[i]] = m.el[i];
        m.el = ne;
        if (m.dim > 1) for (auto& e : m.el) turn(c, m.type, e);
    }
    return m;
}

struct Mat { double eps = 1, mu = 1, sigma = 0; };

/// Everything that defines a source-free problem.
struct Prob {
    GMesh g;
    std::map<int, Mat> mats;
    std::map<int, BdrCond> bdr, ibdr;
    double alpha = 1;
    int order = 1;
    int basis = mfem::BasisType::GaussLobatto;
    int curve = 0;                                   // order of a curved geometry, 0 for none
    std::function<void(const mfem::Vector&, mfem::Vector&)> bend;

    mfem::Mesh mesh() const
    {
        mfem::Mesh m = g.build();
        if (curve > 0) { m.SetCurvature(curve); m.Transform(bend); }
        return m;
    }
    Model model() const
    {
        mfem::Mesh m = mesh();
        return model(m);
    }
    Model model(mfem::Mesh& m) const
    {
        GeomTagToMaterial gm;
        for (auto& [t, x] : mats) gm.emplace(t, Material(x.eps, x.mu, x.sigma));
        GeomTagToInteriorBoundary in;
        mfem::Array<int> tf(m.bdr_attributes.Size() ? m.bdr_attributes.Max() : 0);
        tf = 0;
        for (auto& [t, b] : ibdr) if (b == BdrCond::TotalFieldIn) tf[t - 1] = 1; else in.emplace(t, b);
        Model r(m, GeomTagToMaterialInfo(gm, {}), GeomTagToBoundaryInfo(GeomTagToBoundary(bdr.begin(), bdr.end()), in));
        // the way the driver marks total-field surfaces
        if (tf.Size() && tf.Max() == 1) r.getTotalFieldScatteredFieldToMarker().insert(std::make_pair(BdrCond::TotalFieldIn, tf));
        return r;
    }
    SolverOptions options(EvolutionOperatorType op = Global) const
    {
        SolverOptions s;
        s.setOrder(order).setUpwindAlpha(alpha).setTimeStep(1e-3).setFinalTime(1.0).setEvolutionOperator(op).setBasisType(basis);
        return s;
    }
    std::string text() const
    {
        std::ostringstream s;
        s.precision(4);
        const char* n = g.type == 's' ? "segments" : g.type == 't' ? "triangles" : g.type == 'q' ? "quadrilaterals" : g.type == 'T' ? "tetrahedra" : "hexahedra";
        s << g.el.size() << " " << n << (g.affine ? "" : " (warped)") << " order " << order << " alpha " << alpha << " basis " << basis;
        if (curve) s << " curved " << curve;
        for (auto& [t, m] : mats) s << " mat" << t << "(" << m.eps << "," << m.mu << "," << m.sigma << ")";
        auto name = [](BdrCond b) { return b == BdrCond::PEC ? "PEC" : b == BdrCond::PMC ? "PMC" : b == BdrCond::SMA ? "SMA" : b == BdrCond::TotalFieldIn ? "TFSF" : "SGBC"; };
        for (auto& [t, b] : bdr) s << " bdr" << t << "=" << name(b);
        for (auto& [t, b] : ibdr) s << " int" << t << "=" << name(b);
        return s.str();
    }
};

struct ProbOpts : MeshOpts {
    bool losses = false;
    bool sma = true;
    bool interiors = true;
    bool materials = true;
    int maxOrder = 3;
    double alphaLo = 0, alphaHi = 1;
};

inline Prob randomProblem(pbt::Case& c, const ProbOpts& o)
{
    Prob p;
    p.g = randomMesh(c, o);
    auto& g = p.g;
    p.order = c.range(1, g.dim == 3 ? std::min(o.maxOrder, g.type == 'H' ? 2 : 3) : o.maxOrder);
    p.alpha = o.alphaHi > o.alphaLo ? (c.flip(1, 3) ? o.alphaHi : c.flip(1, 3) ? o.alphaLo : c.grid(o.alphaLo, o.alphaHi, 16)) : o.alphaLo;
    if (c.flip(1, 4)) p.basis = mfem::BasisType::GaussLegendre;
    // materials: tags with gaps, some never used by the mesh
    int nm = o.materials ? c.range(1, 3) : 1;
    std::vector<int> tags;
    for (int i = 0, t = 0; i < nm; i++) { t += o.materials ? c.range(1, 2) : 1; tags.push_back(t); }
    for (int t : tags) {
        Mat m;
        if (o.materials && c.flip(2, 3)) { m.eps = c.flip() ? 1 + c.grid(0, 8, 64) : 1; m.mu = c.flip() ? 1 + c.grid(0, 5, 50) : 1; }
        if (o.losses && c.flip()) m.sigma = c.flip(1, 4) ? c.logreal(1, 1e4) : c.grid(0, 4, 64);
        p.mats[t] = m;
    }
    for (auto& a : g.ea) a = c.pick(tags);
    // boundary tags: exterior and interior tags interleaved, with gaps
    auto cond = [&] { return c.pick(o.sma ? std::vector<BdrCond>{ BdrCond::PEC, BdrCond::PMC, BdrCond::SMA } : std::vector<BdrCond>{ BdrCond::PEC, BdrCond::PMC }); };
    int ne = c.range(1, 3), t = 0;
    std::vector<int> et, it;
    bool inter = o.interiors && c.below(1000) >= 1000 - (uint64_t)(1000 * o.interior);
    int ni = inter ? c.range(1, 2) : 0;
    while ((int)et.size() < ne || (int)it.size() < ni) {
        t += c.flip(1, 4) ? 2 : 1;
        bool ext = (int)it.size() >= ni || ((int)et.size() < ne && c.flip());
        if (ext) { et.push_back(t); p.bdr[t] = cond(); }
        else { it.push_back(t); p.ibdr[t] = cond(); }
    }
    for (auto& a : g.ba) a = c.pick(et);
    if (ni) {
        for (auto& [k, f] : g.faces())
            if (f.els.size() == 2 && c.flip(1, 3)) {
                auto w = f.v;
                // the listed orientation of an interior face is arbitrary
                if (g.dim > 1 && c.flip()) std::reverse(w.begin(), w.end());
                if (g.dim > 2) std::rotate(w.begin(), w.begin() + c.range(0, (int)w.size() - 1), w.end());
                g.bd.push_back(w);
                g.ba.push_back(c.pick(it));
            }
        auto order = c.permutation((int)g.bd.size());
        auto nb = g.bd; auto na = g.ba;
        for (size_t i = 0; i < order.size(); i++) { nb[order[i]] = g.bd[i]; na[order[i]] = g.ba[i]; }
        g.bd = nb; g.ba = na;
        // tags that no face carries would only be markers beyond the mesh
        std::set<int> used(g.ba.begin(), g.ba.end());
        for (auto x = p.ibdr.begin(); x != p.ibdr.end();) x = used.count(x->first) ? std::next(x) : p.ibdr.erase(x);
    }
    std::set<int> used(g.ba.begin(), g.ba.end());
    for (auto x = p.bdr.begin(); x != p.bdr.end();) x = used.count(x->first) ? std::next(x) : p.bdr.erase(x);
    c.label(g.type == 's' ? "segments" : g.type == 't' ? "triangles" : g.type == 'q' ? "quads" : g.type == 'T' ? "tets" : "hexes");
    c.label("order" + std::to_string(p.order));
    if (!p.ibdr.empty()) c.label("interior");
    return p;
}

/// Marks a total-field region by tagging the faces around it; side[e] is 1 inside. The solver tells the sides apart
/// by element numbers in one and two dimensions (the total field has the higher number; in one dimension the points
/// are listed from left to right) and by the distance to the centre of the surface in three; regions that do not
/// follow this are discarded. The element-wise operator goes by the listed direction of the surface segments (the
/// total field is to their right) and, in three dimensions, by element numbers: "oriented" surfaces follow that too.
inline int addTotalField(pbt::Case& c, Prob& p, std::vector<char>& side, bool vacuumAround = true, bool oriented = false)
{
    auto& g = p.g;
    const int ne = (int)g.el.size();
    side.assign(ne, 0);
    if (ne < 2) c.discard();
    std::vector<P3> b(ne);
    for (int e = 0; e < ne; e++) b[e] = g.centroid(g.el[e]);
    auto renumber = [&](const std::vector<int>& order) {
        auto el = g.el; auto ea = g.ea; auto sd = side; auto bb = b;
        for (int i = 0; i < ne; i++) { g.el[i] = el[order[i]]; g.ea[i] = ea[order[i]]; side[i] = sd[order[i]]; b[i] = bb[order[i]]; }
    };
    std::vector<int> order(ne);
    for (int i = 0; i < ne; i++) order[i] = i;
    if (g.dim == 1) {
        if (ne < 3) c.discard();
        std::sort(order.begin(), order.end(), [&](int i, int j) { return b[i][0] < b[j][0]; });
        renumber(order);
        // the first element is never the one left of the surface: there the solver takes the point for the end of the domain
        int lo = c.range(1, ne - 1), hi = c.flip() || lo + 1 >= ne ? ne : c.range(lo + 1, ne - 1);
        for (int e = lo; e < hi; e++) side[e] = 1;
    }
    else {
        int seed = (int)c.below(ne);
        int kind = (int)c.below(3);
        double r = c.grid(0.2, 1.2, 20), ang = c.real(-M_PI, M_PI);
        P3 n{ cos(ang), sin(ang), g.dim > 2 ? c.real(-1, 1) : 0.0 };
        for (int e = 0; e < ne; e++) {
            double d2 = 0, dn = 0;
            for (int d = 0; d < 3; d++) { d2 += std::pow(b[e][d] - b[seed][d], 2); dn += (b[e][d] - b[seed][d]) * n[d]; }
            side[e] = e == seed || (kind == 0 ? d2 < r * r : kind == 1 ? dn > 0 : c.flip());
        }
        if (std::count(side.begin(), side.end(), 1) == ne) side[seed == 0 ? 1 : 0] = 0;
        if (g.dim == 2 || oriented) {
            std::stable_sort(order.begin(), order.end(), [&](int i, int j) { return side[i] < side[j]; });
            renumber(order);
        }
    }
    auto faces = g.faces();
    std::vector<std::vector<int>> surf;
    std::set<std::vector<int>> keys;
    for (auto& [k, f] : faces)
        if (f.els.size() == 2 && side[f.els[0]] != side[f.els[1]]) { surf.push_back(f.v); keys.insert(k); }
    if (surf.empty()) c.discard();
    // no other condition on the surface itself
    for (size_t i = 0; i < g.bd.size();) {
        auto k = g.bd[i];
        std::sort(k.begin(), k.end());
        if (keys.count(k)) { g.bd.erase(g.bd.begin() + i); g.ba.erase(g.ba.begin() + i); }
        else i++;
    }
    std::set<int> used(g.ba.begin(), g.ba.end());
    for (auto x = p.ibdr.begin(); x != p.ibdr.end();) x = used.count(x->first) ? std::next(x) : p.ibdr.erase(x);
    if (g.dim == 3) {
        std::set<int> vs;
        P3 m{ 0, 0, 0 };
        for (auto& k : keys) vs.insert(k.begin(), k.end());
        for (int v : vs) for (int d = 0; d < 3; d++) m[d] += g.v[v][d] / vs.size();
        auto dist = [&](int e) { double s = 0; for (int d = 0; d < 3; d++) s += std::pow(b[e][d] - m[d], 2); return std::sqrt(s); };
        for (auto& k : keys) {
            auto& f = faces[k];
            int in = side[f.els[0]] ? f.els[0] : f.els[1], out = f.els[0] + f.els[1] - in;
            if (dist(in) > dist(out) - 1e-6) c.discard();
        }
    }
    int tag = 1;
    for (auto* m : { &p.bdr, &p.ibdr }) for (auto& [t, k] : *m) tag = std::max(tag, t + 1);
    if (g.dim == 1) std::sort(surf.begin(), surf.end(), [&](auto& x, auto& y) { return g.v[x[0]][0] < g.v[y[0]][0]; });
    for (auto& w : surf) {
        if (g.dim > 1 && !oriented && c.flip()) std::reverse(w.begin(), w.end());
        if (g.dim > 2) std::rotate(w.begin(), w.begin() + c.range(0, (int)w.size() - 1), w.end());
        size_t at = g.dim == 1 ? g.bd.size() : c.below(g.bd.size() + 1);
        g.bd.insert(g.bd.begin() + at, w);
        g.ba.insert(g.ba.begin() + at, tag);
    }
    p.ibdr[tag] = BdrCond::TotalFieldIn;
    if (vacuumAround) {
        int vac = 1;
        for (auto& [t, m] : p.mats) vac = std::max(vac, t + 1);
        p.mats[vac] = Mat();
        for (auto& k : keys) for (int e : faces[k].els) g.ea[e] = vac;
    }
    c.label(surf.size() == 1 ? "one_face" : "several_faces");
    return tag;
}

/// The same problem without its total-field surface.
inline Prob withoutSurface(Prob p, int tag)
{
    auto& g = p.g;
    for (size_t i = 0; i < g.bd.size();) {
        if (g.ba[i] == tag) { g.bd.erase(g.bd.begin() + i); g.ba.erase(g.ba.begin() + i); }
        else i++;
    }
    p.ibdr.erase(tag);
    return p;
}

/// A plane wave and the means to sample it.
inline Planewave randomPlanewave(pbt::Case& c, std::ostream* o = nullptr)
{
    auto unit = [&](int k) { Vec3 v; if (c.flip(1, 3)) { v = { 0, 0, 0 }; v[(k + c.below(2)) % 3] = c.sign(); } else v = { c.gauss(), c.gauss(), c.gauss() + 1e-3 }; return v; };
    auto cross = [](const Vec3& a, const Vec3& b) { return Vec3{ a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] }; };
    auto norm = [](const Vec3& a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); };
    Vec3 k = unit(0), q = unit(1), pol = cross(k, q);
    if (!(norm(pol) > 1e-3 * norm(k) * norm(q))) { q = { k[1], k[2], -k[0] }; pol = cross(k, q); }
    if (!(norm(pol) > 1e-3 * norm(k) * norm(q))) c.discard();
    mfem::Vector K({ k[0], k[1], k[2] }), Pv({ pol[0], pol[1], pol[2] });
    Pv *= 1 / Pv.Norml2(); K *= 1 / K.Norml2();
    double spread = c.logreal(0.2, 3), mean = c.real(-2, 2), freq = c.real(0, 1);
    FieldType ft = c.flip() ? E : H;
    bool mod = c.flip(1, 3);
    if (o) *o << " wave k(" << K[0] << "," << K[1] << "," << K[2] << ") pol" << (ft == E ? "E" : "H") << "(" << Pv[0] << "," << Pv[1] << "," << Pv[2] << ") spread " << spread << " mean " << mean << (mod ? " modulated " : "");
    mfem::Vector m({ mean });
    if (mod) return Planewave(ModulatedGaussian(spread, m, freq), Pv, K, ft);
    return Planewave(Gaussian(spread, m), Pv, K, ft);
}

inline std::unique_ptr<maxwell::Solver> makeSolver(const Prob& p, EvolutionOperatorType op = Global, const Sources& s = Sources(), const Probes& pr = Probes())
{
    return std::make_unique<maxwell::Solver>(p.model(), pr, s, p.options(op));
}

inline mfem::Vector randomState(pbt::Case& c, int n)
{
    mfem::Vector x(n);
    int kind = (int)c.below(4);
    if (kind == 0 && n > 0) { x = 0.0; x[(int)c.below(n)] = 1.0; return x; }
    // a seed keeps the choice sequence short
    uint64_t s = c.below(1u << 30) * 2654435761u + 12345;
    for (int i = 0; i < n; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; x[i] = double((s >> 33) & 0xffffff) / 0x800000 - 1.0; }
    return x;
}

/// Positions of all nodes of the space, in the order of its degrees of freedom.
inline std::vector<P3> nodePositions(mfem::FiniteElementSpace& fes)
{
    std::vector<P3> r(fes.GetNDofs());
    for (int e = 0; e < fes.GetNE(); e++) {
        mfem::Array<int> d;
        fes.GetElementDofs(e, d);
        auto* T = fes.GetMesh()->GetElementTransformation(e);
        auto& ir = fes.GetFE(e)->GetNodes();
        for (int i = 0; i < d.Size(); i++) {
            mfem::Vector x;
            T->Transform(ir.IntPoint(i), x);
            P3 p{ 0, 0, 0 };
            for (int k = 0; k < x.Size(); k++) p[k] = x[k];
            r[d[i]] = p;
        }
    }
    return r;
}

inline double maxAbs(const mfem::Vector& v) { double m = 0; for (int i = 0; i < v.Size(); i++) { if (!(std::abs(v[i]) <= m)) m = std::abs(v[i]); if (std::isnan(v[i])) return NAN; } return m; }

/// Fails unless two vectors agree to tol times the larger of their magnitudes (and scale).
inline void sameVector(pbt::Case& c, const mfem::Vector& a, const mfem::Vector& b, double tol, double scale, const std::string& what)
{
    c.expect(a.Size() == b.Size(), what + ": sizes differ");
    double s = std::max({ scale, maxAbs(a), maxAbs(b) });
    if (std::isnan(s)) c.fail(what + ": NaN");
    c.count(a.Size());
    for (int i = 0; i < a.Size(); i++)
        if (!(std::abs(a[i] - b[i]) <= tol * s))
            c.fail(pbt::cat(what, ": entry ", i, " of ", a.Size(), " is ", a[i], " instead of ", b[i], " (magnitude ", s, ")"));
}

} // namespace gen
