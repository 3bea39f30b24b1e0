#include "spmd.hpp"
#include "mfem.hpp"

namespace mfem {

static const int triE[3][2] = { { 0, 1 }, { 1, 2 }, { 2, 0 } };
static const int quadE[4][2] = { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 } };
static const int tetE[6][2] = { { 0, 1 }, { 0, 2 }, { 0, 3 }, { 1, 2 }, { 1, 3 }, { 2, 3 } };
static const int hexE[12][2] = { { 0, 1 }, { 1, 2 }, { 3, 2 }, { 0, 3 }, { 4, 5 }, { 5, 6 }, { 7, 6 }, { 4, 7 }, { 0, 4 }, { 1, 5 }, { 2, 6 }, { 3, 7 } };
static const int segE[1][2] = { { 0, 1 } };
static const int tetF[4][3] = { { 1, 2, 3 }, { 0, 3, 2 }, { 0, 1, 3 }, { 0, 2, 1 } };
static const int hexF[6][4] = { { 3, 2, 1, 0 }, { 0, 1, 5, 4 }, { 1, 2, 6, 5 }, { 2, 3, 7, 6 }, { 3, 0, 4, 7 }, { 4, 5, 6, 7 } };

const int* Element::GetEdgeVertices(int i) const
{
    switch (g_) {
        case Geometry::SEGMENT: return segE[i];
        case Geometry::TRIANGLE: return triE[i];
        case Geometry::SQUARE: return quadE[i];
        case Geometry::TETRAHEDRON: return tetE[i];
        case Geometry::CUBE: return hexE[i];
        default: MFEM_ABORT("no edges");
    }
}
int Element::GetNFaceVertices(int) const { return g_ == Geometry::TETRAHEDRON ? 3 : 4; }
const int* Element::GetFaceVertices(int f) const { if (g_ == Geometry::TETRAHEDRON) return tetF[f]; if (g_ == Geometry::CUBE) return hexF[f]; MFEM_ABORT("no faces"); }

/// local vertices of the local facet lf (vertex in 1D, edge in 2D, face in 3D)
std::vector<int> LocalFaceVertices_(Geometry::Type g, int lf)
{
    switch (g) {
        case Geometry::SEGMENT: return { lf };
        case Geometry::TRIANGLE: return { triE[lf][0], triE[lf][1] };
        case Geometry::SQUARE: return { quadE[lf][0], quadE[lf][1] };
        case Geometry::TETRAHEDRON: return { tetF[lf], tetF[lf] + 3 };
        case Geometry::CUBE: return { hexF[lf], hexF[lf] + 4 };
        default: MFEM_ABORT("geometry");
    }
}
int NumLocalFaces_(Geometry::Type g) { switch (g) { case Geometry::SEGMENT: return 2; case Geometry::TRIANGLE: return 3; case Geometry::SQUARE: return 4; case Geometry::TETRAHEDRON: return 4; case Geometry::CUBE: return 6; default: MFEM_ABORT("geometry"); } }
static Geometry::Type facetGeometry(int dim, size_t nv) { return dim == 1 ? Geometry::POINT : dim == 2 ? Geometry::SEGMENT : nv == 3 ? Geometry::TRIANGLE : Geometry::SQUARE; }
/// position of vertex i in the (lexicographic) linear element
static int lexVertex(Geometry::Type g, int i)
{
    static const int sq[4] = { 0, 1, 3, 2 }, cu[8] = { 0, 1, 3, 2, 4, 5, 7, 6 };
    return g == Geometry::SQUARE ? sq[i] : g == Geometry::CUBE ? cu[i] : i;
}

Mesh::Mesh(int d, int nv, int ne, int nbe, int sd) : Dim(d), spaceDim(sd < 0 ? d : sd)
{ vertices.reserve(nv); elements.reserve(ne); boundary.reserve(nbe); }

Mesh::Mesh(const Mesh& m, bool) : attributes(m.attributes), bdr_attributes(m.bdr_attributes), Dim(m.Dim), spaceDim(m.spaceDim), vertices(m.vertices),
    edges(m.edges), faces(m.faces), el_to_edge(m.el_to_edge), el_to_face(m.el_to_face), be_to_face(m.be_to_face), faces_info(m.faces_info),
    face_index_(m.face_index_), edge_index_(m.edge_index_)
{
    for (auto& e : m.elements) elements.emplace_back(e->Duplicate());
    for (auto& e : m.boundary) boundary.emplace_back(e->Duplicate());
    for (auto& e : m.face_elems) face_elems.emplace_back(e->Duplicate());
    if (m.Nodes) {
        auto* f = m.Nodes->FESpace();
        auto* c = FiniteElementCollection::New(f->FEColl()->Name());
        auto* nf = new FiniteElementSpace(this, c, f->GetVDim(), f->GetOrdering());
        Nodes = new GridFunction(nf);
        Nodes->MakeOwner(c);
        *Nodes = (const Vector&)*m.Nodes;
        ownNodes = true;
    }
}
Mesh::~Mesh() { if (ownNodes) delete Nodes; }

namespace {
// GridFunctions keep a pointer to their space, and the space to its mesh: moving a mesh re-homes them.
void rehome(GridFunction* g, Mesh* m)
{
    if (!g) return;
    auto* f = g->FESpace();
    FiniteElementSpace nf(m, f->FEColl(), f->GetVDim(), f->GetOrdering());
    *f = nf;
}
}
void Mesh::Swap(Mesh& o)
{
    std::swap(Dim, o.Dim); std::swap(spaceDim, o.spaceDim);
    std::swap(attributes, o.attributes); std::swap(bdr_attributes, o.bdr_attributes);
    vertices.swap(o.vertices); elements.swap(o.elements); boundary.swap(o.boundary); face_elems.swap(o.face_elems);
    edges.swap(o.edges); faces.swap(o.faces); el_to_edge.swap(o.el_to_edge); el_to_face.swap(o.el_to_face);
    be_to_face.swap(o.be_to_face); faces_info.swap(o.faces_info); face_index_.swap(o.face_index_); edge_index_.swap(o.edge_index_);
    std::swap(Nodes, o.Nodes); std::swap(ownNodes, o.ownNodes);
    if (ownNodes) rehome(Nodes, this);
    if (o.ownNodes) rehome(o.Nodes, &o);
}

// ---------------------------------------------------------------- construction

void Mesh::SetAttributes()
{
    std::set<int> a, b;
    for (auto& e : elements) a.insert(e->GetAttribute());
    for (auto& e : boundary) b.insert(e->GetAttribute());
    attributes.SetSize(0); bdr_attributes.SetSize(0);
    for (int x : a) attributes.Append(x);
    for (int x : b) bdr_attributes.Append(x);
}
void Mesh::buildTopology()
{
    edges.clear(); edge_index_.clear(); el_to_edge.assign(GetNE(), {}); el_to_face.assign(GetNE(), {});
    face_elems.clear(); faces_info.clear(); face_index_.clear(); be_to_face.assign(GetNBE(), -1); faces.clear();
    tEE_ = Table(); tEF_ = Table(); tEd_ = Table();
    for (auto& e : elements) for (int i = 0; i < e->GetNVertices(); i++)
        MFEM_VERIFY(e->GetVertices()[i] >= 0 && e->GetVertices()[i] < GetNV(), "element refers to vertex " << e->GetVertices()[i] << " of " << GetNV());
    if (Dim > 1)
        for (int i = 0; i < GetNE(); i++) {
            auto& e = *elements[i];
            for (int k = 0; k < e.GetNEdges(); k++) {
                int a = e.GetVertices()[e.GetEdgeVertices(k)[0]], b = e.GetVertices()[e.GetEdgeVertices(k)[1]];
                std::vector<int> key{ std::min(a, b), std::max(a, b) };
                auto it = edge_index_.emplace(key, (int)edges.size());
                if (it.second) edges.push_back({ key[0], key[1] });
                el_to_edge[i].push_back(it.first->second);
            }
        }
    if (Dim == 1) {
        faces_info.resize(GetNV());
        for (int v = 0; v < GetNV(); v++) { face_elems.emplace_back(new Point(&v, 1)); face_index_[{ v }] = v; }
    }
    for (int i = 0; i < GetNE(); i++) {
        auto& e = *elements[i];
        MFEM_VERIFY(Geometry::Dimension[e.GetGeometryType()] == Dim, "element of the wrong dimension");
        for (int lf = 0; lf < NumLocalFaces_(e.GetGeometryType()); lf++) {
            std::vector<int> gv;
            for (int l : LocalFaceVertices_(e.GetGeometryType(), lf)) gv.push_back(e.GetVertices()[l]);
            std::vector<int> key(gv);
            std::sort(key.begin(), key.end());
            auto it = face_index_.find(key);
            int f;
            if (it == face_index_.end()) {
                f = (int)faces_info.size();
                if (Dim == 2) { f = edge_index_.at(key); if ((int)faces_info.size() <= f) { faces_info.resize(f + 1); face_elems.resize(f + 1); } }
                else { faces_info.emplace_back(); face_elems.emplace_back(); }
                face_index_[key] = f;
                face_elems[f].reset(new Element(facetGeometry(Dim, gv.size()), gv.data(), (int)gv.size(), 1));
            }
            else f = it->second;
            auto& fi = faces_info[f];
            if (fi.Elem1No < 0) { fi.Elem1No = i; fi.Elem1Inf = 64 * lf; }
            else {
                MFEM_VERIFY(fi.Elem2No < 0, "Invalid mesh topology. Interior face found between more than two elements.");
                const int* fv = face_elems[f]->GetVertices();
                int ori = 0;
                if (Dim == 1) ori = 1;
                else if (Dim == 2) ori = (fv[0] == gv[0]) ? 0 : 1;
                else {
                    int n = (int)gv.size(), k = 0;
                    while (gv[k] != fv[0]) k++;
                    bool rev = gv[(k + 1) % n] != fv[1];
                    ori = 2 * k + (rev ? 1 : 0);
                }
                fi.Elem2No = i; fi.Elem2Inf = 64 * lf + ori;
            }
            el_to_face[i].push_back(f);
        }
    }
    if (Dim == 3) faces.assign(faces_info.size(), 0);
    if (GetNBE()) {
        for (int i = 0; i < GetNBE(); i++) {
            Array<int> v; boundary[i]->GetVertices(v);
            std::vector<int> key(v.begin(), v.end());
            std::sort(key.begin(), key.end());
            auto it = face_index_.find(key);
            MFEM_VERIFY(it != face_index_.end(), "boundary element " << i << " is not a face of the mesh");
            be_to_face[i] = it->second;
        }
    }
}
void Mesh::GenerateBoundaryElements()
{
    boundary.clear();
    for (int f = 0; f < GetNumFaces(); f++) if (faces_info[f].Elem1No >= 0 && faces_info[f].Elem2No < 0) boundary.emplace_back(face_elems[f]->Duplicate());
    be_to_face.clear();
    for (int f = 0; f < GetNumFaces(); f++) if (faces_info[f].Elem1No >= 0 && faces_info[f].Elem2No < 0) be_to_face.push_back(f);
}
void Mesh::FinalizeTopology(bool gen)
{
    if (spaceDim == 0) spaceDim = Dim;
    buildTopology();
    if (GetNBE() == 0 && gen) GenerateBoundaryElements();
    SetAttributes();
}
void Mesh::Finalize(bool, bool fix)
{
    if (CheckElementOrientation(fix)) buildTopology();
    CheckBdrElementOrientation(true);
    SetAttributes();
}
int Mesh::CheckElementOrientation(bool fix)
{
    int n = 0;
    if (Dim != spaceDim || Dim == 1) {
        if (Dim == 1 && spaceDim == 1 && !Nodes)
            for (auto& e : elements) {
                int* v = e->GetVertices();
                if (vertices[v[0]](0) > vertices[v[1]](0)) { n++; if (fix) std::swap(v[0], v[1]); }
            }
        return fix ? n : 0;
    }
    for (int i = 0; i < GetNE(); i++) {
        IsoparametricTransformation T;
        GetElementTransformation(i, &T);
        T.SetIntPoint(&Geometries.GetCenter(T.GetGeometryType()));
        if (T.Jacobian().Det() < 0) {
            n++;
            if (Nodes) continue;
            int* v = elements[i]->GetVertices();
            if (fix) switch (elements[i]->GetGeometryType()) {
                case Geometry::TRIANGLE: case Geometry::TETRAHEDRON: std::swap(v[0], v[1]); break;
                case Geometry::SQUARE: std::swap(v[1], v[3]); break;
                default: break;
            }
        }
    }
    return (fix && !Nodes) ? n : 0;
}
int Mesh::CheckBdrElementOrientation(bool fix)
{
    int n = 0;
    for (int i = 0; i < GetNBE(); i++) {
        const int f = be_to_face[i];
        if (Dim == 1 || faces_info[f].Elem2No >= 0) continue;
        int* b = boundary[i]->GetVertices();
        const int* v = face_elems[f]->GetVertices();
        const int nv = boundary[i]->GetNVertices();
        if (Dim == 2) { if (b[0] != v[0]) { n++; if (fix) std::swap(b[0], b[1]); } continue; }
        int k = 0;
        while (v[k] != b[0]) k++;
        if (v[(k + 1) % nv] != b[1]) { n++; if (fix) { if (nv == 3) std::swap(b[0], b[1]); else std::swap(b[0], b[2]); } }
    }
    return n;
}

Mesh Mesh::MakeCartesian1D(int n, double sx)
{
    Mesh m(1, n + 1, n, 2);
    for (int i = 0; i <= n; i++) m.AddVertex((double(i) / n) * sx);
    for (int i = 0; i < n; i++) m.AddSegment(i, i + 1);
    m.AddBdrPoint(0, 1); m.AddBdrPoint(n, 2);
    m.FinalizeTopology(); m.Finalize();
    return m;
}
static int sgn(int x) { return (x > 0) - (x < 0); }
static void hilbert2D(int x, int y, int ax, int ay, int bx, int by, std::vector<std::pair<int, int>>& c)
{
    int w = std::abs(ax + ay), h = std::abs(bx + by), dax = sgn(ax), day = sgn(ay), dbx = sgn(bx), dby = sgn(by);
    if (h == 1) { for (int i = 0; i < w; i++, x += dax, y += day) c.push_back({ x, y }); return; }
    if (w == 1) { for (int i = 0; i < h; i++, x += dbx, y += dby) c.push_back({ x, y }); return; }
    int ax2 = ax / 2, ay2 = ay / 2, bx2 = bx / 2, by2 = by / 2, w2 = std::abs(ax2 + ay2), h2 = std::abs(bx2 + by2);
    if (2 * w > 3 * h) {
        if ((w2 & 1) && w > 2) { ax2 += dax; ay2 += day; }
        hilbert2D(x, y, ax2, ay2, bx, by, c);
        hilbert2D(x + ax2, y + ay2, ax - ax2, ay - ay2, bx, by, c);
    }
    else {
        if ((h2 & 1) && h > 2) { bx2 += dbx; by2 += dby; }
        hilbert2D(x, y, bx2, by2, ax2, ay2, c);
        hilbert2D(x + bx2, y + by2, ax, ay, bx - bx2, by - by2, c);
        hilbert2D(x + (ax - dax) + (bx2 - dbx), y + (ay - day) + (by2 - dby), -bx2, -by2, -(ax - ax2), -(ay - ay2), c);
    }
}
Mesh Mesh::MakeCartesian2D(int nx, int ny, Element::Type t, bool, double sx, double sy, bool sfc)
{
    const int m = nx + 1;
    Mesh r(2, m * (ny + 1), nx * ny * 2, 2 * (nx + ny));
    for (int j = 0; j <= ny; j++) for (int i = 0; i <= nx; i++) r.AddVertex((double(i) / nx) * sx, (double(j) / ny) * sy);
    if (t == Element::QUADRILATERAL) {
        std::vector<std::pair<int, int>> c;
        if (sfc) { if (nx >= ny) hilbert2D(0, 0, nx, 0, 0, ny, c); else hilbert2D(0, 0, 0, ny, nx, 0, c); }
        else for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) c.push_back({ i, j });
        for (auto& [i, j] : c) r.AddQuad(i + j * m, i + 1 + j * m, i + 1 + (j + 1) * m, i + (j + 1) * m);
    }
    else {
        MFEM_VERIFY(t == Element::TRIANGLE, "MakeCartesian2D element type");
        for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) {
            r.AddTriangle(i + j * m, i + 1 + (j + 1) * m, i + (j + 1) * m);
            // longest edge first, as MFEM's refinement marking leaves it
            r.AddTriangle(i + 1 + (j + 1) * m, i + j * m, i + 1 + j * m);
        }
    }
    for (int i = 0; i < nx; i++) r.AddBdrSegment(i, i + 1, 1);
    for (int i = 0; i < nx; i++) r.AddBdrSegment(m * ny + i + 1, m * ny + i, 3);
    for (int j = 0; j < ny; j++) r.AddBdrSegment((j + 1) * m, j * m, 4);
    for (int j = 0; j < ny; j++) r.AddBdrSegment(j * m + nx, (j + 1) * m + nx, 2);
    r.FinalizeTopology(); r.Finalize(false, true);
    return r;
}
Mesh Mesh::MakeCartesian3D(int nx, int ny, int nz, Element::Type t, double sx, double sy, double sz, bool)
{
    const int a = nx + 1, b = ny + 1;
    auto V = [&](int x, int y, int z) { return x + (y + z * b) * a; };
    Mesh r(3, a * b * (nz + 1), 6 * nx * ny * nz, 4 * (nx * ny + ny * nz + nx * nz));
    for (int z = 0; z <= nz; z++) for (int y = 0; y <= ny; y++) for (int x = 0; x <= nx; x++) r.AddVertex((double(x) / nx) * sx, (double(y) / ny) * sy, (double(z) / nz) * sz);
    static const int tets[6][4] = { { 0, 1, 2, 6 }, { 0, 5, 1, 6 }, { 0, 4, 5, 6 }, { 0, 2, 3, 6 }, { 0, 3, 7, 6 }, { 0, 7, 4, 6 } };
    const bool hex = t == Element::HEXAHEDRON;
    MFEM_VERIFY(hex || t == Element::TETRAHEDRON, "MakeCartesian3D element type");
    for (int z = 0; z < nz; z++) for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) {
        int v[8] = { V(x, y, z), V(x + 1, y, z), V(x + 1, y + 1, z), V(x, y + 1, z), V(x, y, z + 1), V(x + 1, y, z + 1), V(x + 1, y + 1, z + 1), V(x, y + 1, z + 1) };
        if (hex) r.AddHex(v);
        else for (auto& k : tets) r.AddTet(v[k[0]], v[k[1]], v[k[2]], v[k[3]]);
    }
    auto quad = [&](std::array<int, 4> q, int attr) {
        if (hex) { r.AddBdrQuad(q.data(), attr); return; }
        // split along the diagonal used by the tetrahedra: the one through the smaller-corner vertex
        int k = (int)(std::min_element(q.begin(), q.end()) - q.begin());
        r.AddBdrTriangle(q[k], q[(k + 1) % 4], q[(k + 2) % 4], attr);
        r.AddBdrTriangle(q[k], q[(k + 2) % 4], q[(k + 3) % 4], attr);
    };
    for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) quad({ V(x, y, 0), V(x, y + 1, 0), V(x + 1, y + 1, 0), V(x + 1, y, 0) }, 1);
    for (int y = 0; y < ny; y++) for (int x = 0; x < nx; x++) quad({ V(x, y, nz), V(x + 1, y, nz), V(x + 1, y + 1, nz), V(x, y + 1, nz) }, 6);
    for (int z = 0; z < nz; z++) for (int y = 0; y < ny; y++) quad({ V(0, y, z), V(0, y, z + 1), V(0, y + 1, z + 1), V(0, y + 1, z) }, 5);
    for (int z = 0; z < nz; z++) for (int y = 0; y < ny; y++) quad({ V(nx, y, z), V(nx, y + 1, z), V(nx, y + 1, z + 1), V(nx, y, z + 1) }, 3);
    for (int x = 0; x < nx; x++) for (int z = 0; z < nz; z++) quad({ V(x, 0, z), V(x + 1, 0, z), V(x + 1, 0, z + 1), V(x, 0, z + 1) }, 2);
    for (int x = 0; x < nx; x++) for (int z = 0; z < nz; z++) quad({ V(x, ny, z), V(x, ny, z + 1), V(x + 1, ny, z + 1), V(x + 1, ny, z) }, 4);
    r.FinalizeTopology(); r.Finalize(false, true);
    return r;
}
std::vector<int> Mesh::CreatePeriodicVertexMapping(const std::vector<Vector>& tr, double tol) const
{
    std::vector<int> m(GetNV());
    for (int i = 0; i < GetNV(); i++) m[i] = i;
    Vector lo, hi;
    const_cast<Mesh*>(this)->GetBoundingBox(lo, hi);
    double diam = 0;
    for (int d = 0; d < spaceDim; d++) diam = std::max(diam, hi(d) - lo(d));
    for (auto& t : tr)
        for (int i = 0; i < GetNV(); i++) for (int j = 0; j < GetNV(); j++) {
            double e = 0;
            for (int d = 0; d < spaceDim; d++) e = std::max(e, std::abs(vertices[i](d) + t(d) - vertices[j](d)));
            if (e <= tol * diam) { int a = std::min(m[i], m[j]), o = std::max(m[i], m[j]); for (auto& x : m) if (x == o) x = a; }
        }
    return m;
}
Mesh Mesh::MakePeriodic(const Mesh& o, const std::vector<int>& v2v)
{
    Mesh p(o);
    p.SetCurvature(1, true, p.spaceDim, Ordering::byVDIM);
    Mesh r(p);
    for (auto& e : r.elements) for (int k = 0; k < e->GetNVertices(); k++) e->GetVertices()[k] = v2v[e->GetVertices()[k]];
    std::vector<std::unique_ptr<Element>> b;
    std::map<std::vector<int>, int> cnt;
    for (auto& e : r.boundary) { std::vector<int> k(e->GetVertices(), e->GetVertices() + e->GetNVertices()); for (auto& x : k) x = v2v[x]; std::sort(k.begin(), k.end()); cnt[k]++; }
    // faces that were glued to another boundary face become interior and lose their boundary element
    for (auto& e : r.boundary) {
        std::vector<int> k(e->GetVertices(), e->GetVertices() + e->GetNVertices());
        for (auto& x : k) x = v2v[x];
        std::vector<int> s(k);
        std::sort(s.begin(), s.end());
        if (cnt[s] == 1) { e->SetVertices(k.data()); b.push_back(std::move(e)); }
    }
    r.boundary = std::move(b);
    // drop unused vertices
    std::vector<int> map(r.GetNV(), -1);
    std::vector<Vertex> nv;
    for (int v = 0; v < r.GetNV(); v++) {
        bool used = false;
        for (auto& e : r.elements) for (int k = 0; k < e->GetNVertices(); k++) used |= e->GetVertices()[k] == v;
        if (used) { map[v] = (int)nv.size(); nv.push_back(r.vertices[v]); }
    }
    for (auto* list : { &r.elements, &r.boundary }) for (auto& e : *list) for (int k = 0; k < e->GetNVertices(); k++) e->GetVertices()[k] = map[e->GetVertices()[k]];
    r.vertices = nv;
    r.FinalizeTopology(false);
    return r;
}
void Mesh::Transform(std::function<void(const Vector&, Vector&)> f)
{
    Vector x(spaceDim), y(spaceDim);
    for (auto& v : vertices) { for (int d = 0; d < spaceDim; d++) x(d) = v(d); f(x, y); for (int d = 0; d < spaceDim; d++) v(d) = y(d); }
    if (Nodes) {
        auto* s = Nodes->FESpace();
        for (int i = 0; i < s->GetNDofs(); i++) {
            for (int d = 0; d < spaceDim; d++) x(d) = (*Nodes)(s->DofToVDof(i, d));
            f(x, y);
            for (int d = 0; d < spaceDim; d++) (*Nodes)(s->DofToVDof(i, d)) = y(d);
        }
    }
}
void Mesh::UniformRefinement(int)
{
    MFEM_VERIFY(!Nodes, "refinement of curved meshes not supported");
    std::map<std::vector<int>, int> mid;
    auto M = [&](std::vector<int> v) {
        std::sort(v.begin(), v.end());
        auto it = mid.find(v);
        if (it != mid.end()) return it->second;
        double c[3] = { 0, 0, 0 };
        for (int i : v) for (int d = 0; d < 3; d++) c[d] += vertices[i](d) / v.size();
        int id = AddVertex(c[0], c[1], c[2]);
        mid[v] = id;
        return id;
    };
    std::vector<std::unique_ptr<Element>> ne, nb;
    auto split = [&](const Element& e, std::vector<std::unique_ptr<Element>>& out_) {
        const int* v = e.GetVertices();
        const int a = e.GetAttribute();
        switch (e.GetGeometryType()) {
            case Geometry::POINT: out_.emplace_back(e.Duplicate()); break;
            case Geometry::SEGMENT: { int m = M({ v[0], v[1] }); out_.emplace_back(new Segment(v[0], m, a)); out_.emplace_back(new Segment(m, v[1], a)); break; }
            case Geometry::TRIANGLE: { int x = M({ v[0], v[1] }), y = M({ v[1], v[2] }), z = M({ v[2], v[0] });
                out_.emplace_back(new Triangle(v[0], x, z, a)); out_.emplace_back(new Triangle(y, z, x, a)); out_.emplace_back(new Triangle(x, v[1], y, a)); out_.emplace_back(new Triangle(z, y, v[2], a)); break; }
            case Geometry::SQUARE: { int x = M({ v[0], v[1] }), y = M({ v[1], v[2] }), z = M({ v[2], v[3] }), w = M({ v[3], v[0] }), c = M({ v[0], v[1], v[2], v[3] });
                out_.emplace_back(new Quadrilateral(v[0], x, c, w, a)); out_.emplace_back(new Quadrilateral(x, v[1], y, c, a)); out_.emplace_back(new Quadrilateral(c, y, v[2], z, a)); out_.emplace_back(new Quadrilateral(w, c, z, v[3], a)); break; }
            case Geometry::TETRAHEDRON: {
                int e01 = M({ v[0], v[1] }), e02 = M({ v[0], v[2] }), e03 = M({ v[0], v[3] }), e12 = M({ v[1], v[2] }), e13 = M({ v[1], v[3] }), e23 = M({ v[2], v[3] });
                int t[8][4] = { { v[0], e01, e02, e03 }, { e01, v[1], e12, e13 }, { e02, e12, v[2], e23 }, { e03, e13, e23, v[3] },
                                { e01, e02, e03, e13 }, { e01, e12, e02, e13 }, { e02, e23, e03, e13 }, { e02, e12, e23, e13 } };
                for (auto& q : t) out_.emplace_back(new Tetrahedron(q, a));
                break; }
            case Geometry::CUBE: {
                int n[27];
                auto id = [](int i, int j, int k) { return i + 3 * j + 9 * k; };
                static const int lx[8] = { 0, 1, 1, 0, 0, 1, 1, 0 }, ly[8] = { 0, 0, 1, 1, 0, 0, 1, 1 }, lz[8] = { 0, 0, 0, 0, 1, 1, 1, 1 };
                for (int k = 0; k < 3; k++) for (int j = 0; j < 3; j++) for (int i = 0; i < 3; i++) {
                    std::vector<int> s;
                    for (int q = 0; q < 8; q++) if ((i == 1 || lx[q] * 2 == i) && (j == 1 || ly[q] * 2 == j) && (k == 1 || lz[q] * 2 == k)) s.push_back(v[q]);
                    n[id(i, j, k)] = s.size() == 1 ? s[0] : M(s);
                }
                for (int k = 0; k < 2; k++) for (int j = 0; j < 2; j++) for (int i = 0; i < 2; i++) {
                    int h[8];
                    for (int q = 0; q < 8; q++) h[q] = n[id(i + lx[q], j + ly[q], k + lz[q])];
                    out_.emplace_back(new Hexahedron(h, a));
                }
                break; }
            default: MFEM_ABORT("refinement");
        }
    };
    for (auto& e : elements) split(*e, ne);
    if (Dim == 1) {
        // MFEM keeps the first half in place and appends the second ones
        std::vector<std::unique_ptr<Element>> a;
        for (size_t k = 0; k < 2; k++) for (size_t i = k; i < ne.size(); i += 2) a.push_back(std::move(ne[i]));
        ne = std::move(a);
    }
    for (auto& e : boundary) split(*e, nb);
    elements = std::move(ne); boundary = std::move(nb);
    FinalizeTopology(false);
    Finalize(false, true);
}

// ---------------------------------------------------------------- queries

void Mesh::GetVertices(Vector& v) const { v.SetSize(spaceDim * GetNV()); for (int i = 0; i < GetNV(); i++) for (int d = 0; d < spaceDim; d++) v(d * GetNV() + i) = vertices[i](d); }
void Mesh::SetVertices(const Vector& v) { for (int i = 0; i < GetNV(); i++) for (int d = 0; d < spaceDim; d++) vertices[i](d) = v(d * GetNV() + i); }
void Mesh::GetElementEdges(int i, Array<int>& e, Array<int>& cor) const
{
    MFEM_VERIFY(Dim > 1, "element to edge table is not generated");
    auto& l = el_to_edge.at(i);
    e.SetSize((int)l.size()); cor.SetSize((int)l.size());
    for (size_t k = 0; k < l.size(); k++) {
        e[(int)k] = l[k];
        const int* ev = elements[i]->GetEdgeVertices((int)k);
        cor[(int)k] = elements[i]->GetVertices()[ev[0]] < elements[i]->GetVertices()[ev[1]] ? 1 : -1;
    }
}
void Mesh::GetBdrElementEdges(int i, Array<int>& e, Array<int>& cor) const
{
    auto& b = *boundary.at(i);
    e.SetSize(0); cor.SetSize(0);
    for (int k = 0; k < b.GetNEdges(); k++) {
        int x = b.GetVertices()[b.GetEdgeVertices(k)[0]], y = b.GetVertices()[b.GetEdgeVertices(k)[1]];
        e.Append(edge_index_.at({ std::min(x, y), std::max(x, y) })); cor.Append(x < y ? 1 : -1);
    }
}
void Mesh::GetElementFaces(int i, Array<int>& f, Array<int>& cor) const
{
    MFEM_VERIFY(Dim == 3, "element to face table is not generated");
    auto& l = el_to_face.at(i);
    f.SetSize((int)l.size()); cor.SetSize((int)l.size());
    for (size_t k = 0; k < l.size(); k++) { f[(int)k] = l[k]; cor[(int)k] = faces_info[l[k]].Elem1No == i ? faces_info[l[k]].Elem1Inf % 64 : faces_info[l[k]].Elem2Inf % 64; }
}
void Mesh::GetFaceEdges(int i, Array<int>& e, Array<int>& o) const
{
    e.SetSize(0); o.SetSize(0);
    auto& b = *face_elems.at(i);
    if (Dim == 2) { e.Append(i); o.Append(1); return; }
    for (int k = 0; k < b.GetNEdges(); k++) {
        int x = b.GetVertices()[b.GetEdgeVertices(k)[0]], y = b.GetVertices()[b.GetEdgeVertices(k)[1]];
        e.Append(edge_index_.at({ std::min(x, y), std::max(x, y) })); o.Append(x < y ? 1 : -1);
    }
}
void Mesh::GetBdrElementFace(int i, int* f, int* o) const { *f = be_to_face.at(i); *o = 0; }
Array<int> Mesh::GetFaceToBdrElMap() const
{
    Array<int> m(GetNumFaces());
    m = -1;
    for (int i = 0; i < GetNBE(); i++) m[be_to_face[i]] = i;
    return m;
}
void Mesh::GetBdrElementAdjacentElement(int b, int& el, int& info) const { auto& f = faces_info[be_to_face.at(b)]; el = f.Elem1No; info = f.Elem1Inf; }
Mesh::FaceInformation Mesh::GetFaceInformation(int f) const
{
    FaceInformation r;
    auto& i = faces_info.at(f);
    r.topology = i.Elem2Inf >= 0 ? FaceTopology::Conforming : FaceTopology::Boundary;
    r.element[0] = { ElementLocation::Local, ElementConformity::Coincident, i.Elem1No, i.Elem1Inf / 64, i.Elem1Inf % 64 };
    if (i.Elem2No >= 0) r.element[1] = { ElementLocation::Local, ElementConformity::Coincident, i.Elem2No, i.Elem2Inf / 64, i.Elem2Inf % 64 };
    else if (i.Elem2Inf >= 0) r.element[1] = { ElementLocation::FaceNbr, ElementConformity::Coincident, -1 - i.Elem2No, i.Elem2Inf / 64, i.Elem2Inf % 64 };
    else r.element[1] = { ElementLocation::NA, ElementConformity::NA, -1, -1, -1 };
    return r;
}
const Table& Mesh::ElementToElementTable()
{
    std::vector<std::vector<int>> r(GetNE());
    for (auto& f : faces_info) if (f.Elem2No >= 0) { r[f.Elem1No].push_back(f.Elem2No); r[f.Elem2No].push_back(f.Elem1No); }
    for (auto& x : r) { std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end()); }
    tEE_.MakeRows(r);
    return tEE_;
}
const Table& Mesh::ElementToFaceTable() const { MFEM_VERIFY(Dim == 3, "el_to_face == NULL"); if (tEF_.Size() != GetNE()) tEF_.MakeRows(el_to_face); return tEF_; }
const Table& Mesh::ElementToEdgeTable() const { MFEM_VERIFY(Dim > 1, "el_to_edge == NULL"); if (tEd_.Size() != GetNE()) tEd_.MakeRows(el_to_edge); return tEd_; }
Table* Mesh::GetVertexToElementTable()
{
    std::vector<std::vector<int>> r(GetNV());
    for (int i = 0; i < GetNE(); i++) for (int k = 0; k < elements[i]->GetNVertices(); k++) r[elements[i]->GetVertices()[k]].push_back(i);
    auto* t = new Table; t->MakeRows(r);
    return t;
}
Array<int> Mesh::FindFaceNeighbors(int e) const
{
    Array<int> r;
    for (int f : el_to_face.at(e)) { auto& i = faces_info[f]; if (i.Elem2No >= 0) r.Append(i.Elem1No == e ? i.Elem2No : i.Elem1No); }
    r.Append(e);
    r.Sort(); r.Unique();
    return r;
}

// ---------------------------------------------------------------- transformations

void Mesh::pointMatOfElement(int i, IsoparametricTransformation& T) const
{
    auto& e = *elements.at(i);
    if (Nodes) {
        auto* f = Nodes->FESpace();
        Array<int> d;
        f->GetElementDofs(i, d);
        DenseMatrix pm(spaceDim, d.Size());
        for (int k = 0; k < d.Size(); k++) for (int c = 0; c < spaceDim; c++) pm(c, k) = (*Nodes)(f->DofToVDof(d[k], c));
        T.SetFE(f->GetFE(i));
        T.SetPointMat(pm);
        return;
    }
    DenseMatrix pm(spaceDim, e.GetNVertices());
    for (int k = 0; k < e.GetNVertices(); k++) for (int c = 0; c < spaceDim; c++) pm(c, lexVertex(e.GetGeometryType(), k)) = vertices[e.GetVertices()[k]](c);
    T.SetFE(LinearElement_(e.GetGeometryType()));
    T.SetPointMat(pm);
}
void Mesh::GetElementTransformation(int i, IsoparametricTransformation* T) const
{
    MFEM_VERIFY(i >= 0 && i < GetNE(), "element index " << i << " out of range");
    T->Attribute = GetAttribute(i); T->ElementNo = i; T->ElementType = ElementTransformation::ELEMENT; T->mesh = this;
    T->Reset();
    pointMatOfElement(i, *T);
}
ElementTransformation* Mesh::GetElementTransformation(int i) { GetElementTransformation(i, &Transformation); return &Transformation; }

void Mesh::localFaceMap(int el, int, const std::vector<int>& order, IntegrationPointTransformation& loc) const
{
    auto g = elements[el]->GetGeometryType();
    auto fg = facetGeometry(Dim, order.size());
    auto& rv = *Geometries.GetVertices(g);
    DenseMatrix pm(Dim, (int)order.size());
    for (size_t k = 0; k < order.size(); k++) {
        double p[3]; rv.IntPoint(order[k]).Get(p, 3);
        for (int d = 0; d < Dim; d++) pm(d, lexVertex(fg, (int)k)) = p[d];
    }
    loc.Transf.SetFE(LinearElement_(fg));
    loc.Transf.SetPointMat(pm);
}
void Mesh::faceFromElement(int el, IntegrationPointTransformation& loc, Geometry::Type g, IsoparametricTransformation& T) const
{
    IsoparametricTransformation E;
    GetElementTransformation(el, &E);
    const int p = Nodes->FESpace()->FEColl()->GetOrder();
    static thread_local std::map<std::pair<int, int>, std::unique_ptr<H1_FECollection>> cols;
    auto& c = cols[{ p, Dim }];
    if (!c) c = std::make_unique<H1_FECollection>(std::max(1, p), Dim);
    auto* fe = c->FiniteElementForGeometry(g);
    auto& n = fe->GetNodes();
    DenseMatrix pm(spaceDim, n.GetNPoints());
    for (int k = 0; k < n.GetNPoints(); k++) {
        IntegrationPoint ep;
        loc.Transform(n.IntPoint(k), ep);
        Vector x; E.Transform(ep, x);
        for (int d = 0; d < spaceDim; d++) pm(d, k) = x(d);
    }
    T.SetFE(fe);
    T.SetPointMat(pm);
}
/// local vertices of element `el` matching the vertices fv of one of its facets, in that order
static std::vector<int> matchOrder(const Element& e, int lf, const int* fv, int n, int ori)
{
    auto l = LocalFaceVertices_(e.GetGeometryType(), lf);
    if (n == 1) return l;
    if (n == 2) { if (ori & 1) std::swap(l[0], l[1]); return l; }
    std::vector<int> r(n);
    for (int k = 0; k < n; k++) for (int q : l) if (e.GetVertices()[q] == fv[k]) r[k] = q;
    return r;
}
void Mesh::GetFaceTransformation(int f, IsoparametricTransformation* T) const
{
    MFEM_VERIFY(f >= 0 && f < GetNumFaces(), "face index " << f << " out of range");
    auto& fe = *face_elems[f];
    T->Attribute = fe.GetAttribute(); T->ElementNo = f; T->ElementType = ElementTransformation::FACE; T->mesh = this;
    T->Reset();
    if (Nodes) {
        auto& fi = faces_info[f];
        IntegrationPointTransformation loc;
        localFaceMap(fi.Elem1No, 0, matchOrder(*elements[fi.Elem1No], fi.Elem1Inf / 64, fe.GetVertices(), fe.GetNVertices(), 0), loc);
        faceFromElement(fi.Elem1No, loc, fe.GetGeometryType(), *T);
        return;
    }
    DenseMatrix pm(spaceDim, fe.GetNVertices());
    for (int k = 0; k < fe.GetNVertices(); k++) for (int c = 0; c < spaceDim; c++) pm(c, lexVertex(fe.GetGeometryType(), k)) = vertices[fe.GetVertices()[k]](c);
    T->SetFE(LinearElement_(fe.GetGeometryType()));
    T->SetPointMat(pm);
}
ElementTransformation* Mesh::GetFaceTransformation(int f) { GetFaceTransformation(f, &FaceTransformation); return &FaceTransformation; }
void Mesh::GetEdgeTransformation(int e, IsoparametricTransformation* T) const
{
    if (Dim == 2) { GetFaceTransformation(e, T); return; }
    MFEM_VERIFY(Dim == 3, "edge transformation in 1D");
    T->Attribute = 1; T->ElementNo = e; T->ElementType = ElementTransformation::EDGE; T->mesh = this;
    T->Reset();
    DenseMatrix pm(spaceDim, 2);
    for (int c = 0; c < spaceDim; c++) { pm(c, 0) = vertices[edges[e].first](c); pm(c, 1) = vertices[edges[e].second](c); }
    T->SetFE(LinearElement_(Geometry::SEGMENT));
    T->SetPointMat(pm);
}
ElementTransformation* Mesh::GetEdgeTransformation(int e) { GetEdgeTransformation(e, &EdgeTransformation); return &EdgeTransformation; }
void Mesh::GetBdrElementTransformation(int i, IsoparametricTransformation* T) const
{
    auto& b = *boundary.at(i);
    T->Attribute = b.GetAttribute(); T->ElementNo = i; T->ElementType = ElementTransformation::BDR_ELEMENT; T->mesh = this;
    T->Reset();
    if (Nodes) {
        auto& fi = faces_info[be_to_face[i]];
        auto& fe = *face_elems[be_to_face[i]];
        auto l = LocalFaceVertices_(elements[fi.Elem1No]->GetGeometryType(), fi.Elem1Inf / 64);
        std::vector<int> o(l);
        // order the facet's local vertices like the boundary element
        if (fe.GetNVertices() == 2) { if (b.GetVertices()[0] != fe.GetVertices()[0]) std::swap(o[0], o[1]); }
        else for (int k = 0; k < b.GetNVertices(); k++) for (int q : l) if (elements[fi.Elem1No]->GetVertices()[q] == b.GetVertices()[k]) o[k] = q;
        IntegrationPointTransformation loc;
        localFaceMap(fi.Elem1No, 0, o, loc);
        faceFromElement(fi.Elem1No, loc, b.GetGeometryType(), *T);
        return;
    }
    DenseMatrix pm(spaceDim, b.GetNVertices());
    for (int k = 0; k < b.GetNVertices(); k++) for (int c = 0; c < spaceDim; c++) pm(c, lexVertex(b.GetGeometryType(), k)) = vertices[b.GetVertices()[k]](c);
    T->SetFE(LinearElement_(b.GetGeometryType()));
    T->SetPointMat(pm);
}
ElementTransformation* Mesh::GetBdrElementTransformation(int i) { GetBdrElementTransformation(i, &BdrTransformation); return &BdrTransformation; }
FaceElementTransformations* Mesh::GetFaceElementTransformations(int f, int mask)
{
    MFEM_VERIFY(f >= 0 && f < GetNumFaces(), "face index " << f << " out of range");
    auto& fi = faces_info[f];
    auto& fe = *face_elems[f];
    auto& T = FaceElemTr;
    int cm = 0;
    T.Elem1 = T.Elem2 = nullptr;
    T.Elem1No = fi.Elem1No;
    T.Elem2No = -1;
    T.Reset();
    GetElementTransformation(fi.Elem1No, &Transformation);
    T.Elem1 = &Transformation;
    localFaceMap(fi.Elem1No, 0, matchOrder(*elements[fi.Elem1No], fi.Elem1Inf / 64, fe.GetVertices(), fe.GetNVertices(), 0), T.Loc1);
    cm |= FaceElementTransformations::HAVE_ELEM1 | FaceElementTransformations::HAVE_LOC1;
    if (fi.Elem2No >= 0) {
        T.Elem2No = fi.Elem2No;
        GetElementTransformation(fi.Elem2No, &Transformation2);
        T.Elem2 = &Transformation2;
        localFaceMap(fi.Elem2No, 0, matchOrder(*elements[fi.Elem2No], fi.Elem2Inf / 64, fe.GetVertices(), fe.GetNVertices(), fi.Elem2Inf % 64), T.Loc2);
        cm |= FaceElementTransformations::HAVE_ELEM2 | FaceElementTransformations::HAVE_LOC2;
    }
    GetFaceTransformation(f, &T);
    T.SetGeometryType(fe.GetGeometryType());
    cm |= FaceElementTransformations::HAVE_FACE;
    (void)mask;
    T.SetConfigurationMask(cm);
    return &T;
}
FaceElementTransformations* Mesh::GetBdrFaceTransformations(int be)
{
    const int f = GetBdrElementFaceIndex(be);
    if (FaceIsTrueInterior(f)) return nullptr;
    auto* T = GetFaceElementTransformations(f, 21);
    T->Attribute = GetBdrAttribute(be); T->ElementNo = be; T->ElementType = ElementTransformation::BDR_FACE;
    return T;
}
FaceElementTransformations* Mesh::GetInternalBdrFaceTransformations(int be)
{
    const int f = GetBdrElementFaceIndex(be);
    if (!FaceIsInterior(f)) return nullptr;
    auto* T = GetFaceElementTransformations(f);
    T->Attribute = GetBdrAttribute(be); T->ElementNo = be; T->ElementType = ElementTransformation::BDR_FACE;
    return T;
}
double Mesh::GetElementSize(ElementTransformation* T, int type)
{
    T->SetIntPoint(&Geometries.GetCenter(T->GetGeometryType()));
    DenseMatrix J(T->Jacobian());
    const int d = T->GetDimension();
    DenseMatrix P(d);
    for (int i = 0; i < d; i++) P(i, i) = 1;
    // perfect (regular) simplices, as MFEM measures them
    if (T->GetGeometryType() == Geometry::TRIANGLE) { P(0, 1) = 0.5; P(1, 1) = std::sqrt(3.) / 2; }
    if (T->GetGeometryType() == Geometry::TETRAHEDRON) { P(0, 1) = 0.5; P(1, 1) = std::sqrt(3.) / 2; P(0, 2) = 0.5; P(1, 2) = std::sqrt(3.) / 6; P(2, 2) = std::sqrt(2. / 3); }
    P.Invert();
    DenseMatrix JP(J.Height(), d);
    mfem::Mult(J, P, JP);
    if (type == 0) return std::pow(std::abs(JP.Weight()), 1. / d);
    // singular values through Jacobi rotations of JP^T JP
    DenseMatrix A(d);
    MultAtB(JP, JP, A);
    for (int sweep = 0; sweep < 60; sweep++) for (int p = 0; p < d; p++) for (int q = p + 1; q < d; q++) {
        if (std::abs(A(p, q)) < 1e-300) continue;
        double th = 0.5 * std::atan2(2 * A(p, q), A(p, p) - A(q, q)), c = std::cos(th), s = std::sin(th);
        for (int k = 0; k < d; k++) { double x = A(p, k), y = A(q, k); A(p, k) = c * x + s * y; A(q, k) = -s * x + c * y; }
        for (int k = 0; k < d; k++) { double x = A(k, p), y = A(k, q); A(k, p) = c * x + s * y; A(k, q) = -s * x + c * y; }
    }
    double lo = A(0, 0), hi = A(0, 0);
    for (int i = 1; i < d; i++) { lo = std::min(lo, A(i, i)); hi = std::max(hi, A(i, i)); }
    return std::sqrt(std::max(0.0, type == 1 ? lo : hi));
}
double Mesh::GetElementSize(int i, int type) { IsoparametricTransformation T; GetElementTransformation(i, &T); return GetElementSize(&T, type); }
double Mesh::GetElementVolume(int i)
{
    auto* T = GetElementTransformation(i);
    const IntegrationRule& ir = IntRules.Get(GetElementBaseGeometry(i), T->OrderW());
    double v = 0;
    for (int k = 0; k < ir.GetNPoints(); k++) { T->SetIntPoint(&ir.IntPoint(k)); v += ir.IntPoint(k).weight * T->Weight(); }
    return v;
}
void Mesh::GetElementCenter(int i, Vector& c) { auto* T = GetElementTransformation(i); c.SetSize(spaceDim); T->Transform(Geometries.GetCenter(T->GetGeometryType()), c); }
void Mesh::GetBoundingBox(Vector& lo, Vector& hi, int)
{
    lo.SetSize(spaceDim); hi.SetSize(spaceDim);
    lo = std::numeric_limits<double>::infinity(); hi = -std::numeric_limits<double>::infinity();
    for (int i = 0; i < GetNE(); i++) {
        IsoparametricTransformation T; GetElementTransformation(i, &T);
        auto& pm = T.GetPointMat();
        for (int k = 0; k < pm.Width(); k++) for (int d = 0; d < spaceDim; d++) { lo(d) = std::min(lo(d), pm(d, k)); hi(d) = std::max(hi(d), pm(d, k)); }
    }
}
void Mesh::GetCharacteristics(double& hmin, double& hmax, double& kmin, double& kmax, Vector*, Vector*)
{
    hmin = kmin = std::numeric_limits<double>::infinity(); hmax = kmax = 0;
    for (int i = 0; i < GetNE(); i++) {
        double h = GetElementSize(i, 0), k = GetElementSize(i, 2) / GetElementSize(i, 1);
        hmin = std::min(hmin, h); hmax = std::max(hmax, h); kmin = std::min(kmin, k); kmax = std::max(kmax, k);
    }
}
int Mesh::FindPoints(DenseMatrix& pts, Array<int>& ids, Array<IntegrationPoint>& ips, bool, InverseElementTransformation*)
{
    const int n = pts.Width();
    ids.SetSize(n); ips.SetSize(n);
    int found = 0;
    Vector c, p(spaceDim);
    std::vector<Vector> centers;
    for (int e = 0; e < GetNE(); e++) { GetElementCenter(e, c); centers.push_back(c); }
    for (int k = 0; k < n; k++) {
        for (int d = 0; d < spaceDim; d++) p(d) = pts(d, k);
        ids[k] = -1;
        std::vector<std::pair<double, int>> o;
        for (int e = 0; e < GetNE(); e++) o.push_back({ centers[e].DistanceSquaredTo(p.GetData()), e });
        std::sort(o.begin(), o.end());
        for (auto& [dist, e] : o) {
            IsoparametricTransformation T;
            GetElementTransformation(e, &T);
            IntegrationPoint ip;
            if (T.TransformBack(p, ip) == InverseElementTransformation::Inside) { ids[k] = e; ips[k] = ip; found++; break; }
        }
    }
    return found;
}

// ---------------------------------------------------------------- nodes

const FiniteElementSpace* Mesh::GetNodalFESpace() const { return Nodes ? Nodes->FESpace() : nullptr; }
int Mesh::GetNodalOrder() const { return Nodes ? Nodes->FESpace()->FEColl()->GetOrder() : 1; }
void Mesh::GetNodes(GridFunction& g) const
{
    auto* f = g.FESpace();
    if (Nodes && Nodes->FESpace() == f) { g = (const Vector&)*Nodes; return; }
    for (int i = 0; i < GetNE(); i++) {
        IsoparametricTransformation T; GetElementTransformation(i, &T);
        auto& n = f->GetFE(i)->GetNodes();
        Array<int> d; f->GetElementDofs(i, d);
        Vector x;
        for (int k = 0; k < d.Size(); k++) { T.Transform(n.IntPoint(k), x); for (int c = 0; c < spaceDim; c++) g(f->DofToVDof(d[k], c)) = x(c); }
    }
}
void Mesh::GetNodes(Vector& v) const { if (Nodes) v = *Nodes; else GetVertices(v); }
void Mesh::SetNodes(const Vector& v) { if (Nodes) *Nodes = v; else SetVertices(v); }
void Mesh::MoveNodes(const Vector& d) { if (Nodes) *Nodes += d; else { Vector v; GetVertices(v); v += d; SetVertices(v); } }
void Mesh::NewNodes(GridFunction& n, bool own) { if (ownNodes) delete Nodes; Nodes = &n; ownNodes = own; spaceDim = n.FESpace()->GetVDim(); }
void Mesh::SetNodalFESpace(FiniteElementSpace* f)
{
    auto* n = new GridFunction(f);
    GetNodes(*n);
    NewNodes(*n, true);
}
void Mesh::SetCurvature(int order, bool disc, int sd, int ordering)
{
    if (order <= 0) { if (ownNodes) delete Nodes; Nodes = nullptr; ownNodes = false; return; }
    sd = sd == -1 ? spaceDim : sd;
    MFEM_VERIFY(sd == spaceDim, "changing the space dimension is not supported");
    FiniteElementCollection* c;
    if (disc) c = new L2_FECollection(order, Dim, BasisType::GaussLobatto); else c = new H1_FECollection(order, Dim);
    auto* f = new FiniteElementSpace(this, c, sd, ordering);
    auto* n = new GridFunction(f);
    n->MakeOwner(c);
    GetNodes(*n);
    NewNodes(*n, true);
}

std::function<void(const Mesh&, int nparts, int* part)> Mesh::Partitioner;
int* Mesh::GeneratePartitioning(int nparts, int)
{
    int* p = new int[GetNE()];
    if (Partitioner) { Partitioner(*this, nparts, p); return p; }
    Vector lo, hi, c;
    GetBoundingBox(lo, hi);
    int ax = 0;
    for (int d = 1; d < spaceDim; d++) if (hi(d) - lo(d) > hi(ax) - lo(ax)) ax = d;
    std::vector<std::pair<double, int>> o;
    for (int i = 0; i < GetNE(); i++) { GetElementCenter(i, c); o.push_back({ c(ax), i }); }
    std::sort(o.begin(), o.end());
    for (int k = 0; k < GetNE(); k++) p[o[k].second] = (int)((long)k * nparts / GetNE());
    return p;
}

// ---------------------------------------------------------------- files

void Mesh::load(const std::string& f, bool fix, bool fixBdr)
{
    if (spmd::beforeRead) spmd::beforeRead(Mpi::WorldRank(), f);
    std::ifstream in(f);
    MFEM_VERIFY(in.good(), "Mesh file not found: " << f);
    read(in, fix, fixBdr);
}
void Mesh::read(std::istream& in, bool fix, bool fixBdr)
{
    std::string line;
    while (std::getline(in, line)) {
        while (!line.empty() && (line.back() == '\r' || line.back() == ' ')) line.pop_back();
        if (!line.empty()) break;
    }
    if (line == "$MeshFormat") readGmsh(in, fix, fixBdr);
    else if (line.rfind("MFEM mesh v1.", 0) == 0) readMFEM(in, fix, fixBdr);
    else MFEM_ABORT("Unknown input mesh format: " << line);
}
static std::string nextToken(std::istream& in)
{
    std::string t;
    while (in >> t) {
        if (t[0] == '#') { std::string l; std::getline(in, l); continue; }
        return t;
    }
    return "";
}
void Mesh::readMFEM(std::istream& in, bool fix, bool fixBdr)
{
    static const Geometry::Type g[] = { Geometry::POINT, Geometry::SEGMENT, Geometry::TRIANGLE, Geometry::SQUARE, Geometry::TETRAHEDRON, Geometry::CUBE };
    auto readElems = [&](std::vector<std::unique_ptr<Element>>& l) {
        int n = std::stoi(nextToken(in));
        for (int i = 0; i < n; i++) {
            int a, t; in >> a >> t;
            MFEM_VERIFY(in.good() && t >= 0 && t <= 5, "bad element in mesh file");
            int v[8];
            for (int k = 0; k < Geometry::NumVerts[g[t]]; k++) in >> v[k];
            l.emplace_back(new Element(g[t], v, Geometry::NumVerts[g[t]], a));
        }
    };
    std::string t;
    bool nodes = false;
    while (!(t = nextToken(in)).empty()) {
        if (t == "dimension") Dim = std::stoi(nextToken(in));
        else if (t == "elements") readElems(elements);
        else if (t == "boundary") readElems(boundary);
        else if (t == "vertices") {
            int n = std::stoi(nextToken(in));
            std::string w = nextToken(in);
            if (w == "nodes") { vertices.resize(n); spaceDim = Dim; nodes = true; break; }
            if (w.empty()) { vertices.resize(n); break; }
            spaceDim = std::stoi(w);
            for (int i = 0; i < n; i++) { Vertex v; for (int d = 0; d < spaceDim; d++) in >> v(d); vertices.push_back(v); }
        }
        else if (t == "nodes") { nodes = true; break; }
        else break;
    }
    FinalizeTopology();
    if (nodes) {
        auto* n = new GridFunction(this, in);
        spaceDim = n->VectorDim();
        NewNodes(*n, true);
        // vertex positions follow the nodes
        for (int i = 0; i < GetNE(); i++) {
            IsoparametricTransformation T; GetElementTransformation(i, &T);
            auto& rv = *Geometries.GetVertices(GetElementGeometry(i));
            Vector x;
            for (int k = 0; k < elements[i]->GetNVertices(); k++) { T.Transform(rv.IntPoint(k), x); for (int d = 0; d < spaceDim; d++) vertices[elements[i]->GetVertices()[k]](d) = x(d); }
        }
    }
    if (CheckElementOrientation(fix)) buildTopology();
    if (fixBdr) CheckBdrElementOrientation(true);
    SetAttributes();
}
void Mesh::readGmsh(std::istream& in, bool fix, bool fixBdr)
{
    struct Kind { Geometry::Type g; int order; int n; };
    static const std::map<int, Kind> kinds = {
        { 1, { Geometry::SEGMENT, 1, 2 } }, { 2, { Geometry::TRIANGLE, 1, 3 } }, { 3, { Geometry::SQUARE, 1, 4 } }, { 4, { Geometry::TETRAHEDRON, 1, 4 } }, { 5, { Geometry::CUBE, 1, 8 } },
        { 8, { Geometry::SEGMENT, 2, 3 } }, { 9, { Geometry::TRIANGLE, 2, 6 } }, { 10, { Geometry::SQUARE, 2, 9 } }, { 11, { Geometry::TETRAHEDRON, 2, 10 } }, { 12, { Geometry::CUBE, 2, 27 } },
        { 15, { Geometry::POINT, 1, 1 } }, { 21, { Geometry::TRIANGLE, 3, 10 } }, { 26, { Geometry::SEGMENT, 3, 4 } } };
    double version; int binary, dsize;
    in >> version >> binary >> dsize;
    MFEM_VERIFY(version >= 2.0 && version < 3.0, "Gmsh file version " << version << " not supported");
    MFEM_VERIFY(binary == 0, "binary Gmsh files not supported");
    std::map<int, int> vid;
    std::string t;
    struct E { Kind k; int attr; std::vector<int> v; };
    std::vector<E> el;
    double lo[3] = { 1e300, 1e300, 1e300 }, hi[3] = { -1e300, -1e300, -1e300 };
    while (in >> t) {
        if (t == "$Nodes") {
            int n; in >> n;
            for (int i = 0; i < n; i++) {
                int id; double c[3]; in >> id >> c[0] >> c[1] >> c[2];
                MFEM_VERIFY(!in.fail(), "Gmsh file: bad vertex");
                for (int d = 0; d < 3; d++) { lo[d] = std::min(lo[d], c[d]); hi[d] = std::max(hi[d], c[d]); }
                vid[id] = GetNV(); AddVertex(c[0], c[1], c[2]);
            }
            MFEM_VERIFY((int)vid.size() == n, "Gmsh file: vertices indices are not unique");
        }
        else if (t == "$Elements") {
            int n; in >> n;
            for (int i = 0; i < n; i++) {
                int id, ty, nt; in >> id >> ty >> nt;
                MFEM_VERIFY(!in.fail(), "Gmsh file: bad element");
                int phys = 1, x;
                for (int k = 0; k < nt; k++) { in >> x; if (k == 0) phys = x; }
                auto it = kinds.find(ty);
                MFEM_VERIFY(it != kinds.end(), "Gmsh file: element type " << ty << " not supported");
                E e{ it->second, phys, {} };
                for (int k = 0; k < e.k.n; k++) { in >> x; auto v = vid.find(x); MFEM_VERIFY(v != vid.end(), "Gmsh file: vertex index doesn't exist"); e.v.push_back(v->second); }
                el.push_back(e);
            }
        }
    }
    MFEM_VERIFY(!el.empty(), "Gmsh file: no elements found");
    // Gmsh's default is zero everywhere, which MFEM reads as attribute 1
    bool allZero = true;
    for (auto& e : el) allZero &= e.attr == 0;
    if (allZero) for (auto& e : el) e.attr = 1;
    Dim = 0;
    for (auto& e : el) Dim = std::max(Dim, Geometry::Dimension[e.k.g]);
    double range = 0;
    for (int d = 0; d < 3; d++) range = std::max(range, hi[d] - lo[d]);
    spaceDim = 1;
    if (hi[1] - lo[1] > range * 1e-12) spaceDim = 2;
    if (hi[2] - lo[2] > range * 1e-12) spaceDim = 3;
    spaceDim = std::max(spaceDim, Dim);
    int order = 1;
    std::vector<std::vector<int>> full;
    for (auto& e : el) {
        const int d = Geometry::Dimension[e.k.g];
        if (d == Dim || d == Dim - 1) MFEM_VERIFY(e.attr > 0, "Non-positive element attribute in Gmsh mesh! By default Gmsh sets element tags (attributes) to '0' but MFEM requires that they be positive integers.");
        if (d == Dim) { AddElement(new Element(e.k.g, e.v.data(), Geometry::NumVerts[e.k.g], e.attr)); full.push_back(e.v); order = std::max(order, e.k.order); }
        else if (d == Dim - 1) AddBdrElement(new Element(e.k.g, e.v.data(), Geometry::NumVerts[e.k.g], e.attr));
    }
    if (order == 1) {
        FinalizeTopology();
        if (CheckElementOrientation(fix)) buildTopology();
        if (fixBdr) CheckBdrElementOrientation(true);
        SetAttributes();
        return;
    }
    // curved: keep only corner vertices, then place the nodes
    std::vector<Vertex> all(vertices);
    std::vector<int> map(GetNV(), -1);
    std::vector<char> used(GetNV(), 0);
    for (auto* l : { &elements, &boundary }) for (auto& e : *l) for (int k = 0; k < e->GetNVertices(); k++) used[e->GetVertices()[k]] = 1;
    vertices.clear();
    for (size_t v = 0; v < all.size(); v++) if (used[v]) { map[v] = GetNV(); vertices.push_back(all[v]); }
    for (auto* l : { &elements, &boundary }) for (auto& e : *l) for (int k = 0; k < e->GetNVertices(); k++) e->GetVertices()[k] = map[e->GetVertices()[k]];
    FinalizeTopology();
    // positions of Gmsh's nodes in the reference element
    auto ref = [](Geometry::Type g, int p) {
        std::vector<std::array<double, 3>> r;
        for (auto i = 0; i < Geometries.GetVertices(g)->GetNPoints(); i++) { double q[3]; Geometries.GetVertices(g)->IntPoint(i).Get(q, 3); r.push_back({ q[0], q[1], q[2] }); }
        auto lin = [&](int a, int b, double s) { std::array<double, 3> m; for (int d = 0; d < 3; d++) m[d] = r[a][d] * (1 - s) + r[b][d] * s; return m; };
        auto v = r;
        std::vector<std::pair<int, int>> e;
        if (g == Geometry::SEGMENT) e = { { 0, 1 } };
        if (g == Geometry::TRIANGLE) e = { { 0, 1 }, { 1, 2 }, { 2, 0 } };
        if (g == Geometry::SQUARE) e = { { 0, 1 }, { 1, 2 }, { 2, 3 }, { 3, 0 } };
        if (g == Geometry::TETRAHEDRON) e = { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 3, 0 }, { 3, 2 }, { 3, 1 } };
        MFEM_VERIFY(!e.empty(), "curved Gmsh element not supported");
        for (auto& [a, b] : e) for (int k = 1; k < p; k++) v.push_back(lin(a, b, double(k) / p));
        if (g == Geometry::SQUARE && p == 2) v.push_back({ 0.5, 0.5, 0 });
        if (g == Geometry::TRIANGLE && p == 3) v.push_back({ 1. / 3, 1. / 3, 0 });
        return v;
    };
    auto* c = new H1_FECollection(order, Dim);
    auto* f = new FiniteElementSpace(this, c, spaceDim, Ordering::byVDIM);
    auto* n = new GridFunction(f);
    n->MakeOwner(c);
    for (int i = 0; i < GetNE(); i++) {
        auto g = GetElementGeometry(i);
        auto rp = ref(g, order);
        MFEM_VERIFY(rp.size() == full[i].size(), "elements of mixed order");
        // Lagrange interpolation through Gmsh's nodes, evaluated at ours
        auto* fe = c->FiniteElementForGeometry(g);
        const int nd = fe->GetDof();
        DenseMatrix A(nd), X(nd, spaceDim), Y(nd, spaceDim);
        Vector s(nd);
        for (int k = 0; k < nd; k++) {
            IntegrationPoint ip; ip.Set3(rp[k].data());
            fe->CalcShape(ip, s);
            for (int j = 0; j < nd; j++) A(k, j) = s(j);
            for (int d = 0; d < spaceDim; d++) X(k, d) = all[full[i][k]](d);
        }
        A.Invert();
        mfem::Mult(A, X, Y);
        Array<int> dofs; f->GetElementDofs(i, dofs);
        for (int k = 0; k < nd; k++) for (int d = 0; d < spaceDim; d++) (*n)(f->DofToVDof(dofs[k], d)) = Y(k, d);
    }
    NewNodes(*n, true);
    if (fixBdr) CheckBdrElementOrientation(true);
    SetAttributes();
}
void Mesh::Print(std::ostream& o, const std::string&) const
{
    static const int t[] = { 0, 1, 2, 3, 4, 5 };
    o << "MFEM mesh v1.0\n\ndimension\n" << Dim << "\n\nelements\n" << GetNE() << '\n';
    auto pr = [&](const Element& e) { o << e.GetAttribute() << ' ' << t[e.GetGeometryType()]; for (int k = 0; k < e.GetNVertices(); k++) o << ' ' << e.GetVertices()[k]; o << '\n'; };
    for (auto& e : elements) pr(*e);
    o << "\nboundary\n" << GetNBE() << '\n';
    for (auto& e : boundary) pr(*e);
    o << "\nvertices\n" << GetNV() << '\n';
    if (Nodes) { o << "\nnodes\n"; Nodes->Save(o); }
    else {
        o << spaceDim << '\n';
        for (auto& v : vertices) { for (int d = 0; d < spaceDim; d++) o << (d ? " " : "") << v(d); o << '\n'; }
    }
}
void Mesh::Save(const std::string& f, int prec) const { std::ofstream o(f); o.precision(prec); Print(o); }

} // namespace mfem
