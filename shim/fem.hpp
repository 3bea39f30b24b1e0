// Geometry, finite elements, meshes, spaces, grid functions and forms with MFEM's interface.
#pragma once

#include "linalg.hpp"

namespace mfem {

class Mesh;
class GridFunction;
class FiniteElementSpace;
class FiniteElement;

// ---------------------------------------------------------------- integration

class IntegrationPoint {
public:
    double x = 0, y = 0, z = 0, weight = 0;
    int index = -1;
    void Init(int i) { x = y = z = weight = 0; index = i; }
    void Set(const double* p, int dim) { x = p[0]; if (dim > 1) y = p[1]; if (dim > 2) z = p[2]; }
    void Get(double* p, int dim) const { p[0] = x; if (dim > 1) p[1] = y; if (dim > 2) p[2] = z; }
    void Set(double x1, double x2, double x3, double w) { x = x1; y = x2; z = x3; weight = w; }
    void Set3w(const double* p) { x = p[0]; y = p[1]; z = p[2]; weight = p[3]; }
    void Set3(double x1, double x2, double x3) { x = x1; y = x2; z = x3; }
    void Set3(const double* p) { x = p[0]; y = p[1]; z = p[2]; }
    void Set2w(double x1, double x2, double w) { x = x1; y = x2; weight = w; }
    void Set2(double x1, double x2) { x = x1; y = x2; }
    void Set2(const double* p) { x = p[0]; y = p[1]; }
    void Set1w(double x1, double w) { x = x1; weight = w; }
    void Set1(double x1) { x = x1; }
};

class IntegrationRule : public Array<IntegrationPoint> {
public:
    IntegrationRule() = default;
    explicit IntegrationRule(int n) : Array<IntegrationPoint>(n) { for (int i = 0; i < n; i++) (*this)[i].Init(i); }
    int GetNPoints() const { return Size(); }
    int GetOrder() const { return order; }
    void SetOrder(int o) { order = o; }
    IntegrationPoint& IntPoint(int i) { return (*this)[i]; }
    const IntegrationPoint& IntPoint(int i) const { return (*this)[i]; }
private:
    int order = 0;
};

class Geometry {
public:
    enum Type { INVALID = -1, POINT = 0, SEGMENT, TRIANGLE, SQUARE, TETRAHEDRON, CUBE, PRISM, PYRAMID, NUM_GEOMETRIES };
    static const int NumGeom = NUM_GEOMETRIES;
    static const char* Name[NumGeom];
    static const double Volume[NumGeom];
    static const int Dimension[NumGeom];
    static const int NumVerts[NumGeom];
    static const int NumEdges[NumGeom];
    static const int NumFaces[NumGeom];
    Geometry();
    const IntegrationRule* GetVertices(int g) const;
    const IntegrationPoint& GetCenter(int g) const;
    static bool CheckPoint(int g, const IntegrationPoint& ip, double eps = 0.0);
    int NumBdr(int g) const { int d = Dimension[g]; return d == 1 ? 2 : d == 2 ? NumEdges[g] : NumFaces[g]; }
private:
    IntegrationRule verts_[NumGeom];
    IntegrationPoint center_[NumGeom];
};
extern Geometry Geometries;

struct Quadrature1D { enum { Invalid = -1, GaussLegendre = 0, GaussLobatto = 1, OpenUniform = 2, ClosedUniform = 3 }; };
class IntegrationRules {
public:
    const IntegrationRule& Get(int geom, int order);
private:
    std::map<std::pair<int, int>, std::unique_ptr<IntegrationRule>> rules_;
};
extern thread_local IntegrationRules IntRules;

class BasisType {
public:
    enum { Invalid = -1, GaussLegendre = 0, GaussLobatto = 1, Positive = 2, OpenUniform = 3, ClosedUniform = 4,
           OpenHalfUniform = 5, Serendipity = 6, ClosedGL = 7, IntegratedGLL = 8, NumBasisTypes = 9 };
    static int Check(int b) { MFEM_VERIFY(0 <= b && b < NumBasisTypes, "unknown BasisType: " << b); return b; }
    static const char* Name(int);
};

// ---------------------------------------------------------------- elements

class ElementTransformation;

class FunctionSpace { public: enum { Pk, Qk, rQk, Uk }; };

class FiniteElement {
public:
    enum RangeType { UNKNOWN_RANGE_TYPE = -1, SCALAR, VECTOR };
    enum MapType { UNKNOWN_MAP_TYPE = -1, VALUE, INTEGRAL, H_DIV, H_CURL };
    FiniteElement(int d, Geometry::Type g, int dof, int o, int space) : dim(d), geom_type(g), func_space(space), dof(dof), order(o), Nodes(dof) {}
    virtual ~FiniteElement() = default;
    int GetDim() const { return dim; }
    Geometry::Type GetGeomType() const { return geom_type; }
    int GetDof() const { return dof; }
    int GetOrder() const { return order; }
    int Space() const { return func_space; }
    int GetRangeType() const { return SCALAR; }
    int GetMapType() const { return VALUE; }
    virtual int GetBasisType() const { return BasisType::Invalid; }
    virtual void CalcShape(const IntegrationPoint& ip, Vector& shape) const = 0;
    virtual void CalcDShape(const IntegrationPoint& ip, DenseMatrix& dshape) const = 0;
    void CalcPhysShape(ElementTransformation& T, Vector& shape) const;
    void CalcPhysDShape(ElementTransformation& T, DenseMatrix& dshape) const;
    const IntegrationRule& GetNodes() const { return Nodes; }
    int GetVDim() const { return 1; }
protected:
    int dim;
    Geometry::Type geom_type;
    int func_space;
    mutable int dof, order;
    IntegrationRule Nodes;
};
/// Nodal element: tensor Lagrange on segments, squares and cubes, full polynomials on simplices.
class NodalFiniteElement : public FiniteElement {
public:
    NodalFiniteElement(Geometry::Type g, int p, const std::vector<double>& nodes1d, int btype);
    void CalcShape(const IntegrationPoint& ip, Vector& shape) const override;
    void CalcDShape(const IntegrationPoint& ip, DenseMatrix& dshape) const override;
    int GetBasisType() const override { return btype_; }
    const Array<int>& GetLexicographicOrdering() const { return lex_; }
    /// barycentric (simplex) or multilinear (tensor) vertex weights of a node
    std::vector<double> VertexWeights(int node) const;
private:
    int btype_;
    std::vector<double> n1_;
    DenseMatrix Vinv_;
    Array<int> lex_;
    void basis1d(double x, std::vector<double>& u, std::vector<double>& d) const;
    size_t id_ = nextId();
    static size_t nextId();
    void computeShape(const IntegrationPoint& ip, Vector& s) const;
};
using ScalarFiniteElement = FiniteElement;

class FiniteElementCollection {
public:
    enum { CONTINUOUS, TANGENTIAL, NORMAL, DISCONTINUOUS };
    virtual ~FiniteElementCollection() = default;
    virtual const FiniteElement* FiniteElementForGeometry(Geometry::Type g) const = 0;
    virtual const char* Name() const = 0;
    virtual int GetContType() const = 0;
    int GetOrder() const { return order; }
    int GetDim() const { return dim; }
    virtual int GetBasisType() const { return BasisType::Invalid; }
    static FiniteElementCollection* New(const char* name);
protected:
    FiniteElementCollection(int p, int d) : order(p), dim(d) {}
    int order, dim;
};
class NodalCollection_ : public FiniteElementCollection {
public:
    NodalCollection_(int p, int dim, int btype, bool disc);
    const FiniteElement* FiniteElementForGeometry(Geometry::Type g) const override;
    const char* Name() const override { return name_.c_str(); }
    int GetContType() const override { return disc_ ? DISCONTINUOUS : CONTINUOUS; }
    int GetBasisType() const override { return btype_; }
private:
    int btype_;
    bool disc_;
    std::string name_;
    mutable std::map<int, std::unique_ptr<NodalFiniteElement>> fe_;
    NodalCollection_(const NodalCollection_&) = delete;
};
class L2_FECollection : public NodalCollection_ {
public:
    L2_FECollection(int p, int dim, int btype = BasisType::GaussLegendre, int = FiniteElement::VALUE) : NodalCollection_(p, dim, btype, true) {}
};
using DG_FECollection = L2_FECollection;
class H1_FECollection : public NodalCollection_ {
public:
    explicit H1_FECollection(int p, int dim = 3, int btype = BasisType::GaussLobatto) : NodalCollection_(p, dim, btype, false) {}
};
class LinearFECollection : public H1_FECollection { public: LinearFECollection() : H1_FECollection(1) {} };

// ---------------------------------------------------------------- transformations

class ElementTransformation {
public:
    enum { ELEMENT = 1, BDR_ELEMENT = 2, EDGE = 3, FACE = 4, BDR_FACE = 5 };
    int Attribute = -1, ElementNo = -1, ElementType = ELEMENT;
    const Mesh* mesh = nullptr;
    virtual ~ElementTransformation() = default;
    void Reset() { IntPoint = nullptr; state_ = 0; }
    void SetIntPoint(const IntegrationPoint* ip) { IntPoint = ip; state_ = 0; }
    const IntegrationPoint& GetIntPoint() const { MFEM_VERIFY(IntPoint, "no integration point set"); return *IntPoint; }
    virtual void Transform(const IntegrationPoint& ip, Vector& v) = 0;
    virtual void Transform(const IntegrationRule& ir, DenseMatrix& m) = 0;
    const DenseMatrix& Jacobian() { if (!(state_ & 1)) { MFEM_VERIFY(IntPoint || affine(), "no integration point set"); evalJ(); state_ |= 1; } return dFdx; }
    double Weight() { Jacobian(); if (!(state_ & 2)) { W_ = (dFdx.Width() == 0) ? 1.0 : dFdx.Weight(); state_ |= 2; } return W_; }
    const DenseMatrix& AdjugateJacobian() { Jacobian(); if (!(state_ & 4)) { adj_.SetSize(dFdx.Width(), dFdx.Height()); CalcAdjugate(dFdx, adj_); state_ |= 4; } return adj_; }
    const DenseMatrix& InverseJacobian() { Jacobian(); if (!(state_ & 8)) { inv_.SetSize(dFdx.Width(), dFdx.Height()); CalcInverse(dFdx, inv_); state_ |= 8; } return inv_; }
    virtual int Order() const = 0;
    virtual int OrderJ() const = 0;
    virtual int OrderW() const = 0;
    virtual int OrderGrad(const FiniteElement* fe) const = 0;
    Geometry::Type GetGeometryType() const { return geom; }
    int GetDimension() const { return Geometry::Dimension[geom]; }
    virtual int GetSpaceDim() const = 0;
    virtual int TransformBack(const Vector& pt, IntegrationPoint& ip) = 0;
protected:
    const IntegrationPoint* IntPoint = nullptr;
    DenseMatrix dFdx, adj_, inv_;
    Geometry::Type geom = Geometry::INVALID;
    int state_ = 0;
    double W_ = 0;
    virtual void evalJ() = 0;
    virtual bool affine() const { return false; }
};
class IsoparametricTransformation : public ElementTransformation {
public:
    void SetFE(const FiniteElement* fe) { FElem = fe; geom = fe->GetGeomType(); state_ = 0; }
    const FiniteElement* GetFE() const { return FElem; }
    void SetIdentityTransformation(Geometry::Type g);
    void SetPointMat(const DenseMatrix& pm) { PointMat = pm; state_ = 0; }
    const DenseMatrix& GetPointMat() const { return PointMat; }
    DenseMatrix& GetPointMat() { state_ = 0; return PointMat; }
    void Transform(const IntegrationPoint& ip, Vector& v) override;
    void Transform(const IntegrationRule& ir, DenseMatrix& m) override;
    int Order() const override { return FElem->GetOrder(); }
    int OrderJ() const override;
    int OrderW() const override;
    int OrderGrad(const FiniteElement* fe) const override;
    int GetSpaceDim() const override { return PointMat.Height(); }
    int TransformBack(const Vector& pt, IntegrationPoint& ip) override;
protected:
    DenseMatrix PointMat;
    const FiniteElement* FElem = nullptr;
    void evalJ() override;
    bool affine() const override { return FElem && FElem->GetOrder() <= 1 && FElem->Space() == FunctionSpace::Pk; }
};
class IntegrationPointTransformation {
public:
    IsoparametricTransformation Transf;
    void Transform(const IntegrationPoint& ip, IntegrationPoint& o);
    void Transform(const IntegrationRule& ir, IntegrationRule& o) { for (int i = 0; i < ir.GetNPoints(); i++) Transform(ir.IntPoint(i), o.IntPoint(i)); }
};
class FaceElementTransformations : public IsoparametricTransformation {
public:
    enum ConfigMasks { HAVE_ELEM1 = 1, HAVE_ELEM2 = 2, HAVE_LOC1 = 4, HAVE_LOC2 = 8, HAVE_FACE = 16 };
    int Elem1No = -1, Elem2No = -1;
    ElementTransformation *Elem1 = nullptr, *Elem2 = nullptr;
    ElementTransformation* Face = this;
    IntegrationPointTransformation Loc1, Loc2;
    FaceElementTransformations() = default;
    FaceElementTransformations(const FaceElementTransformations&) = delete;
    int GetConfigurationMask() const { return mask; }
    void SetConfigurationMask(int m) { mask = m; }
    void SetGeometryType(Geometry::Type g) { geom = g; }
    Geometry::Type GetGeometryType() const { return geom; }
    void SetIntPoint(const IntegrationPoint* ip) { IsoparametricTransformation::SetIntPoint(ip); }
    void SetAllIntPoints(const IntegrationPoint* ip);
    const IntegrationPoint& GetElement1IntPoint() const { return eip1; }
    const IntegrationPoint& GetElement2IntPoint() const { return eip2; }
    ElementTransformation& GetElement1Transformation() { return *Elem1; }
    ElementTransformation& GetElement2Transformation() { return *Elem2; }
    IntegrationPointTransformation& GetIntPoint1Transformation() { return Loc1; }
    IntegrationPointTransformation& GetIntPoint2Transformation() { return Loc2; }
private:
    int mask = 0;
    IntegrationPoint eip1, eip2;
};
class InverseElementTransformation {
public:
    enum TransformResult { Inside = 0, Outside = 1, Unknown = 2 };
    explicit InverseElementTransformation(ElementTransformation* t = nullptr) : T_(t) {}
    void SetTransformation(ElementTransformation& t) { T_ = &t; }
    int Transform(const Vector& pt, IntegrationPoint& ip) { return T_->TransformBack(pt, ip); }
private:
    ElementTransformation* T_;
};

// ---------------------------------------------------------------- mesh

class Element {
public:
    enum Type { POINT, SEGMENT, TRIANGLE, QUADRILATERAL, TETRAHEDRON, HEXAHEDRON, WEDGE, PYRAMID };
    Element(Geometry::Type g, const int* v, int n, int a = 1) : g_(g), attr_(a), v_(v, v + n) {}
    virtual ~Element() = default;
    Type GetType() const { static const Type t[] = { POINT, SEGMENT, TRIANGLE, QUADRILATERAL, TETRAHEDRON, HEXAHEDRON, WEDGE, PYRAMID }; return t[g_]; }
    Geometry::Type GetGeometryType() const { return g_; }
    int GetAttribute() const { return attr_; }
    void SetAttribute(int a) { attr_ = a; }
    void GetVertices(Array<int>& v) const { v.SetSize((int)v_.size()); for (size_t i = 0; i < v_.size(); i++) v[i] = v_[i]; }
    int* GetVertices() { return v_.data(); }
    const int* GetVertices() const { return v_.data(); }
    void SetVertices(const int* v) { std::copy(v, v + v_.size(), v_.begin()); }
    int GetNVertices() const { return (int)v_.size(); }
    int GetNEdges() const { return Geometry::NumEdges[g_]; }
    const int* GetEdgeVertices(int i) const;
    int GetNFaces() const { return Geometry::Dimension[g_] == 3 ? Geometry::NumFaces[g_] : 0; }
    int GetNFaceVertices(int f) const;
    const int* GetFaceVertices(int f) const;
    virtual Element* Duplicate(Mesh* = nullptr) const { return new Element(*this); }
    virtual Element* Clone() const { return new Element(*this); }
protected:
    Geometry::Type g_;
    int attr_;
    std::vector<int> v_;
};
class Point : public Element { public: Point() : Element(Geometry::POINT, z, 1) {} explicit Point(const int* v, int a = 1) : Element(Geometry::POINT, v, 1, a) {} private: static constexpr int z[1] = { 0 }; };
class Segment : public Element { public: Segment(const int* v, int a = 1) : Element(Geometry::SEGMENT, v, 2, a) {} Segment(int a, int b, int attr = 1) : Segment(std::array<int, 2>{ a, b }.data(), attr) {} };
class Triangle : public Element { public: Triangle(const int* v, int a = 1) : Element(Geometry::TRIANGLE, v, 3, a) {} Triangle(int a, int b, int c, int attr = 1) : Triangle(std::array<int, 3>{ a, b, c }.data(), attr) {} };
class Quadrilateral : public Element { public: Quadrilateral(const int* v, int a = 1) : Element(Geometry::SQUARE, v, 4, a) {} Quadrilateral(int a, int b, int c, int d, int attr = 1) : Quadrilateral(std::array<int, 4>{ a, b, c, d }.data(), attr) {} };
class Tetrahedron : public Element { public: Tetrahedron(const int* v, int a = 1) : Element(Geometry::TETRAHEDRON, v, 4, a) {} Tetrahedron(int a, int b, int c, int d, int attr = 1) : Tetrahedron(std::array<int, 4>{ a, b, c, d }.data(), attr) {} };
class Hexahedron : public Element { public: Hexahedron(const int* v, int a = 1) : Element(Geometry::CUBE, v, 8, a) {} };

class Vertex {
public:
    Vertex() { c_[0] = c_[1] = c_[2] = 0; }
    Vertex(const double* x, int d) : Vertex() { for (int i = 0; i < d; i++) c_[i] = x[i]; }
    Vertex(double x, double y) : Vertex() { c_[0] = x; c_[1] = y; }
    Vertex(double x, double y, double z) { c_[0] = x; c_[1] = y; c_[2] = z; }
    double& operator()(int i) { return c_[i]; }
    const double& operator()(int i) const { return c_[i]; }
    double* operator()() const { return (double*)c_; }
    void SetCoords(int d, const double* p) { for (int i = 0; i < d; i++) c_[i] = p[i]; }
private:
    double c_[3];
};

enum class FaceType : bool { Interior, Boundary };
struct Refinement { int index; char ref_type; Refinement(int i = 0, int t = 7) : index(i), ref_type(t) {} };

class Mesh {
public:
    struct FaceInfo { int Elem1No = -1, Elem2No = -1, Elem1Inf = -1, Elem2Inf = -1, NCFace = -1; };
    enum class FaceTopology { Boundary, Conforming, Nonconforming, NA };
    enum class ElementLocation { Local, FaceNbr, NA };
    enum class ElementConformity { Coincident, Superset, Subset, NA };
    struct FaceInformation {
        FaceTopology topology = FaceTopology::NA;
        struct { ElementLocation location; ElementConformity conformity; int index, local_face_id, orientation; } element[2];
        int ncface = -1;
        bool IsLocal() const { return element[1].location == ElementLocation::Local; }
        bool IsShared() const { return element[1].location == ElementLocation::FaceNbr; }
        bool IsInterior() const { return topology == FaceTopology::Conforming; }
        bool IsBoundary() const { return topology == FaceTopology::Boundary; }
        bool IsOfFaceType(FaceType t) const { return t == FaceType::Interior ? IsInterior() : IsBoundary(); }
        bool IsConforming() const { return true; }
    };
    Array<int> attributes, bdr_attributes;
    long sequence = 0;

    Mesh() = default;
    Mesh(int Dim, int nv, int ne, int nbe = 0, int spaceDim = -1);
    Mesh(const Mesh& m, bool copy_nodes = true);
    Mesh(Mesh&& m) { Swap(m); }
    explicit Mesh(const char* f, int = 0, int = 1, bool fix = true) { load(f, fix, true); }
    explicit Mesh(const std::string& f, int = 0, int = 1, bool fix = true) { load(f, fix, true); }
    explicit Mesh(std::istream& in, int = 0, int = 1, bool fix = true) { read(in, fix, true); }
    virtual ~Mesh();
    Mesh& operator=(Mesh&& m) { Mesh t; t.Swap(m); Swap(t); return *this; }
    Mesh& operator=(const Mesh& m) { if (this != &m) { Mesh t(m); Swap(t); } return *this; }
    void Swap(Mesh& o);
    void Clear() { Mesh t; Swap(t); }

    static Mesh LoadFromFile(const std::string& f, int = 0, int = 1, bool fix = true) { Mesh m; m.load(f, fix, true); return m; }
    static Mesh LoadFromFileNoBdrFix(const std::string& f, int = 0, int = 1, bool fix = true) { Mesh m; m.load(f, fix, false); return m; }
    static Mesh MakeCartesian1D(int n, double sx = 1.0);
    static Mesh MakeCartesian2D(int nx, int ny, Element::Type t, bool = false, double sx = 1, double sy = 1, bool sfc = true);
    static Mesh MakeCartesian3D(int nx, int ny, int nz, Element::Type t, double sx = 1, double sy = 1, double sz = 1, bool sfc = true);
    static Mesh MakePeriodic(const Mesh& m, const std::vector<int>& v2v);
    std::vector<int> CreatePeriodicVertexMapping(const std::vector<Vector>& translations, double tol = 1e-8) const;

    int Dimension() const { return Dim; }
    int SpaceDimension() const { return spaceDim; }
    int GetNV() const { return (int)vertices.size(); }
    int GetNE() const { return (int)elements.size(); }
    int GetNBE() const { return (int)boundary.size(); }
    int GetNEdges() const { return (int)edges.size(); }
    int GetNFaces() const { return Dim == 3 ? (int)faces.size() : 0; }
    int GetNumFaces() const { return (int)faces_info.size(); }
    int GetNumFacesWithGhost() const { return GetNumFaces(); }
    int GetNF() const { return GetNumFaces(); }
    int GetNFbyType(FaceType t) const { int n = 0; for (int f = 0; f < GetNumFaces(); f++) n += GetFaceInformation(f).IsOfFaceType(t); return n; }
    virtual long long GetGlobalNE() const { return GetNE(); }

    int AddVertex(double x, double y = 0, double z = 0) { vertices.emplace_back(x, y, z); return GetNV() - 1; }
    int AddVertex(const double* c) { vertices.emplace_back(c, spaceDim); return GetNV() - 1; }
    int AddVertex(const Vector& c) { return AddVertex(c.GetData()); }
    int AddElement(Element* e) { elements.emplace_back(e); return GetNE() - 1; }
    int AddBdrElement(Element* e) { boundary.emplace_back(e); return GetNBE() - 1; }
    int AddSegment(int a, int b, int attr = 1) { return AddElement(new Segment(a, b, attr)); }
    int AddSegment(const int* v, int attr = 1) { return AddElement(new Segment(v, attr)); }
    int AddTriangle(int a, int b, int c, int attr = 1) { return AddElement(new Triangle(a, b, c, attr)); }
    int AddTriangle(const int* v, int attr = 1) { return AddElement(new Triangle(v, attr)); }
    int AddTri(const int* v, int attr = 1) { return AddTriangle(v, attr); }
    int AddQuad(int a, int b, int c, int d, int attr = 1) { return AddElement(new Quadrilateral(a, b, c, d, attr)); }
    int AddQuad(const int* v, int attr = 1) { return AddElement(new Quadrilateral(v, attr)); }
    int AddTet(int a, int b, int c, int d, int attr = 1) { return AddElement(new Tetrahedron(a, b, c, d, attr)); }
    int AddTet(const int* v, int attr = 1) { return AddElement(new Tetrahedron(v, attr)); }
    int AddHex(const int* v, int attr = 1) { return AddElement(new Hexahedron(v, attr)); }
    int AddHex(int a, int b, int c, int d, int e, int f, int g, int h, int attr = 1) { int v[8] = { a, b, c, d, e, f, g, h }; return AddHex(v, attr); }
    int AddWedge(int, int, int, int, int, int, int = 1) { MFEM_ABORT("wedges not supported"); }
    int AddWedge(const int*, int = 1) { MFEM_ABORT("wedges not supported"); }
    int AddPyramid(int, int, int, int, int, int = 1) { MFEM_ABORT("pyramids not supported"); }
    int AddPyramid(const int*, int = 1) { MFEM_ABORT("pyramids not supported"); }
    int AddBdrPoint(int v, int attr = 1) { return AddBdrElement(new Point(&v, attr)); }
    int AddBdrSegment(int a, int b, int attr = 1) { return AddBdrElement(new Segment(a, b, attr)); }
    int AddBdrSegment(const int* v, int attr = 1) { return AddBdrElement(new Segment(v, attr)); }
    int AddBdrTriangle(int a, int b, int c, int attr = 1) { return AddBdrElement(new Triangle(a, b, c, attr)); }
    int AddBdrTriangle(const int* v, int attr = 1) { return AddBdrElement(new Triangle(v, attr)); }
    int AddBdrQuad(int a, int b, int c, int d, int attr = 1) { return AddBdrElement(new Quadrilateral(a, b, c, d, attr)); }
    int AddBdrQuad(const int* v, int attr = 1) { return AddBdrElement(new Quadrilateral(v, attr)); }
    void FinalizeTopology(bool generate_bdr = true);
    virtual void Finalize(bool refine = false, bool fix_orientation = false);
    void FinalizeMesh(int refine = 0, bool fix_orientation = true) { FinalizeTopology(); Finalize(refine, fix_orientation); }
    void FinalizeTriMesh(int = 0, int = 0, bool fix = true) { FinalizeMesh(0, fix); }
    void FinalizeQuadMesh(int = 0, int = 0, bool fix = true) { FinalizeMesh(0, fix); }
    void FinalizeTetMesh(int = 0, int = 0, bool fix = true) { FinalizeMesh(0, fix); }
    void FinalizeHexMesh(int = 0, int = 0, bool fix = true) { FinalizeMesh(0, fix); }
    void GenerateBoundaryElements();
    virtual void SetAttributes();
    void EnsureNodes() { if (!Nodes) SetCurvature(1); }
    void EnsureNCMesh(bool = false) {}
    virtual void SetCurvature(int order, bool discont = false, int space_dim = -1, int ordering = 1);
    void UniformRefinement(int = 0);
    void GeneralRefinement(const Array<int>&, int = -1, int = 0) { MFEM_ABORT("local refinement not supported"); }
    void GeneralRefinement(const Array<Refinement>&, int = -1, int = 0) { MFEM_ABORT("local refinement not supported"); }
    void Transform(void (*f)(const Vector&, Vector&)) { Transform(std::function<void(const Vector&, Vector&)>(f)); }
    void Transform(std::function<void(const Vector&, Vector&)> f);

    double* GetVertex(int i) { return vertices.at(i)(); }
    const double* GetVertex(int i) const { return vertices.at(i)(); }
    void GetVertices(Vector& v) const;
    void SetVertices(const Vector& v);
    const Element* GetElement(int i) const { return elements.at(i).get(); }
    Element* GetElement(int i) { return elements.at(i).get(); }
    const Element* GetBdrElement(int i) const { return boundary.at(i).get(); }
    Element* GetBdrElement(int i) { return boundary.at(i).get(); }
    const Element* GetFace(int i) const { return face_elems.at(i).get(); }
    Geometry::Type GetFaceGeometry(int i) const { return face_elems.at(i)->GetGeometryType(); }
    Geometry::Type GetFaceGeometryType(int i) const { return GetFaceGeometry(i); }
    Geometry::Type GetElementGeometry(int i) const { return elements.at(i)->GetGeometryType(); }
    Geometry::Type GetElementBaseGeometry(int i) const { return GetElementGeometry(i); }
    Geometry::Type GetBdrElementGeometry(int i) const { return boundary.at(i)->GetGeometryType(); }
    Element::Type GetElementType(int i) const { return elements.at(i)->GetType(); }
    Element::Type GetBdrElementType(int i) const { return boundary.at(i)->GetType(); }
    int GetAttribute(int i) const { return elements.at(i)->GetAttribute(); }
    void SetAttribute(int i, int a) { elements.at(i)->SetAttribute(a); }
    int GetBdrAttribute(int i) const { return boundary.at(i)->GetAttribute(); }
    void SetBdrAttribute(int i, int a) { boundary.at(i)->SetAttribute(a); }
    void GetElementVertices(int i, Array<int>& v) const { elements.at(i)->GetVertices(v); }
    void GetBdrElementVertices(int i, Array<int>& v) const { boundary.at(i)->GetVertices(v); }
    void GetFaceVertices(int i, Array<int>& v) const { face_elems.at(i)->GetVertices(v); }
    void GetEdgeVertices(int i, Array<int>& v) const { v.SetSize(2); v[0] = edges.at(i).first; v[1] = edges.at(i).second; }
    void GetElementEdges(int i, Array<int>& e, Array<int>& cor) const;
    void GetBdrElementEdges(int i, Array<int>& e, Array<int>& cor) const;
    void GetElementFaces(int i, Array<int>& f, Array<int>& cor) const;
    Array<int> GetElementFaces_(int i) const { Array<int> f, c; GetElementFaces(i, f, c); return f; }
    void GetFaceEdges(int i, Array<int>& e, Array<int>& o) const;
    void GetBdrElementFace(int i, int* f, int* o) const;
    int GetBdrElementEdgeIndex(int i) const { return be_to_face.at(i); }
    int GetBdrElementFaceIndex(int i) const { return be_to_face.at(i); }
    int GetBdrFace(int i) const { return be_to_face.at(i); }
    Array<int> GetFaceToBdrElMap() const;
    void GetBdrElementAdjacentElement(int bdr_el, int& el, int& info) const;
    void GetFaceElements(int f, int* e1, int* e2) const { *e1 = faces_info.at(f).Elem1No; *e2 = faces_info.at(f).Elem2No; }
    void GetFaceInfos(int f, int* i1, int* i2) const { *i1 = faces_info.at(f).Elem1Inf; *i2 = faces_info.at(f).Elem2Inf; }
    FaceInformation GetFaceInformation(int f) const;
    bool FaceIsInterior(int f) const { return faces_info.at(f).Elem2No >= 0; }
    bool FaceIsTrueInterior(int f) const { return FaceIsInterior(f) || faces_info.at(f).Elem2Inf >= 0; }
    const Table& ElementToElementTable();
    const Table& ElementToFaceTable() const;
    const Table& ElementToEdgeTable() const;
    Table* GetVertexToElementTable();
    Array<int> FindFaceNeighbors(int elem) const;

    ElementTransformation* GetElementTransformation(int i);
    void GetElementTransformation(int i, IsoparametricTransformation* T) const;
    ElementTransformation* GetBdrElementTransformation(int i);
    void GetBdrElementTransformation(int i, IsoparametricTransformation* T) const;
    ElementTransformation* GetFaceTransformation(int f);
    void GetFaceTransformation(int f, IsoparametricTransformation* T) const;
    ElementTransformation* GetEdgeTransformation(int e);
    void GetEdgeTransformation(int e, IsoparametricTransformation* T) const;
    virtual FaceElementTransformations* GetFaceElementTransformations(int f, int mask = 31);
    virtual FaceElementTransformations* GetInteriorFaceTransformations(int f) { return FaceIsInterior(f) ? GetFaceElementTransformations(f) : nullptr; }
    FaceElementTransformations* GetBdrFaceTransformations(int be);
    FaceElementTransformations* GetInternalBdrFaceTransformations(int be);

    double GetElementSize(int i, int type = 0);
    double GetElementSize(ElementTransformation* T, int type = 0);
    double GetElementVolume(int i);
    void GetElementCenter(int i, Vector& c);
    void GetBoundingBox(Vector& mn, Vector& mx, int ref = 2);
    void GetCharacteristics(double& hmin, double& hmax, double& kmin, double& kmax, Vector* = nullptr, Vector* = nullptr);
    virtual int FindPoints(DenseMatrix& pts, Array<int>& ids, Array<IntegrationPoint>& ips, bool warn = true, InverseElementTransformation* = nullptr);

    GridFunction* GetNodes() { return Nodes; }
    const GridFunction* GetNodes() const { return Nodes; }
    void GetNodes(Vector& v) const;
    void GetNodes(GridFunction& g) const;
    void SetNodes(const Vector& v);
    void NewNodes(GridFunction& n, bool own = false);
    void SwapNodes(GridFunction*& n, int& own) { std::swap(Nodes, n); bool o = ownNodes; ownNodes = own; own = o; }
    void MoveNodes(const Vector& d);
    bool OwnsNodes() const { return ownNodes; }
    const FiniteElementSpace* GetNodalFESpace() const;
    virtual void SetNodalFESpace(FiniteElementSpace* f);
    int GetNodalOrder() const;

    int* GeneratePartitioning(int nparts, int method = 1);
    /// chooses the process of every element when set, in place of the stand-in's own cut
    static std::function<void(const Mesh&, int nparts, int* part)> Partitioner;
    void Print(std::ostream& o = std::cout, const std::string& = "") const;
    void Save(const std::string& f, int precision = 16) const;
    void PrintVTU(std::string, int = 0, bool = true, int = 0, bool = false) {}
    int CheckElementOrientation(bool fix = true);
    int CheckBdrElementOrientation(bool fix = true);
    static bool IsPeriodicIndexable() { return true; }

    /// topology, open to the rest of the library
    int Dim = 0, spaceDim = 0;
    std::vector<Vertex> vertices;
    std::vector<std::unique_ptr<Element>> elements, boundary;
    std::vector<std::unique_ptr<Element>> face_elems;     // one per face, vertices in elem1's order
    std::vector<std::pair<int, int>> edges;
    std::vector<int> faces;                               // only its size is used (3D face count)
    std::vector<std::vector<int>> el_to_edge, el_to_face;
    std::vector<int> be_to_face;
    std::vector<FaceInfo> faces_info;
    GridFunction* Nodes = nullptr;
    bool ownNodes = false;

protected:
    IsoparametricTransformation Transformation, Transformation2, BdrTransformation, FaceTransformation, EdgeTransformation;
    FaceElementTransformations FaceElemTr;
    mutable Table tEE_, tEF_, tEd_;
    int faceKeyLookup(const std::vector<int>& sorted) const;
    void localFaceMap(int el, int lf, const std::vector<int>& order, IntegrationPointTransformation& loc) const;
    void pointMatOfElement(int i, IsoparametricTransformation& T) const;
    void faceFromElement(int el, IntegrationPointTransformation& loc, Geometry::Type g, IsoparametricTransformation& T) const;
    std::map<std::vector<int>, int> face_index_, edge_index_;
    void load(const std::string& f, bool fix, bool fixBdr);
    void read(std::istream& in, bool fix, bool fixBdr);
    void readMFEM(std::istream& in, bool fix, bool fixBdr);
    void readGmsh(std::istream& in, bool fix, bool fixBdr);
    void buildTopology();
    friend class ParMesh;
};

const FiniteElement* LinearElement_(Geometry::Type g);
std::vector<int> LocalFaceVertices_(Geometry::Type g, int lf);
int NumLocalFaces_(Geometry::Type g);

// ---------------------------------------------------------------- spaces

class Ordering { public: enum Type { byNODES, byVDIM }; };

class DofTransformation {};
class FiniteElementSpace {
public:
    FiniteElementSpace() = default;
    FiniteElementSpace(Mesh* m, const FiniteElementCollection* f, int vdim = 1, int ord = Ordering::byNODES) { build(m, f, vdim, ord); }
    FiniteElementSpace(const FiniteElementSpace& o, Mesh* m = nullptr, const FiniteElementCollection* f = nullptr)
    { build(m ? m : o.mesh, f ? f : o.fec, o.vdim, o.ordering); }
    FiniteElementSpace(FiniteElementSpace&&) = default;
    FiniteElementSpace& operator=(const FiniteElementSpace&) = default;
    FiniteElementSpace& operator=(FiniteElementSpace&&) = default;
    virtual ~FiniteElementSpace() = default;
    Mesh* GetMesh() const { return mesh; }
    const FiniteElementCollection* FEColl() const { return fec; }
    int GetVDim() const { return vdim; }
    int VectorDim() const { return vdim; }
    Ordering::Type GetOrdering() const { return (Ordering::Type)ordering; }
    int GetNDofs() const { return ndofs; }
    int GetVSize() const { return ndofs * vdim; }
    virtual int GetTrueVSize() const { return GetVSize(); }
    virtual long long GlobalTrueVSize() const { return GetVSize(); }
    int GetNConformingDofs() const { return ndofs; }
    int GetConformingVSize() const { return GetVSize(); }
    int GetNE() const { return mesh->GetNE(); }
    int GetNV() const { return mesh->GetNV(); }
    int GetNBE() const { return mesh->GetNBE(); }
    int GetNF() const { return mesh->GetNumFaces(); }
    int GetNVDofs() const { return nvdofs; }
    int GetOrder(int) const { return fec->GetOrder(); }
    int GetElementOrder(int) const { return fec->GetOrder(); }
    int GetMaxElementOrder() const { return fec->GetOrder(); }
    bool IsDGSpace() const { return fec->GetContType() == FiniteElementCollection::DISCONTINUOUS; }
    Element::Type GetElementType(int i) const { return mesh->GetElementType(i); }
    int GetAttribute(int i) const { return mesh->GetAttribute(i); }
    int GetBdrAttribute(int i) const { return mesh->GetBdrAttribute(i); }
    ElementTransformation* GetElementTransformation(int i) const { return mesh->GetElementTransformation(i); }
    ElementTransformation* GetBdrElementTransformation(int i) const { return mesh->GetBdrElementTransformation(i); }
    const FiniteElement* GetFE(int i) const { return fec->FiniteElementForGeometry(geomOf(i)); }
    const FiniteElement* GetBE(int i) const { return fec->FiniteElementForGeometry(mesh->GetBdrElementGeometry(i)); }
    const FiniteElement* GetTypicalFE() const { return GetFE(0); }
    DofTransformation* GetElementDofs(int i, Array<int>& d) const;
    DofTransformation* GetElementVDofs(int i, Array<int>& d) const { GetElementDofs(i, d); DofsToVDofs(d); return nullptr; }
    void GetElementVertices(int i, Array<int>& v) const { mesh->GetElementVertices(i, v); }
    void GetBdrElementDofs(int i, Array<int>& d) const;
    void GetBdrElementVDofs(int i, Array<int>& d) const { GetBdrElementDofs(i, d); DofsToVDofs(d); }
    void DofsToVDofs(Array<int>& d, int n = -1) const;
    int DofToVDof(int dof, int vd, int n = -1) const { int nn = n < 0 ? ndofs : n; return ordering == Ordering::byNODES ? dof + vd * nn : dof * vdim + vd; }
    const Table& GetElementToDofTable() const { return e2d; }
    int GetElementForDof(int i) const;
    void BuildDofToArrays() {}
    void GetEssentialVDofs(const Array<int>& m, Array<int>& v, int comp = -1) const;
    virtual void GetEssentialTrueDofs(const Array<int>& m, Array<int>& l, int comp = -1) const;
    void GetBoundaryTrueDofs(Array<int>& l, int comp = -1) { Array<int> m(mesh->bdr_attributes.Size() ? mesh->bdr_attributes.Max() : 0); m = 1; GetEssentialTrueDofs(m, l, comp); }
    virtual const Operator* GetProlongationMatrix() const { return nullptr; }
    const Operator* GetRestrictionMatrix() const { return nullptr; }
    const Operator* GetElementRestriction(int) const { MFEM_ABORT("element restriction not supported"); }
    virtual void Update(bool = true) { build(mesh, fec, vdim, ordering); }
    long GetSequence() const { return 0; }
    void Save(std::ostream& o) const;
    FiniteElementCollection* Load(Mesh* m, std::istream& in);
protected:
    Mesh* mesh = nullptr;
    const FiniteElementCollection* fec = nullptr;
    int vdim = 1, ordering = Ordering::byNODES, ndofs = 0, nvdofs = 0;
    std::vector<Geometry::Type> geoms;
    Table e2d;
    Geometry::Type geomOf(int i) const { return geoms.at(i); }
    void build(Mesh* m, const FiniteElementCollection* f, int vdim, int ord);
};

// ---------------------------------------------------------------- coefficients

class Coefficient {
public:
    virtual ~Coefficient() = default;
    virtual void SetTime(double t) { time = t; }
    double GetTime() const { return time; }
    virtual double Eval(ElementTransformation& T, const IntegrationPoint& ip) = 0;
    double Eval(ElementTransformation& T, const IntegrationPoint& ip, double t) { SetTime(t); return Eval(T, ip); }
protected:
    double time = 0;
};
class ConstantCoefficient : public Coefficient {
public:
    double constant;
    explicit ConstantCoefficient(double c = 1.0) : constant(c) {}
    double Eval(ElementTransformation&, const IntegrationPoint&) override { return constant; }
};
class PWConstCoefficient : public Coefficient {
public:
    explicit PWConstCoefficient(int n = 0) : c_(n) { c_ = 0.0; }
    explicit PWConstCoefficient(const Vector& c) : c_(c) {}
    void UpdateConstants(Vector& c) { c_ = c; }
    double& operator()(int i) { return c_(i - 1); }
    void operator=(double c) { c_ = c; }
    int GetNConst() { return c_.Size(); }
    double Eval(ElementTransformation& T, const IntegrationPoint&) override { return c_(T.Attribute - 1); }
private:
    Vector c_;
};
class FunctionCoefficient : public Coefficient {
public:
    explicit FunctionCoefficient(std::function<double(const Vector&)> f) : f_(std::move(f)) {}
    explicit FunctionCoefficient(std::function<double(const Vector&, double)> f) : tf_(std::move(f)) {}
    double Eval(ElementTransformation& T, const IntegrationPoint& ip) override
    { Vector x(T.GetSpaceDim()); T.Transform(ip, x); return f_ ? f_(x) : tf_(x, GetTime()); }
private:
    std::function<double(const Vector&)> f_;
    std::function<double(const Vector&, double)> tf_;
};
class ProductCoefficient : public Coefficient {
public:
    ProductCoefficient(Coefficient& a, Coefficient& b) : a_(&a), b_(&b) {}
    ProductCoefficient(double a, Coefficient& b) : c_(a), b_(&b) {}
    double Eval(ElementTransformation& T, const IntegrationPoint& ip) override { return (a_ ? a_->Eval(T, ip) : c_) * b_->Eval(T, ip); }
private:
    Coefficient* a_ = nullptr; double c_ = 1; Coefficient* b_;
};
class GridFunctionCoefficient : public Coefficient {
public:
    explicit GridFunctionCoefficient(const GridFunction* g = nullptr, int c = 1) : g_(g), c_(c) {}
    void SetGridFunction(const GridFunction* g) { g_ = g; }
    double Eval(ElementTransformation& T, const IntegrationPoint& ip) override;
private:
    const GridFunction* g_; int c_;
};
class VectorCoefficient {
public:
    explicit VectorCoefficient(int d) : vdim(d) {}
    virtual ~VectorCoefficient() = default;
    virtual void SetTime(double t) { time = t; }
    double GetTime() const { return time; }
    int GetVDim() const { return vdim; }
    virtual void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) = 0;
protected:
    int vdim;
    double time = 0;
};
class VectorConstantCoefficient : public VectorCoefficient {
public:
    explicit VectorConstantCoefficient(const Vector& v) : VectorCoefficient(v.Size()), v_(v) {}
    void Eval(Vector& V, ElementTransformation&, const IntegrationPoint&) override { V = v_; }
    const Vector& GetVec() const { return v_; }
private:
    Vector v_;
};
class VectorFunctionCoefficient : public VectorCoefficient {
public:
    VectorFunctionCoefficient(int d, std::function<void(const Vector&, Vector&)> f, Coefficient* = nullptr) : VectorCoefficient(d), f_(std::move(f)) {}
    VectorFunctionCoefficient(int d, std::function<void(const Vector&, double, Vector&)> f, Coefficient* = nullptr) : VectorCoefficient(d), tf_(std::move(f)) {}
    void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) override
    { Vector x(T.GetSpaceDim()); T.Transform(ip, x); V.SetSize(vdim); if (f_) f_(x, V); else tf_(x, GetTime(), V); }
private:
    std::function<void(const Vector&, Vector&)> f_;
    std::function<void(const Vector&, double, Vector&)> tf_;
};
class VectorGridFunctionCoefficient : public VectorCoefficient {
public:
    explicit VectorGridFunctionCoefficient(const GridFunction* g = nullptr);
    void Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) override;
private:
    const GridFunction* g_;
};

// ---------------------------------------------------------------- grid functions

class GridFunction : public Vector {
public:
    GridFunction() = default;
    explicit GridFunction(FiniteElementSpace* f) : Vector(f->GetVSize()), fes(f) {}
    GridFunction(FiniteElementSpace* f, double* d) : Vector(d, f->GetVSize()), fes(f) {}
    GridFunction(FiniteElementSpace* f, Vector& base, int off = 0) : Vector(base, off, f->GetVSize()), fes(f) {}
    GridFunction(Mesh* m, std::istream& in);
    GridFunction(const GridFunction& o) : Vector(o), fes(o.fes) {}
    GridFunction(GridFunction&& o) noexcept : Vector(std::move(o)), fes(o.fes), ownFec(o.ownFec), ownFes(o.ownFes) { o.ownFec = nullptr; o.ownFes = nullptr; }
    ~GridFunction() override { destroyOwned(); }
    GridFunction& operator=(const GridFunction& o) { return operator=((const Vector&)o); }
    GridFunction& operator=(double v) { Vector::operator=(v); return *this; }
    GridFunction& operator=(const Vector& v) { MFEM_VERIFY(fes && v.Size() == fes->GetVSize(), "GridFunction assignment size"); Vector::operator=(v); return *this; }
    void MakeOwner(FiniteElementCollection* f) { ownFec = f; ownFes = fes; }
    FiniteElementCollection* OwnFEC() { return ownFec; }
    FiniteElementSpace* FESpace() { return fes; }
    const FiniteElementSpace* FESpace() const { return fes; }
    virtual void SetSpace(FiniteElementSpace* f) { destroyOwned(); fes = f; SetSize(f->GetVSize()); }
    using Vector::MakeRef;
    virtual void MakeRef(FiniteElementSpace* f, double* v) { destroyOwned(); fes = f; SetDataAndSize(v, f->GetVSize()); }
    virtual void MakeRef(FiniteElementSpace* f, Vector& v, int off) { MFEM_VERIFY(v.Size() >= f->GetVSize() + off, "MakeRef size"); destroyOwned(); fes = f; SetDataAndSize(v.GetData() + off, f->GetVSize()); }
    virtual void Update() { if (fes && Size() != fes->GetVSize()) SetSize(fes->GetVSize()); }
    int VectorDim() const { return fes->GetVDim(); }
    virtual double GetValue(int i, const IntegrationPoint& ip, int vdim = 1) const;
    virtual double GetValue(ElementTransformation& T, const IntegrationPoint& ip, int comp = 0, Vector* = nullptr) const;
    virtual void GetVectorValue(int i, const IntegrationPoint& ip, Vector& v) const;
    virtual void GetVectorValue(ElementTransformation& T, const IntegrationPoint& ip, Vector& v, Vector* = nullptr) const { GetVectorValue(T.ElementNo, ip, v); }
    void GetNodalValues(int i, Array<double>& nval, int vdim = 1) const;
    void GetNodalValues(Vector& nval, int vdim = 1) const;
    void GetVectorFieldNodalValues(Vector& val, int comp) const;
    void GetElementDofValues(int i, Vector& d) const { Array<int> v; fes->GetElementVDofs(i, v); GetSubVector(v, d); }
    void GetGradient(ElementTransformation& T, Vector& grad) const;
    virtual void ProjectCoefficient(Coefficient& c);
    virtual void ProjectCoefficient(VectorCoefficient& c);
    void ProjectCoefficient(Coefficient* c[]);
    virtual void ProjectBdrCoefficient(Coefficient& c, const Array<int>& attr);
    virtual void ProjectBdrCoefficient(VectorCoefficient&, const Array<int>&) { MFEM_ABORT("not supported"); }
    void ProjectGridFunction(const GridFunction& src);
    virtual double ComputeL2Error(Coefficient& c, const IntegrationRule* irs[] = nullptr, const Array<int>* = nullptr) const;
    virtual double ComputeL2Error(VectorCoefficient& c, const IntegrationRule* irs[] = nullptr, const Array<int>* = nullptr) const;
    virtual double ComputeMaxError(Coefficient& c, const IntegrationRule* irs[] = nullptr) const;
    virtual void Save(std::ostream& o) const;
    virtual void Save(const char* f, int prec = 16) const { std::ofstream o(f); o.precision(prec); Save(o); }
protected:
    FiniteElementSpace* fes = nullptr;
    FiniteElementCollection* ownFec = nullptr;
    FiniteElementSpace* ownFes = nullptr;
    void destroyOwned() { if (ownFec) { delete ownFes; delete ownFec; ownFes = nullptr; ownFec = nullptr; } }
};
inline std::ostream& operator<<(std::ostream& o, const GridFunction& g) { g.Save(o); return o; }

// ---------------------------------------------------------------- integrators

class NonlinearFormIntegrator {
public:
    virtual ~NonlinearFormIntegrator() = default;
    void SetIntRule(const IntegrationRule* ir) { IntRule = ir; }
    void SetIntegrationRule(const IntegrationRule& ir) { IntRule = &ir; }
    const IntegrationRule* GetIntRule() const { return IntRule; }
    const IntegrationRule* GetIntegrationRule() const { return IntRule; }
protected:
    const IntegrationRule* IntRule = nullptr;
};
class BilinearFormIntegrator : public NonlinearFormIntegrator {
public:
    explicit BilinearFormIntegrator(const IntegrationRule* ir = nullptr) { IntRule = ir; }
    virtual void AssembleElementMatrix(const FiniteElement&, ElementTransformation&, DenseMatrix&) { MFEM_ABORT("AssembleElementMatrix not implemented"); }
    virtual void AssembleElementMatrix2(const FiniteElement&, const FiniteElement&, ElementTransformation&, DenseMatrix&) { MFEM_ABORT("AssembleElementMatrix2 not implemented"); }
    virtual void AssembleFaceMatrix(const FiniteElement&, const FiniteElement&, FaceElementTransformations&, DenseMatrix&) { MFEM_ABORT("AssembleFaceMatrix not implemented"); }
    virtual void AssembleFaceMatrix(const FiniteElement&, const FiniteElement&, const FiniteElement&, FaceElementTransformations&, DenseMatrix&) { MFEM_ABORT("AssembleFaceMatrix not implemented"); }
};
class MassIntegrator : public BilinearFormIntegrator {
public:
    explicit MassIntegrator(const IntegrationRule* ir = nullptr) : BilinearFormIntegrator(ir) {}
    explicit MassIntegrator(Coefficient& q, const IntegrationRule* ir = nullptr) : BilinearFormIntegrator(ir), Q(&q) {}
    void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override { AssembleElementMatrix2(el, el, T, m); }
    void AssembleElementMatrix2(const FiniteElement& trial, const FiniteElement& test, ElementTransformation& T, DenseMatrix& m) override;
    static const IntegrationRule& GetRule(const FiniteElement& trial, const FiniteElement& test, const ElementTransformation& T);
private:
    Coefficient* Q = nullptr;
};
class DerivativeIntegrator : public BilinearFormIntegrator {
public:
    DerivativeIntegrator(Coefficient& q, int i) : Q(&q), xi(i) {}
    void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override { AssembleElementMatrix2(el, el, T, m); }
    void AssembleElementMatrix2(const FiniteElement& trial, const FiniteElement& test, ElementTransformation& T, DenseMatrix& m) override;
protected:
    Coefficient* Q = nullptr;
    int xi;
};
class ConvectionIntegrator : public BilinearFormIntegrator {
public:
    ConvectionIntegrator(VectorCoefficient& q, double a = 1.0) : Q(&q), alpha(a) {}
    void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override;
private:
    VectorCoefficient* Q;
    double alpha;
};
class DiffusionIntegrator : public BilinearFormIntegrator {
public:
    DiffusionIntegrator() = default;
    explicit DiffusionIntegrator(Coefficient& q) : Q(&q) {}
    void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override;
private:
    Coefficient* Q = nullptr;
};
class DGTraceIntegrator : public BilinearFormIntegrator {
public:
    DGTraceIntegrator(VectorCoefficient& u_, double a) : u(&u_), alpha(a), beta(0.5 * a) {}
    DGTraceIntegrator(VectorCoefficient& u_, double a, double b) : u(&u_), alpha(a), beta(b) {}
    DGTraceIntegrator(Coefficient& r, VectorCoefficient& u_, double a, double b) : rho(&r), u(&u_), alpha(a), beta(b) {}
    using BilinearFormIntegrator::AssembleFaceMatrix;
    void AssembleFaceMatrix(const FiniteElement& e1, const FiniteElement& e2, FaceElementTransformations& T, DenseMatrix& m) override;
private:
    Coefficient* rho = nullptr;
    VectorCoefficient* u;
    double alpha, beta;
};
class TransposeIntegrator : public BilinearFormIntegrator {
public:
    explicit TransposeIntegrator(BilinearFormIntegrator* b, int own = 1) : b_(b), own_(own) {}
    ~TransposeIntegrator() override { if (own_) delete b_; }
    void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override { DenseMatrix t; b_->AssembleElementMatrix(el, T, t); m.Transpose(t); }
    void AssembleElementMatrix2(const FiniteElement& a, const FiniteElement& b, ElementTransformation& T, DenseMatrix& m) override { DenseMatrix t; b_->AssembleElementMatrix2(b, a, T, t); m.Transpose(t); }
    using BilinearFormIntegrator::AssembleFaceMatrix;
    void AssembleFaceMatrix(const FiniteElement& a, const FiniteElement& b, FaceElementTransformations& T, DenseMatrix& m) override { DenseMatrix t; b_->AssembleFaceMatrix(a, b, T, t); m.Transpose(t); }
private:
    BilinearFormIntegrator* b_;
    int own_;
};
class InverseIntegrator : public BilinearFormIntegrator {
public:
    explicit InverseIntegrator(BilinearFormIntegrator* b, int own = 1) : b_(b), own_(own) {}
    ~InverseIntegrator() override { if (own_) delete b_; }
    void AssembleElementMatrix(const FiniteElement& el, ElementTransformation& T, DenseMatrix& m) override { b_->AssembleElementMatrix(el, T, m); m.Invert(); }
private:
    BilinearFormIntegrator* b_;
    int own_;
};

class LinearFormIntegrator {
public:
    explicit LinearFormIntegrator(const IntegrationRule* ir = nullptr) : IntRule(ir) {}
    virtual ~LinearFormIntegrator() = default;
    virtual void AssembleRHSElementVect(const FiniteElement&, ElementTransformation&, Vector&) { MFEM_ABORT("AssembleRHSElementVect not implemented"); }
    virtual void AssembleRHSElementVect(const FiniteElement&, FaceElementTransformations&, Vector&) { MFEM_ABORT("AssembleRHSElementVect (face) not implemented"); }
    virtual void AssembleRHSElementVect(const FiniteElement&, const FiniteElement&, FaceElementTransformations&, Vector&) { MFEM_ABORT("AssembleRHSElementVect (two elements) not implemented"); }
    void SetIntRule(const IntegrationRule* ir) { IntRule = ir; }
    const IntegrationRule* GetIntRule() const { return IntRule; }
protected:
    const IntegrationRule* IntRule;
};
class DomainLFIntegrator : public LinearFormIntegrator {
public:
    DomainLFIntegrator(Coefficient& q, int a = 2, int b = 0) : Q(q), oa(a), ob(b) {}
    using LinearFormIntegrator::AssembleRHSElementVect;
    void AssembleRHSElementVect(const FiniteElement& el, ElementTransformation& T, Vector& v) override;
private:
    Coefficient& Q; int oa, ob;
};
class BoundaryLFIntegrator : public LinearFormIntegrator {
public:
    BoundaryLFIntegrator(Coefficient& q, int a = 1, int b = 1) : Q(q), oa(a), ob(b) {}
    using LinearFormIntegrator::AssembleRHSElementVect;
    void AssembleRHSElementVect(const FiniteElement& el, ElementTransformation& T, Vector& v) override;
    void AssembleRHSElementVect(const FiniteElement& el, FaceElementTransformations& T, Vector& v) override;
private:
    Coefficient& Q; int oa, ob;
};

// ---------------------------------------------------------------- forms

class BilinearForm : public Matrix {
public:
    explicit BilinearForm(FiniteElementSpace* f) : Matrix(f->GetVSize()), fes(f) {}
    ~BilinearForm() override;
    BilinearForm(const BilinearForm&) = delete;
    int Size() const { return height; }
    void AddDomainIntegrator(BilinearFormIntegrator* b) { dom.push_back({ b, nullptr }); }
    void AddDomainIntegrator(BilinearFormIntegrator* b, Array<int>& m) { dom.push_back({ b, &m }); }
    void AddBoundaryIntegrator(BilinearFormIntegrator* b) { bdr.push_back({ b, nullptr }); }
    void AddBoundaryIntegrator(BilinearFormIntegrator* b, Array<int>& m) { bdr.push_back({ b, &m }); }
    void AddInteriorFaceIntegrator(BilinearFormIntegrator* b) { inter.push_back({ b, nullptr }); }
    /// the marker lists boundary attributes whose (interior) faces are left out
    void AddInteriorFaceIntegrator(BilinearFormIntegrator* b, Array<int>& ignore) { inter.push_back({ b, &ignore }); }
    void AddBdrFaceIntegrator(BilinearFormIntegrator* b) { bface.push_back({ b, nullptr }); }
    void AddBdrFaceIntegrator(BilinearFormIntegrator* b, Array<int>& m) { bface.push_back({ b, &m }); }
    void AddInternalBoundaryFaceIntegrator(BilinearFormIntegrator* b) { ibface.push_back({ b, nullptr }); }
    void AddInternalBoundaryFaceIntegrator(BilinearFormIntegrator* b, Array<int>& m) { ibface.push_back({ b, &m }); }
    virtual void Assemble(int skip_zeros = 1);
    void Finalize(int skip_zeros = 1) override { if (mat) mat->Finalize(skip_zeros); }
    double& Elem(int i, int j) override { return mat->Elem(i, j); }
    const double& Elem(int i, int j) const override { return mat->Elem(i, j); }
    const double& operator()(int i, int j) { return (*mat)(i, j); }
    void Mult(const Vector& x, Vector& y) const override { mat->Mult(x, y); }
    void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override { mat->AddMult(x, y, a); }
    const SparseMatrix& SpMat() const { MFEM_VERIFY(mat, "mat is NULL and can't be dereferenced"); return *mat; }
    SparseMatrix& SpMat() { MFEM_VERIFY(mat, "mat is NULL and can't be dereferenced"); return *mat; }
    SparseMatrix* LoseMat() { auto* t = mat; mat = nullptr; return t; }
    bool HasSpMat() const { return mat; }
    FiniteElementSpace* FESpace() { return fes; }
    const FiniteElementSpace* FESpace() const { return fes; }
    void Update(FiniteElementSpace* = nullptr) { delete mat; mat = nullptr; }
    BilinearForm& operator=(double a) { if (mat) *mat = a; return *this; }
protected:
    struct Integ { BilinearFormIntegrator* b; Array<int>* m; };
    SparseMatrix* mat = nullptr;
    FiniteElementSpace* fes;
    std::vector<Integ> dom, bdr, inter, bface, ibface;
    DenseMatrix elemmat;
    Array<int> vdofs;
    virtual void AllocMat() { if (!mat) mat = new SparseMatrix(height); }
    bool active(const Array<int>* m, int attr) const { return !m || (*m)[attr - 1] != 0; }
};

class LinearForm : public Vector {
public:
    explicit LinearForm(FiniteElementSpace* f) : Vector(f->GetVSize()), fes(f) {}
    LinearForm() = default;
    ~LinearForm() override;
    LinearForm(const LinearForm&) = delete;
    FiniteElementSpace* FESpace() { return fes; }
    FiniteElementSpace* GetFES() { return fes; }
    void AddDomainIntegrator(LinearFormIntegrator* l) { dom.push_back({ l, nullptr }); }
    void AddDomainIntegrator(LinearFormIntegrator* l, Array<int>& m) { dom.push_back({ l, &m }); }
    void AddBoundaryIntegrator(LinearFormIntegrator* l) { bdr.push_back({ l, nullptr }); }
    void AddBoundaryIntegrator(LinearFormIntegrator* l, Array<int>& m) { bdr.push_back({ l, &m }); }
    void AddBdrFaceIntegrator(LinearFormIntegrator* l) { bface.push_back({ l, nullptr }); }
    void AddBdrFaceIntegrator(LinearFormIntegrator* l, Array<int>& m) { bface.push_back({ l, &m }); }
    void AddInteriorFaceIntegrator(LinearFormIntegrator* l) { inter.push_back({ l, nullptr }); }
    void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator* l) { ibface.push_back({ l, nullptr }); }
    void AddInternalBoundaryFaceIntegrator(LinearFormIntegrator* l, Array<int>& m) { ibface.push_back({ l, &m }); }
    virtual void Assemble();
    LinearForm& operator=(double v) { Vector::operator=(v); return *this; }
    LinearForm& operator=(const Vector& v) { Vector::operator=(v); return *this; }
    double operator()(const GridFunction& g) const { return (*this) * (const Vector&)g; }
    using Vector::operator();
protected:
    struct Integ { LinearFormIntegrator* l; Array<int>* m; };
    FiniteElementSpace* fes = nullptr;
    std::vector<Integ> dom, bdr, bface, inter, ibface;
    bool active(const Array<int>* m, int attr) const { return !m || (*m)[attr - 1] != 0; }
};

// ---------------------------------------------------------------- parallel classes

/// The part of a serial mesh that belongs to this rank.
class ParMesh : public Mesh {
public:
    struct SharedFace { int lface; int nbrRank; int nbrElem; };  // nbrElem indexes faceNbr
    struct NbrElem { int globalElem; int rank; int localElem; };
    ParMesh() = default;
    ParMesh(MPI_Comm c, Mesh& m, const int* partitioning = nullptr, int method = 1);
    ParMesh(const ParMesh& m, bool copy_nodes = true);
    ParMesh(ParMesh&& m) : Mesh(std::move(m)) { moveFrom(m); }
    ParMesh& operator=(ParMesh&& m) { Mesh::operator=(std::move(m)); moveFrom(m); return *this; }
    ParMesh& operator=(const ParMesh& m) { if (this != &m) { ParMesh t(m); *this = std::move(t); } return *this; }
    MPI_Comm GetComm() const { return comm_; }
    int GetNRanks() const { return nranks_; }
    int GetMyRank() const { return rank_; }
    void SetAttributes() override;
    void SetCurvature(int order, bool discont = false, int space_dim = -1, int ordering = 1) override;
    void ExchangeFaceNbrData() {}
    void ExchangeFaceNbrNodes() {}
    int GetNSharedFaces() const { return (int)shared_.size(); }
    int GetSharedFace(int sf) const { return shared_.at(sf).lface; }
    int GetNFaceNeighbors() const;
    int GetNFaceNeighborElements() const { return (int)nbr_.size(); }
    FaceElementTransformations* GetSharedFaceTransformations(int sf, bool = true);
    FaceElementTransformations* GetFaceElementTransformations(int f, int mask = 31) override { return Mesh::GetFaceElementTransformations(f, mask); }
    long long GetGlobalNE() const override;
    long long GetGlobalElementNum(int i) const { return gid_.at(i); }
    int FindPoints(DenseMatrix& pts, Array<int>& ids, Array<IntegrationPoint>& ips, bool warn = true, InverseElementTransformation* t = nullptr) override;
    void ParPrint(std::ostream& o) const { Print(o); }
    void PrintAsOne(std::ostream& o = std::cout) const { Print(o); }
    void PrintAsSerial(std::ostream& o = std::cout) const { Print(o); }
    Mesh GetSerialMesh(int) const { return Mesh(*this); }
    std::vector<SharedFace> shared_;
    std::vector<NbrElem> nbr_;
    std::vector<int> gid_;
    std::shared_ptr<Mesh> global_;          // the serial mesh, kept when there is more than one rank
    std::shared_ptr<std::vector<int>> part_;
protected:
    MPI_Comm comm_ = MPI_COMM_WORLD;
    int rank_ = 0, nranks_ = 1;
    void moveFrom(ParMesh& m);
    void copyFrom(const ParMesh& m);
};

class ParFiniteElementSpace : public FiniteElementSpace {
public:
    int num_face_nbr_dofs = 0;
    ParFiniteElementSpace() = default;
    ParFiniteElementSpace(ParMesh* m, const FiniteElementCollection* f, int vdim = 1, int ord = Ordering::byNODES) : FiniteElementSpace(m, f, vdim, ord), pmesh(m) {}
    ParFiniteElementSpace(const ParFiniteElementSpace& o, ParMesh* m = nullptr, const FiniteElementCollection* f = nullptr)
        : FiniteElementSpace(o, m, f), num_face_nbr_dofs(m ? 0 : o.num_face_nbr_dofs), pmesh(m ? m : o.pmesh), nbrOffset(m ? std::vector<int>() : o.nbrOffset) {}
    ParFiniteElementSpace(ParFiniteElementSpace&&) = default;
    ParFiniteElementSpace& operator=(const ParFiniteElementSpace&) = default;
    ParFiniteElementSpace& operator=(ParFiniteElementSpace&&) = default;
    ParMesh* GetParMesh() const { return pmesh; }
    MPI_Comm GetComm() const { return pmesh->GetComm(); }
    int GetMyRank() const { return pmesh->GetMyRank(); }
    int GetNRanks() const { return pmesh->GetNRanks(); }
    void ExchangeFaceNbrData();
    int GetFaceNbrVSize() const { return num_face_nbr_dofs * vdim; }
    const FiniteElement* GetFaceNbrFE(int i) const;
    void GetFaceNbrElementVDofs(int i, Array<int>& d) const;
    int TrueVSize() const { return GetVSize(); }
    long long GlobalVSize() const;
    long long GlobalTrueVSize() const override { return GlobalVSize(); }
    long long GetMyDofOffset() const;
    long long GetMyTDofOffset() const { return GetMyDofOffset(); }
    long long GetGlobalTDofNumber(int l) const { return GetMyDofOffset() + l; }
private:
    ParMesh* pmesh = nullptr;
    std::vector<int> nbrOffset;
};

class ParGridFunction : public GridFunction {
public:
    ParGridFunction() = default;
    explicit ParGridFunction(ParFiniteElementSpace* f) : GridFunction(f), pfes(f) {}
    ParGridFunction(ParFiniteElementSpace* f, double* d) : GridFunction(f, d), pfes(f) {}
    ParGridFunction(ParFiniteElementSpace* f, Vector& base, int off = 0) : GridFunction(f, base, off), pfes(f) {}
    ParGridFunction(ParFiniteElementSpace* f, GridFunction* g) : GridFunction(f, g->GetData()), pfes(f) {}
    ParGridFunction(ParMesh* m, std::istream& in) : GridFunction(m, in) {}
    ParGridFunction(const ParGridFunction& o) : GridFunction(o), pfes(o.pfes), nbr(o.nbr) {}
    ParGridFunction(ParGridFunction&&) = default;
    ParGridFunction& operator=(const ParGridFunction& o) { GridFunction::operator=((const Vector&)o); return *this; }
    ParGridFunction& operator=(double v) { GridFunction::operator=(v); return *this; }
    ParGridFunction& operator=(const Vector& v) { GridFunction::operator=(v); return *this; }
    ParFiniteElementSpace* ParFESpace() const { return pfes; }
    void SetSpace(FiniteElementSpace* f) override { GridFunction::SetSpace(f); pfes = dynamic_cast<ParFiniteElementSpace*>(f); MFEM_VERIFY(pfes, "not a ParFiniteElementSpace"); }
    void SetSpace(ParFiniteElementSpace* f) { GridFunction::SetSpace(f); pfes = f; }
    using GridFunction::MakeRef;
    void MakeRef(ParFiniteElementSpace* f, double* v) { GridFunction::MakeRef(f, v); pfes = f; }
    void MakeRef(ParFiniteElementSpace* f, Vector& v, int off) { GridFunction::MakeRef((FiniteElementSpace*)f, v, off); pfes = f; }
    void ExchangeFaceNbrData();
    Vector& FaceNbrData() { return nbr; }
    const Vector& FaceNbrData() const { return nbr; }
    void SaveAsOne(std::ostream& o) const { Save(o); }
    void SaveAsSerial(std::ostream& o, int = 16, int = 0) const { Save(o); }
    double ComputeL2Error(Coefficient& c, const IntegrationRule* irs[] = nullptr, const Array<int>* e = nullptr) const override;
    double ComputeL2Error(VectorCoefficient& c, const IntegrationRule* irs[] = nullptr, const Array<int>* e = nullptr) const override { return GridFunction::ComputeL2Error(c, irs, e); }
private:
    ParFiniteElementSpace* pfes = nullptr;
    Vector nbr;
};

class ParBilinearForm : public BilinearForm {
public:
    explicit ParBilinearForm(ParFiniteElementSpace* f) : BilinearForm(f), pfes(f) {}
    void KeepNbrBlock(bool k = true) { keep = k; }
    void Assemble(int skip_zeros = 1) override;
    ParFiniteElementSpace* ParFESpace() const { return pfes; }
protected:
    ParFiniteElementSpace* pfes;
    bool keep = false;
    void AllocMat() override;
};
class ParLinearForm : public LinearForm {
public:
    explicit ParLinearForm(ParFiniteElementSpace* f) : LinearForm(f), pfes(f) {}
    ParLinearForm& operator=(double v) { Vector::operator=(v); return *this; }
    ParFiniteElementSpace* ParFESpace() const { return pfes; }
protected:
    ParFiniteElementSpace* pfes;
};

// ---------------------------------------------------------------- sub-meshes

class TransferMap {
public:
    TransferMap(const GridFunction& src, const GridFunction& dst);
    TransferMap(const FiniteElementSpace& src, const FiniteElementSpace& dst);
    void Transfer(const GridFunction& src, GridFunction& dst) const;
private:
    enum Kind { ParentToSub, SubToParent, SubToSub } kind_;
    Array<int> map1_, map2_;
    int parentSize_ = 0;
    void init(const FiniteElementSpace& s, const FiniteElementSpace& d);
};
class SubMeshBase_ {
public:
    enum From { Domain, Boundary };
    virtual ~SubMeshBase_() = default;
    From GetFrom() const { return from_; }
    const Array<int>& GetParentElementIDMap() const { return parent_element_ids_; }
    const Array<int>& GetParentVertexIDMap() const { return parent_vertex_ids_; }
    const Array<int>& GetParentFaceIDMap() const { return parent_face_ids_; }
    int GetSubMeshElementFromParent(int p) const { return parent_element_ids_.Find(p); }
    const Mesh* ParentMesh_() const { return parentBase_; }
protected:
    From from_ = Domain;
    Array<int> parent_element_ids_, parent_vertex_ids_, parent_face_ids_;
    const Mesh* parentBase_ = nullptr;
    void create(const Mesh& parent, Mesh& self, const Array<int>& attrs, From from);
};
class SubMesh : public Mesh, public SubMeshBase_ {
public:
    using From = SubMeshBase_::From;
    static const int GENERATED_ATTRIBUTE = 900;
    static SubMesh CreateFromDomain(const Mesh& p, const Array<int>& a) { SubMesh s; s.create(p, s, a, Domain); return s; }
    static SubMesh CreateFromBoundary(const Mesh& p, const Array<int>& a) { SubMesh s; s.create(p, s, a, Boundary); return s; }
    const Mesh* GetParent() const { return parentBase_; }
    static void Transfer(const GridFunction& s, GridFunction& d) { TransferMap(s, d).Transfer(s, d); }
    static TransferMap CreateTransferMap(const GridFunction& s, const GridFunction& d) { return TransferMap(s, d); }
    static bool IsSubMesh(const Mesh* m) { return dynamic_cast<const SubMeshBase_*>(m); }
    SubMesh(SubMesh&&) = default;
    SubMesh(const SubMesh&) = default;
    SubMesh& operator=(SubMesh&&) = default;
private:
    SubMesh() = default;
};
class ParTransferMap : public TransferMap { public: using TransferMap::TransferMap; };
class ParSubMesh : public ParMesh, public SubMeshBase_ {
public:
    using From = SubMeshBase_::From;
    static const int GENERATED_ATTRIBUTE = 900;
    static ParSubMesh CreateFromDomain(const ParMesh& p, const Array<int>& a);
    static ParSubMesh CreateFromBoundary(const ParMesh& p, const Array<int>& a);
    const ParMesh* GetParent() const { return dynamic_cast<const ParMesh*>(parentBase_); }
    static void Transfer(const ParGridFunction& s, ParGridFunction& d) { TransferMap(s, d).Transfer(s, d); }
    static ParTransferMap CreateTransferMap(const ParGridFunction& s, const ParGridFunction& d) { return ParTransferMap(s, d); }
    static bool IsParSubMesh(const ParMesh* m) { return dynamic_cast<const ParSubMesh*>(m); }
    ParSubMesh(ParSubMesh&&) = default;
    ParSubMesh(const ParSubMesh&) = default;
    ParSubMesh& operator=(ParSubMesh&&) = default;
private:
    ParSubMesh() = default;
};
namespace SubMeshUtils {
void BuildVdofToVdofMap(const FiniteElementSpace& subfes, const FiniteElementSpace& parentfes, const SubMesh::From from,
                        const Array<int>& parent_element_ids, Array<int>& map);
Array<int> BuildFaceMap(const Mesh& parent, const Mesh& sub, const Array<int>& parent_element_ids);
}

// ---------------------------------------------------------------- output

enum class VTKFormat { ASCII, BINARY, BINARY32 };
class DataCollection {
public:
    DataCollection(const std::string& n, Mesh* m = nullptr) : name(n), mesh(m) {}
    virtual ~DataCollection() = default;
    virtual void RegisterField(const std::string& n, GridFunction* g) { fields[n] = g; }
    virtual void DeregisterField(const std::string& n) { fields.erase(n); }
    GridFunction* GetField(const std::string& n) { return fields.count(n) ? fields[n] : nullptr; }
    void SetCycle(int c) { cycle = c; }
    void SetTime(double t) { time = t; }
    void SetTimeStep(double) {}
    int GetCycle() const { return cycle; }
    double GetTime() const { return time; }
    void SetPrecision(int) {}
    void SetCompression(bool) {}
    virtual void SetMesh(Mesh* m) { mesh = m; }
    Mesh* GetMesh() { return mesh; }
    void SetPrefixPath(const std::string& p) { prefix = p; if (!prefix.empty() && prefix.back() != '/') prefix += '/'; }
    const std::string& GetPrefixPath() const { return prefix; }
    const std::string& GetCollectionName() const { return name; }
    /// a folder for the cycle with a file for each field, as the serial format has it
    virtual void Save();
    /// every save of every collection in this thread, in order
    struct Record { std::string name, prefix; int cycle; double time; std::map<std::string, std::vector<double>> data; };
    static std::vector<Record>& Log();
protected:
    std::string name, prefix;
    Mesh* mesh;
    int cycle = -1;
    double time = 0;
    std::map<std::string, GridFunction*> fields;
    void record();
};
class VisItDataCollection : public DataCollection { public: using DataCollection::DataCollection; void Save() override { record(); } };
class ParaViewDataCollection : public DataCollection {
public:
    using DataCollection::DataCollection;
    void Save() override { record(); }
    void SetLevelsOfDetail(int) {}
    void SetDataFormat(VTKFormat) {}
    void SetHighOrderOutput(bool) {}
    void SetCompressionLevel(int) {}
    void UseRestartMode(bool) {}
};
class GSLIB_ {};

class OptionsParser {
public:
    OptionsParser(int c, char** v) : argc(c), argv(v) {}
    void AddOption(bool* var, const char*, const char*, const char*, const char*, const char*, bool = false) { (void)var; }
    void AddOption(int* v, const char* s, const char* l, const char*, bool = false) { if (auto* a = find(s, l)) *v = std::atoi(a); }
    void AddOption(double* v, const char* s, const char* l, const char*, bool = false) { if (auto* a = find(s, l)) *v = std::atof(a); }
    void AddOption(const char** v, const char* s, const char* l, const char*, bool = false) { if (auto* a = find(s, l)) *v = a; }
    void Parse() {}
    void ParseCheck(std::ostream& = std::cout) {}
    bool Good() const { return true; }
    bool Help() const { return false; }
    void PrintUsage(std::ostream&) const {}
    void PrintOptions(std::ostream&) const {}
private:
    int argc; char** argv;
    const char* find(const char* s, const char* l) const
    { for (int i = 1; i + 1 < argc; i++) if (!std::strcmp(argv[i], s) || !std::strcmp(argv[i], l)) return argv[i + 1]; return nullptr; }
};

} // namespace mfem
