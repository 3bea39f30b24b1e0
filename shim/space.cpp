#include <filesystem>
#include <fstream>
#include "mfem.hpp"
#include <numeric>
#include "spmd.hpp"

namespace mfem {

// ---------------------------------------------------------------- spaces

void FiniteElementSpace::build(Mesh* m, const FiniteElementCollection* f, int vd, int ord)
{
    mesh = m; fec = f; vdim = vd; ordering = ord; ndofs = 0; nvdofs = 0;
    if (!m || !f) return;
    const int ne = m->GetNE(), p = f->GetOrder();
    geoms.resize(ne);
    for (int i = 0; i < ne; i++) geoms[i] = m->GetElementGeometry(i);
    std::vector<std::vector<int>> rows(ne);
    if (f->GetContType() == FiniteElementCollection::DISCONTINUOUS) {
        for (int i = 0; i < ne; i++) for (int k = 0; k < GetFE(i)->GetDof(); k++) rows[i].push_back(ndofs++);
        e2d.MakeRows(rows);
        return;
    }
    // continuous: vertices, then edges, faces and interiors
    nvdofs = m->GetNV();
    const int edgeOff = nvdofs, ned = m->Dimension() > 1 ? m->GetNEdges() : 0;
    int next = edgeOff + ned * (p - 1);
    std::vector<int> faceOff;
    if (m->Dimension() == 3)
        for (int k = 0; k < m->GetNumFaces(); k++) {
            faceOff.push_back(next);
            next += m->GetFaceGeometry(k) == Geometry::TRIANGLE ? (p - 1) * (p - 2) / 2 : (p - 1) * (p - 1);
        }
    std::map<std::pair<int, std::vector<std::pair<int, long>>>, int> faceDof;
    std::map<int, int> faceCount;
    for (int i = 0; i < ne; i++) {
        auto* fe = dynamic_cast<const NodalFiniteElement*>(GetFE(i));
        const Element& el = *m->GetElement(i);
        for (int k = 0; k < fe->GetDof(); k++) {
            auto w = fe->VertexWeights(k);
            std::vector<int> l;
            for (size_t q = 0; q < w.size(); q++) if (w[q] > 1e-10) l.push_back((int)q);
            if (l.size() == 1) { rows[i].push_back(el.GetVertices()[l[0]]); continue; }
            if (l.size() == w.size()) { rows[i].push_back(next++); continue; }
            if (l.size() == 2) {
                int e = -1, a = el.GetVertices()[l[0]], b = el.GetVertices()[l[1]];
                for (int q = 0; q < el.GetNEdges(); q++) {
                    auto* ev = el.GetEdgeVertices(q);
                    if ((ev[0] == l[0] && ev[1] == l[1]) || (ev[0] == l[1] && ev[1] == l[0])) e = m->el_to_edge[i][q];
                }
                const double s = a < b ? w[l[1]] : w[l[0]];
                // rank of this node along the edge, from the lower to the higher vertex
                int r = 0;
                for (int q = 0; q < fe->GetDof(); q++) {
                    if (q == k) continue;
                    auto u = fe->VertexWeights(q);
                    if (std::abs(u[l[0]] + u[l[1]] - 1) > 1e-10 || u[l[0]] < 1e-10 || u[l[1]] < 1e-10) continue;
                    if ((a < b ? u[l[1]] : u[l[0]]) < s) r++;
                }
                rows[i].push_back(edgeOff + e * (p - 1) + r);
                continue;
            }
            int face = -1;
            for (size_t lf = 0; lf < m->el_to_face[i].size(); lf++) {
                auto v = LocalFaceVertices_(el.GetGeometryType(), (int)lf);
                bool all = true;
                for (int q : l) all &= std::find(v.begin(), v.end(), q) != v.end();
                if (all) face = m->el_to_face[i][lf];
            }
            std::vector<std::pair<int, long>> key;
            for (int q : l) key.push_back({ el.GetVertices()[q], std::lround(w[q] * 1e9) });
            std::sort(key.begin(), key.end());
            auto it = faceDof.find({ face, key });
            if (it == faceDof.end()) it = faceDof.emplace(std::make_pair(face, key), faceOff.at(face) + faceCount[face]++).first;
            rows[i].push_back(it->second);
        }
    }
    ndofs = next;
    e2d.MakeRows(rows);
}
DofTransformation* FiniteElementSpace::GetElementDofs(int i, Array<int>& d) const { MFEM_VERIFY(i >= 0 && i < e2d.Size(), "element index " << i << " out of range"); e2d.GetRow(i, d); return nullptr; }
void FiniteElementSpace::GetBdrElementDofs(int i, Array<int>& d) const
{
    d.SetSize(0);
    if (IsDGSpace()) return;
    const Element& b = *mesh->GetBdrElement(i);
    const int el = mesh->faces_info[mesh->be_to_face[i]].Elem1No;
    auto* fe = dynamic_cast<const NodalFiniteElement*>(GetFE(el));
    Array<int> ed; GetElementDofs(el, ed);
    for (int k = 0; k < fe->GetDof(); k++) {
        auto w = fe->VertexWeights(k);
        double s = 0;
        for (size_t q = 0; q < w.size(); q++) for (int v = 0; v < b.GetNVertices(); v++) if (b.GetVertices()[v] == mesh->GetElement(el)->GetVertices()[q]) s += w[q];
        if (std::abs(s - 1) < 1e-10) d.Append(ed[k]);
    }
}
void FiniteElementSpace::DofsToVDofs(Array<int>& d, int n) const
{
    const int k = d.Size();
    if (vdim == 1) return;
    Array<int> o(d);
    d.SetSize(k * vdim);
    for (int c = 0; c < vdim; c++) for (int i = 0; i < k; i++) d[i + c * k] = DofToVDof(o[i], c, n);
}
int FiniteElementSpace::GetElementForDof(int dof) const
{
    for (int i = 0; i < e2d.Size(); i++) { auto* r = e2d.GetRow(i); for (int k = 0; k < e2d.RowSize(i); k++) if (r[k] == dof) return i; }
    return -1;
}
void FiniteElementSpace::GetEssentialVDofs(const Array<int>& m, Array<int>& v, int comp) const
{
    v.SetSize(GetVSize());
    v = 0;
    for (int i = 0; i < mesh->GetNBE(); i++) {
        if (!m[mesh->GetBdrAttribute(i) - 1]) continue;
        Array<int> d; GetBdrElementDofs(i, d);
        for (int k = 0; k < d.Size(); k++) for (int c = 0; c < vdim; c++) if (comp < 0 || comp == c) v[DofToVDof(d[k], c)] = -1;
    }
}
void FiniteElementSpace::GetEssentialTrueDofs(const Array<int>& m, Array<int>& l, int comp) const
{
    Array<int> v; GetEssentialVDofs(m, v, comp);
    l.SetSize(0);
    for (int i = 0; i < v.Size(); i++) if (v[i]) l.Append(i);
}
void FiniteElementSpace::Save(std::ostream& o) const
{ o << "FiniteElementSpace\nFiniteElementCollection: " << fec->Name() << "\nVDim: " << vdim << "\nOrdering: " << ordering << "\n"; }
FiniteElementCollection* FiniteElementSpace::Load(Mesh* m, std::istream& in)
{
    std::string t, name;
    int vd = 1, od = 0;
    in >> t;
    MFEM_VERIFY(t == "FiniteElementSpace", "input stream is not a FiniteElementSpace");
    in >> t >> name >> t >> vd >> t >> od;
    auto* c = FiniteElementCollection::New(name.c_str());
    build(m, c, vd, od);
    return c;
}

// ---------------------------------------------------------------- grid functions

GridFunction::GridFunction(Mesh* m, std::istream& in)
{
    fes = new FiniteElementSpace;
    auto* c = fes->Load(m, in);
    MakeOwner(c);
    SetSize(fes->GetVSize());
    for (int i = 0; i < Size(); i++) MFEM_VERIFY(in >> (*this)(i), "grid function ends early");
}
static double valueOf(const GridFunction& g, int e, const IntegrationPoint& ip, int comp)
{
    auto* f = g.FESpace();
    auto* fe = f->GetFE(e);
    Vector s(fe->GetDof());
    fe->CalcShape(ip, s);
    Array<int> d; f->GetElementDofs(e, d);
    double v = 0;
    for (int k = 0; k < d.Size(); k++) v += s(k) * g(f->DofToVDof(d[k], comp));
    return v;
}
double GridFunction::GetValue(int i, const IntegrationPoint& ip, int vd) const { return valueOf(*this, i, ip, vd - 1); }
double GridFunction::GetValue(ElementTransformation& T, const IntegrationPoint& ip, int comp, Vector*) const
{
    const int c = comp > 0 ? comp - 1 : 0;
    if (T.ElementType == ElementTransformation::ELEMENT) return valueOf(*this, T.ElementNo, ip, c);
    int f = T.ElementNo;
    auto* m = fes->GetMesh();
    if (T.ElementType == ElementTransformation::BDR_ELEMENT || T.ElementType == ElementTransformation::BDR_FACE) f = m->GetBdrElementFaceIndex(T.ElementNo);
    auto* F = m->GetFaceElementTransformations(f);
    IntegrationPoint e;
    F->Loc1.Transform(ip, e);
    return valueOf(*this, F->Elem1No, e, c);
}
void GridFunction::GetVectorValue(int i, const IntegrationPoint& ip, Vector& v) const
{ v.SetSize(fes->GetVDim()); for (int c = 0; c < fes->GetVDim(); c++) v(c) = valueOf(*this, i, ip, c); }
void GridFunction::GetNodalValues(int i, Array<double>& n, int vd) const
{
    auto& v = *Geometries.GetVertices(fes->GetMesh()->GetElementGeometry(i));
    n.SetSize(v.GetNPoints());
    for (int k = 0; k < v.GetNPoints(); k++) n[k] = valueOf(*this, i, v.IntPoint(k), vd - 1);
}
void GridFunction::GetNodalValues(Vector& n, int vd) const
{
    auto* m = fes->GetMesh();
    n.SetSize(m->GetNV());
    n = 0.0;
    std::vector<int> cnt(m->GetNV(), 0);
    for (int i = 0; i < m->GetNE(); i++) {
        Array<double> v; GetNodalValues(i, v, vd);
        for (int k = 0; k < v.Size(); k++) { int q = m->GetElement(i)->GetVertices()[k]; n(q) += v[k]; cnt[q]++; }
    }
    for (int q = 0; q < m->GetNV(); q++) if (cnt[q]) n(q) /= cnt[q];
}
void GridFunction::GetVectorFieldNodalValues(Vector& v, int comp) const { GetNodalValues(v, comp); }
void GridFunction::GetGradient(ElementTransformation& T, Vector& g) const
{
    auto* fe = fes->GetFE(T.ElementNo);
    DenseMatrix ds(fe->GetDof(), fe->GetDim());
    fe->CalcPhysDShape(T, ds);
    Array<int> d; fes->GetElementDofs(T.ElementNo, d);
    g.SetSize(ds.Width());
    g = 0.0;
    for (int k = 0; k < d.Size(); k++) for (int c = 0; c < ds.Width(); c++) g(c) += ds(k, c) * (*this)(d[k]);
}
void GridFunction::ProjectCoefficient(Coefficient& c)
{
    auto* m = fes->GetMesh();
    for (int i = 0; i < m->GetNE(); i++) {
        auto* T = m->GetElementTransformation(i);
        auto& n = fes->GetFE(i)->GetNodes();
        Array<int> d; fes->GetElementDofs(i, d);
        for (int k = 0; k < d.Size(); k++) { T->SetIntPoint(&n.IntPoint(k)); (*this)(d[k]) = c.Eval(*T, n.IntPoint(k)); }
    }
}
void GridFunction::ProjectCoefficient(VectorCoefficient& c)
{
    auto* m = fes->GetMesh();
    Vector v;
    for (int i = 0; i < m->GetNE(); i++) {
        auto* T = m->GetElementTransformation(i);
        auto& n = fes->GetFE(i)->GetNodes();
        Array<int> d; fes->GetElementDofs(i, d);
        for (int k = 0; k < d.Size(); k++) {
            T->SetIntPoint(&n.IntPoint(k));
            c.Eval(v, *T, n.IntPoint(k));
            for (int q = 0; q < fes->GetVDim(); q++) (*this)(fes->DofToVDof(d[k], q)) = v(q);
        }
    }
}
void GridFunction::ProjectCoefficient(Coefficient* c[])
{
    auto* m = fes->GetMesh();
    for (int i = 0; i < m->GetNE(); i++) {
        auto* T = m->GetElementTransformation(i);
        auto& n = fes->GetFE(i)->GetNodes();
        Array<int> d; fes->GetElementDofs(i, d);
        for (int k = 0; k < d.Size(); k++) { T->SetIntPoint(&n.IntPoint(k)); for (int q = 0; q < fes->GetVDim(); q++) (*this)(fes->DofToVDof(d[k], q)) = c[q]->Eval(*T, n.IntPoint(k)); }
    }
}
void GridFunction::ProjectBdrCoefficient(Coefficient&, const Array<int>&) { MFEM_ABORT("ProjectBdrCoefficient not supported"); }
void GridFunction::ProjectGridFunction(const GridFunction& s)
{
    for (int i = 0; i < fes->GetNE(); i++) {
        auto& n = fes->GetFE(i)->GetNodes();
        Array<int> d; fes->GetElementDofs(i, d);
        for (int k = 0; k < d.Size(); k++) for (int c = 0; c < fes->GetVDim(); c++) (*this)(fes->DofToVDof(d[k], c)) = valueOf(s, i, n.IntPoint(k), c);
    }
}
static double l2sq(const GridFunction& g, Coefficient& c, const IntegrationRule* irs[])
{
    auto* f = g.FESpace();
    auto* m = f->GetMesh();
    double e = 0;
    for (int i = 0; i < m->GetNE(); i++) {
        auto* T = m->GetElementTransformation(i);
        auto& ir = irs ? *irs[m->GetElementGeometry(i)] : IntRules.Get(m->GetElementGeometry(i), 2 * f->GetFE(i)->GetOrder() + 3);
        for (int k = 0; k < ir.GetNPoints(); k++) {
            T->SetIntPoint(&ir.IntPoint(k));
            double d = valueOf(g, i, ir.IntPoint(k), 0) - c.Eval(*T, ir.IntPoint(k));
            e += ir.IntPoint(k).weight * T->Weight() * d * d;
        }
    }
    return e;
}
double GridFunction::ComputeL2Error(Coefficient& c, const IntegrationRule* irs[], const Array<int>*) const { return std::sqrt(l2sq(*this, c, irs)); }
double GridFunction::ComputeL2Error(VectorCoefficient& c, const IntegrationRule* irs[], const Array<int>*) const
{
    auto* m = fes->GetMesh();
    double e = 0;
    Vector v, u;
    for (int i = 0; i < m->GetNE(); i++) {
        auto* T = m->GetElementTransformation(i);
        auto& ir = irs ? *irs[m->GetElementGeometry(i)] : IntRules.Get(m->GetElementGeometry(i), 2 * fes->GetFE(i)->GetOrder() + 3);
        for (int k = 0; k < ir.GetNPoints(); k++) {
            T->SetIntPoint(&ir.IntPoint(k));
            c.Eval(v, *T, ir.IntPoint(k));
            GetVectorValue(i, ir.IntPoint(k), u);
            u -= v;
            e += ir.IntPoint(k).weight * T->Weight() * (u * u);
        }
    }
    return std::sqrt(e);
}
double GridFunction::ComputeMaxError(Coefficient& c, const IntegrationRule* irs[]) const
{
    auto* m = fes->GetMesh();
    double e = 0;
    for (int i = 0; i < m->GetNE(); i++) {
        auto* T = m->GetElementTransformation(i);
        auto& ir = irs ? *irs[m->GetElementGeometry(i)] : IntRules.Get(m->GetElementGeometry(i), 2 * fes->GetFE(i)->GetOrder() + 3);
        for (int k = 0; k < ir.GetNPoints(); k++) { T->SetIntPoint(&ir.IntPoint(k)); e = std::max(e, std::abs(valueOf(*this, i, ir.IntPoint(k), 0) - c.Eval(*T, ir.IntPoint(k)))); }
    }
    return e;
}
void GridFunction::Save(std::ostream& o) const
{
    fes->Save(o);
    o << '\n';
    if (fes->GetOrdering() == Ordering::byNODES) Vector::Print(o, 1); else Vector::Print(o, fes->GetVDim());
}
double GridFunctionCoefficient::Eval(ElementTransformation& T, const IntegrationPoint& ip) { return g_->GetValue(T, ip, c_); }
VectorGridFunctionCoefficient::VectorGridFunctionCoefficient(const GridFunction* g) : VectorCoefficient(g ? g->VectorDim() : 0), g_(g) {}
void VectorGridFunctionCoefficient::Eval(Vector& V, ElementTransformation& T, const IntegrationPoint& ip) { g_->GetVectorValue(T, ip, V); }

// ---------------------------------------------------------------- forms

BilinearForm::~BilinearForm()
{
    delete mat;
    std::set<BilinearFormIntegrator*> all;
    for (auto* l : { &dom, &bdr, &inter, &bface, &ibface }) for (auto& i : *l) all.insert(i.b);
    for (auto* b : all) delete b;
}
void BilinearForm::Assemble(int skip)
{
    AllocMat();
    auto* m = fes->GetMesh();
    if (!dom.empty())
        for (int i = 0; i < m->GetNE(); i++) {
            fes->GetElementVDofs(i, vdofs);
            for (auto& t : dom) {
                if (!active(t.m, m->GetAttribute(i))) continue;
                auto* T = m->GetElementTransformation(i);
                t.b->AssembleElementMatrix(*fes->GetFE(i), *T, elemmat);
                mat->AddSubMatrix(vdofs, vdofs, elemmat, skip);
            }
        }
    if (!bdr.empty())
        for (int i = 0; i < m->GetNBE(); i++) {
            fes->GetBdrElementVDofs(i, vdofs);
            for (auto& t : bdr) {
                if (!active(t.m, m->GetBdrAttribute(i)) || !vdofs.Size()) continue;
                t.b->AssembleElementMatrix(*fes->GetBE(i), *m->GetBdrElementTransformation(i), elemmat);
                mat->AddSubMatrix(vdofs, vdofs, elemmat, skip);
            }
        }
    if (!inter.empty()) {
        auto f2b = m->GetFaceToBdrElMap();
        for (int f = 0; f < m->GetNumFaces(); f++) {
            for (auto& t : inter) {
                if (t.m && f2b[f] >= 0 && (*t.m)[m->GetBdrAttribute(f2b[f]) - 1] != 0) continue;
                auto* T = m->GetInteriorFaceTransformations(f);
                if (!T) continue;
                Array<int> v2;
                fes->GetElementVDofs(T->Elem1No, vdofs);
                fes->GetElementVDofs(T->Elem2No, v2);
                vdofs.Append(v2);
                t.b->AssembleFaceMatrix(*fes->GetFE(T->Elem1No), *fes->GetFE(T->Elem2No), *T, elemmat);
                mat->AddSubMatrix(vdofs, vdofs, elemmat, skip);
            }
        }
    }
    if (!bface.empty())
        for (int i = 0; i < m->GetNBE(); i++)
            for (auto& t : bface) {
                if (!active(t.m, m->GetBdrAttribute(i))) continue;
                auto* T = m->GetBdrFaceTransformations(i);
                if (!T) continue;
                fes->GetElementVDofs(T->Elem1No, vdofs);
                auto* fe = fes->GetFE(T->Elem1No);
                t.b->AssembleFaceMatrix(*fe, *fe, *T, elemmat);
                mat->AddSubMatrix(vdofs, vdofs, elemmat, skip);
            }
    if (!ibface.empty())
        for (int i = 0; i < m->GetNBE(); i++)
            for (auto& t : ibface) {
                if (!active(t.m, m->GetBdrAttribute(i))) continue;
                auto* T = m->GetInternalBdrFaceTransformations(i);
                if (!T) continue;
                Array<int> v2;
                fes->GetElementVDofs(T->Elem1No, vdofs);
                fes->GetElementVDofs(T->Elem2No, v2);
                vdofs.Append(v2);
                t.b->AssembleFaceMatrix(*fes->GetFE(T->Elem1No), *fes->GetFE(T->Elem2No), *T, elemmat);
                mat->AddSubMatrix(vdofs, vdofs, elemmat, skip);
            }
}
LinearForm::~LinearForm()
{
    std::set<LinearFormIntegrator*> all;
    for (auto* l : { &dom, &bdr, &inter, &bface, &ibface }) for (auto& i : *l) all.insert(i.l);
    for (auto* l : all) delete l;
}
void LinearForm::Assemble()
{
    Vector::operator=(0.0);
    auto* m = fes->GetMesh();
    Array<int> d, d2;
    Vector v;
    for (int i = 0; i < m->GetNE(); i++)
        for (auto& t : dom) {
            if (!active(t.m, m->GetAttribute(i))) continue;
            fes->GetElementVDofs(i, d);
            t.l->AssembleRHSElementVect(*fes->GetFE(i), *m->GetElementTransformation(i), v);
            AddElementVector(d, v);
        }
    for (int i = 0; i < m->GetNBE(); i++)
        for (auto& t : bdr) {
            if (!active(t.m, m->GetBdrAttribute(i))) continue;
            fes->GetBdrElementVDofs(i, d);
            if (!d.Size()) continue;
            t.l->AssembleRHSElementVect(*fes->GetBE(i), *m->GetBdrElementTransformation(i), v);
            AddElementVector(d, v);
        }
    for (int i = 0; i < m->GetNBE(); i++)
        for (auto& t : bface) {
            if (!active(t.m, m->GetBdrAttribute(i))) continue;
            auto* T = m->GetBdrFaceTransformations(i);
            if (!T) continue;
            fes->GetElementVDofs(T->Elem1No, d);
            t.l->AssembleRHSElementVect(*fes->GetFE(T->Elem1No), *T, v);
            AddElementVector(d, v);
        }
    auto two = [&](Integ& t, FaceElementTransformations* T) {
        if (!T) return;
        fes->GetElementVDofs(T->Elem1No, d);
        fes->GetElementVDofs(T->Elem2No, d2);
        d.Append(d2);
        t.l->AssembleRHSElementVect(*fes->GetFE(T->Elem1No), *fes->GetFE(T->Elem2No), *T, v);
        AddElementVector(d, v);
    };
    if (!inter.empty()) for (int f = 0; f < m->GetNumFaces(); f++) for (auto& t : inter) two(t, m->GetInteriorFaceTransformations(f));
    for (int i = 0; i < m->GetNBE(); i++) for (auto& t : ibface) if (active(t.m, m->GetBdrAttribute(i))) two(t, m->GetInternalBdrFaceTransformations(i));
}

// ---------------------------------------------------------------- parallel classes

ParMesh::ParMesh(MPI_Comm c, Mesh& m, const int* partitioning, int method) : comm_(c)
{
    MPI_Comm_rank(c, &rank_);
    MPI_Comm_size(c, &nranks_);
    if (nranks_ == 1) {
        Mesh t(m);
        Swap(t);
        gid_.resize(GetNE());
        std::iota(gid_.begin(), gid_.end(), 0);
        return;
    }
    global_ = std::make_shared<Mesh>(m);
    part_ = std::make_shared<std::vector<int>>();
    if (partitioning) part_->assign(partitioning, partitioning + m.GetNE());
    else { int* p = m.GeneratePartitioning(nranks_, method); part_->assign(p, p + m.GetNE()); delete[] p; }
    auto& G = *global_;
    auto& P = *part_;
    Dim = G.Dim; spaceDim = G.spaceDim;
    std::vector<int> l2e(G.GetNE(), -1), vmap(G.GetNV(), -1);
    std::vector<int> count(nranks_, 0);
    for (int e = 0; e < G.GetNE(); e++) {
        MFEM_VERIFY(P[e] >= 0 && P[e] < nranks_, "element " << e << " assigned to rank " << P[e]);
        l2e[e] = count[P[e]]++;
        if (P[e] != rank_) continue;
        gid_.push_back(e);
        for (int k = 0; k < G.elements[e]->GetNVertices(); k++) vmap[G.elements[e]->GetVertices()[k]] = 0;
    }
    for (int v = 0; v < G.GetNV(); v++) if (!vmap[v]) { vmap[v] = GetNV(); vertices.push_back(G.vertices[v]); }
    auto add = [&](const Element& e, std::vector<std::unique_ptr<Element>>& l) {
        auto* d = e.Duplicate();
        for (int k = 0; k < d->GetNVertices(); k++) d->GetVertices()[k] = vmap[d->GetVertices()[k]];
        l.emplace_back(d);
    };
    for (int e : gid_) add(*G.elements[e], elements);
    for (int b = 0; b < G.GetNBE(); b++) if (P[G.faces_info[G.be_to_face[b]].Elem1No] == rank_) add(*G.boundary[b], boundary);
    FinalizeTopology(false);
    // shared faces and the elements behind them
    std::map<std::pair<int, int>, int> nb;
    for (int f = 0; f < G.GetNumFaces(); f++) {
        auto& i = G.faces_info[f];
        if (i.Elem2No < 0) continue;
        if (P[i.Elem1No] == rank_ && P[i.Elem2No] != rank_) nb[{ P[i.Elem2No], i.Elem2No }] = 0;
        if (P[i.Elem2No] == rank_ && P[i.Elem1No] != rank_) nb[{ P[i.Elem1No], i.Elem1No }] = 0;
    }
    for (auto& [k, id] : nb) { id = (int)nbr_.size(); nbr_.push_back({ k.second, k.first, l2e[k.second] }); }
    for (int f = 0; f < G.GetNumFaces(); f++) {
        auto& i = G.faces_info[f];
        if (i.Elem2No < 0) continue;
        const bool first = P[i.Elem1No] == rank_;
        if (first == (P[i.Elem2No] == rank_)) continue;
        const int mine = first ? i.Elem1No : i.Elem2No, other = first ? i.Elem2No : i.Elem1No;
        const int lf = (first ? i.Elem1Inf : i.Elem2Inf) / 64;
        const int face = el_to_face[l2e[mine]][lf];
        const int id = nb.at({ P[other], other });
        shared_.push_back({ face, P[other], id });
        faces_info[face].Elem2No = -1 - id;
        faces_info[face].Elem2Inf = first ? i.Elem2Inf : 64 * (i.Elem1Inf / 64) + i.Elem2Inf % 64;
    }
    if (G.Nodes) {
        auto* gf = G.Nodes->FESpace();
        auto* fc = FiniteElementCollection::New(gf->FEColl()->Name());
        auto* lf = new FiniteElementSpace(this, fc, gf->GetVDim(), gf->GetOrdering());
        auto* n = new GridFunction(lf);
        n->MakeOwner(fc);
        Array<int> a, b;
        for (int e = 0; e < GetNE(); e++) {
            gf->GetElementVDofs(gid_[e], a); lf->GetElementVDofs(e, b);
            for (int k = 0; k < a.Size(); k++) (*n)(b[k]) = (*G.Nodes)(a[k]);
        }
        NewNodes(*n, true);
    }
    SetAttributes();
}
void ParMesh::copyFrom(const ParMesh& m) { shared_ = m.shared_; nbr_ = m.nbr_; gid_ = m.gid_; global_ = m.global_; part_ = m.part_; comm_ = m.comm_; rank_ = m.rank_; nranks_ = m.nranks_; }
void ParMesh::moveFrom(ParMesh& m) { copyFrom(m); }
ParMesh::ParMesh(const ParMesh& m, bool c) : Mesh(m, c) { copyFrom(m); }
void ParMesh::SetAttributes()
{
    Mesh::SetAttributes();
    if (nranks_ == 1) return;
    // the attribute lists are those of the whole mesh
    auto all = [](Array<int>& a) {
        std::vector<int> mine(a.begin(), a.end());
        std::set<int> s;
        spmd::exchange(&mine, [&](const std::vector<const void*>& p) { for (auto* q : p) for (int x : *(const std::vector<int>*)q) s.insert(x); });
        a.SetSize(0);
        for (int x : s) a.Append(x);
    };
    all(attributes); all(bdr_attributes);
}
void ParMesh::SetCurvature(int order, bool d, int sd, int o) { Mesh::SetCurvature(order, d, sd, o); if (global_ && global_->GetNodalOrder() != order) { global_ = std::make_shared<Mesh>(*global_); global_->SetCurvature(order, d, sd, o); } }
int ParMesh::GetNFaceNeighbors() const { std::set<int> r; for (auto& n : nbr_) r.insert(n.rank); return (int)r.size(); }
long long ParMesh::GetGlobalNE() const { long long l = GetNE(), g = l; if (nranks_ > 1) MPI_Allreduce(&l, &g, 1, MPI_LONG_LONG, MPI_SUM, comm_); return g; }
FaceElementTransformations* ParMesh::GetSharedFaceTransformations(int sf, bool)
{
    auto& s = shared_.at(sf);
    auto& T = *Mesh::GetFaceElementTransformations(s.lface);
    const int e2 = nbr_[s.nbrElem].globalElem, e1 = gid_[T.Elem1No];
    auto& G = *global_;
    G.GetElementTransformation(e2, &Transformation2);
    Transformation2.ElementNo = GetNE() + s.nbrElem;
    T.Elem2No = GetNE() + s.nbrElem;
    T.Elem2 = &Transformation2;
    // local facet of the neighbour, its vertices ordered as this rank's facet
    const int lf1 = faces_info[s.lface].Elem1Inf / 64, lf2 = faces_info[s.lface].Elem2Inf / 64, ori = faces_info[s.lface].Elem2Inf % 64;
    auto l1 = LocalFaceVertices_(G.elements[e1]->GetGeometryType(), lf1), l2 = LocalFaceVertices_(G.elements[e2]->GetGeometryType(), lf2);
    std::vector<int> o(l2);
    if (l2.size() == 2) { if (ori & 1) std::swap(o[0], o[1]); }
    else if (l2.size() > 2)
        for (size_t k = 0; k < l1.size(); k++) for (int q : l2) if (G.elements[e2]->GetVertices()[q] == G.elements[e1]->GetVertices()[l1[k]]) o[k] = q;
    G.localFaceMap(e2, 0, o, T.Loc2);
    T.SetConfigurationMask(31);
    return &T;
}
int ParMesh::FindPoints(DenseMatrix& pts, Array<int>& ids, Array<IntegrationPoint>& ips, bool w, InverseElementTransformation* t)
{
    int n = Mesh::FindPoints(pts, ids, ips, w, t);
    if (nranks_ == 1) return n;
    // a point belongs to the lowest rank that finds it; -2 elsewhere
    std::vector<int> mine(ids.begin(), ids.end()), owner(mine.size(), -1);
    spmd::exchange(&mine, [&](const std::vector<const void*>& p) {
        for (size_t k = 0; k < mine.size(); k++) for (size_t r = 0; r < p.size(); r++)
            if (owner[k] < 0 && (*(const std::vector<int>*)p[r])[k] >= 0) owner[k] = (int)r;
    });
    n = 0;
    for (size_t k = 0; k < mine.size(); k++) { if (owner[k] >= 0) n++; if (owner[k] >= 0 && owner[k] != rank_) ids[(int)k] = -2; }
    return n;
}
void ParFiniteElementSpace::ExchangeFaceNbrData()
{
    num_face_nbr_dofs = 0;
    nbrOffset.clear();
    for (size_t i = 0; i < pmesh->nbr_.size(); i++) { nbrOffset.push_back(num_face_nbr_dofs); num_face_nbr_dofs += GetFaceNbrFE((int)i)->GetDof(); }
}
const FiniteElement* ParFiniteElementSpace::GetFaceNbrFE(int i) const { return fec->FiniteElementForGeometry(pmesh->global_->GetElementGeometry(pmesh->nbr_.at(i).globalElem)); }
void ParFiniteElementSpace::GetFaceNbrElementVDofs(int i, Array<int>& d) const
{
    MFEM_VERIFY(vdim == 1, "face neighbour data of vector spaces not supported");
    const int n = GetFaceNbrFE(i)->GetDof();
    d.SetSize(n);
    for (int k = 0; k < n; k++) d[k] = nbrOffset.at(i) + k;
}
long long ParFiniteElementSpace::GlobalVSize() const { long long l = GetVSize(), g = l; if (pmesh && pmesh->GetNRanks() > 1) MPI_Allreduce(&l, &g, 1, MPI_LONG_LONG, MPI_SUM, pmesh->GetComm()); return g; }
long long ParFiniteElementSpace::GetMyDofOffset() const
{
    if (!pmesh || pmesh->GetNRanks() == 1) return 0;
    long long mine = GetVSize(), o = 0;
    spmd::exchange(&mine, [&](const std::vector<const void*>& p) { for (int r = 0; r < pmesh->GetMyRank(); r++) o += *(const long long*)p[r]; });
    return o;
}
void ParGridFunction::ExchangeFaceNbrData()
{
    auto* pm = pfes->GetParMesh();
    if (pm->GetNRanks() == 1) return;
    pfes->ExchangeFaceNbrData();
    if (!pfes->GetFaceNbrVSize()) nbr.SetSize(0); else nbr.SetSize(pfes->GetFaceNbrVSize());
    spmd::exchange(this, [&](const std::vector<const void*>& p) {
        Array<int> d, mine;
        for (int i = 0; i < pm->GetNFaceNeighborElements(); i++) {
            auto& n = pm->nbr_[i];
            auto* o = (const ParGridFunction*)p[n.rank];
            o->FESpace()->GetElementDofs(n.localElem, d);
            pfes->GetFaceNbrElementVDofs(i, mine);
            for (int k = 0; k < d.Size(); k++) nbr(mine[k]) = (*o)(d[k]);
        }
    });
}
double ParGridFunction::ComputeL2Error(Coefficient& c, const IntegrationRule* irs[], const Array<int>*) const
{
    double l = l2sq(*this, c, irs), g = l;
    if (pfes && pfes->GetParMesh()->GetNRanks() > 1) MPI_Allreduce(&l, &g, 1, MPI_DOUBLE, MPI_SUM, pfes->GetComm());
    return std::sqrt(g);
}
void ParBilinearForm::AllocMat()
{
    if (mat) return;
    const int n = inter.empty() ? 0 : pfes->GetFaceNbrVSize();
    mat = keep ? new SparseMatrix(height + n, width + n) : new SparseMatrix(height, width + n);
}
void ParBilinearForm::Assemble(int skip)
{
    if (!inter.empty()) pfes->ExchangeFaceNbrData();
    BilinearForm::Assemble(skip);
    if (inter.empty()) return;
    auto* pm = pfes->GetParMesh();
    Array<int> v1, v2, all;
    for (int sf = 0; sf < pm->GetNSharedFaces(); sf++) {
        for (auto& t : inter) {
            auto* T = pm->GetSharedFaceTransformations(sf);
            const int nb = T->Elem2No - pm->GetNE();
            pfes->GetElementVDofs(T->Elem1No, v1);
            pfes->GetFaceNbrElementVDofs(nb, v2);
            all = v1;
            for (int k = 0; k < v2.Size(); k++) all.Append(v2[k] + height);
            t.b->AssembleFaceMatrix(*pfes->GetFE(T->Elem1No), *pfes->GetFaceNbrFE(nb), *T, elemmat);
            if (keep) mat->AddSubMatrix(all, all, elemmat, skip); else mat->AddSubMatrix(v1, all, elemmat, skip);
        }
    }
}

// ---------------------------------------------------------------- sub-meshes

void SubMeshBase_::create(const Mesh& p, Mesh& self, const Array<int>& attrs, From from)
{
    from_ = from; parentBase_ = &p;
    std::set<int> want(attrs.begin(), attrs.end());
    self.Dim = from == Domain ? p.Dim : p.Dim - 1;
    self.spaceDim = p.spaceDim;
    std::map<int, int> v;
    const int n = from == Domain ? p.GetNE() : p.GetNBE();
    for (int i = 0; i < n; i++) {
        const Element& e = from == Domain ? *p.elements[i] : *p.boundary[i];
        if (!want.count(e.GetAttribute())) continue;
        auto* d = e.Duplicate();
        for (int k = 0; k < d->GetNVertices(); k++) {
            auto it = v.emplace(d->GetVertices()[k], self.GetNV());
            if (it.second) { self.vertices.push_back(p.vertices[d->GetVertices()[k]]); parent_vertex_ids_.Append(d->GetVertices()[k]); }
            d->GetVertices()[k] = it.first->second;
        }
        self.AddElement(d);
        parent_element_ids_.Append(i);
    }
    self.FinalizeTopology(true);
    if (from == Domain) {
        parent_face_ids_ = SubMeshUtils::BuildFaceMap(p, self, parent_element_ids_);
        auto f2b = p.GetFaceToBdrElMap();
        const int gen = (p.bdr_attributes.Size() ? p.bdr_attributes.Max() : 0) + 1;
        for (int b = 0; b < self.GetNBE(); b++) {
            const int be = f2b[parent_face_ids_[self.be_to_face[b]]];
            self.SetBdrAttribute(b, be >= 0 ? p.GetBdrAttribute(be) : gen);
        }
        if (p.Nodes) {
            auto* gf = p.Nodes->FESpace();
            auto* fc = FiniteElementCollection::New(gf->FEColl()->Name());
            auto* lf = new FiniteElementSpace(&self, fc, gf->GetVDim(), gf->GetOrdering());
            auto* nodes = new GridFunction(lf);
            nodes->MakeOwner(fc);
            Array<int> a, b;
            for (int e = 0; e < self.GetNE(); e++) {
                gf->GetElementVDofs(parent_element_ids_[e], a); lf->GetElementVDofs(e, b);
                for (int k = 0; k < a.Size(); k++) (*nodes)(b[k]) = (*p.Nodes)(a[k]);
            }
            self.NewNodes(*nodes, true);
        }
    }
    self.Mesh::SetAttributes();
}
ParSubMesh ParSubMesh::CreateFromDomain(const ParMesh& p, const Array<int>& a)
{
    ParSubMesh s;
    s.comm_ = MPI_COMM_SELF;
    s.create(p, s, a, Domain);
    for (int i = 0; i < s.GetNE(); i++) s.gid_.push_back(i);
    return s;
}
ParSubMesh ParSubMesh::CreateFromBoundary(const ParMesh& p, const Array<int>& a)
{
    ParSubMesh s;
    s.comm_ = MPI_COMM_SELF;
    s.create(p, s, a, Boundary);
    return s;
}
Array<int> SubMeshUtils::BuildFaceMap(const Mesh& p, const Mesh& s, const Array<int>& ids)
{
    Array<int> m(s.GetNumFaces());
    m = -1;
    for (int e = 0; e < s.GetNE(); e++) for (size_t k = 0; k < s.el_to_face[e].size(); k++) m[s.el_to_face[e][k]] = p.el_to_face[ids[e]][k];
    return m;
}
void SubMeshUtils::BuildVdofToVdofMap(const FiniteElementSpace& s, const FiniteElementSpace& p, const SubMesh::From from, const Array<int>& ids, Array<int>& map)
{
    MFEM_VERIFY(from == SubMesh::Domain, "maps from boundary sub-meshes not supported");
    map.SetSize(s.GetVSize());
    map = -1;
    Array<int> a, b;
    for (int e = 0; e < s.GetNE(); e++) {
        s.GetElementVDofs(e, a); p.GetElementVDofs(ids[e], b);
        MFEM_VERIFY(a.Size() == b.Size(), "sub-mesh and parent spaces differ");
        for (int k = 0; k < a.Size(); k++) map[a[k]] = b[k];
    }
}
static const SubMeshBase_* asSub(const FiniteElementSpace& f) { return dynamic_cast<const SubMeshBase_*>((const Mesh*)f.GetMesh()); }
void TransferMap::init(const FiniteElementSpace& s, const FiniteElementSpace& d)
{
    auto *ss = asSub(s), *ds = asSub(d);
    if (ds && !ss) { kind_ = ParentToSub; SubMeshUtils::BuildVdofToVdofMap(d, s, ds->GetFrom(), ds->GetParentElementIDMap(), map1_); return; }
    if (ss && !ds) { kind_ = SubToParent; SubMeshUtils::BuildVdofToVdofMap(s, d, ss->GetFrom(), ss->GetParentElementIDMap(), map1_); return; }
    if (ss && ds && ss->ParentMesh_() == ds->ParentMesh_()) {
        kind_ = SubToSub;
        FiniteElementSpace root(const_cast<Mesh*>(ss->ParentMesh_()), s.FEColl(), s.GetVDim(), s.GetOrdering());
        SubMeshUtils::BuildVdofToVdofMap(s, root, ss->GetFrom(), ss->GetParentElementIDMap(), map1_);
        SubMeshUtils::BuildVdofToVdofMap(d, root, ds->GetFrom(), ds->GetParentElementIDMap(), map2_);
        parentSize_ = root.GetVSize();
        return;
    }
    MFEM_ABORT("Trying to do a transfer between two unrelated meshes");
}
TransferMap::TransferMap(const GridFunction& s, const GridFunction& d) { init(*s.FESpace(), *d.FESpace()); }
TransferMap::TransferMap(const FiniteElementSpace& s, const FiniteElementSpace& d) { init(s, d); }
void TransferMap::Transfer(const GridFunction& s, GridFunction& d) const
{
    if (kind_ == ParentToSub) { for (int i = 0; i < map1_.Size(); i++) d(i) = s(map1_[i]); return; }
    if (kind_ == SubToParent) { for (int i = 0; i < map1_.Size(); i++) d(map1_[i]) = s(i); return; }
    Vector z(parentSize_);
    for (int i = 0; i < map2_.Size(); i++) z(map2_[i]) = d(i);
    for (int i = 0; i < map1_.Size(); i++) z(map1_[i]) = s(i);
    for (int i = 0; i < map2_.Size(); i++) d(i) = z(map2_[i]);
}

// ---------------------------------------------------------------- output

std::vector<DataCollection::Record>& DataCollection::Log() { static thread_local std::vector<Record> l; return l; }
void DataCollection::record()
{
    Record r{ name, prefix, cycle, time, {} };
    for (auto& [n, g] : fields) r.data[n].assign(g->GetData(), g->GetData() + g->Size());
    Log().push_back(std::move(r));
}

void DataCollection::Save()
{
    record();
    std::string number = std::to_string(cycle);
    if (number.size() < 6) number.insert(0, 6 - number.size(), '0');
    const std::string dir = prefix + name + (cycle == -1 ? "" : "_" + number);
    std::filesystem::create_directories(dir);
    for (auto& [n, g] : fields) {
        std::ofstream out(dir + "/" + n);
        out.precision(6);
        g->Save(out);
    }
}

} // namespace mfem
