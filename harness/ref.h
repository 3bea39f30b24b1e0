// An independent nodal DG discretisation of Maxwell's equations, used as an oracle.
//
// Written from the weak form. Shares with the code under test only the node
// positions in the reference elements and the numbering of degrees of freedom;
// basis functions, element maps, quadrature, faces and normals are its own.
#pragma once
#include "gen.h"
#include <Eigen/Dense>

namespace ref {

using gen::P3;
using Mat = Eigen::MatrixXd;
using Vec = Eigen::VectorXd;

struct Rule { std::vector<P3> x; std::vector<double> w; };

inline void gauss(int n, std::vector<double>& x, std::vector<double>& w)
{
    x.resize(n); w.resize(n);
    for (int i = 0; i < n; i++) {
        double t = std::cos(M_PI * (i + 0.75) / (n + 0.5)), d = 1;
        for (int it = 0; it < 100; it++) {
            double p0 = 1, p1 = t;
            for (int k = 2; k <= n; k++) { double p2 = ((2 * k - 1) * t * p1 - (k - 1) * p0) / k; p0 = p1; p1 = p2; }
            d = n * (t * p1 - p0) / (t * t - 1);
            double s = p1 / d;
            t -= s;
            if (std::abs(s) < 1e-16) break;
        }
        x[i] = 0.5 * (1 - t);
        w[i] = 1 / ((1 - t * t) * d * d);
    }
}
/// dimension 0..3; simplex by collapsing the cube
inline Rule rule(int dim, bool simplex, int n)
{
    std::vector<double> g, w;
    gauss(n, g, w);
    Rule r;
    if (dim == 0) { r.x.push_back({ 0, 0, 0 }); r.w.push_back(1); return r; }
    int N = 1;
    for (int d = 0; d < dim; d++) N *= n;
    for (int q = 0; q < N; q++) {
        int i[3] = { q % n, (q / n) % n, q / (n * n) };
        P3 a{ 0, 0, 0 };
        double ww = 1;
        for (int d = 0; d < dim; d++) { a[d] = g[i[d]]; ww *= w[i[d]]; }
        if (simplex && dim == 2) { ww *= 1 - a[0]; a[1] *= 1 - a[0]; }
        if (simplex && dim == 3) { ww *= (1 - a[0]) * (1 - a[0]) * (1 - a[1]); double x = a[0], y = a[1] * (1 - x), z = a[2] * (1 - a[0]) * (1 - a[1]); a = { x, y, z }; }
        r.x.push_back(a);
        r.w.push_back(ww);
    }
    return r;
}

/// Vertices of the reference element in the order of the mesh.
inline std::vector<P3> refVertices(char t)
{
    switch (t) {
    case 's': return { { 0, 0, 0 }, { 1, 0, 0 } };
    case 't': return { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 } };
    case 'q': return { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 1, 0 } };
    case 'T': return { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
    default: return { { 0, 0, 0 }, { 1, 0, 0 }, { 1, 1, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1, 1 }, { 0, 1, 1 } };
    }
}
/// Linear or multilinear vertex functions and their derivatives.
inline void vertexShape(char t, int dim, const P3& x, std::vector<double>& N, std::vector<P3>& dN)
{
    auto rv = refVertices(t);
    N.assign(rv.size(), 0); dN.assign(rv.size(), P3{ 0, 0, 0 });
    if (t == 't' || t == 'T') {
        N[0] = 1;
        for (int d = 0; d < dim; d++) { N[0] -= x[d]; dN[0][d] = -1; N[d + 1] = x[d]; dN[d + 1][d] = 1; }
        return;
    }
    for (size_t a = 0; a < rv.size(); a++) {
        double f[3], g[3];
        for (int d = 0; d < 3; d++) { f[d] = d < dim ? (rv[a][d] ? x[d] : 1 - x[d]) : 1; g[d] = d < dim ? (rv[a][d] ? 1.0 : -1.0) : 0; }
        N[a] = f[0] * f[1] * f[2];
        dN[a] = { g[0] * f[1] * f[2], f[0] * g[1] * f[2], f[0] * f[1] * g[2] };
    }
}

class DG {
public:
    DG(const gen::Prob& p, mfem::FiniteElementSpace& fes) : p_(p), fes_(fes), mesh_(*fes.GetMesh()), dim_(p.g.dim), type_(p.g.type)
    {
        simplex_ = type_ == 't' || type_ == 'T';
        int o = p.order;
        for (int k = 0; k <= (dim_ > 2 ? o : 0); k++)
            for (int j = 0; j <= (dim_ > 1 ? o : 0); j++)
                for (int i = 0; i <= o; i++)
                    if (!simplex_ || i + j + k <= o) ex_.push_back({ i, j, k });
        auto& nodes = fes.GetFE(0)->GetNodes();
        nd_ = nodes.GetNPoints();
        if (nd_ != (int)ex_.size()) throw pbt::Failure("unexpected number of nodes per element");
        Mat V(nd_, nd_);
        for (int i = 0; i < nd_; i++) {
            auto& ip = nodes.IntPoint(i);
            Vec m = mono({ ip.x, ip.y, ip.z });
            V.row(i) = m.transpose();
        }
        C_ = V.inverse();                 // column i: monomial coefficients of basis function i
        vol_ = rule(dim_, simplex_, o + 3);
        face_ = rule(dim_ - 1, simplex_, o + 3);
        // faces by vertices
        gen::GMesh g = p.g;
        for (int e = 0; e < mesh_.GetNE(); e++) {
            mfem::Array<int> v;
            mesh_.GetElementVertices(e, v);
            verts_.push_back(std::vector<int>(v.begin(), v.end()));
        }
        g.el = verts_;
        faces_ = g.faces();
        for (int b = 0; b < mesh_.GetNBE(); b++) {
            mfem::Array<int> v;
            mesh_.GetBdrElementVertices(b, v);
            std::vector<int> k(v.begin(), v.end());
            std::sort(k.begin(), k.end());
            tag_[k] = mesh_.GetBdrAttribute(b);
        }
    }
    /// mass matrix of an element, without material
    Mat mass(int e) const
    {
        Mat M = Mat::Zero(nd_, nd_);
        for (size_t q = 0; q < vol_.w.size(); q++) {
            Vec f = C_.transpose() * mono(vol_.x[q]);
            double J[3][3], det;
            jac(e, vol_.x[q], J, det);
            M += vol_.w[q] * std::abs(det) * f * f.transpose();
        }
        return M;
    }
    /// energy (E eps E + H mu H)/2
    double energy(const mfem::Vector& x) const
    {
        double s = 0;
        const int n = fes_.GetNDofs();
        for (int e = 0; e < mesh_.GetNE(); e++) {
            Mat M = mass(e);
            auto m = p_.mats.at(mesh_.GetAttribute(e));
            for (int f = 0; f < 6; f++) { Vec u = local(x, e, f); s += 0.5 * (f < 3 ? m.eps : m.mu) * u.dot(M * u); }
        }
        return s;
    }
    /// d(energy)/dt for the given derivative
    double power(const mfem::Vector& x, const mfem::Vector& dx) const
    {
        double s = 0;
        for (int e = 0; e < mesh_.GetNE(); e++) {
            Mat M = mass(e);
            auto m = p_.mats.at(mesh_.GetAttribute(e));
            for (int f = 0; f < 6; f++) s += (f < 3 ? m.eps : m.mu) * local(x, e, f).dot(M * local(dx, e, f));
        }
        return s;
    }
    /// The time derivative of the state.
    mfem::Vector derivative(const mfem::Vector& x) const
    {
        const int n = fes_.GetNDofs();
        mfem::Vector out(6 * n);
        out = 0.0;
        for (int e = 0; e < mesh_.GetNE(); e++) {
            auto m = p_.mats.at(mesh_.GetAttribute(e));
            Mat M = Mat::Zero(nd_, nd_), R = Mat::Zero(nd_, 6);
            Mat U(nd_, 6);
            for (int f = 0; f < 6; f++) U.col(f) = local(x, e, f);
            for (size_t q = 0; q < vol_.w.size(); q++) {
                Vec f = C_.transpose() * mono(vol_.x[q]);
                double J[3][3], det, I[3][3];
                jac(e, vol_.x[q], J, det);
                inverse(J, I);
                Mat G = C_.transpose() * dmono(vol_.x[q]);       // nd x 3, reference gradient
                Mat g = Mat::Zero(nd_, 3);
                for (int d = 0; d < dim_; d++) for (int r = 0; r < dim_; r++) g.col(d) += G.col(r) * I[r][d];
                double w = vol_.w[q] * std::abs(det);
                M += w * f * f.transpose();
                Mat D = U.transpose() * g;                        // 6 x 3: d u_f / d x_d
                for (int i = 0; i < 3; i++) {
                    int j = (i + 1) % 3, k = (i + 2) % 3;
                    double curlH = D(3 + k, j) - D(3 + j, k), curlE = D(k, j) - D(j, k), Ei = U.col(i).dot(f);
                    R.col(i) += w * (curlH - m.sigma * Ei) * f;
                    R.col(3 + i) += w * (-curlE) * f;
                }
            }
            faceTerms(e, x, U, R);
            Eigen::LDLT<Mat> S(M);
            Mat res = S.solve(R);
            mfem::Array<int> d;
            fes_.GetElementDofs(e, d);
            for (int f = 0; f < 6; f++) for (int i = 0; i < nd_; i++) out[f * n + d[i]] = res(i, f) / (f < 3 ? m.eps : m.mu);
        }
        return out;
    }
    /// Rate at which the energy must fall: ohmic losses, upwinding on jumps, absorbing boundaries.
    double losses(const mfem::Vector& x) const
    {
        double s = 0;
        for (int e = 0; e < mesh_.GetNE(); e++) {
            auto m = p_.mats.at(mesh_.GetAttribute(e));
            Mat U(nd_, 6);
            for (int f = 0; f < 6; f++) U.col(f) = local(x, e, f);
            if (m.sigma > 0) { Mat M = mass(e); for (int f = 0; f < 3; f++) s += m.sigma * U.col(f).dot(M * U.col(f)); }
            Mat none;
            s += faceTerms(e, x, U, none);
        }
        return s;
    }
    int nd() const { return nd_; }
    const std::vector<std::vector<int>>& verts() const { return verts_; }
private:
    const gen::Prob& p_;
    mfem::FiniteElementSpace& fes_;
    mfem::Mesh& mesh_;
    int dim_, nd_;
    char type_;
    bool simplex_;
    std::vector<std::array<int, 3>> ex_;
    Mat C_;
    Rule vol_, face_;
    std::vector<std::vector<int>> verts_;
    std::map<std::vector<int>, gen::GMesh::Face> faces_;
    std::map<std::vector<int>, int> tag_;

    static double pw(double x, int k) { double r = 1; while (k-- > 0) r *= x; return r; }
    Vec mono(const P3& x) const
    {
        Vec m(ex_.size());
        for (size_t a = 0; a < ex_.size(); a++) m[a] = pw(x[0], ex_[a][0]) * pw(x[1], ex_[a][1]) * pw(x[2], ex_[a][2]);
        return m;
    }
    Mat dmono(const P3& x) const
    {
        Mat m = Mat::Zero(ex_.size(), 3);
        for (size_t a = 0; a < ex_.size(); a++)
            for (int d = 0; d < 3; d++) {
                if (ex_[a][d] == 0) continue;
                double r = ex_[a][d];
                for (int k = 0; k < 3; k++) r *= pw(x[k], ex_[a][k] - (k == d));
                m(a, d) = r;
            }
        return m;
    }
    Vec local(const mfem::Vector& x, int e, int f) const
    {
        mfem::Array<int> d;
        fes_.GetElementDofs(e, d);
        Vec u(nd_);
        for (int i = 0; i < nd_; i++) u[i] = x[f * fes_.GetNDofs() + d[i]];
        return u;
    }
    P3 vertex(int i) const { const double* q = mesh_.GetVertex(i); P3 p{ 0, 0, 0 }; for (int d = 0; d < dim_; d++) p[d] = q[d]; return p; }
    void jac(int e, const P3& x, double J[3][3], double& det) const
    {
        std::vector<double> N;
        std::vector<P3> dN;
        vertexShape(type_, dim_, x, N, dN);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) J[i][j] = i >= dim_ && i == j ? 1 : 0;
        for (size_t a = 0; a < N.size(); a++) {
            P3 p = vertex(verts_[e][a]);
            for (int i = 0; i < dim_; i++) for (int j = 0; j < dim_; j++) J[i][j] += p[i] * dN[a][j];
        }
        det = J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]);
    }
    static void inverse(const double J[3][3], double I[3][3])
    {
        Eigen::Matrix3d m;
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = J[i][j];
        Eigen::Matrix3d v = m.inverse();
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) I[i][j] = v(i, j);
    }
    /// reference point of element e for face parameters s, the face given by its vertices
    P3 toElement(int e, const std::vector<int>& fv, const std::vector<double>& N) const
    {
        auto rv = refVertices(type_);
        P3 x{ 0, 0, 0 };
        for (size_t a = 0; a < fv.size(); a++)
            for (size_t l = 0; l < verts_[e].size(); l++)
                if (verts_[e][l] == fv[a]) for (int d = 0; d < 3; d++) x[d] += N[a] * rv[l][d];
        return x;
    }
    /// Adds the face integrals to R when it is not empty; returns the power lost at the faces
    /// (that of an inner face shared evenly between its elements).
    double faceTerms(int e, const mfem::Vector& x, const Mat& U, Mat& R) const
    {
        double lost = 0;
        gen::GMesh g;
        g.type = type_;
        const char ft = dim_ == 1 ? 'p' : dim_ == 2 ? 's' : simplex_ ? 't' : 'q';
        for (auto& lf : g.localFaces()) {
            std::vector<int> fv, key;
            for (int i : lf) fv.push_back(verts_[e][i]);
            key = fv;
            std::sort(key.begin(), key.end());
            auto& F = faces_.at(key);
            int nb = -1;
            for (int k : F.els) if (k != e) nb = k;
            auto tg = tag_.find(key);
            // 0 interior face, else a boundary condition
            bool bc = false;
            BdrCondOpt cond;
            if (nb < 0) {
                if (tg == tag_.end()) continue;
                auto b = p_.bdr.find(tg->second);
                if (b == p_.bdr.end()) continue;
                bc = true; cond = b->second;
            }
            else if (tg != tag_.end()) {
                auto b = p_.ibdr.find(tg->second);
                if (b != p_.ibdr.end() && b->second != maxwell::BdrCond::TotalFieldIn) { bc = true; cond = b->second; }
            }
            Mat W;
            if (!bc) { W.resize(nd_, 6); for (int f = 0; f < 6; f++) W.col(f) = local(x, nb, f); }
            P3 cen{ 0, 0, 0 };
            for (int i : verts_[e]) { P3 q = vertex(i); for (int d = 0; d < 3; d++) cen[d] += q[d] / verts_[e].size(); }
            for (size_t q = 0; q < face_.w.size(); q++) {
                std::vector<double> N;
                std::vector<P3> dN;
                if (dim_ == 1) { N = { 1 }; dN = { { 0, 0, 0 } }; }
                else vertexShape(ft, dim_ - 1, face_.x[q], N, dN);
                P3 pos{ 0, 0, 0 }, t1{ 0, 0, 0 }, t2{ 0, 0, 0 };
                for (size_t a = 0; a < fv.size(); a++) {
                    P3 v = vertex(fv[a]);
                    for (int d = 0; d < 3; d++) { pos[d] += N[a] * v[d]; t1[d] += dN[a][0] * v[d]; t2[d] += dN[a][1] * v[d]; }
                }
                P3 n;
                if (dim_ == 1) n = { 1, 0, 0 };
                else if (dim_ == 2) n = { t1[1], -t1[0], 0 };
                else n = { t1[1] * t2[2] - t1[2] * t2[1], t1[2] * t2[0] - t1[0] * t2[2], t1[0] * t2[1] - t1[1] * t2[0] };
                double area = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]), dot = 0;
                for (int d = 0; d < 3; d++) { n[d] /= area; dot += n[d] * (pos[d] - cen[d]); }
                if (dot < 0) for (int d = 0; d < 3; d++) n[d] = -n[d];
                Vec f = C_.transpose() * mono(toElement(e, fv, N));
                double jump[6], pen[6];
                Vec um = U.transpose() * f;
                if (!bc) {
                    Vec up = W.transpose() * (C_.transpose() * mono(toElement(nb, fv, N)));
                    for (int k = 0; k < 6; k++) { jump[k] = um[k] - up[k]; pen[k] = p_.alpha * jump[k]; }
                }
                else
                    for (int k = 0; k < 6; k++) {
                        bool isE = k < 3;
                        // the field beyond the boundary: mirrored, equal, or absent
                        double c = cond == maxwell::BdrCond::PEC ? (isE ? 2 : 0) : cond == maxwell::BdrCond::PMC ? (isE ? 0 : 2) : 1;
                        jump[k] = c * um[k];
                        pen[k] = (cond == maxwell::BdrCond::SMA ? 1 : p_.alpha) * jump[k];
                    }
                double nE = 0, nH = 0, w = 0.5 * face_.w[q] * area;
                for (int d = 0; d < 3; d++) { nE += n[d] * pen[d]; nH += n[d] * pen[3 + d]; }
                double te = 0, th = 0, nEj = 0, nHj = 0;
                for (int d = 0; d < 3; d++) { te += jump[d] * pen[d]; th += jump[3 + d] * pen[3 + d]; nEj += n[d] * jump[d]; nHj += n[d] * jump[3 + d]; }
                double t = te - nE * nEj + th - nH * nHj;
                lost += w * t * (!bc || cond != maxwell::BdrCond::SMA ? 0.5 : 1);
                if (R.size()) for (int i = 0; i < 3; i++) {
                    int j = (i + 1) % 3, k = (i + 2) % 3;
                    double nxH = n[j] * jump[3 + k] - n[k] * jump[3 + j], nxE = n[j] * jump[k] - n[k] * jump[j];
                    R.col(i) += w * (-nxH - (pen[i] - n[i] * nE)) * f;
                    R.col(3 + i) += w * (nxE - (pen[3 + i] - n[i] * nH)) * f;
                }
            }
        }
        return lost;
    }
    using BdrCondOpt = maxwell::BdrCond;
};

} // namespace ref
