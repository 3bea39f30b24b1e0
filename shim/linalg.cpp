#include "mfem.hpp"
#include "spmd.hpp"

namespace mfem {

__attribute__((cold, noinline)) void outOfRange(const char* what, int i, int j, int h, int w)
{
    std::ostringstream s;
    s << what << " access out of range: " << i;
    if (w >= 0) s << "," << j;
    s << " of " << h;
    if (w >= 0) s << "x" << w;
    MFEM_ABORT(s.str());
    std::abort();
}


thread_local int Mpi::rank_ = 0, Mpi::size_ = 1;

// ---------------------------------------------------------------- dense

double DenseMatrix::Det() const
{
    MFEM_VERIFY(height == width && height > 0, "not square");
    const DenseMatrix& m = *this;
    switch (height) {
        case 1: return m(0, 0);
        case 2: return m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0);
        case 3: return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1))
                     - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0))
                     + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
    }
    DenseMatrix a(m);
    double det = 1;
    for (int c = 0; c < height; c++) {
        int p = c;
        for (int r = c + 1; r < height; r++) if (std::abs(a(r, c)) > std::abs(a(p, c))) p = r;
        if (a(p, c) == 0) return 0;
        if (p != c) { det = -det; for (int k = 0; k < height; k++) std::swap(a(p, k), a(c, k)); }
        det *= a(c, c);
        for (int r = c + 1; r < height; r++) {
            double f = a(r, c) / a(c, c);
            for (int k = c; k < height; k++) a(r, k) -= f * a(c, k);
        }
    }
    return det;
}

double DenseMatrix::Weight() const
{
    if (height == width) return Det();
    const DenseMatrix& m = *this;
    if (width == 1) { double s = 0; for (int i = 0; i < height; i++) s += m(i, 0) * m(i, 0); return std::sqrt(s); }
    if (width == 2 && height == 3) {
        double E = 0, F = 0, G = 0;
        for (int i = 0; i < 3; i++) { E += m(i, 0) * m(i, 0); F += m(i, 0) * m(i, 1); G += m(i, 1) * m(i, 1); }
        return std::sqrt(E * G - F * F);
    }
    MFEM_ABORT("DenseMatrix::Weight for " << height << "x" << width);
}

void DenseMatrix::Invert()
{
    MFEM_VERIFY(height == width, "not square");
    const int n = height;
    DenseMatrix a(*this), b(n);
    for (int i = 0; i < n; i++) b(i, i) = 1;
    double* A = a.Data();
    double* B = b.Data();
    for (int c = 0; c < n; c++) {
        int p = c;
        for (int r = c + 1; r < n; r++) if (std::abs(A[r + c * n]) > std::abs(A[p + c * n])) p = r;
        MFEM_VERIFY(A[p + c * n] != 0.0, "singular matrix");
        if (p != c) for (int k = 0; k < n; k++) { std::swap(A[p + k * n], A[c + k * n]); std::swap(B[p + k * n], B[c + k * n]); }
        const double ipiv = 1.0 / A[c + c * n];
        for (int k = 0; k < n; k++) { A[c + k * n] *= ipiv; B[c + k * n] *= ipiv; }
        std::vector<double> f(n);
        for (int r = 0; r < n; r++) f[r] = (r == c) ? 0.0 : A[r + c * n];
        for (int k = 0; k < n; k++) {
            const double ac = A[c + k * n], bc = B[c + k * n];
            if (ac != 0) for (int r = 0; r < n; r++) A[r + k * n] -= f[r] * ac;
            if (bc != 0) for (int r = 0; r < n; r++) B[r + k * n] -= f[r] * bc;
        }
    }
    *this = b;
}

void CalcAdjugate(const DenseMatrix& a, DenseMatrix& m)
{
    m.SetSize(a.Width(), a.Height());
    if (a.Width() < a.Height()) {
        if (a.Width() == 1) { for (int i = 0; i < a.Height(); i++) m(0, i) = a(i, 0); return; }
        double e = 0, g = 0, f = 0;
        for (int i = 0; i < 3; i++) { e += a(i, 0) * a(i, 0); g += a(i, 1) * a(i, 1); f += a(i, 0) * a(i, 1); }
        for (int i = 0; i < 3; i++) { m(0, i) = a(i, 0) * g - a(i, 1) * f; m(1, i) = a(i, 1) * e - a(i, 0) * f; }
        return;
    }
    switch (a.Width()) {
        case 1: m(0, 0) = 1.0; return;
        case 2: m(0, 0) = a(1, 1); m(0, 1) = -a(0, 1); m(1, 0) = -a(1, 0); m(1, 1) = a(0, 0); return;
        case 3:
            for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
                int r1 = (j + 1) % 3, r2 = (j + 2) % 3, c1 = (i + 1) % 3, c2 = (i + 2) % 3;
                m(i, j) = a(r1, c1) * a(r2, c2) - a(r1, c2) * a(r2, c1);
            }
            return;
    }
    MFEM_ABORT("CalcAdjugate size");
}
void CalcInverse(const DenseMatrix& a, DenseMatrix& inv)
{
    if (a.Height() == a.Width()) {
        CalcAdjugate(a, inv);
        inv *= 1.0 / a.Det();
        return;
    }
    CalcAdjugate(a, inv);
    double w = a.Weight();
    inv *= 1.0 / (w * w);
}
void CalcOrtho(const DenseMatrix& J, Vector& n)
{
    if (J.Height() == 2) { MFEM_VERIFY(J.Width() == 1 && n.Size() == 2, "CalcOrtho"); n(0) = J(1, 0); n(1) = -J(0, 0); }
    else if (J.Height() == 3) {
        MFEM_VERIFY(J.Width() == 2 && n.Size() == 3, "CalcOrtho");
        n(0) = J(1, 0) * J(2, 1) - J(2, 0) * J(1, 1);
        n(1) = J(2, 0) * J(0, 1) - J(0, 0) * J(2, 1);
        n(2) = J(0, 0) * J(1, 1) - J(1, 0) * J(0, 1);
    }
    else MFEM_ABORT("Matrix must be 3x2 or 2x1");
}
void AddMult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a)
{
    MFEM_VERIFY(b.Width() == c.Height() && a.Height() == b.Height() && a.Width() == c.Width(), "Mult sizes");
    for (int j = 0; j < c.Width(); j++) for (int k = 0; k < b.Width(); k++) {
        const double x = c(k, j);
        const double* col = b.GetColumn(k);
        double* o = a.GetColumn(j);
        for (int i = 0; i < b.Height(); i++) o[i] += col[i] * x;
    }
}
void Mult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a) { a = 0.0; AddMult(b, c, a); }
void AddMult_a_ABt(double s, const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& C)
{ for (int i = 0; i < A.Height(); i++) for (int j = 0; j < B.Height(); j++) { double t = 0; for (int k = 0; k < A.Width(); k++) t += A(i, k) * B(j, k); C(i, j) += s * t; } }
void AddMultABt(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& C) { AddMult_a_ABt(1.0, A, B, C); }
void MultABt(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& C) { C.SetSize(A.Height(), B.Height()); C = 0.0; AddMultABt(A, B, C); }
void MultAtB(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& C)
{ C.SetSize(A.Width(), B.Width()); for (int i = 0; i < A.Width(); i++) for (int j = 0; j < B.Width(); j++) { double t = 0; for (int k = 0; k < A.Height(); k++) t += A(k, i) * B(k, j); C(i, j) = t; } }
void AddMult_a_VWt(double a, const Vector& v, const Vector& w, DenseMatrix& M)
{
    MFEM_VERIFY(M.Height() == v.Size() && M.Width() == w.Size(), "AddMultVWt sizes");
    for (int j = 0; j < w.Size(); j++) for (int i = 0; i < v.Size(); i++) M(i, j) += a * v(i) * w(j);
}
void AddMultVWt(const Vector& v, const Vector& w, DenseMatrix& M) { AddMult_a_VWt(1.0, v, w, M); }
void MultVWt(const Vector& v, const Vector& w, DenseMatrix& M) { M.SetSize(v.Size(), w.Size()); M = 0.0; AddMultVWt(v, w, M); }
void AddMult_a_VVt(double a, const Vector& v, DenseMatrix& M) { AddMult_a_VWt(a, v, v, M); }
void AddMultVVt(const Vector& v, DenseMatrix& M) { AddMult_a_VWt(1.0, v, v, M); }
void MultVVt(const Vector& v, DenseMatrix& M) { MultVWt(v, v, M); }
void Add(const DenseMatrix& A, const DenseMatrix& B, double alpha, DenseMatrix& C) { C = A; C.Add(alpha, B); }

// ---------------------------------------------------------------- sparse

SparseMatrix::SparseMatrix(int* I, int* J, double* d, int m, int n, bool ownij, bool owna, bool) : Matrix(m, n), fin_(true)
{
    I_.assign(1, 0);
    for (int i = 0; i < m; i++) {
        MFEM_VERIFY(I[i] <= I[i + 1], "row pointers decrease");
        std::vector<std::pair<int, double>> r;
        for (int k = I[i]; k < I[i + 1]; k++) {
            MFEM_VERIFY(J[k] >= 0 && J[k] < n, "column " << J[k] << " out of range " << n);
            r.push_back({ J[k], d ? d[k] : 0.0 });
        }
        std::stable_sort(r.begin(), r.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& [c, v] : r) { J_.push_back(c); A_.push_back(v); }
        I_.push_back((int)J_.size());
    }
    if (ownij) { delete[] I; delete[] J; }
    if (owna) delete[] d;
}
SparseMatrix::SparseMatrix(const Vector& diag) : Matrix(diag.Size()), fin_(true)
{
    I_.push_back(0);
    for (int i = 0; i < diag.Size(); i++) { J_.push_back(i); A_.push_back(diag(i)); I_.push_back(i + 1); }
}
SparseMatrix& SparseMatrix::operator=(double a)
{
    for (auto& r : rows_) for (auto& e : r) e.second = a;
    for (auto& x : A_) x = a;
    return *this;
}
double& SparseMatrix::slot(int i, int j)
{
    MFEM_VERIFY(i >= 0 && i < height && j >= 0 && j < width, "SparseMatrix entry " << i << "," << j << " outside " << height << "x" << width);
    if (!fin_) return rows_[i][j];
    auto b = J_.begin() + I_[i], e = J_.begin() + I_[i + 1];
    auto it = std::lower_bound(b, e, j);
    MFEM_VERIFY(it != e && *it == j, "Entry for column " << j << " is not allocated.");
    return A_[it - J_.begin()];
}
double& SparseMatrix::operator()(int i, int j) { return slot(i, j); }
const double& SparseMatrix::operator()(int i, int j) const
{
    static const double zero = 0.0;
    MFEM_VERIFY(i >= 0 && i < height && j >= 0 && j < width, "SparseMatrix entry " << i << "," << j << " outside " << height << "x" << width);
    if (!fin_) { auto it = rows_[i].find(j); return it == rows_[i].end() ? zero : it->second; }
    auto b = J_.begin() + I_[i], e = J_.begin() + I_[i + 1];
    auto it = std::lower_bound(b, e, j);
    return (it != e && *it == j) ? A_[it - J_.begin()] : zero;
}
int SparseMatrix::RowSize(int i) const
{
    MFEM_VERIFY(i >= 0 && i < height, "row out of range");
    return fin_ ? I_[i + 1] - I_[i] : (int)rows_[i].size();
}
int SparseMatrix::ActualWidth() const
{
    int w = -1;
    for (auto& r : rows_) if (!r.empty()) w = std::max(w, r.rbegin()->first);
    for (int j : J_) w = std::max(w, j);
    return w + 1;
}
void SparseMatrix::finalize(int skip_zeros)
{
    if (fin_) return;
    I_.assign(1, 0); J_.clear(); A_.clear();
    for (int i = 0; i < height; i++) {
        for (auto& [j, v] : rows_[i]) if (!skip_zeros || v != 0.0) { J_.push_back(j); A_.push_back(v); }
        I_.push_back((int)J_.size());
    }
    rows_.clear();
    fin_ = true;
}
void SparseMatrix::GetDiag(Vector& d) const
{ d.SetSize(height); for (int i = 0; i < height; i++) d(i) = (*static_cast<const SparseMatrix*>(this))(i, i); }
void SparseMatrix::ToDenseMatrix(DenseMatrix& B) const
{
    B.SetSize(height, width);
    B = 0.0;
    for (int i = 0; i < height; i++) {
        if (fin_) for (int k = I_[i]; k < I_[i + 1]; k++) B(i, J_[k]) += A_[k];
        else for (auto& [j, v] : rows_[i]) B(i, j) += v;
    }
}
void SparseMatrix::AddMult(const Vector& x, Vector& y, const double a) const
{
    MFEM_VERIFY(width <= x.Size(), "Input vector size (" << x.Size() << ") must match matrix width (" << width << ")");
    MFEM_VERIFY(height <= y.Size(), "Output vector size (" << y.Size() << ") must match matrix height (" << height << ")");
    const double* xp = x.GetData();
    double* yp = y.GetData();
    for (int i = 0; i < height; i++) {
        double s = 0;
        if (fin_) for (int k = I_[i]; k < I_[i + 1]; k++) s += A_[k] * xp[J_[k]];
        else for (auto& [j, v] : rows_[i]) s += v * xp[j];
        yp[i] += a * s;
    }
}
void SparseMatrix::AddMultTranspose(const Vector& x, Vector& y, const double a) const
{
    for (int i = 0; i < height; i++) {
        if (fin_) for (int k = I_[i]; k < I_[i + 1]; k++) y(J_[k]) += a * A_[k] * x(i);
        else for (auto& [j, v] : rows_[i]) y(j) += a * v * x(i);
    }
}
void SparseMatrix::Add(double a, const SparseMatrix& B)
{
    for (int i = 0; i < B.height; i++) {
        if (B.fin_) for (int k = B.I_[i]; k < B.I_[i + 1]; k++) slot(i, B.J_[k]) += a * B.A_[k];
        else for (auto& [j, v] : B.rows_[i]) slot(i, j) += a * v;
    }
}
void SparseMatrix::AddSubMatrix(const Array<int>& r, const Array<int>& c, const DenseMatrix& m, int skip_zeros)
{
    MFEM_VERIFY(m.Height() >= r.Size() && m.Width() >= c.Size(), "AddSubMatrix sizes");
    for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) {
        double v = m(i, j);
        if (skip_zeros && v == 0.0) {
            if (skip_zeros == 2 || &r != &c) continue;
            if (!(m(j, i) != 0.0)) continue;
        }
        int gi = r[i], gj = c[j];
        if (gi < 0) { gi = -1 - gi; v = -v; }
        if (gj < 0) { gj = -1 - gj; v = -v; }
        slot(gi, gj) += v;
    }
}
void SparseMatrix::SetSubMatrix(const Array<int>& r, const Array<int>& c, const DenseMatrix& m, int)
{ for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) slot(r[i], c[j]) = m(i, j); }
void SparseMatrix::GetSubMatrix(const Array<int>& r, const Array<int>& c, DenseMatrix& m) const
{ m.SetSize(r.Size(), c.Size()); for (int i = 0; i < r.Size(); i++) for (int j = 0; j < c.Size(); j++) m(i, j) = (*this)(r[i], c[j]); }
int SparseMatrix::GetRow(int row, Array<int>& cols, Vector& srow) const
{
    int n = RowSize(row);
    cols.SetSize(n); srow.SetSize(n);
    if (fin_) for (int k = 0; k < n; k++) { cols[k] = J_[I_[row] + k]; srow[k] = A_[I_[row] + k]; }
    else { int k = 0; for (auto& [j, v] : rows_[row]) { cols[k] = j; srow[k++] = v; } }
    return fin_ ? 1 : 0;
}
void SparseMatrix::SetRow(int row, const Array<int>& cols, const Vector& srow)
{
    if (!fin_) { for (int k = 0; k < cols.Size(); k++) slot(row, cols[k]) = srow(k); return; }
    MFEM_VERIFY(cols.Size() == RowSize(row), "SetRow on a finalized matrix needs the same row size");
    for (int k = 0; k < cols.Size(); k++) { J_[I_[row] + k] = cols[k]; A_[I_[row] + k] = srow(k); }
}
void SparseMatrix::AddRow(int row, const Array<int>& cols, const Vector& srow) { for (int k = 0; k < cols.Size(); k++) slot(row, cols[k]) += srow(k); }
void SparseMatrix::ScaleRow(int row, double s)
{
    if (fin_) for (int k = I_[row]; k < I_[row + 1]; k++) A_[k] *= s;
    else for (auto& e : rows_[row]) e.second *= s;
}
void SparseMatrix::ScaleColumns(const Vector& s)
{
    for (auto& r : rows_) for (auto& [j, v] : r) v *= s(j);
    for (size_t k = 0; k < J_.size(); k++) A_[k] *= s(J_[k]);
}
void SparseMatrix::EliminateRow(int row) { ScaleRow(row, 0.0); }
SparseMatrix& SparseMatrix::operator*=(double a)
{
    for (auto& r : rows_) for (auto& e : r) e.second *= a;
    for (auto& x : A_) x *= a;
    return *this;
}
void SparseMatrix::Threshold(double tol, bool fix)
{
    MFEM_VERIFY(fin_, "Threshold needs a finalized matrix");
    std::vector<int> I(1, 0), J;
    std::vector<double> A;
    for (int i = 0; i < height; i++) {
        bool empty = true;
        for (int k = I_[i]; k < I_[i + 1]; k++) if (std::abs(A_[k]) > tol) { J.push_back(J_[k]); A.push_back(A_[k]); empty = false; }
        if (fix && empty) { J.push_back(i); A.push_back(0.0); }
        I.push_back((int)J.size());
    }
    I_.swap(I); J_.swap(J); A_.swap(A);
}
int SparseMatrix::NumNonZeroElems() const
{
    if (fin_) return (int)A_.size();
    int n = 0;
    for (auto& r : rows_) n += (int)r.size();
    return n;
}
double SparseMatrix::MaxNorm() const
{
    double m = 0;
    for (auto& r : rows_) for (auto& e : r) m = std::max(m, std::abs(e.second));
    for (double a : A_) m = std::max(m, std::abs(a));
    return m;
}
void SparseMatrix::Print(std::ostream& o, int w) const
{
    for (int i = 0; i < height; i++) {
        o << "[row " << i << "]\n";
        Array<int> c; Vector v; GetRow(i, c, v);
        for (int k = 0; k < c.Size(); k++) { o << " (" << c[k] << "," << v[k] << ")"; if ((k + 1) % w == 0) o << '\n'; }
        o << '\n';
    }
}
void SparseMatrix::PrintMatlab(std::ostream& o) const
{ for (int i = 0; i < height; i++) { Array<int> c; Vector v; GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) o << i + 1 << " " << c[k] + 1 << " " << v[k] << '\n'; } }
void SparseMatrix::PrintMM(std::ostream& o) const { o << "%%MatrixMarket matrix coordinate real general\n" << height << ' ' << width << ' ' << NumNonZeroElems() << '\n'; PrintMatlab(o); }
void SparseMatrix::PrintCSR(std::ostream& o) const
{
    need(true);
    o << height << '\n';
    for (int i : I_) o << i + 1 << '\n';
    for (int j : J_) o << j + 1 << '\n';
    for (double a : A_) o << a << '\n';
}
void SparseMatrix::PrintCSR2(std::ostream& o) const
{
    need(true);
    o << height << '\n' << width << '\n';
    for (int i : I_) o << i << '\n';
    for (int j : J_) o << j << '\n';
    for (double a : A_) o << a << '\n';
}
SparseMatrix* Mult(const SparseMatrix& A, const SparseMatrix& B, SparseMatrix* OAB)
{
    MFEM_VERIFY(A.Width() == B.Height(), "Mult: " << A.Width() << " columns times " << B.Height() << " rows");
    MFEM_VERIFY(A.Finalized() && B.Finalized(), "Mult needs finalized matrices");
    std::vector<int> I(1, 0), J;
    std::vector<double> V;
    std::vector<double> acc(B.Width(), 0.0);
    std::vector<int> mark(B.Width(), -1), cols;
    const int *aI = A.GetI(), *aJ = A.GetJ(), *bI = B.GetI(), *bJ = B.GetJ();
    const double *aV = A.GetData(), *bV = B.GetData();
    for (int i = 0; i < A.Height(); i++) {
        cols.clear();
        for (int k = aI[i]; k < aI[i + 1]; k++)
            for (int l = bI[aJ[k]]; l < bI[aJ[k] + 1]; l++) {
                int c = bJ[l];
                if (mark[c] != i) { mark[c] = i; acc[c] = 0; cols.push_back(c); }
                acc[c] += aV[k] * bV[l];
            }
        std::sort(cols.begin(), cols.end());
        for (int c : cols) { J.push_back(c); V.push_back(acc[c]); }
        I.push_back((int)J.size());
    }
    auto* r = OAB ? OAB : new SparseMatrix;
    *r = SparseMatrix(I.data(), J.data(), V.data(), A.Height(), B.Width(), false, false, true);
    return r;
}
SparseMatrix* Add(double a, const SparseMatrix& A, double b, const SparseMatrix& B)
{
    auto* r = new SparseMatrix(A.Height(), A.Width());
    r->Add(a, A); r->Add(b, B); r->Finalize(0);
    return r;
}
SparseMatrix* Add(const SparseMatrix& A, const SparseMatrix& B) { return Add(1.0, A, 1.0, B); }
SparseMatrix* Transpose(const SparseMatrix& A)
{
    auto* r = new SparseMatrix(A.Width(), A.Height());
    for (int i = 0; i < A.Height(); i++) { Array<int> c; Vector v; A.GetRow(i, c, v); for (int k = 0; k < c.Size(); k++) r->Add(c[k], i, v[k]); }
    r->Finalize(0);
    return r;
}
void Swap(SparseMatrix& a, SparseMatrix& b) { a.Swap(b); }

// ---------------------------------------------------------------- iterative solver

double IterativeSolver::Dot(const Vector& a, const Vector& b) const
{
    double l = a * b, g = 0;
    MPI_Allreduce(&l, &g, 1, MPI_DOUBLE, MPI_SUM, comm);
    return g;
}
void GMRESSolver::Mult(const Vector& b, Vector& x) const
{
    const int n = width;
    Vector r(n), w(n), z(n);
    if (iterative_mode) { oper->Mult(x, r); subtract(b, r, r); }
    else { x.SetSize(n); x = 0.0; r = b; }
    auto precond = [&](const Vector& in, Vector& out_) { if (prec) prec->Mult(in, out_); else out_ = in; };
    precond(r, z); r = z;
    double beta = std::sqrt(Dot(r, r));
    // as in MFEM the target is relative to the first (preconditioned) residual
    const double target = std::max(rel_tol * beta, abs_tol);
    converged = beta <= target;
    iters = 0; final_norm = beta;
    while (!converged && iters < max_iter) {
        std::vector<Vector> V;
        Vector v0(r); v0 *= 1.0 / beta;
        V.push_back(v0);
        std::vector<std::vector<double>> H;
        std::vector<double> cs, sn, s(1, beta);
        int k = 0;
        for (; k < m && iters < max_iter; k++) {
            iters++;
            oper->Mult(V[k], z);
            precond(z, w);
            std::vector<double> h(k + 2);
            for (int i = 0; i <= k; i++) { h[i] = Dot(w, V[i]); w.Add(-h[i], V[i]); }
            h[k + 1] = std::sqrt(Dot(w, w));
            double hn = h[k + 1];
            for (int i = 0; i < k; i++) { double t = cs[i] * h[i] + sn[i] * h[i + 1]; h[i + 1] = -sn[i] * h[i] + cs[i] * h[i + 1]; h[i] = t; }
            double d = std::hypot(h[k], h[k + 1]);
            cs.push_back(d == 0 ? 1 : h[k] / d); sn.push_back(d == 0 ? 0 : h[k + 1] / d);
            h[k] = d; h[k + 1] = 0;
            s.push_back(-sn[k] * s[k]); s[k] = cs[k] * s[k];
            H.push_back(h);
            final_norm = std::abs(s[k + 1]);
            if (final_norm <= target || hn == 0) { k++; converged = final_norm <= target || hn == 0; break; }
            Vector v(w); v *= 1.0 / hn; V.push_back(v);
        }
        std::vector<double> y(k);
        for (int i = k - 1; i >= 0; i--) { double t = s[i]; for (int j = i + 1; j < k; j++) t -= H[j][i] * y[j]; y[i] = H[i][i] == 0 ? 0 : t / H[i][i]; }
        for (int i = 0; i < k; i++) x.Add(y[i], V[i]);
        if (converged) break;
        oper->Mult(x, w); subtract(b, w, r); precond(r, z); r = z;
        beta = std::sqrt(Dot(r, r));
        final_norm = beta;
        converged = beta <= target;
    }
}

// ---------------------------------------------------------------- time stepping

void ForwardEulerSolver::Step(Vector& x, double& t, double& dt) { Vector k(x.Size()); f->SetTime(t); f->Mult(x, k); x.Add(dt, k); t += dt; }
void RK2Solver::Step(Vector& x, double& t, double& dt)
{
    const double b = 0.5 / a;
    Vector k(x.Size()), x1(x.Size());
    f->SetTime(t); f->Mult(x, k);
    add(x, (1. - b) * dt, k, x1); add(x, a * dt, k, x);
    f->SetTime(t + a * dt); f->Mult(x, k);
    add(x1, b * dt, k, x);
    t += dt;
}
void RK3SSPSolver::Step(Vector& x, double& t, double& dt)
{
    Vector k(x.Size()), y(x.Size());
    f->SetTime(t); f->Mult(x, k); add(x, dt, k, y);
    f->SetTime(t + dt); f->Mult(y, k); y.Add(dt, k); add(3. / 4, x, 1. / 4, y, y);
    f->SetTime(t + dt / 2); f->Mult(y, k); y.Add(dt, k); add(1. / 3, x, 2. / 3, y, x);
    t += dt;
}
void RK4Solver::Step(Vector& x, double& t, double& dt)
{
    Vector k(x.Size()), y(x.Size()), z(x.Size());
    f->SetTime(t); f->Mult(x, k); add(x, dt / 2, k, y); add(x, dt / 6, k, z);
    f->SetTime(t + dt / 2); f->Mult(y, k); add(x, dt / 2, k, y); z.Add(dt / 3, k);
    f->Mult(y, k); add(x, dt, k, y); z.Add(dt / 3, k);
    f->SetTime(t + dt); f->Mult(y, k); add(z, dt / 6, k, x);
    t += dt;
}
void ExplicitRKSolver::Step(Vector& x, double& t, double& dt)
{
    std::vector<Vector> k(s_, Vector(x.Size()));
    Vector y(x.Size());
    int l = 0;
    f->SetTime(t); f->Mult(x, k[0]);
    for (int i = 1; i < s_; i++) {
        y = x;
        for (int j = 0; j < i; j++) y.Add(a_[l++] * dt, k[j]);
        f->SetTime(t + c_[i - 1] * dt); f->Mult(y, k[i]);
    }
    for (int i = 0; i < s_; i++) x.Add(b_[i] * dt, k[i]);
    t += dt;
}
void BackwardEulerSolver::Step(Vector& x, double& t, double& dt) { Vector k(x.Size()); k = 0.0; f->SetTime(t + dt); f->ImplicitSolve(dt, x, k); x.Add(dt, k); t += dt; }
void ImplicitMidpointSolver::Step(Vector& x, double& t, double& dt) { Vector k(x.Size()); k = 0.0; f->SetTime(t + dt / 2); f->ImplicitSolve(dt / 2, x, k); x.Add(dt, k); t += dt; }
void TrapezoidalRuleSolver::Step(Vector& x, double& t, double& dt)
{
    Vector k(x.Size()), y(x.Size());
    f->SetTime(t); f->Mult(x, k); add(x, dt / 2, k, y); x.Add(dt / 2, k);
    f->SetTime(t + dt); f->ImplicitSolve(dt / 2, y, k); x.Add(dt / 2, k);
    t += dt;
}
SDIRK23Solver::SDIRK23Solver(int o)
{
    if (o == 0) gamma = (3. - std::sqrt(3.)) / 6.;
    else if (o == 2) gamma = (2. - std::sqrt(2.)) / 2.;
    else if (o == 3) gamma = (2. + std::sqrt(2.)) / 2.;
    else gamma = (3. + std::sqrt(3.)) / 6.;
}
void SDIRK23Solver::Step(Vector& x, double& t, double& dt)
{
    Vector k(x.Size()), y(x.Size());
    k = 0.0;
    f->SetTime(t + gamma * dt); f->ImplicitSolve(gamma * dt, x, k);
    add(x, (1. - 2. * gamma) * dt, k, y); x.Add(dt / 2, k);
    f->SetTime(t + (1. - gamma) * dt); f->ImplicitSolve(gamma * dt, y, k); x.Add(dt / 2, k);
    t += dt;
}
void SDIRK33Solver::Step(Vector& x, double& t, double& dt)
{
    // L-stable, third order (MFEM's coefficients)
    const double a = 0.435866521508458999416019, b = 1.20849664917601007033648, c = 0.717933260754229499708010;
    Vector k(x.Size()), y(x.Size());
    k = 0.0;
    f->SetTime(t + a * dt); f->ImplicitSolve(a * dt, x, k);
    add(x, (c - a) * dt, k, y); x.Add(b * dt, k);
    f->SetTime(t + c * dt); f->ImplicitSolve(a * dt, y, k);
    x.Add((1.0 - a - b) * dt, k);
    f->SetTime(t + dt); f->ImplicitSolve(a * dt, x, k);
    x.Add(a * dt, k);
    t += dt;
}
void SDIRK34Solver::Step(Vector& x, double& t, double& dt)
{
    const double a = 1.0 / std::sqrt(3.0) * std::cos(M_PI / 18.0) + 0.5;
    const double b = 1.0 / (6.0 * (2.0 * a - 1.0) * (2.0 * a - 1.0));
    Vector k(x.Size()), y(x.Size()), z(x.Size());
    k = 0.0;
    f->SetTime(t + a * dt); f->ImplicitSolve(a * dt, x, k);
    add(x, (0.5 - a) * dt, k, y); add(x, (2. * a) * dt, k, z); x.Add(b * dt, k);
    f->SetTime(t + dt / 2); f->ImplicitSolve(a * dt, y, k);
    z.Add((1. - 4. * a) * dt, k); x.Add((1. - 2. * b) * dt, k);
    f->SetTime(t + (1. - a) * dt); f->ImplicitSolve(a * dt, z, k); x.Add(b * dt, k);
    t += dt;
}

} // namespace mfem
