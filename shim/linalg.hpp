// Arrays, vectors, matrices, operators and ODE solvers with MFEM's interface.
#pragma once

#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

#include "mpi.h"

#define MFEM_USE_MPI
#define MFEM_USE_EXCEPTIONS
#define MFEM_VERSION 40800
#define MFEM_HOST_DEVICE
#define MFEM_DEVICE
#define MFEM_LAMBDA
#define MFEM_DEPRECATED
#define MFEM_CONTRACT_VAR(x) (void)(x)
#define MFEM_STREAM_MSG_(msg, what)                                   \
    do {                                                              \
        std::ostringstream mfem_oss_;                                 \
        mfem_oss_ << what << ": " << msg;                             \
        throw ::mfem::ErrorException(mfem_oss_.str());                \
    } while (0)
#define MFEM_ABORT(msg) MFEM_STREAM_MSG_(msg, "MFEM abort")
#define MFEM_VERIFY(x, msg)                                           \
    do { if (!(x)) { MFEM_STREAM_MSG_("(" << #x << ") " << msg, "Verification failed"); } } while (0)
#define MFEM_ASSERT(x, msg) MFEM_VERIFY(x, msg)
#define MFEM_WARNING(msg) do { } while (0)
#define MFEM_FORALL(i, N, ...) for (int i = 0; i < (N); i++) { __VA_ARGS__ }

namespace mfem {

using real_t = double;
inline std::ostream& out = std::cout;
inline std::ostream& err = std::cerr;

class ErrorException : public std::exception {
public:
    explicit ErrorException(const std::string& m) : msg_(m) {}
    const char* what() const noexcept override { return msg_.c_str(); }
private:
    std::string msg_;
};
[[noreturn]] inline void mfem_error(const char* m = nullptr) { throw ErrorException(m ? m : ""); }
inline void mfem_warning(const char* = nullptr) {}

inline std::string to_padded_string(int i, int digits)
{
    std::ostringstream oss;
    oss << std::setw(digits) << std::setfill('0') << i;
    return oss.str();
}
inline std::string to_string(int i) { return std::to_string(i); }

template <typename L> inline void forall(int n, L&& body) { for (int i = 0; i < n; i++) { body(i); } }
template <typename L> inline void forall_switch(bool, int n, L&& body) { for (int i = 0; i < n; i++) { body(i); } }
inline double AtomicAdd(double& a, double b) { double o = a; a += b; return o; }

struct Backend { enum Id : unsigned long { CPU = 1, OMP = 2, CUDA = 4, HIP = 8, DEBUG_DEVICE = 16,
                                           CUDA_MASK = 4, HIP_MASK = 8, DEVICE_MASK = 12 }; };
enum class MemoryType { HOST, HOST_32, HOST_64, MANAGED, DEVICE, DEFAULT };
enum class MemoryClass { HOST, DEVICE };
class Device {
public:
    Device() {}
    explicit Device(const std::string&, int = 0) {}
    void Configure(const std::string&, int = 0) {}
    void Print(std::ostream& = std::cout) {}
    static bool IsEnabled() { return false; }
    static bool Allows(unsigned long) { return false; }
    static bool GetGPUAwareMPI() { return false; }
    static void SetGPUAwareMPI(bool = true) {}
    static bool IsConfigured() { return true; }
    static void Synchronize() {}
};

template <typename T> class Memory {
public:
    Memory() = default;
    explicit Memory(int n) : p_(new T[n]), n_(n) {}
    Memory(int n, MemoryType) : Memory(n) {}
    Memory(T* p, int n, bool) : p_(p), n_(n) {}
    void New(int n) { p_ = new T[n]; n_ = n; }
    void Delete() { delete[] p_; p_ = nullptr; n_ = 0; }
    int Capacity() const { return n_; }
    T& operator[](int i) { return p_[i]; }
    const T& operator[](int i) const { return p_[i]; }
    operator T*() { return p_; }
    operator const T*() const { return p_; }
    template <typename U> explicit operator U*() { return (U*)p_; }
private:
    T* p_ = nullptr;
    int n_ = 0;
};

[[noreturn]] void outOfRange(const char* what, int i, int j, int h, int w);

template <typename T> class Array {
public:
    Array() = default;
    explicit Array(int n) : d_(n < 0 ? 0 : n), n_(n < 0 ? 0 : n) { poison(0); }
    Array(int n, MemoryType) : Array(n) {}
    Array(T* p, int n, bool = false) : n_(n), ext_(p) {}
    Array(const Array& o) { *this = o; }
    Array(Array&& o) noexcept { *this = std::move(o); }
    template <typename C, std::enable_if_t<std::is_convertible<C, T>::value && !std::is_same<C, T>::value, int> = 0>
    Array(const Array<C>& o) { SetSize(o.Size()); for (int i = 0; i < n_; i++) (*this)[i] = T(o[i]); }
    Array(std::initializer_list<T> v) : d_(v), n_((int)v.size()) {}
    template <int N> explicit Array(const T (&v)[N]) : d_(v, v + N), n_(N) {}
    Array& operator=(const Array& o)
    {
        if (this == &o) return *this;
        std::vector<T> t(o.begin(), o.end());
        d_.swap(t); n_ = o.n_; ext_ = nullptr;
        return *this;
    }
    Array& operator=(Array&& o) noexcept
    {
        if (this == &o) return *this;
        d_ = std::move(o.d_); n_ = o.n_; ext_ = o.ext_;
        o.n_ = 0; o.ext_ = nullptr; o.d_.clear();
        return *this;
    }
    Array& operator=(const T& a) { for (auto& x : *this) x = a; return *this; }

    int Size() const { return n_; }
    int Capacity() const { return (int)d_.size(); }
    bool IsEmpty() const { return n_ == 0; }
    void SetSize(int n)
    {
        if (ext_) { MFEM_VERIFY(n <= n_, "resize of external array"); n_ = n; return; }
        int o = n_;
        if (n > (int)d_.size()) d_.resize(n);
        n_ = n;
        if (n > o) poison(o);
    }
    void SetSize(int n, const T& v) { int o = n_; SetSize(n); for (int i = o; i < n; i++) (*this)[i] = v; }
    void Reserve(int c) { if (!ext_ && c > (int)d_.size()) d_.reserve(c); }
    void DeleteAll() { d_.clear(); n_ = 0; ext_ = nullptr; }
    void LoseData() { DeleteAll(); }
    int Append(const T& v)
    {
        MFEM_VERIFY(!ext_, "append to external array");
        T copy = v;
        if (n_ < (int)d_.size()) d_[n_] = copy; else d_.push_back(copy);
        return ++n_;
    }
    int Append(const T* v, int n) { for (int i = 0; i < n; i++) Append(v[i]); return n_; }
    int Append(const Array& o) { std::vector<T> t(o.begin(), o.end()); for (auto& x : t) Append(x); return n_; }
    int Prepend(const T& v) { SetSize(n_ + 1); for (int i = n_ - 1; i > 0; i--) (*this)[i] = (*this)[i - 1]; (*this)[0] = v; return n_; }
    int Union(const T& v) { int i = Find(v); if (i < 0) { Append(v); return n_ - 1; } return i; }
    int Find(const T& v) const { for (int i = 0; i < n_; i++) if ((*this)[i] == v) return i; return -1; }
    int FindSorted(const T& v) const { auto it = std::lower_bound(begin(), end(), v); return (it != end() && *it == v) ? int(it - begin()) : -1; }
    void DeleteLast() { if (n_ > 0) n_--; }
    void DeleteFirst(const T& v)
    {
        for (int i = 0; i < n_; i++) if ((*this)[i] == v) {
            for (i++; i < n_; i++) (*this)[i - 1] = (*this)[i];
            n_--; return;
        }
    }
    T& Last() { check(n_ - 1); return (*this)[n_ - 1]; }
    const T& Last() const { check(n_ - 1); return (*this)[n_ - 1]; }
    T& operator[](int i) { check(i); return ptr()[i]; }
    const T& operator[](int i) const { check(i); return ptr()[i]; }
    T* GetData() { return ptr(); }
    const T* GetData() const { return ptr(); }
    operator T*() { return ptr(); }
    operator const T*() const { return ptr(); }
    T* begin() { return ptr(); }
    T* end() { return ptr() + n_; }
    const T* begin() const { return ptr(); }
    const T* end() const { return ptr() + n_; }
    T Max() const { MFEM_VERIFY(n_ > 0, "Array is empty"); return *std::max_element(begin(), end()); }
    T Min() const { MFEM_VERIFY(n_ > 0, "Array is empty"); return *std::min_element(begin(), end()); }
    T Sum() const { T s = T(0); for (auto& x : *this) s = s + x; return s; }
    void Sort() { std::sort(begin(), end()); }
    template <class C> void Sort(C c) { std::sort(begin(), end(), c); }
    void Unique() { auto e = std::unique(begin(), end()); n_ = int(e - begin()); }
    bool IsSorted() const { return std::is_sorted(begin(), end()); }
    void PartialSum() { T s = T(0); for (auto& x : *this) { s = s + x; x = s; } }
    void Copy(Array& o) const { o = *this; }
    void MakeRef(T* p, int n) { d_.clear(); ext_ = p; n_ = n; }
    void MakeRef(const Array& o) { d_.clear(); ext_ = const_cast<T*>(o.ptr()); n_ = o.n_; }
    void GetSubArray(int off, int n, Array& sa) const { sa.SetSize(n); for (int i = 0; i < n; i++) sa[i] = (*this)[off + i]; }
    void Assign(const T* p) { for (int i = 0; i < n_; i++) (*this)[i] = p[i]; }
    template <typename It> void CopyFrom(const It* p) { for (int i = 0; i < n_; i++) (*this)[i] = p[i]; }
    const T* Read(bool = true) const { return ptr(); }
    T* Write(bool = true) { return ptr(); }
    T* ReadWrite(bool = true) { return ptr(); }
    const T* HostRead() const { return ptr(); }
    T* HostWrite() { return ptr(); }
    T* HostReadWrite() { return ptr(); }
    bool UseDevice() const { return false; }
    void Print(std::ostream& o = std::cout, int w = 4) const
    { for (int i = 0; i < n_; i++) { o << (*this)[i] << ((i + 1) % w == 0 || i + 1 == n_ ? '\n' : ' '); } }
    void Save(std::ostream& o, int fmt = 0) const { if (fmt == 0) o << n_ << '\n'; for (auto& x : *this) o << x << '\n'; }
    void Load(std::istream& in, int fmt = 0) { if (fmt == 0) { int n; in >> n; SetSize(n); } for (auto& x : *this) in >> x; }

private:
    std::vector<T> d_;
    int n_ = 0;
    T* ext_ = nullptr;
    T* ptr() { return ext_ ? ext_ : d_.data(); }
    const T* ptr() const { return ext_ ? ext_ : d_.data(); }
    void check(int i) const
    { if (i < 0 || i >= n_) outOfRange("Array", i, -1, n_, -1); }
    void poison(int from)
    {
        // MFEM leaves new entries uninitialised; a recognisable value makes use of one visible.
        if constexpr (std::is_same<T, int>::value)
            for (int i = from; i < n_; i++) d_[i] = -777777777;
        else if constexpr (std::is_same<T, double>::value)
            for (int i = from; i < n_; i++) d_[i] = std::numeric_limits<double>::quiet_NaN();
    }
};

template <> class Array<bool> {
public:
    Array() = default;
    explicit Array(int n) : d_(n, 0) {}
    int Size() const { return (int)d_.size(); }
    void SetSize(int n) { d_.resize(n, 0); }
    bool& operator[](int i) { MFEM_VERIFY(i >= 0 && i < Size(), "range"); return reinterpret_cast<bool&>(d_[i]); }
    const bool& operator[](int i) const { MFEM_VERIFY(i >= 0 && i < Size(), "range"); return reinterpret_cast<const bool&>(d_[i]); }
    Array& operator=(bool b) { std::fill(d_.begin(), d_.end(), (char)b); return *this; }
    int Append(bool b) { d_.push_back(b); return Size(); }
    bool* begin() { return reinterpret_cast<bool*>(d_.data()); }
    bool* end() { return begin() + Size(); }
private:
    std::vector<char> d_;
};

template <class T> inline bool operator==(const Array<T>& a, const Array<T>& b)
{
    if (a.Size() != b.Size()) return false;
    for (int i = 0; i < a.Size(); i++) if (!(a[i] == b[i])) return false;
    return true;
}
template <class T> inline bool operator!=(const Array<T>& a, const Array<T>& b) { return !(a == b); }

class Table {
public:
    Table() = default;
    explicit Table(int n) : r_(n) {}
    void MakeRows(const std::vector<std::vector<int>>& r) { r_ = r; sync(); }
    void Finalize() {}
    int Size() const { return (int)r_.size(); }
    int Width() const { int w = -1; for (auto& r : r_) for (int c : r) w = std::max(w, c); return w + 1; }
    int RowSize(int i) const { return (int)r_.at(i).size(); }
    void GetRow(int i, Array<int>& row) const { row.SetSize(RowSize(i)); for (int j = 0; j < RowSize(i); j++) row[j] = r_[i][j]; }
    const int* GetRow(int i) const { return r_.at(i).data(); }
    int* GetRow(int i) { return r_.at(i).data(); }
    int Size_of_connections() const { int n = 0; for (auto& r : r_) n += (int)r.size(); return n; }
    int* GetI() { sync(); return I_.data(); }
    int* GetJ() { sync(); return J_.data(); }
    const int* GetI() const { const_cast<Table*>(this)->sync(); return I_.data(); }
    const int* GetJ() const { const_cast<Table*>(this)->sync(); return J_.data(); }
    void Print(std::ostream& o = std::cout, int = 4) const
    { for (int i = 0; i < Size(); i++) { o << "[row " << i << "]\n"; for (int c : r_[i]) o << c << ' '; o << '\n'; } }
private:
    std::vector<std::vector<int>> r_;
    std::vector<int> I_, J_;
    void sync() { I_.assign(1, 0); J_.clear(); for (auto& r : r_) { J_.insert(J_.end(), r.begin(), r.end()); I_.push_back((int)J_.size()); } }
};
inline void Transpose(const Table& A, Table& At, int ncols = -1)
{
    int w = ncols >= 0 ? ncols : A.Width();
    std::vector<std::vector<int>> r(w);
    for (int i = 0; i < A.Size(); i++) for (int j = 0; j < A.RowSize(i); j++) r[A.GetRow(i)[j]].push_back(i);
    At.MakeRows(r);
}

class Vector {
public:
    Vector() = default;
    explicit Vector(int s) { SetSize(s); }
    Vector(int s, MemoryType) { SetSize(s); }
    Vector(const Vector& v) { SetSize(v.Size()); std::copy(v.p_, v.p_ + n_, p_); dev_ = v.dev_; }
    Vector(Vector&& v) noexcept { *this = std::move(v); }
    Vector(double* p, int s) : p_(p), n_(s), own_(false) {}
    Vector(Vector& base, int off, int s) { MakeRef(base, off, s); }
    template <int N> explicit Vector(const double (&v)[N]) { SetSize(N); std::copy(v, v + N, p_); }
    virtual ~Vector() { release(); }

    Vector& operator=(const Vector& v)
    {
        if (this == &v) return *this;
        if (v.p_ == p_ && v.n_ == n_) return *this;
        SetSize(v.n_);
        std::copy(v.p_, v.p_ + n_, p_);
        return *this;
    }
    Vector& operator=(Vector&& v) noexcept
    {
        if (this == &v) return *this;
        release();
        p_ = v.p_; n_ = v.n_; cap_ = v.cap_; own_ = v.own_; dev_ = v.dev_;
        v.p_ = nullptr; v.n_ = 0; v.cap_ = 0; v.own_ = true;
        return *this;
    }
    Vector& operator=(double a) { std::fill(p_, p_ + n_, a); return *this; }
    Vector& operator=(const double* v) { std::copy(v, v + n_, p_); return *this; }

    int Size() const { return n_; }
    int Capacity() const { return own_ ? cap_ : n_; }
    void SetSize(int s)
    {
        if (s == n_) return;
        if (own_ && s <= cap_) { n_ = s; return; }
        if (!own_ && s <= n_) { n_ = s; return; }
        release();
        alloc(s);
    }
    void SetSize(int s, MemoryType) { SetSize(s); }
    void SetSize(int s, const Vector&) { SetSize(s); }
    void UseDevice(bool b) const { dev_ = b; }
    bool UseDevice() const { return dev_; }
    void SetData(double* d) { release(); p_ = d; own_ = false; }
    void SetDataAndSize(double* d, int s) { release(); p_ = d; n_ = s; own_ = false; }
    void NewDataAndSize(double* d, int s) { SetDataAndSize(d, s); }
    void MakeDataOwner() const { own_ = true; cap_ = n_; }
    void MakeRef(Vector& base, int off, int s)
    {
        MFEM_VERIFY(off >= 0 && off + s <= base.Size(), "MakeRef out of range");
        release(); p_ = base.p_ + off; n_ = s; own_ = false;
    }
    void MakeRef(Vector& base, int off)
    {
        int s = n_;
        MFEM_VERIFY(off >= 0 && off + s <= base.Size(), "MakeRef out of range");
        release(); p_ = base.p_ + off; n_ = s; own_ = false;
    }
    bool OwnsData() const { return own_; }
    void Destroy() { release(); }
    void DeleteDevice(bool = true) {}
    double* GetData() const { return p_; }
    operator double*() { return p_; }
    operator const double*() const { return p_; }
    double* begin() { return p_; }
    double* end() { return p_ + n_; }
    const double* begin() const { return p_; }
    const double* end() const { return p_ + n_; }
    double& operator()(int i) { check(i); return p_[i]; }
    const double& operator()(int i) const { check(i); return p_[i]; }
    double& operator[](int i) { check(i); return p_[i]; }
    const double& operator[](int i) const { check(i); return p_[i]; }
    double& Elem(int i) { check(i); return p_[i]; }
    const double& Elem(int i) const { check(i); return p_[i]; }
    const double* Read(bool = true) const { return p_; }
    double* Write(bool = true) { return p_; }
    double* ReadWrite(bool = true) { return p_; }
    const double* HostRead() const { return p_; }
    double* HostWrite() { return p_; }
    double* HostReadWrite() { return p_; }
    void SyncMemory(const Vector&) const {}
    void SyncAliasMemory(const Vector&) const {}

    double operator*(const double* v) const { double s = 0; for (int i = 0; i < n_; i++) s += p_[i] * v[i]; return s; }
    double operator*(const Vector& v) const { same(v); double s = 0; for (int i = 0; i < n_; i++) s += p_[i] * v.p_[i]; return s; }
    Vector& operator*=(double a) { for (int i = 0; i < n_; i++) p_[i] *= a; return *this; }
    Vector& operator*=(const Vector& v) { same(v); for (int i = 0; i < n_; i++) p_[i] *= v.p_[i]; return *this; }
    Vector& operator/=(double a) { double m = 1.0 / a; for (int i = 0; i < n_; i++) p_[i] *= m; return *this; }
    Vector& operator/=(const Vector& v) { same(v); for (int i = 0; i < n_; i++) p_[i] /= v.p_[i]; return *this; }
    Vector& operator-=(double a) { for (int i = 0; i < n_; i++) p_[i] -= a; return *this; }
    Vector& operator-=(const Vector& v) { same(v); for (int i = 0; i < n_; i++) p_[i] -= v.p_[i]; return *this; }
    Vector& operator+=(double a) { for (int i = 0; i < n_; i++) p_[i] += a; return *this; }
    Vector& operator+=(const Vector& v) { same(v); for (int i = 0; i < n_; i++) p_[i] += v.p_[i]; return *this; }
    Vector& Add(double a, const Vector& v) { same(v); for (int i = 0; i < n_; i++) p_[i] += a * v.p_[i]; return *this; }
    Vector& Set(double a, const Vector& v) { same(v); for (int i = 0; i < n_; i++) p_[i] = a * v.p_[i]; return *this; }
    void SetVector(const Vector& v, int off)
    { MFEM_VERIFY(v.n_ + off <= n_, "SetVector out of range"); for (int i = 0; i < v.n_; i++) p_[off + i] = v.p_[i]; }
    void AddVector(const Vector& v, int off)
    { MFEM_VERIFY(v.n_ + off <= n_, "AddVector out of range"); for (int i = 0; i < v.n_; i++) p_[off + i] += v.p_[i]; }
    void Neg() { for (int i = 0; i < n_; i++) p_[i] = -p_[i]; }
    void Reciprocal() { for (int i = 0; i < n_; i++) p_[i] = 1.0 / p_[i]; }
    void Abs() { for (int i = 0; i < n_; i++) p_[i] = std::abs(p_[i]); }
    void Swap(Vector& o) { std::swap(p_, o.p_); std::swap(n_, o.n_); std::swap(cap_, o.cap_); std::swap(own_, o.own_); }
    void cross3D(const Vector& w, Vector& o) const
    {
        o.SetSize(3);
        o(0) = p_[1] * w[2] - p_[2] * w[1]; o(1) = p_[2] * w[0] - p_[0] * w[2]; o(2) = p_[0] * w[1] - p_[1] * w[0];
    }
    double Norml2() const { double m = Normlinf(); if (m == 0 || !std::isfinite(m)) return (m == 0) ? nanOr(0.0) : m;
        double s = 0; for (int i = 0; i < n_; i++) { double t = p_[i] / m; s += t * t; } return m * std::sqrt(s); }
    double Normlinf() const { double m = 0; for (int i = 0; i < n_; i++) m = std::max(m, std::abs(p_[i])); return m; }
    double Norml1() const { double m = 0; for (int i = 0; i < n_; i++) m += std::abs(p_[i]); return m; }
    double Normlp(double p) const { if (p == 1) return Norml1(); if (p == 2) return Norml2(); if (std::isinf(p)) return Normlinf();
        double s = 0; for (int i = 0; i < n_; i++) s += std::pow(std::abs(p_[i]), p); return std::pow(s, 1.0 / p); }
    double Max() const { return *std::max_element(p_, p_ + n_); }
    double Min() const { return *std::min_element(p_, p_ + n_); }
    double Sum() const { double s = 0; for (int i = 0; i < n_; i++) s += p_[i]; return s; }
    double DistanceTo(const double* q) const { double s = 0; for (int i = 0; i < n_; i++) s += (p_[i] - q[i]) * (p_[i] - q[i]); return std::sqrt(s); }
    double DistanceSquaredTo(const double* q) const { double s = 0; for (int i = 0; i < n_; i++) s += (p_[i] - q[i]) * (p_[i] - q[i]); return s; }
    double DistanceTo(const Vector& q) const { return DistanceTo(q.p_); }
    int CheckFinite() const { int c = 0; for (int i = 0; i < n_; i++) c += !std::isfinite(p_[i]); return c; }
    void GetSubVector(const Array<int>& d, Vector& v) const
    { v.SetSize(d.Size()); for (int i = 0; i < d.Size(); i++) v(i) = d[i] >= 0 ? (*this)(d[i]) : -(*this)(-1 - d[i]); }
    void GetSubVector(const Array<int>& d, double* v) const
    { for (int i = 0; i < d.Size(); i++) v[i] = d[i] >= 0 ? (*this)(d[i]) : -(*this)(-1 - d[i]); }
    void SetSubVector(const Array<int>& d, double v) { for (int i = 0; i < d.Size(); i++) (*this)(d[i] >= 0 ? d[i] : -1 - d[i]) = d[i] >= 0 ? v : -v; }
    void SetSubVector(const Array<int>& d, const Vector& v) { for (int i = 0; i < d.Size(); i++) (*this)(d[i] >= 0 ? d[i] : -1 - d[i]) = d[i] >= 0 ? v(i) : -v(i); }
    void SetSubVector(const Array<int>& d, double* v) { for (int i = 0; i < d.Size(); i++) (*this)(d[i]) = v[i]; }
    void AddElementVector(const Array<int>& d, const Vector& v) { for (int i = 0; i < d.Size(); i++) (*this)(d[i] >= 0 ? d[i] : -1 - d[i]) += d[i] >= 0 ? v(i) : -v(i); }
    void AddElementVector(const Array<int>& d, double a, const Vector& v) { for (int i = 0; i < d.Size(); i++) (*this)(d[i]) += a * v(i); }
    void Randomize(int seed = 0) { std::srand(seed ? seed : 1); for (int i = 0; i < n_; i++) p_[i] = std::rand() / (double)RAND_MAX; }
    void Print(std::ostream& o = std::cout, int w = 8) const
    { for (int i = 0; i < n_; i++) o << p_[i] << ((i + 1) % w == 0 || i + 1 == n_ ? '\n' : ' '); }
    void Print(const char* f, int w = 8) const { std::ofstream o(f); Print(o, w); }
    void Load(std::istream& in, int s) { SetSize(s); for (int i = 0; i < s; i++) in >> p_[i]; }
    void Load(std::istream& in) { int s; in >> s; Load(in, s); }

protected:
    double* p_ = nullptr;
    int n_ = 0;
    mutable int cap_ = 0;
    mutable bool own_ = true;
    mutable bool dev_ = false;
    void alloc(int s)
    {
        MFEM_VERIFY(s >= 0, "negative vector size");
        p_ = s > 0 ? new double[s] : nullptr;
        n_ = cap_ = s; own_ = true;
        // MFEM leaves this memory uninitialised; NaN makes any use of it visible.
        std::fill(p_, p_ + s, std::numeric_limits<double>::quiet_NaN());
    }
    void release() { if (own_) delete[] p_; p_ = nullptr; n_ = 0; cap_ = 0; own_ = true; }
    void check(int i) const { if (i < 0 || i >= n_) outOfRange("Vector", i, -1, n_, -1); }
    void same(const Vector& v) const { MFEM_VERIFY(v.n_ == n_, "incompatible Vectors: " << n_ << " and " << v.n_); }
    double nanOr(double z) const { for (int i = 0; i < n_; i++) if (std::isnan(p_[i])) return p_[i]; return z; }
};

inline double InnerProduct(const Vector& x, const Vector& y) { return x * y; }
inline double operator*(const Vector& x, double*) = delete;
inline void add(const Vector& a, const Vector& b, Vector& v) { v.SetSize(a.Size()); for (int i = 0; i < v.Size(); i++) v[i] = a[i] + b[i]; }
inline void add(const Vector& a, double s, const Vector& b, Vector& v) { v.SetSize(a.Size()); for (int i = 0; i < v.Size(); i++) v[i] = a[i] + s * b[i]; }
inline void add(double s, const Vector& a, const Vector& b, Vector& v) { v.SetSize(a.Size()); for (int i = 0; i < v.Size(); i++) v[i] = s * (a[i] + b[i]); }
inline void add(double s, const Vector& a, double t, const Vector& b, Vector& v) { v.SetSize(a.Size()); for (int i = 0; i < v.Size(); i++) v[i] = s * a[i] + t * b[i]; }
inline void subtract(const Vector& a, const Vector& b, Vector& v) { v.SetSize(a.Size()); for (int i = 0; i < v.Size(); i++) v[i] = a[i] - b[i]; }
inline void subtract(double s, const Vector& a, const Vector& b, Vector& v) { v.SetSize(a.Size()); for (int i = 0; i < v.Size(); i++) v[i] = s * (a[i] - b[i]); }

class Operator {
public:
    enum Type { ANY_TYPE, MFEM_SPARSEMAT, Hypre_ParCSR };
    explicit Operator(int s = 0) : height(s), width(s) {}
    Operator(int h, int w) : height(h), width(w) {}
    virtual ~Operator() = default;
    int Height() const { return height; }
    int NumRows() const { return height; }
    int Width() const { return width; }
    int NumCols() const { return width; }
    virtual void Mult(const Vector& x, Vector& y) const = 0;
    virtual void MultTranspose(const Vector&, Vector&) const { MFEM_ABORT("MultTranspose not available"); }
    virtual void AddMult(const Vector& x, Vector& y, const double a = 1.0) const { Vector z(y.Size()); Mult(x, z); y.Add(a, z); }
    virtual Operator& GetGradient(const Vector&) const { MFEM_ABORT("GetGradient not available"); }
    virtual MemoryClass GetMemoryClass() const { return MemoryClass::HOST; }
protected:
    int height, width;
};

class TimeDependentOperator : public Operator {
public:
    enum Type { EXPLICIT, IMPLICIT, HOMOGENEOUS };
    enum EvalMode { NORMAL, ADDITIVE_TERM_1, ADDITIVE_TERM_2 };
    explicit TimeDependentOperator(int n = 0, double t0 = 0.0, Type ty = EXPLICIT) : Operator(n), t(t0), type(ty) {}
    TimeDependentOperator(int h, int w, double t0 = 0.0, Type ty = EXPLICIT) : Operator(h, w), t(t0), type(ty) {}
    virtual double GetTime() const { return t; }
    virtual void SetTime(const double t0) { t = t0; }
    bool isExplicit() const { return type == EXPLICIT; }
    bool isImplicit() const { return !isExplicit(); }
    bool isHomogeneous() const { return type == HOMOGENEOUS; }
    virtual EvalMode GetEvalMode() const { return eval_mode; }
    virtual void SetEvalMode(const EvalMode m) { eval_mode = m; }
    virtual void ExplicitMult(const Vector&, Vector&) const { MFEM_ABORT("ExplicitMult not available"); }
    virtual void ImplicitMult(const Vector&, const Vector&, Vector&) const { MFEM_ABORT("ImplicitMult not available"); }
    void Mult(const Vector&, Vector&) const override { MFEM_ABORT("TimeDependentOperator::Mult() is not overridden!"); }
    virtual void ImplicitSolve(const double, const Vector&, Vector&) { MFEM_ABORT("TimeDependentOperator::ImplicitSolve() is not overridden!"); }
protected:
    double t;
    Type type;
    EvalMode eval_mode = NORMAL;
};

class Matrix : public Operator {
public:
    explicit Matrix(int s = 0) : Operator(s) {}
    Matrix(int h, int w) : Operator(h, w) {}
    int Size() const { return width; }
    bool IsSquare() const { return height == width; }
    virtual double& Elem(int i, int j) = 0;
    virtual const double& Elem(int i, int j) const = 0;
    virtual void Finalize(int) {}
};

class DenseMatrix : public Matrix {
public:
    DenseMatrix() : Matrix(0, 0) {}
    explicit DenseMatrix(int s) : Matrix(s) { alloc(); }
    DenseMatrix(int h, int w) : Matrix(h, w) { alloc(); }
    DenseMatrix(double* d, int h, int w) : Matrix(h, w), ext_(d) {}
    DenseMatrix(const DenseMatrix& m, char ch) : Matrix(m.Width(), m.Height())
    { alloc(); if (ch == 't') for (int i = 0; i < height; i++) for (int j = 0; j < width; j++) (*this)(i, j) = m(j, i); }
    template <int M, int N> explicit DenseMatrix(const double (&v)[M][N]) : Matrix(M, N)
    { alloc(); for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) (*this)(i, j) = v[i][j]; }
    DenseMatrix(const DenseMatrix& m) : Matrix(m.height, m.width) { d_.assign(m.ptr(), m.ptr() + m.height * m.width); }
    DenseMatrix(DenseMatrix&&) = default;
    DenseMatrix& operator=(const DenseMatrix& m)
    {
        if (this == &m) return *this;
        std::vector<double> t(m.ptr(), m.ptr() + m.height * m.width);
        height = m.height; width = m.width; d_.swap(t); ext_ = nullptr; return *this;
    }
    DenseMatrix& operator=(DenseMatrix&&) = default;
    DenseMatrix& operator=(double c) { std::fill(ptr(), ptr() + height * width, c); return *this; }
    DenseMatrix& operator=(const double* p) { std::copy(p, p + height * width, ptr()); return *this; }
    void UseExternalData(double* d, int h, int w) { ext_ = d; height = h; width = w; }
    void Reset(double* d, int h, int w) { UseExternalData(d, h, w); }
    void ClearExternalData() { ext_ = nullptr; height = width = 0; }
    void Clear() { d_.clear(); ext_ = nullptr; height = width = 0; }
    void SetSize(int s) { SetSize(s, s); }
    void SetSize(int h, int w) { if (h == height && w == width) return; height = h; width = w; ext_ = nullptr; alloc(); }
    int TotalSize() const { return height * width; }
    double* Data() const { return const_cast<double*>(ptr()); }
    double* GetData() const { return const_cast<double*>(ptr()); }
    double* GetColumn(int j) { return ptr() + (size_t)j * height; }
    const double* GetColumn(int j) const { return ptr() + (size_t)j * height; }
    double& operator()(int i, int j) { check(i, j); return ptr()[i + (size_t)j * height]; }
    const double& operator()(int i, int j) const { check(i, j); return ptr()[i + (size_t)j * height]; }
    double& Elem(int i, int j) override { return (*this)(i, j); }
    const double& Elem(int i, int j) const override { return (*this)(i, j); }
    double operator*(const DenseMatrix& m) const { double s = 0; for (int i = 0; i < TotalSize(); i++) s += ptr()[i] * m.ptr()[i]; return s; }
    double Trace() const { double s = 0; for (int i = 0; i < height; i++) s += (*this)(i, i); return s; }
    DenseMatrix& operator*=(double c) { for (int i = 0; i < TotalSize(); i++) ptr()[i] *= c; return *this; }
    DenseMatrix& operator+=(const DenseMatrix& m) { MFEM_VERIFY(height == m.height && width == m.width, "size"); for (int i = 0; i < TotalSize(); i++) ptr()[i] += m.ptr()[i]; return *this; }
    DenseMatrix& operator-=(const DenseMatrix& m) { MFEM_VERIFY(height == m.height && width == m.width, "size"); for (int i = 0; i < TotalSize(); i++) ptr()[i] -= m.ptr()[i]; return *this; }
    DenseMatrix& operator+=(const double* m) { for (int i = 0; i < TotalSize(); i++) ptr()[i] += m[i]; return *this; }
    void Set(double a, const DenseMatrix& m) { SetSize(m.height, m.width); for (int i = 0; i < TotalSize(); i++) ptr()[i] = a * m.ptr()[i]; }
    void Add(double a, const DenseMatrix& m) { for (int i = 0; i < TotalSize(); i++) ptr()[i] += a * m.ptr()[i]; }
    void Neg() { for (int i = 0; i < TotalSize(); i++) ptr()[i] = -ptr()[i]; }
    void Mult(const double* x, double* y) const { for (int i = 0; i < height; i++) { double s = 0; for (int j = 0; j < width; j++) s += (*this)(i, j) * x[j]; y[i] = s; } }
    void Mult(const Vector& x, Vector& y) const override { MFEM_VERIFY(x.Size() == width && y.Size() == height, "incompatible dimensions"); Mult(x.GetData(), y.GetData()); }
    void Mult(const double* x, Vector& y) const { Mult(x, y.GetData()); }
    void Mult(const Vector& x, double* y) const { Mult(x.GetData(), y); }
    void MultTranspose(const double* x, double* y) const { for (int j = 0; j < width; j++) { double s = 0; for (int i = 0; i < height; i++) s += (*this)(i, j) * x[i]; y[j] = s; } }
    void MultTranspose(const Vector& x, Vector& y) const override { MFEM_VERIFY(x.Size() == height && y.Size() == width, "incompatible dimensions"); MultTranspose(x.GetData(), y.GetData()); }
    void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override { for (int i = 0; i < height; i++) { double s = 0; for (int j = 0; j < width; j++) s += (*this)(i, j) * x[j]; y[i] += a * s; } }
    void AddMult_a(double a, const Vector& x, Vector& y) const { AddMult(x, y, a); }
    double Det() const;
    double Weight() const;
    void Invert();
    void Transpose() { DenseMatrix t(*this, 't'); *this = t; }
    void Transpose(const DenseMatrix& m) { DenseMatrix t(m, 't'); *this = t; }
    double FNorm() const { double s = 0; for (int i = 0; i < TotalSize(); i++) s += ptr()[i] * ptr()[i]; return std::sqrt(s); }
    double FNorm2() const { double f = FNorm(); return f * f; }
    double MaxMaxNorm() const { double s = 0; for (int i = 0; i < TotalSize(); i++) s = std::max(s, std::abs(ptr()[i])); return s; }
    void GetColumn(int c, Vector& v) const { v.SetSize(height); for (int i = 0; i < height; i++) v(i) = (*this)(i, c); }
    void GetColumnReference(int c, Vector& v) { v.SetDataAndSize(ptr() + (size_t)c * height, height); }
    void GetRow(int r, Vector& v) const { v.SetSize(width); for (int j = 0; j < width; j++) v(j) = (*this)(r, j); }
    void SetRow(int r, const double* v) { for (int j = 0; j < width; j++) (*this)(r, j) = v[j]; }
    void SetRow(int r, const Vector& v) { for (int j = 0; j < width; j++) (*this)(r, j) = v(j); }
    void SetRow(int r, double v) { for (int j = 0; j < width; j++) (*this)(r, j) = v; }
    void SetCol(int c, const double* v) { for (int i = 0; i < height; i++) (*this)(i, c) = v[i]; }
    void SetCol(int c, const Vector& v) { for (int i = 0; i < height; i++) (*this)(i, c) = v(i); }
    void Diag(double c, int n) { SetSize(n); *this = 0.0; for (int i = 0; i < n; i++) (*this)(i, i) = c; }
    void CopyMN(const DenseMatrix& A, int m, int n, int Aro, int Aco) { SetSize(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) (*this)(i, j) = A(Aro + i, Aco + j); }
    void CopyMN(const DenseMatrix& A, int ro, int co) { for (int j = 0; j < A.Width(); j++) for (int i = 0; i < A.Height(); i++) (*this)(ro + i, co + j) = A(i, j); }
    void AddMatrix(const DenseMatrix& A, int ro, int co) { AddMatrix(1.0, A, ro, co); }
    void AddMatrix(double a, const DenseMatrix& A, int ro, int co) { for (int j = 0; j < A.Width(); j++) for (int i = 0; i < A.Height(); i++) (*this)(ro + i, co + j) += a * A(i, j); }
    void Print(std::ostream& o = std::cout, int w = 4) const
    { for (int i = 0; i < height; i++) { o << "[row " << i << "]\n"; for (int j = 0; j < width; j++) { o << (*this)(i, j) << (((j + 1) % w == 0 || j + 1 == width) ? '\n' : ' '); } } }
    void PrintMatlab(std::ostream& o = std::cout) const { for (int i = 0; i < height; i++) { for (int j = 0; j < width; j++) o << (*this)(i, j) << ' '; o << '\n'; } }
    void Swap(DenseMatrix& o) { std::swap(*this, o); }
private:
    std::vector<double> d_;
    double* ext_ = nullptr;
    double* ptr() { return ext_ ? ext_ : d_.data(); }
    const double* ptr() const { return ext_ ? ext_ : d_.data(); }
    // MFEM's DenseMatrix(h,w) zero-initialises, SetSize does not promise to; zeros keep both readings valid.
    void alloc() { d_.assign((size_t)height * width, 0.0); }
    void check(int i, int j) const
    { if (i < 0 || i >= height || j < 0 || j >= width) outOfRange("DenseMatrix", i, j, height, width); }
};

void CalcAdjugate(const DenseMatrix& a, DenseMatrix& adja);
void CalcInverse(const DenseMatrix& a, DenseMatrix& inva);
void CalcOrtho(const DenseMatrix& J, Vector& n);
void Mult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a);
void AddMult(const DenseMatrix& b, const DenseMatrix& c, DenseMatrix& a);
void MultABt(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& ABt);
void AddMultABt(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& ABt);
void AddMult_a_ABt(double a, const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& ABt);
void MultAtB(const DenseMatrix& A, const DenseMatrix& B, DenseMatrix& AtB);
void MultVWt(const Vector& v, const Vector& w, DenseMatrix& VWt);
void AddMultVWt(const Vector& v, const Vector& w, DenseMatrix& VWt);
void AddMult_a_VWt(double a, const Vector& v, const Vector& w, DenseMatrix& VWt);
void MultVVt(const Vector& v, DenseMatrix& VVt);
void AddMultVVt(const Vector& v, DenseMatrix& VVt);
void AddMult_a_VVt(double a, const Vector& v, DenseMatrix& VVt);
void Add(const DenseMatrix& A, const DenseMatrix& B, double alpha, DenseMatrix& C);

class DenseMatrixInverse : public Operator {
public:
    DenseMatrixInverse(bool = false) {}
    explicit DenseMatrixInverse(const DenseMatrix& m, bool = false) : Operator(m.Height(), m.Width()), src_(m) { Factor(); }
    explicit DenseMatrixInverse(const DenseMatrix* m, bool = false) : Operator(m->Height(), m->Width()), src_(*m) { Factor(); }
    void Factor() { inv_ = src_; inv_.Invert(); }
    void Factor(const DenseMatrix& m) { src_ = m; height = m.Height(); width = m.Width(); Factor(); }
    void SetOperator(const Operator& op) { auto* d = dynamic_cast<const DenseMatrix*>(&op); MFEM_VERIFY(d, "not dense"); Factor(*d); }
    void Mult(const double* x, double* y) const { inv_.Mult(x, y); }
    void Mult(const Vector& x, Vector& y) const override { y.SetSize(inv_.Height()); inv_.Mult(x.GetData(), y.GetData()); }
    void Mult(Vector& x) const { Vector y(x.Size()); Mult((const Vector&)x, y); x = y; }
    void Mult(const DenseMatrix& B, DenseMatrix& X) const { X.SetSize(inv_.Height(), B.Width()); mfem::Mult(inv_, B, X); }
    void GetInverseMatrix(DenseMatrix& m) const { m = inv_; }
private:
    DenseMatrix src_, inv_;
};

/// Row-wise sparse matrix. Rows are kept sorted by column in both states.
class SparseMatrix : public Matrix {
public:
    SparseMatrix() : Matrix(0, 0), fin_(false) {}
    explicit SparseMatrix(int nrows, int ncols = -1) : Matrix(nrows, ncols >= 0 ? ncols : nrows), rows_(nrows), fin_(false) {}
    SparseMatrix(int* I, int* J, double* d, int m, int n) : SparseMatrix(I, J, d, m, n, true, true, true) {}
    SparseMatrix(int* I, int* J, double* d, int m, int n, bool ownij, bool owna, bool = false);
    SparseMatrix(const SparseMatrix& o, bool = true) : Matrix(o.height, o.width), rows_(o.rows_), I_(o.I_), J_(o.J_), A_(o.A_), fin_(o.fin_) {}
    explicit SparseMatrix(const Vector& diag);
    SparseMatrix(SparseMatrix&& o) = default;
    SparseMatrix& operator=(const SparseMatrix& o)
    { if (this != &o) { height = o.height; width = o.width; rows_ = o.rows_; I_ = o.I_; J_ = o.J_; A_ = o.A_; fin_ = o.fin_; } return *this; }
    SparseMatrix& operator=(SparseMatrix&& o) = default;
    SparseMatrix& operator=(double a);
    void OverrideSize(int h, int w) { height = h; width = w; }
    void Clear() { *this = SparseMatrix(); }
    bool Empty() const { return A_.empty() && rows_.empty(); }
    void MakeRef(const SparseMatrix& m) { *this = m; }

    int* GetI() { need(true); return I_.data(); }
    int* GetJ() { need(true); return J_.data(); }
    double* GetData() { need(true); return A_.data(); }
    const int* GetI() const { need(true); return I_.data(); }
    const int* GetJ() const { need(true); return J_.data(); }
    const double* GetData() const { need(true); return A_.data(); }
    int* ReadWriteI(bool = true) { return GetI(); }
    int* ReadWriteJ(bool = true) { return GetJ(); }
    double* ReadWriteData(bool = true) { return GetData(); }
    const int* ReadI(bool = true) const { return GetI(); }
    const int* ReadJ(bool = true) const { return GetJ(); }
    const double* ReadData(bool = true) const { return GetData(); }
    const int* HostReadI() const { return GetI(); }
    const int* HostReadJ() const { return GetJ(); }
    const double* HostReadData() const { return GetData(); }
    double* HostReadWriteData() { return GetData(); }

    int RowSize(int i) const;
    int MaxRowSize() const { int m = 0; for (int i = 0; i < height; i++) m = std::max(m, RowSize(i)); return m; }
    int* GetRowColumns(int row) { need(true); return J_.data() + I_[row]; }
    const int* GetRowColumns(int row) const { need(true); return J_.data() + I_[row]; }
    double* GetRowEntries(int row) { need(true); return A_.data() + I_[row]; }
    const double* GetRowEntries(int row) const { need(true); return A_.data() + I_[row]; }
    void SetWidth(int w = -1) { if (w >= 0) width = w; else width = ActualWidth(); }
    int ActualWidth() const;
    void SortColumnIndices() {}
    double& Elem(int i, int j) override { return (*this)(i, j); }
    const double& Elem(int i, int j) const override { return (*this)(i, j); }
    double& operator()(int i, int j);
    const double& operator()(int i, int j) const;
    void GetDiag(Vector& d) const;
    DenseMatrix* ToDenseMatrix() const { auto* d = new DenseMatrix; ToDenseMatrix(*d); return d; }
    void ToDenseMatrix(DenseMatrix& B) const;
    void Mult(const Vector& x, Vector& y) const override { y.SetSize(height); y = 0.0; AddMult(x, y); }
    void AddMult(const Vector& x, Vector& y, const double a = 1.0) const override;
    void MultTranspose(const Vector& x, Vector& y) const override { y = 0.0; AddMultTranspose(x, y); }
    void AddMultTranspose(const Vector& x, Vector& y, const double a = 1.0) const;
    double InnerProduct(const Vector& x, const Vector& y) const { Vector z(height); Mult(x, z); return z * y; }
    void Add(int i, int j, double v) { (*this).slot(i, j) += v; }
    void Set(int i, int j, double v) { (*this).slot(i, j) = v; }
    void Add(double a, const SparseMatrix& B);
    SparseMatrix& Add(double a, const SparseMatrix& B, int) { Add(a, B); return *this; }
    void _Add_(int i, int j, double v) { Add(i, j, v); }
    void _Set_(int i, int j, double v) { Set(i, j, v); }
    void AddSubMatrix(const Array<int>& r, const Array<int>& c, const DenseMatrix& m, int skip_zeros = 1);
    void SetSubMatrix(const Array<int>& r, const Array<int>& c, const DenseMatrix& m, int skip_zeros = 1);
    void GetSubMatrix(const Array<int>& r, const Array<int>& c, DenseMatrix& m) const;
    int GetRow(int row, Array<int>& cols, Vector& srow) const;
    void SetRow(int row, const Array<int>& cols, const Vector& srow);
    void AddRow(int row, const Array<int>& cols, const Vector& srow);
    void ScaleRow(int row, double s);
    void ScaleRows(const Vector& s) { for (int i = 0; i < height; i++) ScaleRow(i, s(i)); }
    void ScaleColumns(const Vector& s);
    void EliminateRow(int row);
    SparseMatrix& operator+=(const SparseMatrix& B) { Add(1.0, B); return *this; }
    SparseMatrix& operator*=(double a);
    void Finalize() { finalize(1); }
    void Finalize(int skip_zeros) override { finalize(skip_zeros); }
    void Finalize(int skip_zeros, bool) { finalize(skip_zeros); }
    bool Finalized() const { return fin_; }
    void Threshold(double tol, bool fix_empty_rows = false);
    int NumNonZeroElems() const;
    double MaxNorm() const;
    int CheckFinite() const { int c = 0; for (double a : A_) c += !std::isfinite(a); return c; }
    void Print(std::ostream& o = std::cout, int w = 4) const;
    void PrintMatlab(std::ostream& o = std::cout) const;
    void PrintMM(std::ostream& o = std::cout) const;
    void PrintCSR(std::ostream& o) const;
    void PrintCSR2(std::ostream& o) const;
    void Swap(SparseMatrix& o) { std::swap(*this, o); }
    void MoveDiagonalFirst() {}
private:
    std::vector<std::map<int, double>> rows_;
    mutable std::vector<int> I_, J_;
    mutable std::vector<double> A_;
    bool fin_;
    double& slot(int i, int j);
    void need(bool f) const { MFEM_VERIFY(fin_ == f, (f ? "Matrix must be finalized." : "Matrix must NOT be finalized.")); }
    void finalize(int skip_zeros);
};
SparseMatrix* Mult(const SparseMatrix& A, const SparseMatrix& B, SparseMatrix* OAB = nullptr);
SparseMatrix* Add(const SparseMatrix& A, const SparseMatrix& B);
SparseMatrix* Add(double a, const SparseMatrix& A, double b, const SparseMatrix& B);
SparseMatrix* Transpose(const SparseMatrix& A);
void Swap(SparseMatrix& a, SparseMatrix& b);

class Solver : public Operator {
public:
    bool iterative_mode;
    explicit Solver(int s = 0, bool it = false) : Operator(s), iterative_mode(it) {}
    virtual void SetOperator(const Operator& op) = 0;
};
class IterativeSolver : public Solver {
public:
    enum class PrintLevelEnum { None };
    struct PrintLevel { PrintLevel& None() { return *this; } PrintLevel& All() { return *this; } PrintLevel& Errors() { return *this; } };
    IterativeSolver() : Solver(0, true) {}
    explicit IterativeSolver(MPI_Comm c) : Solver(0, true), comm(c) {}
    void SetRelTol(double r) { rel_tol = r; }
    void SetAbsTol(double a) { abs_tol = a; }
    void SetMaxIter(int m) { max_iter = m; }
    void SetPrintLevel(int) {}
    void SetPrintLevel(PrintLevel) {}
    virtual void SetPreconditioner(Solver& p) { prec = &p; }
    void SetOperator(const Operator& op) override { oper = &op; height = op.Height(); width = op.Width(); }
    int GetNumIterations() const { return iters; }
    bool GetConverged() const { return converged; }
    double GetFinalNorm() const { return final_norm; }
protected:
    /// Without a communicator only the local part of a vector counts, as in MFEM.
    double Dot(const Vector& a, const Vector& b) const;
    MPI_Comm comm = MPI_COMM_SELF;
    const Operator* oper = nullptr;
    Solver* prec = nullptr;
    double rel_tol = 0, abs_tol = 0;
    int max_iter = 10;
    mutable int iters = 0;
    mutable bool converged = false;
    mutable double final_norm = 0;
};
class GMRESSolver : public IterativeSolver {
public:
    GMRESSolver() = default;
    explicit GMRESSolver(MPI_Comm c) : IterativeSolver(c) {}
    void SetKDim(int d) { m = d; }
    void Mult(const Vector& b, Vector& x) const override;
protected:
    int m = 50;
};
class FGMRESSolver : public GMRESSolver { public: using GMRESSolver::GMRESSolver; };
class BiCGSTABSolver : public GMRESSolver { public: using GMRESSolver::GMRESSolver; };
class MINRESSolver : public GMRESSolver { public: using GMRESSolver::GMRESSolver; };
class CGSolver : public GMRESSolver { public: using GMRESSolver::GMRESSolver; };

class ODESolver {
public:
    virtual ~ODESolver() = default;
    virtual void Init(TimeDependentOperator& f_) { f = &f_; }
    virtual void Step(Vector& x, double& t, double& dt) = 0;
    virtual void Run(Vector& x, double& t, double& dt, double tf) { while (t < tf) Step(x, t, dt); }
    virtual int GetMaxStateSize() { return 0; }
protected:
    TimeDependentOperator* f = nullptr;
};
class ExplicitRKSolver : public ODESolver {
public:
    ExplicitRKSolver(int s, std::vector<double> a, std::vector<double> b, std::vector<double> c) : s_(s), a_(a), b_(b), c_(c) {}
    void Step(Vector& x, double& t, double& dt) override;
private:
    int s_;
    std::vector<double> a_, b_, c_;
};
class ForwardEulerSolver : public ODESolver { public: void Step(Vector& x, double& t, double& dt) override; };
class RK2Solver : public ODESolver { public: explicit RK2Solver(double a = 2. / 3.) : a(a) {} void Step(Vector& x, double& t, double& dt) override; private: double a; };
class RK3SSPSolver : public ODESolver { public: void Step(Vector& x, double& t, double& dt) override; };
class RK4Solver : public ODESolver { public: void Step(Vector& x, double& t, double& dt) override; };
class BackwardEulerSolver : public ODESolver { public: void Step(Vector& x, double& t, double& dt) override; };
class ImplicitMidpointSolver : public ODESolver { public: void Step(Vector& x, double& t, double& dt) override; };
class TrapezoidalRuleSolver : public ODESolver { public: void Step(Vector& x, double& t, double& dt) override; };
class SDIRK23Solver : public ODESolver { public: explicit SDIRK23Solver(int gamma_opt = 1); void Step(Vector& x, double& t, double& dt) override; private: double gamma; };
class SDIRK33Solver : public ODESolver { public: void Step(Vector& x, double& t, double& dt) override; };
class SDIRK34Solver : public ODESolver { public: void Step(Vector& x, double& t, double& dt) override; };

class StopWatch {
public:
    void Start() { t0_ = std::chrono::steady_clock::now(); run_ = true; }
    void Restart() { Clear(); Start(); }
    void Stop() { if (run_) { acc_ += now(); run_ = false; } }
    void Clear() { acc_ = 0; if (run_) t0_ = std::chrono::steady_clock::now(); }
    double RealTime() { return acc_ + (run_ ? now() : 0); }
    double UserTime() { return RealTime(); }
    double SystTime() { return 0; }
private:
    std::chrono::steady_clock::time_point t0_;
    bool run_ = false;
    double acc_ = 0;
    double now() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0_).count(); }
};

/// Rank and size can be set by a test (they are per thread, see spmd.hpp).
class Mpi {
public:
    static void Init(int = MPI_THREAD_SINGLE) {}
    static void Init(int&, char**&, int = 0, int* = nullptr) {}
    static void Init(int*, char***) {}
    static void Finalize() {}
    static bool IsInitialized() { return true; }
    static bool IsFinalized() { return false; }
    static int WorldRank() { return rank_; }
    static int WorldSize() { return size_; }
    static bool Root() { return rank_ == 0; }
    static void SetForTest(int rank, int size) { rank_ = rank; size_ = size; }
private:
    static thread_local int rank_, size_;
};
class Hypre { public: static void Init() {} static void Finalize() {} };

} // namespace mfem
