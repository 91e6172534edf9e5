// Common pieces of the harnesses: storage with sentinels, views, dense oracles.
#ifndef HX_HPP
#define HX_HPP
#include "symx.hpp"
// library base + the array plugin
#include <tlapack/plugins/legacyArray.hpp>
#include <tlapack/plugins/stdvector.hpp>
#include <tlapack/base/utils.hpp>
#include <cstring>
#include <stdexcept>

using sx::Batch;
using sx::CaseOpts;
using sx::SComplex;
using sx::SReal;
using std::string;
using std::vector;
typedef size_t idx;
namespace tl = tlapack;
using tl::Diag;
using tl::Direction;
using tl::Layout;
using tl::Op;
using tl::Side;
using tl::StoreV;
using tl::Uplo;

// info of a routine that returns it or throws it ("[info] text")
template <class Fn>
long info_of(Fn f)
{
    try {
        return (long)f();
    }
    catch (const std::runtime_error& e) {
        const char* w = e.what();
        if (w[0] == '[') return atol(w + 1);
        throw;
    }
}
inline string S(long v) { return std::to_string(v); }
template <class T> constexpr bool isC = tl::is_complex<T>;
template <class T> string tname() { return isC<T> ? "c" : "r"; }
inline SReal cj(const SReal& x) { return x; }
inline SComplex cj(const SComplex& x) { return sx::conj(x); }
inline SReal re(const SReal& x) { return x; }
inline SReal re(const SComplex& x) { return x.real(); }
inline SReal im(const SReal& x) { return SReal(0); }
inline SReal im(const SComplex& x) { return x.imag(); }
inline SReal abs2(const SReal& x) { return x * x; }
inline SReal abs2(const SComplex& x) { return x.real() * x.real() + x.imag() * x.imag(); }
template <class T> T fromreal(const SReal& r) { return T(r); }
// |re|+|im|
inline SReal a1(const SReal& x) { return sx::abs(x); }
inline SReal a1(const SComplex& x) { return sx::abs(x.real()) + sx::abs(x.imag()); }

// dense column-major matrix used by oracles
template <class T>
struct D {
    idx m = 0, n = 0;
    vector<T> v;
    D() {}
    D(idx m_, idx n_) : m(m_), n(n_), v(m_ * n_) {}
    T& operator()(idx i, idx j) { return v[i + j * m]; }
    const T& operator()(idx i, idx j) const { return v[i + j * m]; }
    static D eye(idx n)
    {
        D r(n, n);
        for (idx i = 0; i < n; i++) r(i, i) = T(1);
        return r;
    }
    D t() const
    {
        D r(n, m);
        for (idx i = 0; i < m; i++)
            for (idx j = 0; j < n; j++) r(j, i) = (*this)(i, j);
        return r;
    }
    D cjm() const
    {
        D r = *this;
        for (auto& x : r.v) x = cj(x);
        return r;
    }
    D h() const { return t().cjm(); }
    D op(Op o) const { return o == Op::NoTrans ? *this : o == Op::Trans ? t() : o == Op::ConjTrans ? h() : cjm(); }
    D sub(idx i0, idx i1, idx j0, idx j1) const
    {
        D r(i1 - i0, j1 - j0);
        for (idx i = i0; i < i1; i++)
            for (idx j = j0; j < j1; j++) r(i - i0, j - j0) = (*this)(i, j);
        return r;
    }
};
template <class T>
D<T> operator*(const D<T>& a, const D<T>& b)
{
    D<T> r(a.m, b.n);
    for (idx i = 0; i < a.m; i++)
        for (idx j = 0; j < b.n; j++) {
            T s(0);
            for (idx k = 0; k < a.n; k++) s += a(i, k) * b(k, j);
            r(i, j) = s;
        }
    return r;
}
template <class T>
D<T> operator+(const D<T>& a, const D<T>& b)
{
    D<T> r = a;
    for (size_t i = 0; i < r.v.size(); i++) r.v[i] += b.v[i];
    return r;
}
template <class T>
D<T> operator-(const D<T>& a, const D<T>& b)
{
    D<T> r = a;
    for (size_t i = 0; i < r.v.size(); i++) r.v[i] -= b.v[i];
    return r;
}
template <class T, class A>
D<T> scl(const A& al, const D<T>& a)
{
    D<T> r = a;
    for (auto& x : r.v) x = al * x;
    return r;
}
// triangle u of the square part of A (unit: implicit ones)
template <class T>
D<T> tri(const D<T>& a, Uplo u, Diag d = Diag::NonUnit)
{
    D<T> r(a.m, a.n);
    for (idx i = 0; i < a.m; i++)
        for (idx j = 0; j < a.n; j++) {
            if (i == j) r(i, j) = d == Diag::Unit ? T(1) : a(i, j);
            else if ((u == Uplo::Upper && i < j) || (u == Uplo::Lower && i > j)) r(i, j) = a(i, j);
        }
    return r;
}
// full hermitian (herm) or symmetric matrix from triangle u
template <class T>
D<T> symfull(const D<T>& a, Uplo u, bool herm)
{
    D<T> r(a.n, a.n);
    for (idx i = 0; i < a.n; i++)
        for (idx j = 0; j < a.n; j++) {
            bool stored = u == Uplo::Upper ? i <= j : i >= j;
            T x = stored ? a(i, j) : (herm ? cj(a(j, i)) : a(j, i));
            if (i == j && herm) x = T(re(a(i, i)));
            r(i, j) = x;
        }
    return r;
}

// storage of an m-by-n matrix with padding; every cell outside the matrix is a sentinel
template <class T, Layout L = Layout::ColMajor>
struct Mat {
    idx m, n, ld, g = 3;
    vector<T> buf;
    Mat(idx m_, idx n_, idx pad = 1) : m(m_), n(n_), ld((L == Layout::ColMajor ? m_ : n_) + pad)
    {
        buf.assign(2 * g + ld * (L == Layout::ColMajor ? n : m), sx::poison<T>());
    }
    size_t at(idx i, idx j) const { return g + (L == Layout::ColMajor ? i + j * ld : j + i * ld); }
    T& operator()(idx i, idx j) { return buf[at(i, j)]; }
    const T& operator()(idx i, idx j) const { return buf[at(i, j)]; }
    T* ptr() { return buf.data() + g; }
    tl::LegacyMatrix<T, idx, L> view() { return tl::LegacyMatrix<T, idx, L>(m, n, ptr(), ld); }
    Mat& in(const string& nm)
    {
        for (idx j = 0; j < n; j++)
            for (idx i = 0; i < m; i++) (*this)(i, j) = sx::input<T>(nm + S(i) + "_" + S(j));
        return *this;
    }
    // only one triangle is given; the other keeps the sentinel
    Mat& in_tri(const string& nm, Uplo u, Diag d = Diag::NonUnit, bool realdiag = false)
    {
        for (idx j = 0; j < n; j++)
            for (idx i = 0; i < m; i++) {
                if (i == j && d == Diag::Unit) continue;
                if (i == j && realdiag) { (*this)(i, j) = T(sx::var(nm + S(i) + "_" + S(j))); continue; }
                if (u == Uplo::General || (u == Uplo::Upper ? i <= j : i >= j)) (*this)(i, j) = sx::input<T>(nm + S(i) + "_" + S(j));
            }
        return *this;
    }
    Mat& set(const D<T>& d)
    {
        for (idx j = 0; j < n; j++)
            for (idx i = 0; i < m; i++) (*this)(i, j) = d(i, j);
        return *this;
    }
    D<T> d() const
    {
        D<T> r(m, n);
        for (idx j = 0; j < n; j++)
            for (idx i = 0; i < m; i++) r(i, j) = (*this)(i, j);
        return r;
    }
    // sentinels outside the matrix are intact
    bool padding_ok() const
    {
        vector<char> inm(buf.size(), 0);
        for (idx j = 0; j < n; j++)
            for (idx i = 0; i < m; i++) inm[at(i, j)] = 1;
        for (size_t k = 0; k < buf.size(); k++)
            if (!inm[k] && !sx::is_poison(buf[k])) return false;
        return true;
    }
};
template <class T>
struct Vec {
    idx n;
    long inc;  // storage stride of the view (may be negative: direction Backward)
    idx g = 2;
    vector<T> buf;
    Vec(idx n_, long inc_ = 1) : n(n_), inc(inc_) { buf.assign(2 * g + (n ? (n - 1) * labs(inc) + 1 : 1), sx::poison<T>()); }
    size_t at(idx i) const { return g + (inc > 0 ? i * inc : (n - 1 - i) * (-inc)); }
    T& operator[](idx i) { return buf[at(i)]; }
    const T& operator[](idx i) const { return buf[at(i)]; }
    T* ptr() { return buf.data() + g; }
    tl::LegacyVector<T, idx, idx> view() { return tl::LegacyVector<T, idx, idx>(n, ptr(), (idx)inc); }
    tl::LegacyVector<T, idx, idx, Direction::Backward> bview()
    {
        return tl::LegacyVector<T, idx, idx, Direction::Backward>(n, ptr(), (idx)(-inc));
    }
    Vec& in(const string& nm)
    {
        for (idx i = 0; i < n; i++) (*this)[i] = sx::input<T>(nm + S(i));
        return *this;
    }
    vector<T> d() const
    {
        vector<T> r(n);
        for (idx i = 0; i < n; i++) r[i] = (*this)[i];
        return r;
    }
    bool padding_ok() const
    {
        vector<char> inm(buf.size(), 0);
        for (idx i = 0; i < n; i++) inm[at(i)] = 1;
        for (size_t k = 0; k < buf.size(); k++)
            if (!inm[k] && !sx::is_poison(buf[k])) return false;
        return true;
    }
};
// equality of matrices / vectors, element by element
template <class T>
void eqm(Batch& b, const D<T>& x, const D<T>& y, const string& l)
{
    for (idx j = 0; j < x.n; j++)
        for (idx i = 0; i < x.m; i++) b.eq(x(i, j), y(i, j), l + "(" + S(i) + "," + S(j) + ")");
}
template <class T>
void eqv(Batch& b, const vector<T>& x, const vector<T>& y, const string& l)
{
    for (size_t i = 0; i < x.size(); i++) b.eq(x[i], y[i], l + "[" + S(i) + "]");
}
// elements of x are bitwise the ones of y (used for storage that must not change)
template <class T>
bool unchanged(const D<T>& x, const D<T>& y)
{
    if (sx::concrete_mode()) {
        for (size_t i = 0; i < x.v.size(); i++) {
            if (sx::is_poison(y.v[i]) != sx::is_poison(x.v[i])) return false;
            if (!sx::same(x.v[i], y.v[i]) && !sx::is_poison(x.v[i]) && !(x.v[i] == y.v[i])) return false;
        }
        return true;
    }
    for (size_t i = 0; i < x.v.size(); i++)
        if (!sx::same(x.v[i], y.v[i])) return false;
    return true;
}
template <class T, class F>
void each_tri_unref(const D<T>& before, const D<T>& after, Uplo u, F f)
{
    for (idx j = 0; j < before.n; j++)
        for (idx i = 0; i < before.m; i++)
            if (u == Uplo::Upper ? i > j : i < j) f(i, j);
}
inline string nm(Op o) { return o == Op::NoTrans ? "N" : o == Op::Trans ? "T" : o == Op::ConjTrans ? "C" : "J"; }
inline string nm(Uplo u) { return u == Uplo::Upper ? "U" : u == Uplo::Lower ? "L" : "G"; }
inline string nm(Side s) { return s == Side::Left ? "L" : "R"; }
inline string nm(Diag d) { return d == Diag::Unit ? "U" : "N"; }
inline string nm(Layout l) { return l == Layout::ColMajor ? "col" : "row"; }
// run f, return true if it threw E
template <class E, class Fn>
bool throws(Fn f)
{
    try {
        f();
    }
    catch (const E&) {
        return true;
    }
    return false;
}
#endif
