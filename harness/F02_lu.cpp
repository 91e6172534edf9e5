// LU factorizations, and inverses computed from them.
#include "hx.hpp"
#include <tlapack/lapack/getrf.hpp>
#include <tlapack/lapack/getri.hpp>
using namespace sx;

typedef tl::LegacyVector<idx, idx, idx> PV;
template <class T> T mdet(const D<T>& m)
{
    if (m.n == 0) return T(1);
    if (m.n == 1) return m(0, 0);
    T s(0);
    for (idx j = 0; j < m.n; j++) {
        D<T> q(m.n - 1, m.n - 1);
        for (idx r = 1; r < m.n; r++)
            for (idx c = 0, cc = 0; c < m.n; c++)
                if (c != j) q(r - 1, cc++) = m(r, c);
        T t = m(0, j) * mdet(q);
        if (j % 2) s -= t; else s += t;
    }
    return s;
}
// all k-by-k minors of the first k columns
template <class T> vector<T> minors(const D<T>& a, idx k)
{
    vector<T> r;
    vector<idx> rows;
    std::function<void(idx)> go = [&](idx from) {
        if (rows.size() == k) {
            D<T> q(k, k);
            for (idx i = 0; i < k; i++)
                for (idx j = 0; j < k; j++) q(i, j) = a(rows[i], j);
            r.push_back(mdet(q));
            return;
        }
        for (idx i = from; i < a.m; i++) { rows.push_back(i); go(i + 1); rows.pop_back(); }
    };
    go(0);
    return r;
}
static F nz(const SReal& x) { return ne(x, SReal(0)); }
static F nz(const SComplex& x) { return f_or(ne(x.real(), SReal(0)), ne(x.imag(), SReal(0))); }
static F zz(const SReal& x) { return eq(x, SReal(0)); }
static F zz(const SComplex& x) { return f_and(eq(x.real(), SReal(0)), eq(x.imag(), SReal(0))); }

template <class T, Layout L>
void lu(tl::GetrfVariant v, idx m, idx n, bool rank, bool prep)
{
    Mat<T, L> A(m, n);
    A.in("a");
    if (prep) {
        // one pivot order only: the entry (p(j), j) dominates
        for (idx j = 0; j < n; j++)
            for (idx i = 0; i < m; i++) {
                idx p = (j + 1) % m;
                SReal x = re(A(i, j));
                if (i == p) { assume(ge(x, SReal(9))); assume(le(x, SReal(10))); }
                else { assume(le(x, SReal(0.25))); assume(ge(x, SReal(-0.25))); }
                if (isC<T>) { assume(le(im(A(i, j)), SReal(0.25))); assume(ge(im(A(i, j)), SReal(-0.25))); }
            }
    }
    auto A0 = A.d();
    idx k = std::min(m, n);
    vector<idx> piv(k + 2, 777);
    PV pv(k, piv.data() + 1);
    auto Av = A.view();
    tl::GetrfOpts o;
    o.variant = v;
    int info = tl::getrf(Av, pv, o);
    check_concrete(A.padding_ok() && piv[0] == 777 && piv[k + 1] == 777, "storage outside A and piv");
    check_concrete(info >= 0 && info <= (int)k, "info in 0..min(m,n)");
    if (info == 0) {
        D<T> P = A0;
        bool ok = true;
        for (idx i = 0; i < k; i++) {
            ok = ok && pv[i] >= i && pv[i] < m;
            if (!ok) break;
            for (idx j = 0; j < n; j++) std::swap(P(i, j), P(pv[i], j));
        }
        check_concrete(ok, "i <= piv[i] < m");
        auto F_ = A.d();
        D<T> Lo(m, k), U(k, n);
        for (idx i = 0; i < m; i++)
            for (idx j = 0; j < k; j++) Lo(i, j) = i == j ? T(1) : i > j ? F_(i, j) : T(0);
        for (idx i = 0; i < k; i++)
            for (idx j = i; j < n; j++) U(i, j) = F_(i, j);
        Batch B;
        eqm(B, Lo * U, P, "P A = L U");
        B.flush();
        if (!isC<T> && k <= 3)
            for (idx i = 0; i < m; i++)
                for (idx j = 0; j < std::min(i, k); j++) check(le(abs2(F_(i, j)), SReal(1)), "|L| <= 1 (partial pivoting)");
    }
    if (rank) {
        Batch B;
        vector<F> v;
        for (auto& x : minors(A0, info ? info - 1 : k)) v.push_back(nz(x));
        if (!(info == 1)) B.add(f_any(v), info ? "columns before info are independent" : "the leading columns are independent");
        if (info)
            for (auto& x : minors(A0, info)) B.add(zz(x), "the first info columns are dependent");
    }
}
template <class T, Layout L>
void inv(tl::GetriVariant v, idx n, const vector<idx>& piv, int zero)
{
    Mat<T, L> A(n, n);
    A.in("f");
    for (idx i = 0; i < n; i++) {
        if ((int)i == zero) A(i, i) = T(0);
        else assume(nz(A(i, i)));
    }
    auto F_ = A.d();
    auto Av = A.view();
    vector<idx> pq = piv;
    PV pv(n, pq.data());
    tl::GetriOpts o;
    o.variant = v;
    long info = info_of([&] { return tl::getri(Av, pv, o); });
    check_concrete(A.padding_ok(), "storage around A");
    check_concrete(info == zero + 1, "info is the zero pivot");
    if (info) return;
    D<T> Lo(n, n), U(n, n);
    for (idx i = 0; i < n; i++)
        for (idx j = 0; j < n; j++) { if (i > j) Lo(i, j) = F_(i, j); else U(i, j) = F_(i, j); if (i == j) Lo(i, i) = T(1); }
    D<T> P = Lo * U;  // = P A; undo the interchanges
    for (idx i = n; i-- > 0;)
        for (idx j = 0; j < n; j++) std::swap(P(i, j), P(piv[i], j));
    Batch B;
    eqm(B, P * A.d(), D<T>::eye(n), "A inv(A) = I");
}
template <class T, Layout L>
void reg()
{
    const string t = tname<T>() + nm(L);
    CaseOpts o;
    o.strict_div = true;
    o.max_paths = 4000;
    o.case_s = 120;
    o.nra_ms = 5000;
    idx N = 3;
    for (auto v : {tl::GetrfVariant::Recursive, tl::GetrfVariant::Level0}) {
        string p = v == tl::GetrfVariant::Level0 ? "getrf_level0_" : "getrf_recursive_";
        for (idx m = 0; m <= 4; m++)
            for (idx n = 0; n <= 4; n++) {
                if (m <= N && n <= N && (!isC<T> || m * n <= 4)) add_case(p + t + "_" + S(m) + S(n), o, [=] { lu<T, L>(v, m, n, m * n <= (isC<T> ? 2 : 4), false); });
                if (isC<T> ? (v == tl::GetrfVariant::Level0 ? m * n >= 4 && m * n <= 9 && m <= 3 && n <= 3 : m == 2 && n <= 3 && n >= 2) : m * n >= 4 && !(m == 4 && n == 3)) add_case(p + "prep_" + t + "_" + S(m) + S(n), o, [=] { lu<T, L>(v, m, n, false, true); });
            }
    }
    CaseOpts q;
    q.strict_div = false;  // a zero pivot divides before it is reported; the result is then unspecified
    for (auto v : {tl::GetriVariant::UILI, tl::GetriVariant::UXLI})
        for (idx n = 0; n <= (isC<T> ? 3 : thorough() ? 5 : 4); n++) {
            if (isC<T> && n == 3 && v == tl::GetriVariant::UILI && !thorough()) continue;
            string p = string("getri_") + (v == tl::GetriVariant::UILI ? "uili_" : "uxli_") + t + "_" + S(n);
            vector<vector<idx>> ps(1);
            for (idx i = 0; i < n; i++) {
                vector<vector<idx>> nx;
                for (auto& x : ps)
                    for (idx k = i; k < n; k++) { auto y = x; y.push_back(k); nx.push_back(y); }
                ps = nx;
            }
            for (idx k = 0; k < ps.size(); k++) {
                if (n == 4 && !thorough() && k % 5) continue;
                if (n == 5 && k % 13) continue;
                auto pv = ps[k];
                add_case(p + "_p" + S(k), o, [=] { inv<T, L>(v, n, pv, -1); });
            }
            for (int z = 0; z < (int)n && !(isC<T> && n > 2); z++) add_case(p + "_zero" + S(z), q, [=] { inv<T, L>(v, n, ps[0], z); });
        }
}
void sx::register_all()
{
    covers("getrf,getrf_level0,getrf_recursive,getri,getri_uili,getri_uxli,trtri_recursive,ul_mult,rscl,iamax");
    bounds("LU: every m-by-n matrix with m,n in 0..3 (complex: m*n<=4), every pivot order and rank; m,n up to 4 for matrices with one dominant entry per column; inverse: order 0..4 (thorough 5, complex 2..3), every pivot vector (order 4: every 5th)");
    assumption("inverse: given factors with the stated pivots nonzero");
    reg<SReal, Layout::ColMajor>();
    reg<SReal, Layout::RowMajor>();
    reg<SComplex, Layout::ColMajor>();
}
