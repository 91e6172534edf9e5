// gesvd: what is handed to svd_qr is the bidiagonal form and the accumulated reflectors.
#include "stub_larfg.hpp"
#include <iostream>
#include <tlapack/lapack/bidiag.hpp>
namespace svdstub {
struct Ent { bool called = false, wu = false, wv = false; tlapack::Uplo u; vector<SReal> d, e; };
inline Ent& cur() { static Ent e; return e; }
inline std::function<void()>& mark() { static std::function<void()> f; return f; }
}
namespace sx {
template <class T, tlapack::Layout L, class E_>
int svd_qr(tlapack::Uplo u, bool wu, bool wv, vector<SReal>& d, E_& e, tlapack::LegacyMatrix<T, size_t, L>& U, tlapack::LegacyMatrix<T, size_t, L>& Vt)
{
    auto& c = svdstub::cur();
    c.called = true; c.u = u; c.wu = wu; c.wv = wv;
    size_t n = d.size();
    c.d.clear(); c.e.clear();
    for (size_t i = 0; i < n; i++) c.d.push_back(d[i]);
    for (size_t i = 0; i + 1 < n; i++) c.e.push_back(e[i]);
    if (svdstub::mark()) svdstub::mark()();
    for (size_t i = 0; i < n; i++) d[i] = SReal((int)(n - i));   // what svd_qr leaves is what gesvd returns
    return 42;
}
}
#include <tlapack/lapack/gesvd.hpp>
using namespace sx;
template <class T, Layout L>
void gs(idx m, idx n, bool wu, bool wv, bool fullu, bool fullv)
{
    stub::reset();
    svdstub::cur() = svdstub::Ent();
    idx k = std::min(m, n);
    Mat<T, L> A(m, n), U(m, fullu ? m : k), V(fullv ? n : k, n);
    A.in("a");
    vector<SReal> s(k);
    auto Av = A.view(), Uv = U.view(), Vv = V.view();
    D<T> U1, V1;
    svdstub::mark() = [&] { U1 = U.d(); V1 = V.d(); };
    int info = tl::gesvd(wu, wv, Av, s, Uv, Vv);
    svdstub::mark() = nullptr;
    auto& c = svdstub::cur();
    check_concrete(A.padding_ok() && U.padding_ok() && V.padding_ok() && s.size() == k, "storage around the operands");
    if (k == 0 && !c.called) { check_concrete(info == 0, "info"); }
    else {
        check_concrete(c.called && info == 42, "svd_qr decides info");
        check_concrete(c.wu == wu && c.wv == wv && (k < 2 || c.u == (m >= n ? Uplo::Upper : Uplo::Lower)), "svd_qr is called for the shape of the bidiagonal matrix");
        for (idx i = 0; i < k; i++) check_concrete(concrete_mode() || same(s[i], SReal((int)(k - i))), "singular values are those of svd_qr");
    }
    auto F = A.d();
    bool up = m >= n;
    auto& calls = stub::calls<T>();
    vector<char> used(calls.size(), 0);
    auto tau = [&](const T& beta) {
        for (size_t q = 0; q < calls.size(); q++)
            if (!used[q] && (same(re(calls[q].beta), re(beta)) || (concrete_mode() && re(calls[q].beta) == re(beta)))) { used[q] = 1; return calls[q].tau; }
        return T(0);
    };
    Batch B;
    auto Q = D<T>::eye(m), P = D<T>::eye(n);
    vector<T> tq(k), tp(k);
    for (idx j = 0; j < k; j++) {
        B.eq(c.d.size() > j ? c.d[j] : SReal(-99), re(F(j, j)), "diagonal handed to svd_qr");
        if (j + 1 < k) B.eq(c.e.size() > j ? c.e[j] : SReal(-99), up ? re(F(j, j + 1)) : re(F(j + 1, j)), "off-diagonal handed to svd_qr");
        if (up) { tq[j] = tau(F(j, j)); if (j + 1 < n) tp[j] = tau(F(j, j + 1)); }
        else { tp[j] = tau(F(j, j)); if (j + 1 < m) tq[j] = tau(F(j + 1, j)); }
    }
    for (idx j = k; j-- > 0;) {
        vector<T> v(m, T(0)), u(n, T(0));
        idx pv0 = up ? j : j + 1, pu0 = up ? j + 1 : j;
        if (pv0 < m) { v[pv0] = T(1); for (idx r = pv0 + 1; r < m; r++) v[r] = F(r, j); hleft(v, tq[j], Q); }
        if (pu0 < n) { u[pu0] = T(1); for (idx r = pu0 + 1; r < n; r++) u[r] = cj(F(j, r)); hleft(u, tp[j], P); }
    }
    if (c.called) {
        if (wu) for (idx j = 0; j < U1.n; j++) for (idx i = 0; i < m; i++) B.eq(U1(i, j), Q(i, j), "U before svd_qr");
        if (wv) for (idx j = 0; j < n; j++) for (idx i = 0; i < V1.m; i++) B.eq(V1(i, j), cj(P(j, i)), "Vt before svd_qr");
    }
    B.flush();
    auto clean = [](auto& M) { for (auto& x : M.buf) if (!is_poison(x)) return false; return true; };
    check_concrete((wu || clean(U)) && (wv || clean(V)), "U, Vt not wanted: not referenced");
}
template <class T, Layout L> void reg()
{
    idx N = isC<T> && !thorough() ? 3 : 4;
    for (idx m = 0; m <= N; m++)
        for (idx n = 0; n <= N; n++)
            for (int f = 0; f < 16; f++) {
                bool wu = f & 1, wv = f & 2, fu = f & 4, fv = f & 8;
                if (fu && m <= n) continue;
                if (fv && n <= m) continue;
                string s = tname<T>() + nm(L) + "_" + S(m) + S(n) + (wu ? "u" : "") + (wv ? "v" : "") + (fu ? "_fullu" : "") + (fv ? "_fullv" : "");
                add_case("gesvd_" + s, [=] { gs<T, L>(m, n, wu, wv, fu, fv); });
            }
}
void sx::register_all()
{
    covers("gesvd,gebrd,labrd,gebd2,ungbr_q,ungbr_p,lacpy");
    bounds("gesvd: every m-by-n matrix, m,n 0..4 (complex 0..3), thin and full U and Vt, both layouts, with and without vectors");
    assumption("gesvd is decided over the contract of larfg (O01); the bidiagonal iteration it ends with is decided separately here");
    reg<SReal, Layout::ColMajor>();
    reg<SReal, Layout::RowMajor>();
    reg<SComplex, Layout::ColMajor>();
}
