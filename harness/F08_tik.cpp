// Tikhonov regularised least squares: one-parameter families, exact algebra.
#include "hx.hpp"
#include <iostream>
#include <tlapack/lapack/svd_qr.hpp>
#include <tlapack/lapack/tkhnv.hpp>
using namespace sx;
// The svd variant calls svd_qr on a real bidiagonal matrix.  Its result is taken from
// a table: B = q diag(d) p was used to build A, and the reduction is unique up to signs.
namespace svdstub {
inline idx& calls() { static idx c = 0; return c; }
struct Ent { vector<SReal> d0, e0, d; D<SReal> q, p; };
inline Ent& cur() { static Ent e; return e; }
template <class T>
int svd(Uplo u, bool wu, bool wv, vector<SReal>& d, vector<SReal>& e, tl::LegacyMatrix<T, size_t, Layout::ColMajor>& U, tl::LegacyMatrix<T, size_t, Layout::ColMajor>& V)
{
    calls()++;
    auto& c = cur();
    idx n = d.size();
    check_concrete(u == Uplo::Upper && wu && wv && e.size() + 1 >= n && c.d0.size() == n, "arguments of svd_qr");
    // B = S1 B0 S2: diagonal sign matrices
    vector<SReal> s1(n), s2(n);
    s2[0] = SReal(1);
    for (idx i = 0; i < n; i++) {
        if (i) s2[i] = i == 1 && e[i - 1] * c.e0[i - 1] * s1[i - 1] < SReal(0) ? SReal(-1) : SReal(1);
        s1[i] = d[i] * c.d0[i] * s2[i] < SReal(0) ? SReal(-1) : SReal(1);
    }
    Batch B;
    for (idx i = 0; i < n; i++) {
        B.eq(d[i], s1[i] * c.d0[i] * s2[i], "bidiagonal form of A");
        if (i + 1 < n) B.eq(e[i], s1[i] * c.e0[i] * s2[i + 1], "bidiagonal form of A");
        for (idx j = 0; j < n; j++) {
            B.eq(U(i, j), i == j ? T(1) : T(0), "U is the identity on entry");
            B.eq(V(i, j), i == j ? T(1) : T(0), "Vt is the identity on entry");
        }
    }
    B.flush();
    for (idx i = 0; i < n; i++)
        for (idx j = 0; j < n; j++) {
            U(i, j) = T(s1[i] * c.q(i, j));
            V(i, j) = T(c.p(i, j) * s2[j]);
        }
    d = c.d;
    for (auto& x : e) x = SReal(0);
    return 0;
}
}
namespace sx {
template <class T, std::enable_if_t<std::is_same_v<T, SReal> || std::is_same_v<T, SComplex>, int> = 0>
int svd_qr(Uplo u, bool wu, bool wv, vector<SReal>& d, vector<SReal>& e, tl::LegacyMatrix<T, size_t, Layout::ColMajor>& U, tl::LegacyMatrix<T, size_t, Layout::ColMajor>& V)
{
    return svdstub::svd(u, wu, wv, d, e, U, V);
}
}
// a rational orthogonal (unitary) matrix: product of reflectors with integer vectors
template <class T> D<T> orth(idx n, int s)
{
    D<T> r = D<T>::eye(n);
    static const int w[4][4] = {{1, 2, -1, 1}, {2, 1, 1, -1}, {1, -1, 3, 2}, {0, 1, 1, 2}};
    for (int q = 0; q < 2; q++) {
        D<T> v(n, 1);
        SReal nv(0);
        for (idx i = 0; i < n; i++) {
            v(i, 0) = T(SReal(w[(s + q) % 4][i]));
            if constexpr (isC<T>) if (i) v(i, 0) += SComplex(SReal(0), SReal(w[(s + q + 1) % 4][i]));
            nv += abs2(v(i, 0));
        }
        if (n == 1) return r;
        r = r - scl(SReal(2) / nv, v * (v.h() * r));
    }
    return r;
}
template <class T>
void tiksvd(idx m, idx n, idx k, int what, int fam)
{
    static const int bb[12] = {1, -2, 3, 2, 0, 1, -1, 4, 2, 2, 1, -3};
    SReal t = var("t");
    assume(ge(t, R(mk_rat(3, 8))));  // (at 1/3 the singular values coincide)
    assume(le(t, R(mk_rat(7, 8))));
    SReal x = what == 0 ? t : R(mk_rat(1, 2 + 2 * fam)), lam = what == 1 ? t : SReal(2);
    auto& c = svdstub::cur();
    svdstub::calls() = 0;
    c = svdstub::Ent();
    if (n == 1) { c.q = c.p = D<SReal>::eye(1); c.d = c.d0 = {x + SReal(1)}; }
    else {
        SReal w = SReal(1) + x * x, co = (SReal(1) - x * x) / w, si = SReal(2) * x / w, s1 = SReal(5) / SReal(3) * si, s2 = SReal(5) / SReal(4) * co;
        D<SReal> q(2, 2), p(2, 2), sg(2, 2);
        q(0, 0) = q(1, 1) = R(mk_rat(4, 5)); q(0, 1) = R(mk_rat(-3, 5)); q(1, 0) = R(mk_rat(3, 5));
        // row 2 of q sg is (si, co)
        p(0, 0) = co; p(1, 0) = -si; p(0, 1) = si; p(1, 1) = co;
        sg(0, 0) = s1; sg(1, 1) = s2;
        auto b = q * sg * p;
        c.q = c.p = D<SReal>::eye(n);
        for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { c.q(i, j) = q(i, j); c.p(i, j) = p(i, j); }
        c.d0 = {b(0, 0), b(1, 1)}; c.e0 = {b(0, 1)}; c.d = {s1, s2};
        for (idx i = 2; i < n; i++) { c.d0.push_back(SReal(3)); c.d.push_back(SReal(3)); c.e0.push_back(SReal(0)); }
    }
    D<T> b0(m, n);
    for (idx i = 0; i < n; i++) { b0(i, i) = T(c.d0[i]); if (i + 1 < n) b0(i, i + 1) = T(c.e0[i]); }
    D<T> pr = D<T>::eye(n);
    if (n > 1) { auto g = orth<T>(n - 1, fam + 1); for (idx i = 1; i < n; i++) for (idx j = 1; j < n; j++) pr(i, j) = g(i - 1, j - 1); }
    Mat<T> A(m, n), Bm(m, k);
    A.set(orth<T>(m, fam) * b0 * pr);
    for (idx j = 0; j < k; j++)
        for (idx i = 0; i < m; i++) {
            Bm(i, j) = T(SReal(bb[(i + 4 * j + fam) % 12]));
            if constexpr (isC<T>) Bm(i, j) = SComplex(SReal(bb[(i + 4 * j + fam) % 12]), SReal(bb[(i + j + 5) % 12]));
        }
    if (what >= 2) Bm((what - 2) % m, (what - 2) / m) = T(t);
    auto A0 = A.d(), B0 = Bm.d();
    auto Av = A.view(), Bv = Bm.view();
    ::TikOpts o(::TikVariant::SVD);
    tkhnv(Av, Bv, lam, o);
    check_concrete(A.padding_ok() && Bm.padding_ok(), "storage around the operands");
    check_concrete(svdstub::calls() == 1, "one call of svd_qr");
    auto X = Bm.d().sub(0, n, 0, k);
    D<T> N = A0.h() * A0;
    for (idx i = 0; i < n; i++) N(i, i) += T(lam * lam);
    Batch B;
    eqm(B, N * X, A0.h() * B0, "(A^H A + lambda^2 I) x = A^H b");
}
// where the parameter goes: 0 last entry of A, 1 lambda, 2 first entry of A, 3.. entry of b
template <class T, Layout L>
void tik(::TikVariant v, idx m, idx n, idx k, int what, int fam)
{
    static const int a[2][16] = {{3, 1, 2, 0, -1, 2, 1, 4, 0, 1, -2, 1, 1, 1, 0, 2}, {0, 2, -1, 4, 3, 0, 1, 1, 2, -1, 1, 0, 5, 1, 2, 3}};
    static const int bb[12] = {1, -2, 3, 2, 0, 1, -1, 4, 2, 2, 1, -3};
    SReal t = var("t");
    assume(ge(t, what == 1 ? R(mk_rat(1, 4)) : SReal(-4)));
    assume(le(t, SReal(4)));
    Mat<T, L> A(m, n), Bm(m, k);
    for (idx j = 0; j < n; j++)
        for (idx i = 0; i < m; i++) {
            A(i, j) = T(SReal(a[fam][(i + 4 * j) % 16]));
            if constexpr (isC<T>) A(i, j) = SComplex(SReal(a[fam][(i + 4 * j) % 16]), SReal(a[1 - fam][(3 * i + j) % 16] - 1));
        }
    for (idx j = 0; j < k; j++)
        for (idx i = 0; i < m; i++) {
            Bm(i, j) = T(SReal(bb[(i + 4 * j + fam) % 12]));
            if constexpr (isC<T>) Bm(i, j) = SComplex(SReal(bb[(i + 4 * j + fam) % 12]), SReal(bb[(i + j + 5) % 12]));
        }
    SReal lam(fam ? 3 : 4);
    if (what == 0) A(m - 1, n - 1) = T(t);
    if (what == 2) A(0, 0) = T(t);
    if (what == 1) lam = t;
    if (what >= 3) Bm((what - 3) % m, (what - 3) / m) = T(t);
    auto A0 = A.d(), B0 = Bm.d();
    auto Av = A.view(), Bv = Bm.view();
    ::TikOpts o(v);
    tkhnv(Av, Bv, lam, o);
    check_concrete(A.padding_ok() && Bm.padding_ok(), "storage around the operands");
    auto X = Bm.d().sub(0, n, 0, k);
    D<T> N = A0.h() * A0;
    for (idx i = 0; i < n; i++) N(i, i) += T(lam * lam);
    Batch B;
    eqm(B, N * X, A0.h() * B0, "(A^H A + lambda^2 I) x = A^H b");
}
void sx::register_all()
{
    covers("tkhnv,tik_qr,tik_bidiag_elden,geqrf,geqr2,unmqr,bidiag,unmlq,laset,lacpy,trsm,rotg,rot,axpy,rscl,larfg,larf");
    bounds("Tikhonov, exact algebra with one real parameter: m-by-n systems, n <= m <= 4, n <= 3, 1 or 2 right-hand sides; parameter = any entry of b (n <= 3), lambda in [1/4,4] (n <= 2), an entry of A in [-4,4] (n = 1 and some n = 2); the other data are fixed integers; SVD variant: singular values and vectors from the construction of A (svd_qr itself: property E03)");
    assumption("lambda > 0; larger parameters of A and intermediate underflow are outside");
    CaseOpts o;
    o.param = true;
    o.case_s = thorough() ? 200 : 15;
    for (auto v : {::TikVariant::QR, ::TikVariant::Elden})
        for (idx n = 1; n <= 3; n++)
            for (idx m = n; m <= n + 1 + (n == 1); m++)
                for (idx k = 1; k <= 2; k++)
                    for (int w = 0; w < 3 + (int)(m * k); w++)
                        for (int f = 0; f < 2; f++) {
                            bool el = v == ::TikVariant::Elden;
                            string s = string(el ? "elden_" : "qr_") + S(m) + S(n) + S(k) + "_w" + S(w) + "_f" + S(f);
                            bool r = w >= 3 || n == 1, c = w >= 3 || n == 1;
                            if (n == 2) { if (w == 1) { r = m == 2 || el; c = m == 2 && !el; } if (w == 0) r = m == 2 && (el || f); }
                            if (m == 3 && n == 1 && w != 1 && w < 3) r = c = false;
                            if (k == 2 && w >= 3 && w - 3 < (int)m && m > 1) r = c = false;
                            if (k == 2 && w < 3) c = false;
                            if (k == 2 && w < 3 && n == 2) r = false;
                            if (thorough()) r = c = true;
                            if (r) add_case("tik_r_" + s, o, [=] { tik<SReal, Layout::ColMajor>(v, m, n, k, w, f); });
                            if (c) add_case("tik_c_" + s, o, [=] { tik<SComplex, Layout::ColMajor>(v, m, n, k, w, f); });
                        }
    for (idx n = 1; n <= 3; n++)
        for (idx m = n; m <= n + 1; m++)
            for (idx k = 1; k <= 2; k++)
                for (int w = 0; w < 2 + (int)(m * k); w++)
                    for (int f = 0; f < 2; f++) {
                        if (k == 2 && w >= 2 && w - 2 < (int)m) continue;
                        string s = "svd_" + S(m) + S(n) + S(k) + "_w" + S(w) + "_f" + S(f);
                        if (n == 3 && w == 0 && !thorough()) continue;
                        add_case("tik_r_" + s, o, [=] { tiksvd<SReal>(m, n, k, w, f); });
                        add_case("tik_c_" + s, o, [=] { tiksvd<SComplex>(m, n, k, w, f); });
                    }
}
