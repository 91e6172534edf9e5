// Cholesky factorizations, solves and inverses.
#include "hx.hpp"
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/potf2.hpp>
#include <tlapack/lapack/potrf.hpp>
#include <tlapack/lapack/potrf2.hpp>
#include <tlapack/lapack/potrf_blocked.hpp>
#include <tlapack/lapack/potrf_blocked_right_looking.hpp>
#include <tlapack/lapack/pbtrf_with_workspace.hpp>
#include <tlapack/lapack/pttrf.hpp>
#include <tlapack/lapack/potri.hpp>
#include <tlapack/lapack/potrs.hpp>
using namespace sx;
static const Uplo UL[] = {Uplo::Upper, Uplo::Lower};

// leading principal minor of order k (k <= 4) of a Hermitian matrix given in full
template <class T> SReal det(const D<T>& a)
{
    // expansion along the first row; the determinant of a Hermitian matrix is real
    std::function<T(D<T>)> go = [&](D<T> m) -> T {
        if (m.n == 0) return T(1);
        if (m.n == 1) return m(0, 0);
        T s(0);
        for (idx j = 0; j < m.n; j++) {
            D<T> q(m.n - 1, m.n - 1);
            for (idx r = 1; r < m.n; r++)
                for (idx c = 0, cc = 0; c < m.n; c++)
                    if (c != j) q(r - 1, cc++) = m(r, c);
            T t = m(0, j) * go(q);
            if (j % 2) s -= t; else s += t;
        }
        return s;
    };
    return re(go(a));
}
// the factor, its lower (or upper) part in F; verify against the Hermitian matrix H
template <class T> void check_factor(Batch& B, const D<T>& F_, Uplo u, const D<T>& H, idx k)
{
    D<T> X = tri(F_, u);
    D<T> P = u == Uplo::Upper ? X.h() * X : X * X.h();
    for (idx i = 0; i < k; i++)
        for (idx j = 0; j < k; j++) B.eq(P(i, j), H(i, j), "factor product (" + S(i) + "," + S(j) + ")");
    for (idx i = 0; i < k; i++) {
        B.eq(im(F_(i, i)), SReal(0), "real diagonal");
        B.add(gt(re(F_(i, i)), SReal(0)), "positive diagonal");
    }
}
template <class T, Layout L, class Fn>
void chol(Fn f, Uplo u, idx n, bool minors)
{
    Mat<T, L> A(n, n);
    A.in_tri("a", u);
    auto A0 = A.d();
    auto H = symfull(A0, u, true);
    auto Av = A.view();
    long info = info_of([&] { return f(u, Av); });
    auto A1 = A.d();
    bool ok = A.padding_ok();
    each_tri_unref(A0, A1, u, [&](idx i, idx j) { ok = ok && is_poison(A1(i, j)); });
    check_concrete(ok, "storage outside the triangle");
    check_concrete(info >= 0 && info <= (long)n, "info in 0..n");
    if (info == 0) {
        Batch B;
        check_factor(B, A1, u, H, n);
    }
    if (minors) {
        Batch B;
        for (idx k = 1; k <= (info ? info - 1 : n); k++) B.add(gt(det(H.sub(0, k, 0, k)), SReal(0)), "leading minor " + S(k) + " is positive");
        if (info) B.add(le(det(H.sub(0, info, 0, info)), SReal(0)), "leading minor info is not positive");
    }
}
template <class T, Layout L>
void reg()
{
    const string t = tname<T>() + nm(L);
    #ifdef TLAPACK_NDEBUG
#define ND_SUFFIX "_ndebug"
    idx N = 3;
#else
#define ND_SUFFIX ""
    idx N = thorough() ? 5 : 4;
#endif
    CaseOpts o;
    o.nra_ms = 15000;
    typedef tl::LegacyMatrix<T, idx, L> M;
    for (Uplo u : UL)
        for (idx n = 0; n <= N; n++) {
            string p = "_" + t + nm(u) + "_" + S(n) + ND_SUFFIX;
            bool mi = n <= 2 || (n == 3 && !isC<T>), slow = mi && (n <= 2 || thorough());
            add_case("potf2" + p, o, [=] { chol<T, L>([](Uplo u, M& A) { return tl::potf2(u, A); }, u, n, slow); });
            add_case("potrf2" + p, o, [=] { chol<T, L>([](Uplo u, M& A) { return tl::potrf2(u, A); }, u, n, mi); });
            add_case("potrf_default" + p, o, [=] { chol<T, L>([](Uplo u, M& A) { return tl::potrf(u, A); }, u, n, slow); });
            add_case("potrf_recursive" + p, o, [=] {
                chol<T, L>([](Uplo u, M& A) { tl::PotrfOpts q; q.variant = tl::PotrfVariant::Recursive; return tl::potrf(u, A, q); }, u, n, mi); });
            add_case("potrf_level2" + p, o, [=] {
                chol<T, L>([](Uplo u, M& A) { tl::PotrfOpts q; q.variant = tl::PotrfVariant::Level2; return tl::potrf(u, A, q); }, u, n, slow); });
            for (idx nb = 1; nb <= 3; nb++) {
                add_case("potrf_nb" + S(nb) + p, o, [=] {
                    chol<T, L>([=](Uplo u, M& A) { tl::PotrfOpts q; q.nb = nb; q.variant = tl::PotrfVariant::Blocked; return tl::potrf(u, A, q); }, u, n, nb < n ? mi : slow); });
                add_case("potrf_rl_nb" + S(nb) + p, o, [=] {
                    chol<T, L>([=](Uplo u, M& A) { tl::BlockedCholeskyOpts q; q.nb = nb; return tl::potrf_rl(u, A, q); }, u, n, nb < n ? mi : slow); });
                add_case("potrf_variant_rl_nb" + S(nb) + p, o, [=] {
                    chol<T, L>([=](Uplo u, M& A) { tl::PotrfOpts q; q.nb = nb; q.variant = tl::PotrfVariant::RightLooking; return tl::potrf(u, A, q); }, u, n, nb < n ? mi : slow); });
            }
#ifndef TLAPACK_NDEBUG
            // banded: storage outside the band is not referenced
            for (idx kd = 0; kd < n; kd++)
                for (idx nb = 1; nb <= 4; nb++)
                    add_case("pbtrf_kd" + S(kd) + "_nb" + S(nb) + p, o, [=] {
                        Mat<T, L> A(n, n);
                        D<T> H(n, n);
                        auto inband = [&](idx i, idx j) { return u == Uplo::Upper ? j >= i && j - i <= kd : i >= j && i - j <= kd; };
                        for (idx i = 0; i < n; i++)
                            for (idx j = 0; j < n; j++)
                                if (inband(i, j)) {
                                    A(i, j) = i == j ? T(var("a" + S(i) + S(j))) : input<T>("a" + S(i) + S(j));
                                    H(i, j) = A(i, j), H(j, i) = cj(A(i, j));
                                }
                        auto Av = A.view();
                        tl::BlockedBandedCholeskyOpts q;
                        q.nb = nb;
                        long info = info_of([&] { tl::pbtrf_with_workspace(u, Av, kd, q); return 0; });
                        if (info) return;
                        bool ok = A.padding_ok();
                        D<T> F_(n, n);
                        for (idx i = 0; i < n; i++)
                            for (idx j = 0; j < n; j++)
                                if (inband(i, j)) F_(i, j) = A(i, j); else ok = ok && is_poison(A(i, j));
                        check_concrete(ok, "storage outside the band");
                        Batch B;
                        check_factor(B, F_, u, H, n);
                    });
            // solve and inverse from a given factor
            idx rn = n ? n : 1;
            for (idx k = 0; k <= 2; k++)
                add_case("potrs" + p + "_" + S(k), o, [=] {
                    Mat<T, L> A(n, n), B(n, k);
                    A.in_tri("f", u), B.in("b");
                    for (idx i = 0; i < n; i++) assume(f_not(eq(A(i, i), T(0))));
                    auto X = tri(A.d(), u);
                    auto A0 = A.d();
                    auto B0 = B.d();
                    auto Av = A.view();
                    auto Bv = B.view();
                    check_concrete(tl::potrs(u, Av, Bv) == 0, "info");
                    Batch Q;
                    eqm(Q, (u == Uplo::Upper ? X.h() * X : X * X.h()) * B.d(), B0, "A X = B");
                    Q.flush();
                    check_concrete(unchanged(A.d(), A0) && A.padding_ok() && B.padding_ok(), "factor unchanged");
                });
            if (n <= 2 || !isC<T> || thorough())
                add_case("potri" + p, o, [=] {
                    Mat<T, L> A(n, n);
                    A.in_tri("a", u);
                    auto A0 = A.d();
                    auto H = symfull(A0, u, true);
                    auto Av = A.view();
                    if (info_of([&] { tl::potri(u, Av); return 0; })) return;
                    auto I = symfull(A.d(), u, true);
                    Batch Q;
                    eqm(Q, H * I, D<T>::eye(n), "A inv(A) = I");
                    Q.flush();
                    bool ok = A.padding_ok();
                    auto A1 = A.d();
                    each_tri_unref(A0, A1, u, [&](idx i, idx j) { ok = ok && is_poison(A1(i, j)); });
                    check_concrete(ok, "storage outside the triangle");
                });
#endif
        }
    if (L == Layout::ColMajor)
        for (idx n = 1; n <= (isC<T> ? N : N + 1); n++)
            add_case("pttrf_" + tname<T>() + "_" + S(n) + ND_SUFFIX, o, [=] {
                Vec<T> d(n, 1), e(n - 1, 1);
                for (idx i = 0; i < n; i++) d[i] = T(var("d" + S(i)));
                e.in("e");
                auto d0 = d.d();
                auto e0 = e.d();
                auto dv = d.view();
                auto ev = e.view();
                long info = info_of([&] { return tl::pttrf(dv, ev); });
                check_concrete(info >= 0 && info <= (long)n, "info in 0..n");
                // recurrence of the pivots, independent of the code
                Batch B;
                vector<SReal> p;
                for (idx i = 0; i < n; i++) {
                    SReal x = re(d0[i]);
                    if (i) x = x - abs2(e0[i - 1]) / p[i - 1];
                    if (info && i == (idx)info - 1) { B.add(le(x, SReal(0)), "pivot info not positive"); break; }
                    B.add(gt(x, SReal(0)), "pivot positive");
                    p.push_back(x);
                }
                if (!info)
                    for (idx i = 0; i < n; i++) {
                        // A = L D L^H entrywise
                        SReal x = re(d[i]);
                        if (i) x = x + abs2(e[i - 1]) * re(d[i - 1]);
                        B.eq(x, re(d0[i]), "diagonal of L D L^H");
                        B.eq(im(d[i]), SReal(0), "real D");
                        if (i + 1 < n) B.eq(e[i] * re(d[i]), e0[i], "subdiagonal of L D L^H");
                    }
                B.flush();
            });
}
void sx::register_all()
{
    covers("potf2,potrf,potrf2,potrf_blocked,potrf_rl,pbtrf_with_workspace,pttrf,potrs,potri");
    bounds("order 0..4 (thorough 0..5), block sizes 1..3 and default, bandwidth 0..n-1, both triangles, both layouts, real and complex; every symmetric/Hermitian matrix (indefinite ones included)");
    reg<SReal, Layout::ColMajor>();
#ifndef TLAPACK_NDEBUG
    reg<SComplex, Layout::ColMajor>();
#endif
    reg<SComplex, Layout::RowMajor>();
}
