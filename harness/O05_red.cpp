// Two-sided reductions (bidiagonal, Hessenberg, tridiagonal) over the contract of larfg (decided by O01).
#include "stub_larfg.hpp"
#include <iostream>
#include <tlapack/lapack/bidiag.hpp>
#include <tlapack/lapack/hessenberg.hpp>
#include <tlapack/lapack/hetd2.hpp>
#include <tlapack/lapack/trge_qr2.hpp>
#include <tlapack/lapack/trge_ung2r.hpp>
using namespace sx;
template <class T, Layout L>
void reg()
{
    const string t = tname<T>() + nm(L);
    const idx N = isC<T> && !thorough() ? 3 : 4;
    for (idx m = 0; m <= N; m++)
        for (idx n = 0; n <= N; n++)
            for (int nb : {0, 1, 2, 3, 32})
                for (int w = 0; w < 2; w++) {
                    idx k = std::min(m, n);
                    if (nb > 1 && nb != 32 && nb >= (int)k) continue;
                    if (!thorough() && w && nb == 32) continue;
                    if (!thorough() && m + n > 7 && (nb == 32 || nb == 3 || w || (nb && nb != 2) || L == Layout::RowMajor)) continue;
                    if (!thorough() && isC<T> && k == 3) continue;
                    add_case("bidiag_" + t + "_" + S(m) + S(n) + "_nb" + S(nb) + (w ? "w" : ""), [=] {
                        stub::reset();
                        Mat<T, L> A(m, n);
                        A.in("a");
                        Vec<T> tq(k, 1), tp(k, 1);
                        auto E = A.d();
                        auto Av = A.view();
                        auto qv = tq.view(), pv = tp.view();
                        tl::BidiagOpts o;
                        o.variant = nb ? tl::BidiagVariant::Blocked : tl::BidiagVariant::Level2;
                        o.nb = nb;
                        int info;
                        if (w) {
                            auto wi = tl::bidiag_worksize<T>(Av, qv, pv, o);
                            Mat<T, L> wk(wi.m, wi.n, 0);
                            auto wv = wk.view();
                            info = tl::bidiag_work(Av, qv, pv, wv, o);
                            check_concrete(wk.padding_ok(), "storage around the workspace");
                        }
                        else info = tl::bidiag(Av, qv, pv, o);
                        check_concrete(info == 0 && A.padding_ok() && tq.padding_ok() && tp.padding_ok(), "info and storage around the operands");
                        auto F = A.d();
                        bool up = m >= n;
                        D<T> B(m, n);
                        for (idx j = 0; j < k; j++) {
                            vector<T> v(m, T(0)), u(n, T(0));
                            idx pv0 = up ? j : j + 1, pu0 = up ? j + 1 : j;
                            if (pv0 < m) { v[pv0] = T(1); for (idx r = pv0 + 1; r < m; r++) v[r] = F(r, j); }
                            if (pu0 < n) { u[pu0] = T(1); for (idx r = pu0 + 1; r < n; r++) u[r] = cj(F(j, r)); }
                            // the last reflector of the shorter side is the identity
                            if (up) hleft(v, cj(tq[j]), E);
                            if (pu0 < n) hright(u, tp[j], E);
                            if (!up && pv0 < m) hleft(v, cj(tq[j]), E);
                            B(j, j) = F(j, j);
                            if (up && j + 1 < n) B(j, j + 1) = F(j, j + 1);
                            if (!up && j + 1 < m) B(j + 1, j) = F(j + 1, j);
                        }
                        Batch Q;
                        eqm(Q, E, B, "Q^H A P = B");
                    });
                }
    // Hessenberg; A is upper triangular outside rows and columns ilo:ihi
    for (idx n = 0; n <= N; n++)
        for (idx ilo = 0; ilo < std::max<idx>(n, 1); ilo++)
            for (idx ihi = ilo; ihi <= n; ihi++)
                for (int nb : {0, 1, 2, 3, 32})
                    for (int nx : {0, 1, 2})
                        for (int w = 0; w < 2; w++) {
                            if (nb < 2 && nx > 1) continue;
                            if (nb == 0 && nx) continue;
                            if (nb > 1 && nb != 32 && nb > (int)(ihi - ilo)) continue;
                            if (nb == 32 && nx) continue;
                            if (!thorough() && w && nx == 1) continue;
                            add_case("hess_" + t + "_" + S(n) + S(ilo) + S(ihi) + "_nb" + S(nb) + "_nx" + S(nx) + (w ? "w" : ""), [=] {
                                stub::reset();
                                Mat<T, L> A(n, n);
                                for (idx i = 0; i < n; i++)
                                    for (idx j = 0; j < n; j++) A(i, j) = i > j && (j < ilo || i >= ihi) ? T(0) : input<T>("a" + S(i) + "_" + S(j));
                                Vec<T> tau(n ? n - 1 : 0, 1);
                                auto E = A.d();
                                auto Av = A.view();
                                auto tv = tau.view();
                                tl::HessenbergOpts o;
                                o.variant = nb ? tl::HessenbergVariant::Blocked : tl::HessenbergVariant::Level2;
                                o.nb = nb;
                                o.nx_switch = nx;
                                int info;
                                if (w) {
                                    auto wi = tl::hessenberg_worksize<T>(ilo, ihi, Av, tv, o);
                                    Mat<T, L> wk(wi.m, wi.n, 0);
                                    auto wv = wk.view();
                                    info = tl::hessenberg_work(ilo, ihi, Av, tv, wv, o);
                                    check_concrete(wk.padding_ok(), "storage around the workspace");
                                }
                                else info = tl::hessenberg(ilo, ihi, Av, tv, o);
                                check_concrete(info == 0 && A.padding_ok() && tau.padding_ok(), "info and storage around the operands");
                                auto F = A.d(), H = F;
                                for (idx j = ilo; j + 1 < ihi; j++) {
                                    vector<T> v(n, T(0));
                                    v[j + 1] = T(1);
                                    for (idx r = j + 2; r < ihi; r++) { v[r] = F(r, j); H(r, j) = T(0); }
                                    hright(v, tau[j], E);
                                    hleft(v, cj(tau[j]), E);
                                }
                                Batch Q;
                                eqm(Q, E, H, "Q^H A Q = H");
                            });
                        }
    for (idx n = 0; n <= (thorough() || !isC<T> ? 4 : 3); n++)
        for (Uplo u : {Uplo::Lower, Uplo::Upper}) {
            CaseOpts oo;
            oo.max_paths = 64;
            add_case("hetd2_" + t + "_" + S(n) + (u == Uplo::Lower ? "L" : "U"), oo, [=] {
                stub::reset();
                bool lo = u == Uplo::Lower;
                Mat<T, L> A(n, n);
                A.in_tri("a", u, Diag::NonUnit, false);
                D<T> E(n, n);
                for (idx i = 0; i < n; i++)
                    for (idx j = 0; j < n; j++) E(i, j) = i == j ? T(re(A(i, i))) : (lo ? i > j : i < j) ? A(i, j) : cj(A(j, i));
                Vec<T> tau(n ? n - 1 : 0, 1);
                auto A0 = A.d();
                auto Av = A.view();
                auto tv = tau.view();
                int info = tl::hetd2(u, Av, tv);
                check_concrete(info == 0 && A.padding_ok() && tau.padding_ok(), "info and storage around the operands");
                auto F = A.d();
                bool ok = true;
                for (idx i = 0; i < n; i++)
                    for (idx j = 0; j < n; j++)
                        if (lo ? i < j : i > j) ok = ok && is_poison(F(i, j));
                check_concrete(ok, "the other triangle is unchanged");
                D<T> B(n, n);
                for (idx s = 0; s + 1 < n; s++) {
                    idx j = lo ? s : n - 2 - s;
                    vector<T> v(n, T(0));
                    if (lo) { v[j + 1] = T(1); for (idx r = j + 2; r < n; r++) v[r] = F(r, j); }
                    else { v[j] = T(1); for (idx r = 0; r < j; r++) v[r] = F(r, j + 1); }
                    hright(v, tau[j], E);
                    hleft(v, cj(tau[j]), E);
                    B(j + lo, j + !lo) = lo ? F(j + 1, j) : F(j, j + 1);
                    B(j + !lo, j + lo) = cj(B(j + lo, j + !lo));
                }
                for (idx i = 0; i < n; i++) B(i, i) = F(i, i);
                Batch Q;
                eqm(Q, E, B, "Q^H A Q = T");
                for (idx i = 0; i < n; i++) Q.eq(im(F(i, i)), SReal(0), "real diagonal");
            });
        }
}
void sx::register_all()
{
    covers("bidiag,gebd2,gebrd,labrd,hessenberg,gehd2,gehrd,lahr2,hetd2,larf,larfb");
    bounds("m,n 0..4 (complex 0..3), nb in {1,2,3,32}, every ilo<=ihi, nx_switch 0..2, both layouts (complex column major)");
    assumption("larfg is replaced by its contract H^H z = beta e1 with beta real (decided for the real larfg by property O01)");
    reg<SReal, Layout::ColMajor>();
    reg<SReal, Layout::RowMajor>();
    reg<SComplex, Layout::ColMajor>();
    if (thorough()) reg<SComplex, Layout::RowMajor>();
}
