// Structured kernels: triangular inverses and in-place triangular products,
// out-of-place triangular / Hermitian products, transposes.
#include "hx.hpp"
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/trtri_recursive.hpp>
#include <tlapack/lapack/lauum_recursive.hpp>
#include <tlapack/lapack/ul_mult.hpp>
#include <tlapack/lapack/lu_mult.hpp>
#include <tlapack/lapack/mult_llh.hpp>
#include <tlapack/lapack/mult_uhu.hpp>
#include <tlapack/lapack/hemm2.hpp>
#include <tlapack/lapack/mult_hehe.hpp>
#include <tlapack/lapack/gemmtr.hpp>
#include <tlapack/lapack/trmm_out.hpp>
#include <tlapack/lapack/trsm_tri.hpp>
#include <tlapack/lapack/trmm_blocked_mixed.hpp>
#include <tlapack/lapack/transpose.hpp>
using namespace sx;
static const Op OPS[] = {Op::NoTrans, Op::Trans, Op::ConjTrans};
static const Uplo UL[] = {Uplo::Upper, Uplo::Lower};

template <class T> F nz(const T& x) { return f_not(eq(x, T(0))); }
// in-place product over a triangle: compare the triangle, other part must be poison
template <class T, Layout L>
void tri_out(Mat<T, L>& C, const D<T>& e, Uplo u, const string& l, bool diag = true)
{
    Batch B;
    bool ok = C.padding_ok();
    for (idx j = 0; j < C.n; j++)
        for (idx i = 0; i < C.m; i++) {
            if (u != Uplo::General && (u == Uplo::Upper ? i > j : i < j)) { ok = ok && is_poison(C(i, j)); continue; }
            if (i == j && !diag) { ok = ok && is_poison(C(i, j)); continue; }
            B.eq(C(i, j), e(i, j), l + "(" + S(i) + "," + S(j) + ")");
        }
    B.flush();
    check_concrete(ok, l + ": storage outside the result");
}
template <class T, Layout L, Layout L2>
void reg()
{
    const string t = tname<T>() + nm(L);
    const idx N = thorough() ? 6 : 5;
    const idx M = thorough() ? 4 : 3;
    for (Uplo u : UL)
        for (idx n = 0; n <= N; n++) {
            for (Diag d : {Diag::NonUnit, Diag::Unit}) {
                if (isC<T> && n > 3 && d == Diag::NonUnit && !(thorough() && n == 4)) continue;
                if (isC<T> && n > 4) continue;
                CaseOpts o;
                o.case_s = 120;
                add_case("trtri_" + nm(u) + nm(d) + "_" + t + "_" + S(n), o, [=] {
                    Mat<T, L> A(n, n);
                    A.in_tri("a", u, d);
                    if (d == Diag::NonUnit)
                        for (idx i = 0; i < n; i++) assume(nz(A(i, i)));
                    auto A0 = A.d();
                    auto Av = A.view();
                    long info = info_of([&] { return tl::trtri_recursive(u, d, Av); });
                    check_concrete(info == 0, "info = 0 for a nonsingular matrix");
                    bool ok = A.padding_ok();
                    for (idx j = 0; j < n; j++)
                        for (idx i = 0; i < n; i++)
                            if ((u == Uplo::Upper ? i > j : i < j) || (i == j && d == Diag::Unit)) ok = ok && is_poison(A(i, j));
                    check_concrete(ok, "the other triangle (and unit diagonal) is not touched");
                    Batch B;
                    eqm(B, tri(A.d(), u, d) * tri(A0, u, d), D<T>::eye(n), "inv(A) A = I");
                });
            }
            CaseOpts q;
            q.strict_div = false;
            if (!isC<T> || n < 3)
                for (idx z = 0; z < n; z++)
                    for (int quiet = 0; quiet < 2; quiet++)
                        add_case("trtri_zero" + S(z) + (quiet ? "q_" : "_") + nm(u) + "_" + t + "_" + S(n), q, [=] {
                            Mat<T, L> A(n, n);
                            A.in_tri("a", u);
                            for (idx i = 0; i < n; i++) { if (i == z) A(i, i) = T(0); else if (i < z) assume(nz(A(i, i))); }
                            // the row and column of the zero carry no data the result depends on
                            for (idx i = 0; i < n; i++)
                                for (idx j = 0; j < n; j++)
                                    if (i != j && !is_poison(A(i, j))) A(i, j) = T(0);
                            auto Av = A.view();
                            long info = info_of([&] { return tl::trtri_recursive(u, Diag::NonUnit, Av, quiet ? tl::EcOpts(tl::NO_ERROR_CHECK) : tl::EcOpts()); });
                            check_concrete(info == (long)z + 1, "info is the first zero diagonal entry");
                        });
            add_case("lauum_" + nm(u) + "_" + t + "_" + S(n), [=] {
                Mat<T, L> A(n, n);
                A.in_tri("a", u);
                auto Y = tri(A.d(), u);
                auto Av = A.view();
                int info = tl::lauum_recursive(u, Av);
                check_concrete(info == 0, "info = 0");
                tri_out(A, u == Uplo::Upper ? Y * Y.h() : Y.h() * Y, u, "product");
            });
        }
    for (idx n = 0; n <= N; n++) {
        add_case("ul_mult_" + t + "_" + S(n), [=] {
            Mat<T, L> A(n, n);
            A.in("a");
            auto A0 = A.d();
            auto Av = A.view();
            tl::ul_mult(Av);
            tri_out(A, tri(A0, Uplo::Upper) * tri(A0, Uplo::Lower, Diag::Unit), Uplo::General, "U L");
        });
        for (size_t nx = 1; nx <= 4; nx++) {
            add_case("lu_mult_" + t + "_" + S(n) + "_nx" + S(nx), [=] {
                Mat<T, L> A(n, n);
                A.in("a");
                auto A0 = A.d();
                auto Av = A.view();
                tl::LuMultOpts o;
                o.nx = nx;
                tl::lu_mult(Av, o);
                tri_out(A, tri(A0, Uplo::Lower, Diag::Unit) * tri(A0, Uplo::Upper), Uplo::General, "L U");
            });
            add_case("mult_llh_" + t + "_" + S(n) + "_nx" + S(nx), [=] {
                Mat<T, L> A(n, n);
                A.in_tri("a", Uplo::Lower);
                auto Y = tri(A.d(), Uplo::Lower);
                auto Av = A.view();
                tl::mult_llh_Opts o;
                o.nx = nx;
                tl::mult_llh(Av, o);
                tri_out(A, Y * Y.h(), Uplo::Lower, "L L^H");
            });
            add_case("mult_uhu_" + t + "_" + S(n) + "_nx" + S(nx), [=] {
                Mat<T, L> A(n, n);
                A.in_tri("a", Uplo::Upper);
                auto Y = tri(A.d(), Uplo::Upper);
                auto Av = A.view();
                tl::mult_uhu_Opts o;
                o.nx = nx;
                tl::mult_uhu(Av, o);
                tri_out(A, Y.h() * Y, Uplo::Upper, "U^H U");
            });
        }
        for (Uplo u : UL)
            for (int db = 0; db < 2; db++)
                add_case("mult_hehe_" + nm(u) + "_" + t + "_" + S(n) + (db ? "_b0" : ""), [=] {
                    Mat<T, L> A(n, n), C(n, n);
                    Mat<T, L2> B(n, n);
                    A.in_tri("a", u), B.in_tri("b", u), C.in("c");
                    auto A0 = A.d(), B0 = B.d(), C0 = C.d();
                    T al = input<T>("al"), be = db ? T(0) : input<T>("be");
                    auto Av = A.view();
                    auto Bv = B.view();
                    auto Cv = C.view();
                    tl::mult_hehe(u, al, Av, Bv, be, Cv);
                    tri_out(C, scl(al, symfull(A0, u, true) * symfull(B0, u, true)) + scl(be, C0), Uplo::General, "C");
                    check_concrete(unchanged(A.d(), A0) && unchanged(B.d(), B0), "A, B unchanged");
                });
    }
    for (Uplo u : UL)
        for (Op ta : OPS)
            for (Op tb : OPS)
                for (idx n = 0; n <= M + 1; n++)
                    for (idx k = 0; k <= M; k++)
                        add_case("gemmtr_" + nm(u) + nm(ta) + nm(tb) + "_" + t + "_" + S(n) + S(k), [=] {
                            Mat<T, L> A(ta == Op::NoTrans ? n : k, ta == Op::NoTrans ? k : n), C(n, n);
                            Mat<T, L2> B(tb == Op::NoTrans ? k : n, tb == Op::NoTrans ? n : k);
                            A.in("a"), B.in("b"), C.in_tri("c", u);
                            T al = input<T>("al"), be = input<T>("be");
                            auto A0 = A.d(), B0 = B.d(), C0 = C.d();
                            auto Av = A.view();
                            auto Bv = B.view();
                            auto Cv = C.view();
                            tl::gemmtr(u, ta, tb, al, Av, Bv, be, Cv);
                            tri_out(C, scl(al, A0.op(ta) * B0.op(tb)) + scl(be, tri(C0, u)), u, "C");
                            check_concrete(unchanged(A.d(), A0) && unchanged(B.d(), B0), "A, B unchanged");
                        });
    for (Side sd : {Side::Left, Side::Right})
        for (Uplo u : UL)
            for (Op tb : OPS) {
                for (idx q = 0; q <= M + 1; q++)
                    for (idx r = 0; r <= M; r++) {
                        // op(B) is q-by-r (Left) or r-by-q (Right)
                        idx m = sd == Side::Left ? q : r, n = sd == Side::Left ? r : q;
                        idx bm = tb == Op::NoTrans ? m : n, bn = tb == Op::NoTrans ? n : m;
                        add_case("hemm2_" + nm(sd) + nm(u) + nm(tb) + "_" + t + "_" + S(q) + S(r), [=] {
                            Mat<T, L> A(q, q), C(m, n);
                            Mat<T, L2> B(bm, bn);
                            A.in_tri("a", u), B.in("b"), C.in("c");
                            T al = input<T>("al"), be = input<T>("be");
                            auto A0 = A.d(), B0 = B.d(), C0 = C.d();
                            auto Av = A.view();
                            auto Bv = B.view();
                            auto Cv = C.view();
                            tl::hemm2(sd, u, tb, al, Av, Bv, be, Cv);
                            auto H = symfull(A0, u, true);
                            auto X = B0.op(tb);
                            tri_out(C, scl(al, sd == Side::Left ? H * X : X * H) + scl(be, C0), Uplo::General, "C");
                            check_concrete(unchanged(A.d(), A0) && unchanged(B.d(), B0), "A, B unchanged");
                        });
                        for (Diag d : {Diag::NonUnit, Diag::Unit})
                            add_case("trmm_out_" + nm(sd) + nm(u) + nm(d) + nm(tb) + "_" + t + "_" + S(q) + S(r), [=] {
                                Mat<T, L> A(q, q), C(m, n);
                                Mat<T, L2> B(bm, bn);
                                A.in_tri("a", u, d), B.in("b"), C.in("c");
                                T al = input<T>("al"), be = input<T>("be");
                                auto A0 = A.d(), B0 = B.d(), C0 = C.d();
                                auto Av = A.view();
                                auto Bv = B.view();
                                auto Cv = C.view();
                                tl::trmm_out(sd, u, Op::NoTrans, d, tb, al, Av, Bv, be, Cv);
                                auto H = tri(A0, u, d);
                                auto X = B0.op(tb);
                                tri_out(C, scl(al, sd == Side::Left ? H * X : X * H) + scl(be, C0), Uplo::General, "C");
                                check_concrete(unchanged(A.d(), A0) && unchanged(B.d(), B0), "A, B unchanged");
                            });
                    }
                for (Diag d : {Diag::NonUnit, Diag::Unit})
                    for (idx n = 0; n <= M + 1; n++) {
                        if (isC<T> && n > 3 && d == Diag::NonUnit) continue;
                        CaseOpts o;
                        o.case_s = 120;
                        add_case("trsm_tri_" + nm(sd) + nm(u) + nm(tb) + nm(d) + "_" + t + "_" + S(n), o, [=] {
                            Uplo ua = tb == Op::NoTrans ? u : u == Uplo::Upper ? Uplo::Lower : Uplo::Upper;
                            Mat<T, L> A(n, n), B(n, n);
                            A.in_tri("a", ua, d), B.in_tri("b", u);
                            if (d == Diag::NonUnit)
                                for (idx i = 0; i < n; i++) assume(nz(A(i, i)));
                            T al = input<T>("al");
                            auto A0 = A.d();
                            auto Y = tri(B.d(), u);
                            auto Av = A.view();
                            auto Bv = B.view();
                            tl::trsm_tri(sd, u, tb, d, al, Av, Bv);
                            auto X = tri(B.d(), u), H = tri(A0, ua, d).op(tb);
                            bool ok = B.padding_ok() && unchanged(A.d(), A0);
                            each_tri_unref(B.d(), B.d(), u, [&](idx i, idx j) { ok = ok && is_poison(B(i, j)); });
                            check_concrete(ok, "storage outside the result");
                            Batch Q;
                            eqm(Q, sd == Side::Left ? H * X : X * H, scl(al, Y), "op(A) X = alpha B");
                        });
                    }
            }
    for (Diag d : {Diag::NonUnit, Diag::Unit})
        for (idx m = 0; m <= N; m++)
            for (idx n = 0; n <= 2; n++)
                for (size_t nb = 1; nb <= 4; nb++)
                    add_case("trmm_blocked_mixed_" + nm(d) + "_" + t + "_" + S(m) + S(n) + "_nb" + S(nb), [=] {
                        Mat<T, L> A(m, m), B(m, n), W(std::min<idx>(nb, m), n, 0);
                        A.in_tri("a", Uplo::Upper, d), B.in("b");
                        T al = input<T>("al");
                        auto A0 = A.d(), B0 = B.d();
                        auto Av = A.view();
                        auto Bv = B.view();
                        auto Wv = W.view();
                        tl::TrmmBlockedOpts o;
                        o.nb = nb;
                        tl::trmm_blocked_mixed(Side::Left, Uplo::Upper, Op::NoTrans, d, al, Av, Bv, Wv, o);
                        tri_out(B, scl(al, tri(A0, Uplo::Upper, d) * B0), Uplo::General, "B");
                        check_concrete(unchanged(A.d(), A0) && W.padding_ok(), "A unchanged");
                    });
    for (idx m = 0; m <= 6; m++)
        for (idx n = 0; n <= 6; n++)
            for (size_t nx : {2, 3, 16})
                for (int c = 0; c < 2; c++)
                    add_case(string(c ? "conjtranspose_" : "transpose_") + t + "_" + S(m) + S(n) + "_nx" + S(nx), [=] {
                        Mat<T, L> A(m, n);
                        Mat<T, L2> B(n, m);
                        A.in("a");
                        auto A0 = A.d();
                        auto Av = A.view();
                        auto Bv = B.view();
                        tl::TransposeOpts o;
                        o.nx = nx;
                        if (c) tl::conjtranspose(Av, Bv, o); else tl::transpose(Av, Bv, o);
                        tri_out(B, c ? A0.h() : A0.t(), Uplo::General, "B");
                        check_concrete(unchanged(A.d(), A0) && A.padding_ok(), "A unchanged");
                    });
}
void sx::register_all()
{
    covers("trtri_recursive,lauum_recursive,ul_mult,lu_mult,mult_llh,mult_uhu,mult_hehe,hemm2,gemmtr,trmm_out,trsm_tri,trmm_blocked_mixed,transpose,conjtranspose");
    bounds("orders 0..5 (thorough 6) for the in-place products, 0..4 by 0..3 for the out-of-place ones, transposes up to 6x6; recursion cut-offs nx 1..4, blocks 1..4; every flag");
    assumption("inverse and solve: nonzero diagonal (complex non-unit inverses up to order 3)");
    reg<SReal, Layout::ColMajor, Layout::RowMajor>();
    reg<SComplex, Layout::ColMajor, Layout::ColMajor>();
    reg<SComplex, Layout::RowMajor, Layout::ColMajor>();
}
