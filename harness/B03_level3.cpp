// Level-3 BLAS against the dense definition.
#include "hx.hpp"
#include <tlapack/blas/gemm.hpp>
#include <tlapack/blas/hemm.hpp>
#include <tlapack/blas/symm.hpp>
#include <tlapack/blas/herk.hpp>
#include <tlapack/blas/syrk.hpp>
#include <tlapack/blas/her2k.hpp>
#include <tlapack/blas/syr2k.hpp>
#include <tlapack/blas/trmm.hpp>
#include <tlapack/blas/trsm.hpp>
using namespace sx;
enum SK { GEN, REAL, Z, OMIT };
static const Op OPS[] = {Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj};
static const Uplo UL[] = {Uplo::Upper, Uplo::Lower};
static const SK BK[] = {GEN, OMIT, REAL};

template <class TA, class T> D<T> up(const D<TA>& a)
{
    D<T> r(a.m, a.n);
    for (size_t i = 0; i < a.v.size(); i++) r.v[i] = T(a.v[i]);
    return r;
}
// run call(k, beta, real beta) on C and compare with plus + beta*C
template <class T, class M, class P, class Call>
void acc(SK bk, bool realbeta, M& C, P plus, Call call, Uplo u = Uplo::General, bool herm = false)
{
    if (bk != OMIT) { if (u == Uplo::General) C.in("c"); else C.in_tri("c", u); }
    auto C0 = C.d();
    SReal br = bk == REAL || realbeta ? var("br") : SReal(0);
    T bg = bk == GEN && !realbeta ? input<T>("be") : T(br);
    call(bk, bg, br);
    D<T> e = plus();
    Batch B;
    bool unref = true;
    for (idx j = 0; j < C.n; j++)
        for (idx i = 0; i < C.m; i++) {
            if (u != Uplo::General && (u == Uplo::Upper ? i > j : i < j)) { unref = unref && is_poison(C(i, j)); continue; }
            T x = e(i, j);
            if (bk != OMIT) x = x + bg * (herm && i == j ? T(re(C0(i, j))) : C0(i, j));
            B.eq(C(i, j), x, "C(" + S(i) + "," + S(j) + ")");
        }
    B.flush();
    check_concrete(unref && C.padding_ok(), "storage outside the result");
}
template <class TA, class TB, class T, Layout LA, Layout LB, Layout LC>
void gemm_case(Op ta, Op tb, idx m, idx n, idx k, SK ak, SK bk)
{
    Mat<TA, LA> A(ta == Op::NoTrans ? m : k, ta == Op::NoTrans ? k : m);
    Mat<TB, LB> B(tb == Op::NoTrans ? k : n, tb == Op::NoTrans ? n : k);
    Mat<T, LC> C(m, n);
    A.in("a"), B.in("b");
    SReal ar = ak == REAL ? var("ar") : SReal(0);
    T ag = ak == GEN ? input<T>("al") : T(ar);
    auto A0 = A.d();
    auto B0 = B.d();
    auto Av = A.view();
    auto Bv = B.view();
    auto Cv = C.view();
    acc<T>(bk, false, C, [&] { return scl(ag, up<TA, T>(A0.op(ta)) * up<TB, T>(B0.op(tb))); },
           [&](SK q, T bg, SReal br) {
               if (ak == REAL) {
                   if (q == GEN) tl::gemm(ta, tb, ar, Av, Bv, bg, Cv);
                   else if (q == REAL) tl::gemm(ta, tb, ar, Av, Bv, br, Cv);
                   else tl::gemm(ta, tb, ar, Av, Bv, Cv);
               }
               else {
                   if (q == GEN) tl::gemm(ta, tb, ag, Av, Bv, bg, Cv);
                   else if (q == REAL) tl::gemm(ta, tb, ag, Av, Bv, br, Cv);
                   else tl::gemm(ta, tb, ag, Av, Bv, Cv);
               }
           });
    check_concrete(unchanged(A.d(), A0) && unchanged(B.d(), B0) && A.padding_ok() && B.padding_ok(), "A, B unchanged");
}
template <class T, Layout L, Layout L2>
void reg()
{
    const string t = tname<T>() + nm(L);
    idx N = thorough() ? 4 : 3;
    for (Op ta : OPS)
        for (Op tb : OPS) {
            if (ta == Op::Conj || tb == Op::Conj) continue;
            for (idx m = 0; m <= N; m++)
                for (idx n = 0; n <= N; n++)
                    for (idx k = 0; k <= N; k++) {
                        if (m + n + k > 7 && !thorough()) continue;
                        SK bk = BK[(m + 2 * n + k) % 3];
                        add_case("gemm_" + t + nm(ta) + nm(tb) + "_" + S(m) + S(n) + S(k) + "_b" + S(bk),
                                 [=] { gemm_case<T, T, T, L, L2, L>(ta, tb, m, n, k, bk == REAL ? REAL : GEN, bk); });
                        if (m == 2 && n == 2)
                            for (SK b2 : BK)
                                if (b2 != bk) add_case("gemm_" + t + nm(ta) + nm(tb) + "_" + S(m) + S(n) + S(k) + "_b" + S(b2), [=] { gemm_case<T, T, T, L, L2, L>(ta, tb, m, n, k, b2 == REAL ? REAL : GEN, b2); });
                    }
            if (isC<T>) {
                add_case("gemm_mixed_rA_" + t + nm(ta) + nm(tb), [=] { gemm_case<SReal, T, T, L, L2, L>(ta, tb, 2, 3, 2, GEN, GEN); });
                add_case("gemm_mixed_rB_" + t + nm(ta) + nm(tb), [=] { gemm_case<T, SReal, T, L, L2, L>(ta, tb, 2, 3, 2, GEN, GEN); });
            }
        }
    for (Side sd : {Side::Left, Side::Right})
        for (Uplo u : UL)
            for (int herm = 0; herm < 2; herm++)
                for (idx m = 0; m <= N; m++)
                    for (idx n = 0; n <= N; n++)
                        for (SK bk : BK) {
                            if (!thorough() && !(m == 2 && n == 3) && bk != BK[(m + n) % 3]) continue;
                            add_case(string(herm ? "hemm_" : "symm_") + nm(sd) + nm(u) + "_" + t + "_" + S(m) + S(n) + "_b" + S(bk), [=] {
                                idx q = sd == Side::Left ? m : n;
                                Mat<T, L> A(q, q), C(m, n);
                                Mat<T, L2> B(m, n);
                                A.in_tri("a", u), B.in("b");
                                T al = input<T>("al");
                                auto A0 = A.d();
                                auto B0 = B.d();
                                auto Av = A.view();
                                auto Bv = B.view();
                                auto Cv = C.view();
                                acc<T>(bk, false, C, [&] { auto F_ = symfull(A0, u, herm); return scl(al, sd == Side::Left ? F_ * B0 : B0 * F_); },
                                       [&](SK k, T bg, SReal br) {
                                           if (herm) {
                                               if (k == GEN) tl::hemm(sd, u, al, Av, Bv, bg, Cv);
                                               else if (k == REAL) tl::hemm(sd, u, al, Av, Bv, br, Cv);
                                               else tl::hemm(sd, u, al, Av, Bv, Cv);
                                           }
                                           else {
                                               if (k == GEN) tl::symm(sd, u, al, Av, Bv, bg, Cv);
                                               else if (k == REAL) tl::symm(sd, u, al, Av, Bv, br, Cv);
                                               else tl::symm(sd, u, al, Av, Bv, Cv);
                                           }
                                       });
                                check_concrete(unchanged(A.d(), A0) && unchanged(B.d(), B0) && A.padding_ok() && B.padding_ok(), "A, B unchanged");
                            });
                        }
    for (Uplo u : UL)
        for (Op op : OPS)
            for (int herm = 0; herm < 2; herm++)
                for (int two = 0; two < 2; two++)
                    for (idx n = 0; n <= N; n++)
                        for (idx k = 0; k <= N; k++)
                            for (SK bk : BK) {
                                if (op == Op::Conj || (herm && op == Op::Trans && isC<T>) || (!herm && op == Op::ConjTrans)) continue;
                                if (herm && op == Op::Trans) continue;
                                if (herm && bk == REAL) continue;
                                if (!thorough() && n != 2 && bk == REAL) continue;
                                add_case(string(herm ? "her" : "syr") + (two ? "2k_" : "k_") + nm(u) + nm(op) + "_" + t + "_" + S(n) + S(k) + "_b" + S(bk), [=] {
                                    idx r = op == Op::NoTrans ? n : k, c = op == Op::NoTrans ? k : n;
                                    Mat<T, L> A(r, c), C(n, n);
                                    Mat<T, L2> B(r, c);
                                    A.in("a");
                                    if (two) B.in("b");
                                    SReal ar = herm && !two ? var("ar") : SReal(0);
                                    T al = herm && !two ? T(ar) : input<T>("al");
                                    auto A0 = A.d();
                                    auto B0 = B.d();
                                    auto Av = A.view();
                                    auto Bv = B.view();
                                    auto Cv = C.view();
                                    auto plus = [&] {
                                        auto X = op == Op::NoTrans ? A0 : herm ? A0.h() : A0.t();
                                        auto Y = op == Op::NoTrans ? B0 : herm ? B0.h() : B0.t();
                                        if (herm) return two ? scl(al, X * Y.h()) + scl(cj(al), Y * X.h()) : scl(al, X * X.h());
                                        return two ? scl(al, X * Y.t()) + scl(al, Y * X.t()) : scl(al, X * X.t());
                                    };
                                    acc<T>(bk, herm, C, plus, [&](SK q, T bg, SReal br) {
                                        if (herm && !two) { if (q == OMIT) tl::herk(u, op, ar, Av, Cv); else tl::herk(u, op, ar, Av, br, Cv); }
                                        else if (herm) { if (q == OMIT) tl::her2k(u, op, al, Av, Bv, Cv); else tl::her2k(u, op, al, Av, Bv, br, Cv); }
                                        else if (!two) {
                                            if (q == GEN) tl::syrk(u, op, al, Av, bg, Cv);
                                            else if (q == REAL) tl::syrk(u, op, al, Av, br, Cv);
                                            else tl::syrk(u, op, al, Av, Cv);
                                        }
                                        else {
                                            if (q == GEN) tl::syr2k(u, op, al, Av, Bv, bg, Cv);
                                            else if (q == REAL) tl::syr2k(u, op, al, Av, Bv, br, Cv);
                                            else tl::syr2k(u, op, al, Av, Bv, Cv);
                                        }
                                    }, u, herm);
                                    check_concrete(unchanged(A.d(), A0) && (!two || unchanged(B.d(), B0)) && A.padding_ok() && B.padding_ok(), "A, B unchanged");
                                });
                            }
    for (Side sd : {Side::Left, Side::Right})
        for (Uplo u : UL)
            for (Op op : OPS)
                for (Diag d : {Diag::NonUnit, Diag::Unit})
                    for (idx m = 0; m <= N; m++)
                        for (idx n = 0; n <= N; n++)
                            for (int sv = 0; sv < 2; sv++) {
                                if (op == Op::Conj || (!thorough() && m + n > 5)) continue;
                                add_case(string(sv ? "trsm_" : "trmm_") + nm(sd) + nm(u) + nm(op) + nm(d) + "_" + t + "_" + S(m) + S(n), [=] {
                                    idx q = sd == Side::Left ? m : n;
                                    Mat<T, L> A(q, q);
                                    Mat<T, L2> B(m, n);
                                    A.in_tri("a", u, d), B.in("b");
                                    if (sv && d == Diag::NonUnit)
                                        for (idx i = 0; i < q; i++) assume(f_not(eq(A(i, i), T(0))));
                                    T al = input<T>("al");
                                    auto A0 = A.d();
                                    auto B0 = B.d();
                                    auto Av = A.view();
                                    auto Bv = B.view();
                                    if (sv) tl::trsm(sd, u, op, d, al, Av, Bv); else tl::trmm(sd, u, op, d, al, Av, Bv);
                                    D<T> M = tri(A0, u, d).op(op);
                                    Batch Q;
                                    if (sv) eqm(Q, sd == Side::Left ? M * B.d() : B.d() * M, scl(al, B0), "op(A) X = alpha B");
                                    else eqm(Q, B.d(), scl(al, sd == Side::Left ? M * B0 : B0 * M), "B = alpha op(A) B");
                                    Q.flush();
                                    check_concrete(unchanged(A.d(), A0) && A.padding_ok() && B.padding_ok(), "A and the storage around B unchanged");
                                });
                            }
}
void sx::register_all()
{
    covers("gemm,hemm,symm,herk,syrk,her2k,syr2k,trmm,trsm");
    bounds("matrix dimensions 0..3 with m+n+k<=7 (thorough 0..4), every side/uplo/op/diag, mixed layouts, padded leading dimensions; entries and scalars any real/complex number (real, general and omitted beta)");
    assumption("trsm: nonzero diagonal");
    reg<SReal, Layout::ColMajor, Layout::RowMajor>();
    reg<SComplex, Layout::ColMajor, Layout::ColMajor>();
    reg<SComplex, Layout::RowMajor, Layout::ColMajor>();
}
