// Level-2 BLAS against the dense definition.
#include "hx.hpp"
#include <tlapack/blas/gemv.hpp>
#include <tlapack/blas/ger.hpp>
#include <tlapack/blas/geru.hpp>
#include <tlapack/blas/hemv.hpp>
#include <tlapack/blas/her.hpp>
#include <tlapack/blas/her2.hpp>
#include <tlapack/blas/symv.hpp>
#include <tlapack/blas/syr.hpp>
#include <tlapack/blas/syr2.hpp>
#include <tlapack/blas/trmv.hpp>
#include <tlapack/blas/trsv.hpp>
using namespace sx;

// scalar kinds for alpha, beta
enum SK { GEN, REAL, Z, OMIT };
static const Op OPS[] = {Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj};
static const Uplo UL[] = {Uplo::Upper, Uplo::Lower};

template <class T> D<T> col(const vector<T>& v) { D<T> r(v.size(), 1); r.v = v; return r; }
// incremented views of the same data
template <class T, class Fn> void with_views(Vec<T>& x, Vec<T>& y, Fn f)
{
    if (x.inc > 0 && y.inc > 0) { auto a = x.view(); auto b = y.view(); f(a, b); }
    else if (x.inc > 0) { auto a = x.view(); auto b = y.bview(); f(a, b); }
    else if (y.inc > 0) { auto a = x.bview(); auto b = y.view(); f(a, b); }
    else { auto a = x.bview(); auto b = y.bview(); f(a, b); }
}
template <class TA, class T> D<T> up(const D<TA>& a)
{
    D<T> r(a.m, a.n);
    for (size_t i = 0; i < a.v.size(); i++) r.v[i] = T(a.v[i]);
    return r;
}
// beta handling shared by the mv routines: y0 is poison when beta is omitted or StrongZero
template <class T, class Call>
void mv(SK bk, Vec<T>& y, const std::function<D<T>(T)>& expect_plus, Call call, const string& l, bool empty = false)
{
    vector<T> y0(y.n);
    if (bk != OMIT) { y.in("y"); y0 = y.d(); }
    SReal br = bk == REAL ? var("br") : SReal(0);
    T bg = bk == GEN ? input<T>("be") : T(br);
    call(bk, bg, br);
    D<T> e = expect_plus(bg);
    // op(A) has no columns: reference BLAS returns without scaling y; both conventions accepted
    if (empty && (bk == OMIT ? is_poison(y.n ? y[0] : poison<T>()) : y.d().size() && same(y[0], y0[0]))) return check_concrete(y.padding_ok(), "storage between and around y");
    Batch B;
    for (idx i = 0; i < y.n; i++) {
        T ex = e(i, 0);
        if (bk != OMIT) ex = ex + bg * y0[i];
        B.eq(y[i], ex, l + "[" + S(i) + "]");
    }
    B.flush();
    check_concrete(y.padding_ok(), "storage between and around y");
}
template <class TA, class TX, class T, Layout L>
void gemv_case(Op op, idx m, idx n, long ix, long iy, SK ak, SK bk)
{
    Mat<TA, L> A(m, n);
    A.in("a");
    bool nt = op == Op::NoTrans || op == Op::Conj;
    Vec<TX> x(nt ? n : m, ix);
    Vec<T> y(nt ? m : n, iy);
    x.in("x");
    SReal ar = ak == REAL ? var("ar") : SReal(0);
    T ag = ak == GEN ? input<T>("al") : T(ar);
    auto A0 = A.d();
    auto x0 = x.d();
    auto Av = A.view();
    mv<T>(bk, y, [&](T) { return scl(ag, up<TA, T>(A0.op(op)) * up<TX, T>(col(x0))); },
          [&](SK k, T bg, SReal br) {
              auto go = [&](auto& xv, auto& yv) {
                  if (ak == REAL) {
                      if (k == GEN) tl::gemv(op, ar, Av, xv, bg, yv);
                      else if (k == REAL) tl::gemv(op, ar, Av, xv, br, yv);
                      else tl::gemv(op, ar, Av, xv, yv);
                  }
                  else {
                      if (k == GEN) tl::gemv(op, ag, Av, xv, bg, yv);
                      else if (k == REAL) tl::gemv(op, ag, Av, xv, br, yv);
                      else tl::gemv(op, ag, Av, xv, yv);
                  }
              };
              if (ix > 0 && iy > 0) { auto a = x.view(); auto b = y.view(); go(a, b); }
              else { auto a = x.bview(); auto b = y.bview(); go(a, b); }
          }, "y", (nt ? n : m) == 0);
    check_concrete(unchanged(A.d(), A0) && A.padding_ok() && x.padding_ok(), "A, x unchanged");
}
template <class T, Layout L>
void reg()
{
    const string t = tname<T>() + nm(L);
    idx N = thorough() ? 4 : 3;
    for (Op op : OPS) {
        for (idx m = 0; m <= N; m++)
            for (idx n = 0; n <= N; n++) {
                long ix = (m + n) % 2 ? 1 : 2, iy = n % 2 ? 2 : 1;
                if ((m + 2 * n) % 3 == 1) ix = -ix, iy = -iy;
                for (SK bk : {GEN, OMIT, REAL})
                    add_case("gemv_" + t + nm(op) + "_" + S(m) + S(n) + "_b" + S(bk), [=] { gemv_case<T, T, T, L>(op, m, n, ix, iy, bk == REAL ? REAL : GEN, bk); });
            }
        if (isC<T>) {
            add_case("gemv_mixed_rA_" + t + nm(op), [=] { gemv_case<SReal, T, T, L>(op, 2, 3, 1, 1, GEN, GEN); });
            add_case("gemv_mixed_rx_" + t + nm(op), [=] { gemv_case<T, SReal, T, L>(op, 2, 3, 1, 1, GEN, GEN); });
        }
    }
    // rank-1 updates
    for (int k = 0; k < 2; k++)
        for (idx m = 0; m <= N; m++)
            for (idx n = 0; n <= N; n++) {
                long ix = m % 2 ? 1 : -2, iy = n % 2 ? -1 : 2;
                add_case(string(k ? "geru_" : "ger_") + t + "_" + S(m) + S(n), [=] {
                    Mat<T, L> A(m, n);
                    Vec<T> x(m, ix), y(n, iy);
                    A.in("a"), x.in("x"), y.in("y");
                    T al = input<T>("al");
                    auto A0 = A.d();
                    auto Av = A.view();
                    with_views(x, y, [&](auto& a, auto& b) { if (k) tl::geru(al, a, b, Av); else tl::ger(al, a, b, Av); });
                    Batch B;
                    for (idx i = 0; i < m; i++)
                        for (idx j = 0; j < n; j++) B.eq(A(i, j), A0(i, j) + al * x[i] * (k ? y[j] : cj(y[j])), "A(" + S(i) + "," + S(j) + ")");
                    B.flush();
                    check_concrete(A.padding_ok(), "storage around A");
                });
            }
    for (Uplo u : UL)
        for (idx n = 0; n <= N; n++)
            for (int herm = 0; herm < 2; herm++) {
                string p = nm(u) + "_" + t + "_" + S(n);
                long ix = n % 2 ? -1 : 2, iy = n % 2 ? 2 : 1;
                for (SK bk : {GEN, OMIT, REAL})
                    add_case(string(herm ? "hemv_" : "symv_") + p + "_b" + S(bk), [=] {
                        Mat<T, L> A(n, n);
                        A.in_tri("a", u);
                        Vec<T> x(n, ix), y(n, iy);
                        x.in("x");
                        T al = input<T>("al");
                        auto A0 = A.d();
                        auto x0 = x.d();
                        auto Av = A.view();
                        mv<T>(bk, y, [&](T) { return scl(al, symfull(A0, u, herm) * col(x0)); },
                              [&](SK k, T bg, SReal br) {
                                  with_views(x, y, [&](auto& xv, auto& yv) {
                                      if (herm) {
                                          if (k == GEN) tl::hemv(u, al, Av, xv, bg, yv);
                                          else if (k == REAL) tl::hemv(u, al, Av, xv, br, yv);
                                          else tl::hemv(u, al, Av, xv, yv);
                                      }
                                      else {
                                          if (k == GEN) tl::symv(u, al, Av, xv, bg, yv);
                                          else if (k == REAL) tl::symv(u, al, Av, xv, br, yv);
                                          else tl::symv(u, al, Av, xv, yv);
                                      }
                                  });
                              }, "y");
                        check_concrete(unchanged(A.d(), A0) && A.padding_ok() && x.padding_ok(), "A, x unchanged");
                    });
                for (int r2 = 0; r2 < 2; r2++)
                    add_case(string(herm ? "her" : "syr") + (r2 ? "2_" : "_") + p, [=] {
                        Mat<T, L> A(n, n);
                        A.in_tri("a", u);
                        Vec<T> x(n, ix), y(n, r2 ? iy : ix);
                        x.in("x");
                        if (r2) y.in("y");
                        SReal ar = var("ar");
                        T al = herm && !r2 ? T(ar) : input<T>("al");
                        auto A0 = A.d();
                        auto Av = A.view();
                        with_views(x, y, [&](auto& a, auto& b) {
                            if (herm) { if (r2) tl::her2(u, al, a, b, Av); else tl::her(u, ar, a, Av); }
                            else { if (r2) tl::syr2(u, al, a, b, Av); else tl::syr(u, al, a, Av); }
                        });
                        Batch B;
                        for (idx i = 0; i < n; i++)
                            for (idx j = 0; j < n; j++) {
                                if (u == Uplo::Upper ? i > j : i < j) continue;
                                T e = A0(i, j);
                                if (herm && i == j) e = T(re(e));
                                if (r2) e += herm ? al * x[i] * cj(y[j]) + cj(al) * y[i] * cj(x[j]) : al * (x[i] * y[j] + y[i] * x[j]);
                                else e += al * x[i] * (herm ? cj(x[j]) : x[j]);
                                B.eq(A(i, j), e, "A(" + S(i) + "," + S(j) + ")");
                            }
                        B.flush();
                        bool ok = true;
                        each_tri_unref(A0, A.d(), u, [&](idx i, idx j) { ok = ok && is_poison(A(i, j)); });
                        check_concrete(ok && A.padding_ok(), "storage outside the triangle");
                    });
            }
    for (Uplo u : UL)
        for (Op op : OPS)
            for (Diag d : {Diag::NonUnit, Diag::Unit})
                for (idx n = 0; n <= N; n++) {
                    long ix = n == 1 ? 1 : n == 2 ? -2 : n == 3 ? 2 : -1;
                    string p = nm(u) + nm(op) + nm(d) + "_" + t + "_" + S(n);
                    for (int sv = 0; sv < 2; sv++)
                        add_case(string(sv ? "trsv_" : "trmv_") + p, [=] {
                            Mat<T, L> A(n, n);
                            A.in_tri("a", u, d);
                            Vec<T> x(n, ix);
                            x.in("x");
                            if (sv && d == Diag::NonUnit)
                                for (idx i = 0; i < n; i++) assume(f_not(eq(A(i, i), T(0))));
                            auto A0 = A.d();
                            auto x0 = x.d();
                            auto Av = A.view();
                            auto go = [&](auto xv) { if (sv) tl::trsv(u, op, d, Av, xv); else tl::trmv(u, op, d, Av, xv); };
                            if (ix > 0) go(x.view()); else go(x.bview());
                            D<T> M = tri(A0, u, d).op(op);
                            Batch B;
                            if (sv) eqm(B, M * col(x.d()), col(x0), "op(A) x_out = x_in");
                            else eqm(B, M * col(x0), col(x.d()), "x_out = op(A) x_in");
                            B.flush();
                            check_concrete(unchanged(A.d(), A0) && A.padding_ok() && x.padding_ok(), "A and the storage around x unchanged");
                        });
                }
}
void sx::register_all()
{
    covers("gemv,ger,geru,hemv,symv,her,her2,syr,syr2,trmv,trsv");
    bounds("matrix dimensions 0..3 (thorough 0..4), every uplo/op/diag, both layouts, padded leading dimension, vector increments 1,2,-1,-2; entries and scalars any real/complex number (real, general and omitted beta)");
    assumption("trsv: nonzero diagonal");
    reg<SReal, Layout::ColMajor>();
    reg<SReal, Layout::RowMajor>();
    reg<SComplex, Layout::ColMajor>();
    reg<SComplex, Layout::RowMajor>();
}
