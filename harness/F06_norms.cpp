// Matrix norms against their definition.
#include "hx.hpp"
#include <tlapack/base/constants.hpp>
#include <tlapack/lapack/lange.hpp>
#include <tlapack/lapack/lanhe.hpp>
#include <tlapack/lapack/lansy.hpp>
#include <tlapack/lapack/lantr.hpp>
#include <tlapack/lapack/infnorm_colmajor.hpp>
#include <tlapack/lapack/infnorm_hermitian_colmajor.hpp>
#include <tlapack/lapack/infnorm_symmetric_colmajor.hpp>
#include <tlapack/lapack/infnorm_triangular_colmajor.hpp>
using namespace sx;
using tl::Norm;
enum KIND { GE_, HE_, SY_, TU_, TUU_, TL_, TLU_ };  // general, hermitian, symmetric, triangular upper/lower, unit
static const char* KN[] = {"ge", "he", "sy", "trU", "trUu", "trL", "trLu"};

// dense matrix of |entries| implied by the storage (zeros outside, ones on a unit diagonal)
template <class T>
D<SReal> absm(const D<T>& a, KIND k, Uplo u)
{
    D<SReal> r(a.m, a.n);
    for (idx i = 0; i < a.m; i++)
        for (idx j = 0; j < a.n; j++) {
            if (k == GE_) r(i, j) = sx::abs(a(i, j));
            else if (k == HE_ || k == SY_) {
                bool st = u == Uplo::Upper ? i <= j : i >= j;
                T x = st ? a(i, j) : a(j, i);
                r(i, j) = i == j && k == HE_ ? sx::abs(re(x)) : sx::abs(x);
            }
            else if (i == j) r(i, j) = k == TUU_ || k == TLU_ ? SReal(1) : sx::abs(a(i, j));
            else if ((u == Uplo::Upper && i < j) || (u == Uplo::Lower && i > j)) r(i, j) = sx::abs(a(i, j));
        }
    return r;
}
static string nn(Norm n) { return n == Norm::Max ? "max" : n == Norm::One ? "one" : n == Norm::Inf ? "inf" : "fro"; }
template <class T, Layout L>
Mat<T, L> build(KIND k, Uplo u, idx m, idx n, int cls = -1)
{
    Mat<T, L> A(m, n);
    if (k == GE_) A.in("a");
    else A.in_tri("a", u, k == TUU_ || k == TLU_ ? Diag::Unit : Diag::NonUnit);
    if (cls >= 0) {
        // classes of magnitude: 0 everything safe to square, 1 everything tiny, 2 everything huge
        SReal lo = tl::blue_min<SReal>(), hi = tl::blue_max<SReal>();
        for (idx j = 0; j < n; j++)
            for (idx i = 0; i < m; i++) {
                if (is_poison(A(i, j))) continue;
                SReal a = i == j && k == HE_ ? re(A(i, j)) * re(A(i, j)) : abs2(A(i, j));
                if (cls == 0) assume(m * n > 4 ? f_and(ge(a, lo * lo), le(a, hi * hi)) : f_or(f_and(ge(a, lo * lo), le(a, hi * hi)), eq(a, SReal(0))));
                if (cls == 1) assume(lt(a, lo * lo));
                if (cls == 2) assume(gt(a, hi * hi));
            }
    }
    return A;
}
static void judge(Norm w, const SReal& r, const D<SReal>& B)
{
    vector<SReal> c;
    if (w == Norm::Fro) {
        SReal s(0);
        for (auto& x : B.v) s += x * x;
        Batch b;
        b.add(ge(r, SReal(0)), "norm >= 0");
        b.eq(r * r, s, "norm^2 = sum of squares");
        return;
    }
    if (w == Norm::Max) c = B.v;
    else
        for (idx k = 0; k < (w == Norm::One ? B.n : B.m); k++) {
            SReal s(0);
            for (idx i = 0; i < (w == Norm::One ? B.m : B.n); i++) s += w == Norm::One ? B(i, k) : B(k, i);
            c.push_back(s);
        }
    Batch b;
    if (B.m == 0 || B.n == 0) { b.eq(r, SReal(0), "norm of an empty matrix is 0"); return; }
    vector<F> any;
    for (auto& x : c) { b.add(ge(r, x), "norm >= every candidate"); any.push_back(eq(r, x)); }
    b.add(f_any(any), "norm is attained");
}
template <class T, Layout L>
void reg()
{
    const string t = tname<T>() + nm(L);
    idx N = 3;
    for (int k0 = 0; k0 < 7; k0++) {
        KIND k = (KIND)k0;
        for (Uplo u : {Uplo::Upper, Uplo::Lower}) {
            if (k == GE_ && u == Uplo::Lower) continue;
            if ((k == TU_ || k == TUU_) && u == Uplo::Lower) continue;
            if ((k == TL_ || k == TLU_) && u == Uplo::Upper) continue;
            bool sq = k == HE_ || k == SY_;
            Diag d = k == TUU_ || k == TLU_ ? Diag::Unit : Diag::NonUnit;
            auto call = [=](Norm w, auto& Av) {
                return k == GE_ ? tl::lange(w, Av) : k == HE_ ? tl::lanhe(w, u, Av) : k == SY_ ? tl::lansy(w, u, Av) : tl::lantr(w, u, d, Av);
            };
            for (idx m = 0; m <= N + 1; m++)
                for (idx n = 0; n <= N + 1; n++) {
                    if (sq && m != n) continue;
                    if (sq && m > 3) continue;
                    if (!sq && (m * n > 8 && !(thorough() && m * n <= 9))) continue;
                    string tag = string(KN[k]) + (sq ? nm(u) : "") + "_" + t + "_" + S(m) + S(n);
                    CaseOpts o;
                    o.max_paths = 3000;
                    for (Norm w : {Norm::Max, Norm::One, Norm::Inf}) {
                        if (w == Norm::Max && isC<T> && m * n > 6) continue;
                        add_case("lan" + nn(w) + "_" + tag, o, [=] {
                            auto A = build<T, L>(k, u, m, n);
                            auto A0 = A.d();
                            auto Av = A.view();
                            SReal r = call(w, Av);
                            judge(w, r, absm(A0, k, u));
                            check_concrete(unchanged(A.d(), A0) && A.padding_ok(), "A unchanged");
                        });
                    }
                    for (int cls = 0; cls < 3; cls++) {
                        if (cls && (m * n > 4 || (isC<T> && m * n > 2) || d == Diag::Unit || m * n == 0)) continue;
                        CaseOpts f;
                        f.nra_ms = 15000;
                        add_case("lanfro_" + tag + "_" + S(cls), f, [=] {
                            auto A = build<T, L>(k, u, m, n, cls);
                            auto A0 = A.d();
                            auto Av = A.view();
                            SReal r = call(Norm::Fro, Av);
                            judge(Norm::Fro, r, absm(A0, k, u));
                            check_concrete(unchanged(A.d(), A0) && A.padding_ok(), "A unchanged");
                        });
                    }
                    if (L == Layout::ColMajor)
                        for (int wk = 0; wk < 2; wk++)
                            add_case(string("infnorm_colmajor") + (wk ? "_work_" : "_") + tag, o, [=] {
                                auto A = build<T, L>(k, u, m, n);
                                auto A0 = A.d();
                                auto Av = A.view();
                                SReal r;
                                if (wk) {
                                    Mat<T, L> W(m, 1);
                                    auto Wv = W.view();
                                    r = k == GE_ ? tl::infnorm_colmajor_work(Av, Wv) : k == HE_ ? tl::infnorm_hermitian_colmajor_work(u, Av, Wv) : k == SY_ ? tl::infnorm_symmetric_colmajor_work(u, Av, Wv) : tl::infnorm_triangular_colmajor_work(u, d, Av, Wv);
                                    check_concrete(W.padding_ok(), "storage around the workspace");
                                }
                                else r = k == GE_ ? tl::infnorm_colmajor(Av) : k == HE_ ? tl::infnorm_hermitian_colmajor(u, Av) : k == SY_ ? tl::infnorm_symmetric_colmajor(u, Av) : tl::infnorm_triangular_colmajor(u, d, Av);
                                judge(Norm::Inf, r, absm(A0, k, u));
                                check_concrete(unchanged(A.d(), A0) && A.padding_ok(), "A unchanged");
                            });
                }
        }
    }
}
void sx::register_all()
{
    covers("lange,lanhe,lansy,lantr,infnorm_colmajor,infnorm_hermitian_colmajor,infnorm_symmetric_colmajor,infnorm_triangular_colmajor,lassq");
    bounds("m-by-n up to 8 entries (m,n 0..4), square up to 3x3; every norm type, uplo, diag, layout; entries any real/complex number (Frobenius: all mid-range (or zero, up to 4 entries), all tiny, or all huge)");
    reg<SReal, Layout::ColMajor>();
    reg<SReal, Layout::RowMajor>();
    reg<SComplex, Layout::ColMajor>();
}
