// Legacy (pointer based) LAPACK interface: the same results as the definitions or as the matrix interface.
#include "b06.hpp"
#include <tlapack/legacy_api/lapack.hpp>
#include <tlapack/legacy_api/lapack/geqr2.hpp>
#include <tlapack/legacy_api/lapack/lacpy.hpp>
#include <tlapack/legacy_api/lapack/lange.hpp>
#include <tlapack/legacy_api/lapack/lanhe.hpp>
#include <tlapack/legacy_api/lapack/lansy.hpp>
#include <tlapack/legacy_api/lapack/lantr.hpp>
#include <tlapack/legacy_api/lapack/larf.hpp>
#include <tlapack/legacy_api/lapack/larfb.hpp>
#include <tlapack/legacy_api/lapack/larfg.hpp>
#include <tlapack/legacy_api/lapack/larft.hpp>
#include <tlapack/legacy_api/lapack/lascl.hpp>
#include <tlapack/legacy_api/lapack/laset.hpp>
#include <tlapack/legacy_api/lapack/lassq.hpp>
#include <tlapack/legacy_api/lapack/potrf.hpp>
#include <tlapack/legacy_api/lapack/potrs.hpp>
#include <tlapack/legacy_api/lapack/ung2r.hpp>
#include <tlapack/legacy_api/lapack/unm2r.hpp>
#include <tlapack/legacy_api/lapack/unmqr.hpp>
namespace lg = tlapack::legacy;
using lg::MatrixType;
static const Layout CM = Layout::ColMajor;
// product of the reflectors stored in the columns of V (implicit unit diagonal)
template <class T>
D<T> qprod(const D<T>& V, const vector<T>& tau)
{
    auto Q = D<T>::eye(V.m);
    for (idx j = 0; j < tau.size(); j++) {
        D<T> v(V.m, 1);
        for (idx i = j; i < V.m; i++) v(i, 0) = i == j ? T(1) : V(i, j);
        Q = Q - scl(tau[j], (Q * v) * v.h());
    }
    return Q;
}
template <class T>
void reg()
{
    string t = tname<T>();
    idx N = 3;
    for (idx m = 0; m <= N; m++)
        for (idx n = 0; n <= N; n++) {
            string sz = t + "_" + S(m) + S(n);
            for (auto [mt, u] : {std::pair{MatrixType::General, Uplo::General}, {MatrixType::Upper, Uplo::Upper}, {MatrixType::Lower, Uplo::Lower}})
                for (int by = 0; by < 2; by++) {
                    add_case("lacpy_" + nm(u) + S(by) + "_" + sz, [=] {
                        RM<T> A(CM, m, n), B(CM, m, n, 2);
                        A.in("a");
                        B.in("b");
                        auto E = B.d(), A0 = A.d();
                        for (idx i = 0; i < m; i++)
                            for (idx j = 0; j < n; j++)
                                if (u == Uplo::General || (u == Uplo::Upper ? i <= j : i >= j)) E(i, j) = A0(i, j);
                        if (by) lg::lacpy(mt, m, n, A.ptr(), A.ld, B.ptr(), B.ld);
                        else lg::lacpy(u, m, n, A.ptr(), A.ld, B.ptr(), B.ld);
                        Batch Q;
                        eqm(Q, B.d(), E, "B");
                        Q.flush();
                        check_concrete(unchanged(A.d(), A0) && B.padding_ok(), "storage");
                    });
                    add_case("laset_" + nm(u) + S(by) + "_" + sz, [=] {
                        RM<T> B(CM, m, n, 2);
                        B.in("b");
                        auto E = B.d();
                        T al = input<T>("al"), be = input<T>("be");
                        for (idx i = 0; i < m; i++)
                            for (idx j = 0; j < n; j++)
                                if (i == j) E(i, j) = be; else if (u == Uplo::General || (u == Uplo::Upper ? i < j : i > j)) E(i, j) = al;
                        if (by) lg::laset(mt, m, n, al, be, B.ptr(), B.ld);
                        else lg::laset(u, m, n, al, be, B.ptr(), B.ld);
                        Batch Q;
                        eqm(Q, B.d(), E, "B");
                        Q.flush();
                        check_concrete(B.padding_ok(), "storage");
                    });
                }
            // scaling
            for (MatrixType mt : {MatrixType::General, MatrixType::Lower, MatrixType::Upper, MatrixType::Hessenberg, MatrixType::LowerBand, MatrixType::UpperBand, MatrixType::Band})
                for (idx kl = 0; kl < std::max<idx>(1, m); kl++)
                    for (idx ku = 0; ku < std::max<idx>(1, n); ku++)
                        for (idx pad = 0; pad < 2; pad++) {
                            bool band = mt == MatrixType::LowerBand || mt == MatrixType::UpperBand || mt == MatrixType::Band;
                            if (!band && (kl || ku)) continue;
                            if (band && mt != MatrixType::Band && (kl != ku || m != n)) continue;
                            add_case("lascl_" + string(1, (char)mt) + "_" + sz + "_" + S(kl) + S(ku) + S(pad), [=] {
                                idx rows = !band ? m : mt == MatrixType::LowerBand ? kl + 1 : mt == MatrixType::UpperBand ? ku + 1 : 2 * kl + ku + 1;
                                RM<T> A(CM, rows, n, pad);
                                A.in("a");
                                auto A0 = A.d();
                                SReal a = var("sa"), b = var("sb");
                                assume(f_and(le(sx::abs(b), R(mk_pow2(20))), ge(sx::abs(b), R(mk_pow2(-20)))));
                                assume(f_and(le(sx::abs(a), R(mk_pow2(20))), ge(sx::abs(a), R(mk_pow2(-20)))));
                                int info = lg::lascl(mt, kl, ku, b, a, m, n, A.ptr(), A.ld);
                                check_concrete(info == 0 && A.padding_ok(), "info, storage");
                                Batch Q;
                                for (idx j = 0; j < n; j++)
                                    for (idx r = 0; r < rows; r++) {
                                        bool in;
                                        if (!band) in = mt == MatrixType::General || (mt == MatrixType::Lower && r >= j) || (mt == MatrixType::Upper && r <= j) || (mt == MatrixType::Hessenberg && r <= j + 1);
                                        else {
                                            long d = mt == MatrixType::Band ? kl + ku : mt == MatrixType::UpperBand ? ku : 0;
                                            long i = (long)r - d + (long)j;
                                            in = i >= 0 && i < (long)m && (mt != MatrixType::Band || r >= kl);
                                        }
                                        if (in) Q.eq(T(b) * A(r, j), T(a) * A0(r, j), "A(" + S(r) + "," + S(j) + ")");
                                        else Q.eq(A(r, j), A0(r, j), "unchanged (" + S(r) + "," + S(j) + ")");
                                    }
                            });
                        }
            // norms
            for (tl::Norm nt : {tl::Norm::Max, tl::Norm::One, tl::Norm::Inf, tl::Norm::Fro})
                for (int kind = 0; kind < 4; kind++)
                    for (Uplo u : UL)
                        for (Diag dg : {Diag::NonUnit, Diag::Unit}) {
                            if (kind < 3 && dg == Diag::Unit) continue;
                            if (!kind && u == Uplo::Lower) continue;
                            if ((kind == 1 || kind == 2) && m != n) continue;
                            if (!thorough() && (m > 2 || n > 2)) continue;
                            if (nt == tl::Norm::Fro && m * n > 4) continue;
                            CaseOpts o;
                            add_case("norm" + S(kind) + string(1, (char)nt) + nm(u) + nm(dg) + "_" + sz, o, [=] {
                                RM<T> A(CM, m, n);
                                A.in("a", kind ? u : Uplo::General, kind == 3 ? dg : Diag::NonUnit);
                                for (idx i = 0; i < m; i++)
                                    for (idx j = 0; j < n; j++)
                                        if (!is_poison(A(i, j))) {
                                            if (kind == 2 && i == j) A(i, j) = T(re(A(i, j)));
                                            assume(f_or(eq(abs2(A(i, j)), SReal(0)), f_and(le(abs2(A(i, j)), R(mk_pow2(20))), ge(abs2(A(i, j)), R(mk_pow2(-20))))));
                                        }
                                auto A0 = A.d();
                                D<T> F_ = kind == 0 ? A0 : kind == 1 ? symfull(A0, u, false) : kind == 2 ? symfull(A0, u, true) : tri(A0, u, dg);
                                SReal r;
                                if (kind == 0) r = lg::lange(nt, m, n, A.ptr(), A.ld);
                                if (kind == 1) r = lg::lansy(nt, u, n, A.ptr(), A.ld);
                                if (kind == 2) r = lg::lanhe(nt, u, n, A.ptr(), A.ld);
                                if (kind == 3) r = lg::lantr(nt, u, dg, m, n, A.ptr(), A.ld);
                                vector<SReal> c;
                                SReal ss;
                                if (nt == tl::Norm::One)
                                    for (idx j = 0; j < n; j++) { SReal s; for (idx i = 0; i < m; i++) s += tl::abs(F_(i, j)); c.push_back(s); }
                                else if (nt == tl::Norm::Inf)
                                    for (idx i = 0; i < m; i++) { SReal s; for (idx j = 0; j < n; j++) s += tl::abs(F_(i, j)); c.push_back(s); }
                                else for (auto& x : F_.v) { if (nt == tl::Norm::Max) c.push_back(tl::abs(x)); else ss += abs2(x); }
                                if (nt == tl::Norm::Fro) { check(f_and(ge(r, SReal(0)), eq(r * r, ss)), "Frobenius norm"); return; }
                                if (m == 0 || n == 0) { check(eq(r, SReal(0)), "0"); return; }
                                vector<F> any, all;
                                for (auto& x : c) { any.push_back(eq(r, x)); all.push_back(ge(r, x)); }
                                check(f_and(f_any(any), f_all(all)), "largest");
                            });
                        }
            // Cholesky
            if (n <= 3 && m <= 2)
                for (Uplo u : UL) {
                    if (m == 0)
                        add_case("potrf_" + nm(u) + "_" + t + S(n), [=] {
                            if (n == 3 && isC<T> && !thorough()) return;
                            RM<T> A(CM, n, n);
                            A.in("a", u);
                            for (idx i = 0; i < n; i++) A(i, i) = T(re(A(i, i)));
                            auto A0 = A.d();
                            int info = info_of([&] { return lg::potrf(u, n, A.ptr(), A.ld); });
                            if (info == 0) {
                                auto G = tri(A.d(), u);
                                auto P = u == Uplo::Upper ? G.h() * G : G * G.h();
                                Batch Q;
                                eqm(Q, P, symfull(A0, u, true), "factors");
                            }
                            else check_concrete(info > 0 && info <= (int)n, "info");
                            check_concrete(A.padding_ok(), "storage");
                        });
                    if (n <= 2)
                    add_case("potrs_" + nm(u) + "_" + sz, [=] {
                        RM<T> A(CM, n, n), B(CM, n, m, 2);
                        A.in("a", u);
                        B.in("b");
                        for (idx i = 0; i < n; i++) assume(f_not(eq(A(i, i), T(0))));
                        auto G = tri(A.d(), u);
                        auto B0 = B.d();
                        int info = lg::potrs(u, n, m, A.ptr(), A.ld, B.ptr(), B.ld);
                        Batch Q;
                        eqm(Q, u == Uplo::Upper ? G.h() * (G * B.d()) : G * (G.h() * B.d()), B0, "A X = B");
                        Q.flush();
                        check_concrete(info == 0 && B.padding_ok(), "storage");
                    });
                }
            // reflectors
            for (Side sd : {Side::Left, Side::Right}) {
                idx q = sd == Side::Left ? m : n;
                for (long iv : INCS) {
                    if (q == 0) continue;
                    add_case("larf_" + nm(sd) + "_" + sz + "_" + S(iv), [=] {
                        RM<T> C(CM, m, n);
                        C.in("c");
                        Vec<T> v(q, iv);
                        v.in("v");
                        T tau = input<T>("tau");
                        auto C0 = C.d();
                        D<T> w = colv(v.d());
                        w(0, 0) = T(1);
                        v[0] = poison<T>();
                        lg::larf(sd, m, n, v.ptr(), iv, tau, C.ptr(), C.ld);
                        auto H = D<T>::eye(q) - scl(tau, w * w.h());
                        Batch Q;
                        eqm(Q, C.d(), sd == Side::Left ? H * C0 : C0 * H, "C");
                        Q.flush();
                        check_concrete(C.padding_ok(), "storage");
                    });
                }
                for (idx k = 1; k <= q; k++)
                    for (Op op : OP3) {
                        if (isC<T> && op == Op::Trans) continue;
                        for (int w = 0; w < 2; w++)
                            add_case(string(w ? "unmqr_" : "unm2r_") + nm(sd) + nm(op) + "_" + sz + S(k), [=] {
                                RM<T> A(CM, q, k), C(CM, m, n, 2);
                                for (idx j = 0; j < k; j++)
                                    for (idx i = j + 1; i < q; i++) A(i, j) = input<T>("v" + S(i) + "_" + S(j));
                                C.in("c");
                                Vec<T> tau(k);
                                tau.in("tau");
                                auto C0 = C.d();
                                auto Q_ = qprod(A.d(), tau.d()).op(op);
                                int info = w ? lg::unmqr(sd, op, m, n, k, A.ptr(), A.ld, tau.ptr(), C.ptr(), C.ld)
                                             : lg::unm2r(sd, op, m, n, k, A.ptr(), A.ld, tau.ptr(), C.ptr(), C.ld);
                                Batch Q;
                                eqm(Q, C.d(), sd == Side::Left ? Q_ * C0 : C0 * Q_, "C");
                                Q.flush();
                                check_concrete(info == 0 && C.padding_ok() && tau.padding_ok() && A.padding_ok(), "storage");
                            });
                        for (Direction dr : {Direction::Forward, Direction::Backward})
                            for (StoreV sv : {StoreV::Columnwise, StoreV::Rowwise}) {
                                if (k > 2 || q > 3) continue;
                                add_case("larfb_" + nm(sd) + nm(op) + (dr == Direction::Forward ? "F" : "B") + (sv == StoreV::Columnwise ? "C" : "R") + "_" + sz + S(k), [=] {
                                    bool cw = sv == StoreV::Columnwise, fw = dr == Direction::Forward;
                                    RM<T> V(CM, cw ? q : k, cw ? k : q), Tm(CM, k, k), C(CM, m, n, 2);
                                    // W: q-by-k, op as the product of the reflectors
                                    D<T> W(q, k);
                                    for (idx j = 0; j < k; j++)
                                        for (idx i = 0; i < q; i++) {
                                            idx one = fw ? j : q - k + j;
                                            if (i == one) W(i, j) = T(1);
                                            else if (fw ? i > one : i < one) {
                                                T x = input<T>("v" + S(i) + "_" + S(j));
                                                (cw ? V(i, j) : V(j, i)) = x;
                                                W(i, j) = cw ? x : cj(x);
                                            }
                                        }
                                    C.in("c");
                                    Vec<T> tau(k);
                                    tau.in("tau");
                                    auto C0 = C.d();
                                    lg::larft(dr, sv, q, k, V.ptr(), V.ld, tau.ptr(), Tm.ptr(), Tm.ld);
                                    int info = lg::larfb(sd, op, dr, sv, m, n, k, V.ptr(), V.ld, Tm.ptr(), Tm.ld, C.ptr(), C.ld);
                                    auto H = D<T>::eye(q);
                                    for (idx a = 0; a < k; a++) {
                                        idx j = fw ? a : k - 1 - a;
                                        D<T> w = W.sub(0, q, j, j + 1);
                                        H = H - scl(tau[j], (H * w) * w.h());
                                    }
                                    H = H.op(op);
                                    Batch Q;
                                    eqm(Q, C.d(), sd == Side::Left ? H * C0 : C0 * H, "C");
                                    Q.flush();
                                    check_concrete(info == 0 && C.padding_ok() && Tm.padding_ok(), "storage");
                                });
                            }
                    }
            }
            if (n && n <= m)
                for (idx k = 0; k <= n; k++)
                    add_case("ung2r_" + sz + S(k), [=] {
                        RM<T> A(CM, m, n);
                        for (idx j = 0; j < k; j++)
                            for (idx i = j + 1; i < m; i++) A(i, j) = input<T>("v" + S(i) + "_" + S(j));
                        Vec<T> tau(k);
                        tau.in("tau");
                        auto Q_ = qprod(A.d(), tau.d()).sub(0, m, 0, n);
                        int info = lg::ung2r(m, n, k, A.ptr(), A.ld, tau.ptr());
                        Batch Q;
                        eqm(Q, A.d(), Q_, "Q");
                        Q.flush();
                        check_concrete(info == 0 && A.padding_ok(), "storage");
                    });
        }
    for (idx n = 0; n <= 3; n++)
        for (long ix : INCS)
            add_case("lassq_" + t + S(n) + "_" + S(ix), [=] {
                Vec<T> x(n, ix);
                x.in("x");
                SReal sc = SReal(1), sq = var("sq"), e = sq;
                assume(ge(sq, SReal(0)));
                for (idx i = 0; i < n; i++) {
                    assume(f_or(eq(abs2(x[i]), SReal(0)), f_and(le(abs2(x[i]), R(mk_pow2(20))), ge(abs2(x[i]), R(mk_pow2(-20))))));
                    e += abs2(x[i]);
                }
                assume(f_or(eq(sq, SReal(0)), f_and(le(sq, R(mk_pow2(20))), ge(sq, R(mk_pow2(-20))))));
                lg::lassq(n, x.ptr(), ix, sc, sq);
                check(eq(sc * sc * sq, e), "scale^2 sumsq");
            });
}
void sx::register_all()
{
    covers("legacy::lacpy,laset,lascl,lange,lansy,lanhe,lantr,potrf,potrs,larf,larfb,larft,unm2r,unmqr,ung2r,lassq");
    bounds("legacy LAPACK: dimensions 0..3, every band, leading dimensions equal to and larger than needed");
    reg<SReal>();
    reg<SComplex>();
}
