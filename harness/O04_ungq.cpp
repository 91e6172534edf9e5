// Generation of Q from elementary reflectors: identities in free v and tau.
#include "refl.hpp"
#include <tlapack/lapack/gen_householder_q.hpp>
#include <tlapack/lapack/ung2r.hpp>
#include <tlapack/lapack/ung2l.hpp>
#include <tlapack/lapack/ungl2.hpp>
#include <tlapack/lapack/ungr2.hpp>
#include <tlapack/lapack/ungqr.hpp>
#include <tlapack/lapack/ungql.hpp>
#include <tlapack/lapack/unglq.hpp>
#include <tlapack/lapack/ungrq.hpp>
#include <tlapack/lapack/unghr.hpp>
#include <tlapack/lapack/ungtr.hpp>
#include <tlapack/lapack/ungbr.hpp>
using namespace sx;
// V holds k reflectors of order q; the p-column (p-row) matrix Q they define
template <class T>
D<T> qof(const D<T>& V, const vector<T>& tau, idx q, idx p, idx k, Direction d, StoreV st)
{
    bool c = st == StoreV::Columnwise, f = d == Direction::Forward;
    D<T> E(c ? q : p, c ? p : q);
    for (idx i = 0; i < p; i++) {
        idx o = f ? i : q - p + i;
        (c ? E(o, i) : E(i, o)) = T(1);
    }
    for (idx s = 0; s < k; s++) {
        idx i = f ? k - 1 - s : s;
        auto v = reflvec(V, q, k, i, d, st);
        if (c) hleft(v, tau[i], E);
        else hright(v, cj(tau[i]), E);
    }
    return E;
}
// the p-by-q (q-by-p) matrix A with k reflectors on entry: first or last k columns (rows)
template <class T, class M>
D<T> fill(M& A, idx q, idx p, idx k, Direction d, StoreV st)
{
    bool c = st == StoreV::Columnwise;
    idx o = d == Direction::Forward ? 0 : p - k;
    D<T> V(c ? q : k, c ? k : q);
    for (idx i = 0; i < k; i++)
        for (idx j = 0; j < q; j++)
            if (vstored(q, k, i, j, d)) {
                T x = input<T>("v" + S(j) + "_" + S(i));
                (c ? V(j, i) : V(i, j)) = x;
                (c ? A(j, o + i) : A(o + i, j)) = x;
            }
    return V;
}
template <class T, Layout L>
void reg()
{
    const string t = tname<T>() + nm(L);
    const idx Nq = isC<T> && !thorough() ? 3 : 4, K = isC<T> && !thorough() ? 2 : 3;
    for (Direction d : {Direction::Forward, Direction::Backward})
        for (StoreV st : {StoreV::Columnwise, StoreV::Rowwise})
            for (idx q = 0; q <= Nq; q++)
                for (idx p = 0; p <= q; p++)
                    for (idx k = 0; k <= std::min(K, p); k++)
                        // 0 gen level 2, 1 gen blocked, 2 the named level-2 routine, 3 the named blocked routine; +10: with workspace
                        for (int v : {0, 10, 1, 11, 2, 12, 3, 13})
                            for (int nb : {1, 2, 3, 32}) {
                                int w = v % 10;
                                if ((w == 0 || w == 2) && nb != 1) continue;
                                if (nb > 1 && nb != 32 && nb > (int)k) continue;
                                if (w == 3 && v >= 10) continue;
                                bool c = st == StoreV::Columnwise, f = d == Direction::Forward;
                                add_case("gen_" + t + "_" + nm(d) + nm(st) + "_" + S(q) + S(p) + S(k) + "_v" + S(v) + "_nb" + S(nb), [=] {
                                    Mat<T, L> A(c ? q : p, c ? p : q);
                                    auto V = fill<T>(A, q, p, k, d, st);
                                    Vec<T> tau(k, 2);
                                    tau.in("t");
                                    auto Av = A.view();
                                    auto tv = tau.view();
                                    tl::GenHouseholderQOpts o;
                                    o.nb = nb;
                                    o.variant = w == 0 ? tl::GenHouseholderQVariant::Level2 : tl::GenHouseholderQVariant::Blocked;
                                    int info = 0;
                                    if (v < 10) {
                                        if (w < 2) info = tl::gen_householder_q(d, st, Av, tv, o);
                                        else if (w == 2) info = c ? (f ? tl::ung2r(Av, tv) : tl::ung2l(Av, tv)) : (f ? tl::ungl2(Av, tv) : tl::ungr2(Av, tv));
                                        else {
                                            tl::UngqrOpts a; tl::UngqlOpts b; tl::UnglqOpts e; tl::UngrqOpts g;
                                            a.nb = b.nb = e.nb = g.nb = nb;
                                            info = c ? (f ? tl::ungqr(Av, tv, a) : tl::ungql(Av, tv, b)) : (f ? tl::unglq(Av, tv, e) : tl::ungrq(Av, tv, g));
                                        }
                                    }
                                    else {
                                        tl::WorkInfo wi = w < 2 ? tl::gen_householder_q_worksize<T>(d, st, Av, tv, o)
                                                          : c ? (f ? tl::ung2r_worksize<T>(Av, tv) : tl::ung2l_worksize<T>(Av, tv))
                                                              : (f ? tl::ungl2_worksize<T>(Av, tv) : tl::ungr2_worksize<T>(Av, tv));
                                        Mat<T, L> wk(wi.m, wi.n, 0);
                                        auto wv = wk.view();
                                        if (w < 2) info = tl::gen_householder_q_work(d, st, Av, tv, wv, o);
                                        else info = c ? (f ? tl::ung2r_work(Av, tv, wv) : tl::ung2l_work(Av, tv, wv)) : (f ? tl::ungl2_work(Av, tv, wv) : tl::ungr2_work(Av, tv, wv));
                                        check_concrete(wk.padding_ok(), "storage around the workspace");
                                    }
                                    check_concrete(info == 0 && A.padding_ok() && tau.padding_ok(), "info and storage around A and tau");
                                    Batch Q;
                                    eqm(Q, A.d(), qof(V, tau.d(), q, p, k, d, st), "Q");
                                });
                            }
    // Q of gehrd: identity outside (ilo+1:ihi)
    for (idx n = 1; n <= (isC<T> && !thorough() ? 3 : 4); n++)
        for (idx ilo = 0; ilo < n; ilo++)
            for (idx ihi = ilo; ihi <= n; ihi++)
                for (int w = 0; w < 2; w++)
                    add_case("unghr_" + t + "_" + S(n) + S(ilo) + S(ihi) + (w ? "w" : ""), [=] {
                        Mat<T, L> A(n, n);
                        Vec<T> tau(n - 1);
                        idx r = ihi > ilo ? ihi - ilo - 1 : 0;
                        D<T> V(r, r);
                        vector<T> ts;
                        for (idx i = 0; i < r; i++) {
                            for (idx j = i + 1; j < r; j++) V(j, i) = A(ilo + 1 + j, ilo + i) = input<T>("v" + S(j) + "_" + S(i));
                            ts.push_back(tau[ilo + i] = input<T>("t" + S(i)));
                        }
                        auto Av = A.view();
                        auto tv = tau.view();
                        int info;
                        if (w) {
                            auto wi = tl::unghr_worksize<T>(ilo, ihi, Av, tv);
                            Mat<T, L> wk(wi.m, wi.n, 0);
                            auto wv = wk.view();
                            info = tl::unghr_work(ilo, ihi, Av, tv, wv);
                            check_concrete(wk.padding_ok(), "storage around the workspace");
                        }
                        else info = tl::unghr(ilo, ihi, Av, tv);
                        check_concrete(info == 0 && A.padding_ok() && tau.padding_ok(), "info and storage");
                        auto Qs = qof(V, ts, r, r, r, Direction::Forward, StoreV::Columnwise);
                        D<T> E = D<T>::eye(n);
                        for (idx i = 0; i < r; i++)
                            for (idx j = 0; j < r; j++) E(ilo + 1 + i, ilo + 1 + j) = Qs(i, j);
                        Batch Q;
                        eqm(Q, A.d(), E, "Q of gehrd");
                    });
    for (idx n = 1; n <= (isC<T> && !thorough() ? 3 : 4); n++)
        for (Uplo u : {Uplo::Lower, Uplo::Upper})
            add_case("ungtr_" + t + "_" + S(n) + (u == Uplo::Lower ? "L" : "U"), [=] {
                Mat<T, L> A(n, n);
                idx r = n - 1;
                Vec<T> tau(r);
                tau.in("t");
                bool lo = u == Uplo::Lower;
                Direction d = lo ? Direction::Forward : Direction::Backward;
                D<T> V(r, r);
                for (idx i = 0; i < r; i++)
                    for (idx j = 0; j < r; j++)
                        if (vstored(r, r, i, j, d)) V(j, i) = (lo ? A(j + 1, i) : A(j, i + 1)) = input<T>("v" + S(j) + "_" + S(i));
                auto Av = A.view();
                auto tv = tau.view();
                int info = tl::ungtr(u, Av, tv);
                check_concrete(info == 0 && A.padding_ok() && tau.padding_ok(), "info and storage");
                auto Qs = qof(V, tau.d(), r, r, r, d, StoreV::Columnwise);
                D<T> E = D<T>::eye(n);
                for (idx i = 0; i < r; i++)
                    for (idx j = 0; j < r; j++) E(i + lo, j + lo) = Qs(i, j);
                Batch Q;
                eqm(Q, A.d(), E, "Q of hetrd");
            });
    // Q and P^H of gebrd of an m-by-n matrix
    const idx NB = isC<T> && !thorough() ? 3 : 4;
    for (int side = 0; side < 2; side++)
        for (idx q = 1; q <= NB; q++)
            for (idx p = 1; p <= q; p++)
                for (idx k = 0; k <= (p == q ? NB : p); k++)
                    for (int nb : {1, 2, 32})
                        for (int w = 0; w < 2; w++) {
                            if (k > 3 && !thorough() && q > 3 && nb == 32) continue;
                            // q = order; Q: m >= k uses k reflectors of order m; otherwise m-1 shifted by one
                            bool shift = side == 0 ? q < k : q <= k;
                            if (shift && p != q) continue;
                            if (!shift && k > p) continue;
                            StoreV st = side == 0 ? StoreV::Columnwise : StoreV::Rowwise;
                            add_case(string(side ? "ungbrp_" : "ungbrq_") + t + "_" + S(q) + S(p) + S(k) + "_nb" + S(nb) + (w ? "w" : ""), [=] {
                                Mat<T, L> A(side ? p : q, side ? q : p);
                                idx r = shift ? q - 1 : q, kk = shift ? q - 1 : k;
                                Vec<T> tau(std::min(q, k));
                                tau.in("t");
                                D<T> V(side ? kk : r, side ? r : kk);
                                for (idx i = 0; i < kk; i++)
                                    for (idx j = i + 1; j < r; j++) {
                                        T x = input<T>("v" + S(j) + "_" + S(i));
                                        (side ? V(i, j) : V(j, i)) = x;
                                        (side ? A(i, j + shift) : A(j + shift, i)) = x;
                                    }
                                vector<T> ts = tau.d();
                                ts.resize(kk);
                                auto Av = A.view();
                                auto tv = tau.view();
                                tl::UngbrOpts o;
                                o.nb = nb;
                                int info;
                                if (w) {
                                    auto wi = side ? tl::ungbr_p_worksize<T>(k, Av, tv, o) : tl::ungbr_q_worksize<T>(k, Av, tv, o);
                                    Mat<T, L> wk(wi.m, wi.n, 0);
                                    auto wv = wk.view();
                                    info = side ? tl::ungbr_p_work(k, Av, tv, wv, o) : tl::ungbr_q_work(k, Av, tv, wv, o);
                                    check_concrete(wk.padding_ok(), "storage around the workspace");
                                }
                                else info = side ? tl::ungbr_p(k, Av, tv, o) : tl::ungbr_q(k, Av, tv, o);
                                check_concrete(info == 0 && A.padding_ok() && tau.padding_ok(), "info and storage");
                                D<T> E;
                                if (shift) {
                                    auto Qs = qof(V, ts, r, r, kk, Direction::Forward, st);
                                    E = D<T>::eye(q);
                                    for (idx i = 0; i < r; i++)
                                        for (idx j = 0; j < r; j++) E(i + 1, j + 1) = Qs(i, j);
                                }
                                else E = qof(V, ts, q, p, k, Direction::Forward, st);
                                Batch Q;
                                eqm(Q, A.d(), E, side ? "P^H of gebrd" : "Q of gebrd");
                            });
                        }
}
void sx::register_all()
{
    covers("gen_householder_q,ungq,ungq_level2,ung2r,ung2l,ungl2,ungr2,ungqr,ungql,unglq,ungrq,unghr,ungtr,ungbr_q,ungbr_p,larft,larfb,larf");
    bounds("order 0..4 (complex 0..3), 0..4 generated columns/rows, 0..3 reflectors (complex 0..2), nb in {1,2,3,32}, both layouts; v and tau are free variables");
    reg<SReal, Layout::ColMajor>();
    reg<SReal, Layout::RowMajor>();
    reg<SComplex, Layout::ColMajor>();
    if (thorough()) reg<SComplex, Layout::RowMajor>();
}
