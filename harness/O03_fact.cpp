// Orthogonal factorizations over the contract of larfg (decided by O01).
#include "stub_larfg.hpp"
#include <iostream>
#include <tlapack/lapack/householder_qr.hpp>
#include <tlapack/lapack/householder_lq.hpp>
#include <tlapack/lapack/householder_ql.hpp>
#include <tlapack/lapack/householder_rq.hpp>
#include <tlapack/lapack/geqrt3.hpp>
#include <tlapack/lapack/gelqt.hpp>
using namespace sx;
enum Kind { QR, LQ, QL, RQ };
static const char* KN[] = {"qr", "lq", "ql", "rq"};
// apply the reflectors of the factored matrix to the original one and compare with the triangular factor
template <class T>
void post(Kind kd, const D<T>& A0, const D<T>& F, const vector<T>& tau)
{
    idx m = A0.m, n = A0.n, k = std::min(m, n);
    D<T> E = A0, Rf(m, n);
    bool left = kd == QR || kd == QL, fw = kd == QR || kd == LQ;
    for (idx s = 0; s < k; s++) {
        idx i = fw ? s : k - 1 - s;
        idx q = left ? m : n;
        vector<T> v(q, T(0));
        if (kd == QR) { v[i] = T(1); for (idx r = i + 1; r < m; r++) v[r] = F(r, i); }
        if (kd == LQ) { v[i] = T(1); for (idx r = i + 1; r < n; r++) v[r] = cj(F(i, r)); }
        if (kd == QL) { v[m - k + i] = T(1); for (idx r = 0; r < m - k + i; r++) v[r] = F(r, n - k + i); }
        if (kd == RQ) { v[n - k + i] = T(1); for (idx r = 0; r < n - k + i; r++) v[r] = cj(F(m - k + i, r)); }
        if (left) hleft(v, cj(tau[i]), E);
        else hright(v, tau[i], E);
    }
    for (idx i = 0; i < m; i++)
        for (idx j = 0; j < n; j++) {
            bool in = kd == QR ? i <= j : kd == LQ ? i >= j : kd == QL ? (long)(i) - (long)m >= (long)j - (long)n : (long)i - (long)m <= (long)j - (long)n;
            Rf(i, j) = in ? F(i, j) : T(0);
        }
    Batch Q;
    eqm(Q, E, Rf, string("Q^H A = ") + KN[kd]);
}
template <class T, Layout L>
void reg()
{
    const string t = tname<T>() + nm(L);
    const idx N = thorough() ? 4 : isC<T> ? 3 : 4;
    for (int kd = 0; kd < 4; kd++)
        for (idx m = 0; m <= N; m++)
            for (idx n = 0; n <= N; n++) {
                idx k = std::min(m, n);
                if (k > 3 && m + n > 7 && !thorough()) continue;
                // variants: 0 level 2, 1 level 2 with a workspace, blocked nb = 1, 2, 3, 32 without / with a workspace
                vector<int> vs = {0, 1, 10, 20, 21, 30, 320, 321};
                for (int v : vs) {
                    int nb = v / 10;
                    if (nb > 1 && nb != 32 && nb > (int)k) continue;
                    CaseOpts o;
                    o.fuzz = 6;
                    add_case(string(KN[kd]) + "_" + t + "_" + S(m) + S(n) + "_v" + S(v), o, [=] {
                        stub::reset();
                        Mat<T, L> A(m, n);
                        A.in("a");
                        Vec<T> tau(k, 2);
                        auto A0 = A.d();
                        auto Av = A.view();
                        auto tv = tau.view();
                        int info = 0;
                        bool w = v % 10;
                        tl::HouseholderQROpts qo;
                        tl::HouseholderLQOpts lo;
                        tl::HouseholderQLOpts qlo;
                        tl::HouseholderRQOpts ro;
                        if (nb) { qo.nb = lo.nb = qlo.nb = ro.nb = nb; }
                        else {
                            qo.variant = tl::HouseholderQRVariant::Level2;
                            lo.variant = tl::HouseholderLQVariant::Level2;
                            qlo.variant = tl::HouseholderQLVariant::Level2;
                            ro.variant = tl::HouseholderRQVariant::Level2;
                        }
                        if (!w) {
                            if (kd == QR) info = tl::householder_qr(Av, tv, qo);
                            if (kd == LQ) info = tl::householder_lq(Av, tv, lo);
                            if (kd == QL) info = tl::householder_ql(Av, tv, qlo);
                            if (kd == RQ) info = tl::householder_rq(Av, tv, ro);
                        }
                        else {
                            tl::WorkInfo wi;
                            if (kd == QR) wi = tl::householder_qr_worksize<T>(Av, tv, qo);
                            if (kd == LQ) wi = tl::householder_lq_worksize<T>(Av, tv, lo);
                            if (kd == QL) wi = tl::householder_ql_worksize<T>(Av, tv, qlo);
                            if (kd == RQ) wi = tl::householder_rq_worksize<T>(Av, tv, ro);
                            Mat<T, L> wk(wi.m, wi.n, 0);
                            auto wv = wk.view();
                            if (kd == QR) info = tl::householder_qr_work(Av, tv, wv, qo);
                            if (kd == LQ) info = tl::householder_lq_work(Av, tv, wv, lo);
                            if (kd == QL) info = tl::householder_ql_work(Av, tv, wv, qlo);
                            if (kd == RQ) info = tl::householder_rq_work(Av, tv, wv, ro);
                            check_concrete(wk.padding_ok(), "storage around the workspace");
                        }
                        check_concrete(info == 0 && A.padding_ok() && tau.padding_ok(), "info and storage around A and tau");
                        post((Kind)kd, A0, A.d(), tau.d());
                    });
                }
            }
    for (idx m = 0; m <= N; m++)
        for (idx n = 0; n <= N; n++)
            for (idx nb = 1; nb <= 4; nb++) {
                idx k = std::min(m, n);
                if (nb > 1 && nb > k) continue;
                if (k > 3 && m + n > 7 && !thorough()) continue;
                for (int w = 0; w < 2; w++)
                    add_case("gelqt_" + t + "_" + S(m) + S(n) + "_nb" + S(nb) + (w ? "w" : ""), [=] {
                        stub::reset();
                        Mat<T, L> A(m, n), TT(m, nb);
                        A.in("a");
                        auto A0 = A.d();
                        auto Av = A.view();
                        auto Tv = TT.view();
                        if (w) {
                            auto wi = tl::gelqt_worksize<T>(Av, Tv);
                            Mat<T, L> wk(wi.m, wi.n, 0);
                            auto wv = wk.view();
                            tl::gelqt_work(Av, Tv, wv);
                            check_concrete(wk.padding_ok(), "storage around the workspace");
                        }
                        else tl::gelqt(Av, Tv);
                        check_concrete(A.padding_ok() && TT.padding_ok(), "storage around A and T");
                        vector<T> tau;
                        for (idx j = 0; j < k; j++) tau.push_back(TT(j, j % nb));
                        auto F = A.d();
                        post(LQ, A0, F, tau);
                        // blocks of TT: H(j)..H(j+ib-1) = I - V^H T V
                        for (idx j = 0; j < k; j += nb) {
                            idx ib = std::min(nb, k - j);
                            D<T> W(n, ib), P = D<T>::eye(n);
                            for (idx i = 0; i < ib; i++) {
                                vector<T> v(n, T(0));
                                v[j + i] = T(1);
                                for (idx r = j + i + 1; r < n; r++) v[r] = cj(F(j + i, r));
                                for (idx r = 0; r < n; r++) W(r, i) = v[r];
                                hright(v, tau[j + i], P);
                            }
                            D<T> B = D<T>::eye(n) - W * tri(TT.d().sub(j, j + ib, 0, ib), Uplo::Upper) * W.h();
                            Batch Q;
                            eqm(Q, B, P, "I - V^H T V = product of the block's reflectors");
                        }
                    });
            }
    for (idx m = 1; m <= N; m++)
        for (idx n = 1; n <= m; n++)
            for (int isw = 0; isw < 2; isw++)
                for (idx nx = 1; nx <= 3; nx++) {
                    if (nx > n) continue;
                    add_case("geqrt3_" + t + "_" + S(m) + S(n) + "_" + S(isw) + "_nx" + S(nx), [=] {
                        stub::reset();
                        Mat<T, L> A(m, n), TT(n, n);
                        A.in("a");
                        auto A0 = A.d();
                        auto Av = A.view();
                        auto Tv = TT.view();
                        tl::Geqrt3Opts op;
                        op.isw = isw;
                        op.nx = nx;
                        tl::geqrt3(Av, Tv, op);
                        check_concrete(A.padding_ok() && TT.padding_ok(), "storage around A and T");
                        vector<T> tau;
                        for (idx j = 0; j < n; j++) tau.push_back(TT(j, j));
                        auto F = A.d();
                        post(QR, A0, F, tau);
                        if (isw) return;
                        D<T> W(m, n), P = D<T>::eye(m);
                        for (idx i = 0; i < n; i++) {
                            vector<T> v(m, T(0));
                            v[i] = T(1);
                            for (idx r = i + 1; r < m; r++) v[r] = F(r, i);
                            for (idx r = 0; r < m; r++) W(r, i) = v[r];
                            hright(v, tau[i], P);
                        }
                        Batch Q;
                        eqm(Q, D<T>::eye(m) - W * tri(TT.d(), Uplo::Upper) * W.h(), P, "I - V T V^H = product of the reflectors");
                    });
                }
}
void sx::register_all()
{
    covers("geqr2,geqrf,householder_qr,gelq2,gelqf,householder_lq,geql2,geqlf,householder_ql,gerq2,gerqf,householder_rq,gelqt,geqrt3,larf,larft,larfb");
    bounds("matrices up to 4x3 / 3x4 real (thorough 4x4), 3x3 complex (thorough 4x4), zero dimensions included; block sizes 1, 2, 3 and 32; ColMajor and RowMajor; with an allocated and with a caller's workspace of exactly the queried size; every entry free");
    assumption("reflectors: any y, tau, beta that satisfy the contract of larfg (property O01)");
    reg<SReal, Layout::ColMajor>();
    reg<SComplex, Layout::RowMajor>();
    if (thorough()) {
        reg<SReal, Layout::RowMajor>();
        reg<SComplex, Layout::ColMajor>();
    }
}
