// schur_swap of two 1-by-1 blocks over the contract of rotg (decided by B01).
#include "stub_rotg.hpp"
#include <iostream>
#include <tlapack/base/constants.hpp>
#include <tlapack/blas/rotg.hpp>
#include <tlapack/blas/rot.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/lapack/larfg.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/lange.hpp>
#include <tlapack/lapack/lasy2.hpp>
#include <tlapack/lapack/lahqr_schur22.hpp>
#include <tlapack/lapack/schur_swap.hpp>
#include <tlapack/lapack/schur_move.hpp>
using namespace sx;
template <class T, Layout L>
static void reg()
{
    const string t = tname<T>() + nm(L);
    auto setup = [](idx n, Mat<T, L>& A, Mat<T, L>& Q, bool wq) {
        stubr::reset();
        A.in_tri("a", Uplo::Upper);
        for (idx j = 0; j < n; j++)
            for (idx i = j + 1; i < n; i++) A(i, j) = T(SReal(0));
        if (wq) Q.set(D<T>::eye(n));
    };
    // A0 Q = Q A, Q unitary, A upper triangular with the given diagonal
    auto verify = [](idx n, const D<T>& A0, Mat<T, L>& A, Mat<T, L>& Q, bool wq, const vector<idx>& perm) {
        auto A1 = A.d();
        check_concrete(A.padding_ok() && Q.padding_ok(), "storage around the operands");
        Batch B;
        for (idx i = 0; i < n; i++) B.eq(A1(i, i), A0(perm[i], perm[i]), "diagonal");
        for (idx j = 0; j < n; j++)
            for (idx i = j + 1; i < n; i++) B.eq(A1(i, j), T(SReal(0)), "upper triangular");
        if (wq) {
            auto W = Q.d();
            eqm(B, W.h() * W, D<T>::eye(n), "Q^H Q");
            eqm(B, A0 * W, W * A1, "A Q = Q A'");
        }
        B.flush();
        if (!wq)
            for (idx i = 0; i < n; i++)
                for (idx j = 0; j < n; j++) check_concrete(is_poison(Q(i, j)), "Q is not referenced");
    };
    // without Q, A is the same
    auto again = [](const D<T>& A0, const Mat<T, L>& A, bool wq, auto f) {
        if (wq) return;
        idx n = A.n;
        Mat<T, L> A2(n, n), Q2(n, n);
        A2.set(A0);
        Q2.set(D<T>::eye(n));
        auto Av = A2.view(), Qv = Q2.view();
        f(true, Av, Qv);
        Batch B;
        eqm(B, A.d(), A2.d(), "A does not depend on want_q");
    };
    for (idx n = 2; n <= 4; n++)
        for (idx j0 = 0; j0 + 1 < n; j0++)
            for (int wq = 0; wq < 2; wq++) {
                CaseOpts o;
                o.lemmas = true;
                add_case("swap_" + t + S(n) + "_" + S(j0) + "_" + S(wq), o, [=] {
                    Mat<T, L> A(n, n), Q(n, n);
                    setup(n, A, Q, wq);
                    auto A0 = A.d();
                    auto Av = A.view(), Qv = Q.view();
                    int info = tl::schur_swap((bool)wq, Av, Qv, j0, (idx)1, (idx)1);
                    check_concrete(info == 0, "info");
                    vector<idx> p(n);
                    for (idx i = 0; i < n; i++) p[i] = i;
                    std::swap(p[j0], p[j0 + 1]);
                    verify(n, A0, A, Q, wq, p);
                    again(A0, A, wq, [&](bool w, auto& a, auto& q) { tl::schur_swap(w, a, q, j0, (idx)1, (idx)1); });
                });
            }
    // 2-by-2 "blocks" that are triangular are taken apart
    if constexpr (!isC<T>)
        for (idx n = 3; n <= (thorough() ? 5 : 4); n++)
            for (idx j0 = 0; j0 < n; j0++)
                for (idx n1 : {1, 2})
                    for (idx n2 : {1, 2})
                        for (int wq = 0; wq < 2; wq++) {
                            if (n1 + n2 == 2 || j0 + n1 + n2 > n) continue;
                            CaseOpts o;
                            o.lemmas = true;
                            add_case("split_" + t + S(n) + "_" + S(j0) + S(n1) + S(n2) + "_" + S(wq), o, [=] {
                                Mat<T, L> A(n, n), Q(n, n);
                                setup(n, A, Q, wq);
                                auto A0 = A.d();
                                auto Av = A.view(), Qv = Q.view();
                                int info = tl::schur_swap((bool)wq, Av, Qv, j0, n1, n2);
                                check_concrete(info == 0, "info");
                                vector<idx> p(n);
                                for (idx i = 0; i < n; i++) p[i] = i;
                                for (idx i = 0; i < n2; i++) p[j0 + i] = j0 + n1 + i;
                                for (idx i = 0; i < n1; i++) p[j0 + n2 + i] = j0 + i;
                                verify(n, A0, A, Q, wq, p);
                                again(A0, A, wq, [&](bool w, auto& a, auto& q) { tl::schur_swap(w, a, q, j0, n1, n2); });
                            });
                        }
    for (idx n = 2; n <= (thorough() ? 4 : 3); n++)
        for (idx f = 0; f < n; f++)
            for (idx l = 0; l < n; l++)
                for (int wq = 0; wq < 2; wq++) {
                    CaseOpts o;
                    o.lemmas = true;
                    add_case("move_" + t + S(n) + "_" + S(f) + S(l) + "_" + S(wq), o, [=] {
                        Mat<T, L> A(n, n), Q(n, n);
                        setup(n, A, Q, wq);
                        auto A0 = A.d();
                        auto Av = A.view(), Qv = Q.view();
                        idx ff = f, ll = l;
                        int info = tl::schur_move((bool)wq, Av, Qv, ff, ll);
                        check_concrete(info == 0 && ff == f && ll == l, "info and positions");
                        vector<idx> p(n);
                        for (idx i = 0; i < n; i++) p[i] = i;
                        p.erase(p.begin() + f);
                        p.insert(p.begin() + l, f);
                        verify(n, A0, A, Q, wq, p);
                        again(A0, A, wq, [&](bool w, auto& a, auto& q) { tl::schur_move(w, a, q, ff, ll); });
                    });
                }
}
void sx::register_all()
{
    covers("schur_swap,schur_move");
    bounds("schur_swap, schur_move with 1-by-1 blocks: n <= 4 (moves: 3 quick, 4 thorough), every triangular matrix; pairs of (1,2)-, (2,1)-, (2,2)-blocks that are triangular");
    assumption("rotg satisfies its contract (decided for the real code by B01)");
    reg<SReal, Layout::ColMajor>();
    reg<SReal, Layout::RowMajor>();
    reg<SComplex, Layout::ColMajor>();
    reg<SComplex, Layout::RowMajor>();
}
