// Generalized Hessenberg reductions over the contract of rotg (decided by B01).
#include "stub_rotg.hpp"
#include <iostream>
#include <tlapack/blas/rotg.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/blas/gemm.hpp>
#include <tlapack/lapack/hessenberg_rq.hpp>
#include <tlapack/lapack/rot_sequence.hpp>
#include <tlapack/lapack/gghrd.hpp>
#include <tlapack/lapack/gghd3.hpp>
using namespace sx;
template <class T, Layout L>
void reg()
{
    const string t = tname<T>() + nm(L);
    const idx N = isC<T> && !thorough() ? 3 : 4;
    // T := Q^H T Z with the given left rotations and the returned right ones
    for (idx n = 0; n <= N; n++) {
        CaseOpts o;
        o.lemmas = true;
        add_case("hrq_" + t + "_" + S(n), o, [=] {
            stubr::reset();
            Mat<T, L> A(n, n);
            idx k = n ? n - 1 : 0;
            for (idx i = 0; i < n; i++)
                for (idx j = i; j < n; j++) A(i, j) = input<T>("a" + S(i) + "_" + S(j));
            for (idx i = 0; i + 1 < n; i++) A(i + 1, i) = T(0);
            for (idx j = 0; j < n; j++)
                for (idx i = j + 1; i < n; i++) A(i, j) = T(0);
            Vec<SReal> cl(k), cr(k);
            Vec<T> sl(k), sr(k);
            cl.in("cl");
            sl.in("sl");
            auto E = A.d();
            auto Av = A.view();
            auto clv = cl.view(), crv = cr.view();
            auto slv = sl.view(), srv = sr.view();
            tl::hessenberg_rq(Av, clv, slv, crv, srv);
            check_concrete(A.padding_ok() && cl.padding_ok() && sl.padding_ok() && cr.padding_ok() && sr.padding_ok(), "storage around the operands");
            for (idx s = 0; s < k; s++) {
                idx i = k - 1 - s;  // rows i, i+1
                for (idx j = 0; j < n; j++) {
                    T x = E(i, j), y = E(i + 1, j);
                    E(i, j) = T(cl[i]) * x + sl[i] * y;
                    E(i + 1, j) = T(cl[i]) * y - cj(sl[i]) * x;
                }
            }
            for (idx s = 0; s < k; s++) {
                idx i = k - 1 - s;  // columns i, i+1
                for (idx r = 0; r < n; r++) {
                    T x = E(r, i), y = E(r, i + 1);
                    E(r, i) = T(cr[i]) * x + cj(sr[i]) * y;
                    E(r, i + 1) = T(cr[i]) * y - sr[i] * x;
                }
            }
            Batch Q;
            auto F = A.d();
            for (idx j = 0; j < n; j++)
                for (idx i = j + 1; i < n; i++) check_concrete(same(F(i, j), T(0)) || F(i, j) == T(0), "upper triangular");
            eqm(Q, F, E, "Q^H T Z");
        });
    }
    for (idx n = 1; n <= N; n++)
        for (idx ilo = 0; ilo < n; ilo++)
            for (idx ihi = ilo + 1; ihi <= n; ihi++)
                for (int nb : {0, 1, 2, 3}) {
                    if (nb > 1 && nb >= (int)(ihi - ilo)) continue;
                    if (!thorough() && (isC<T> || L == Layout::RowMajor) && ihi - ilo > 3) continue;
                    for (int wq = 0; wq < 4; wq++) {
                        if (wq != 3 && (nb > 1 || ihi - ilo < 2)) continue;
                        CaseOpts o;
                        o.lemmas = true;
                        o.case_s = thorough() ? 120 : 40;
                        add_case((nb ? "gghd3_" : "gghrd_") + t + "_" + S(n) + S(ilo) + S(ihi) + "_nb" + S(nb) + "_w" + S(wq), o, [=] {
                            stubr::reset();
                            Mat<T, L> A(n, n), B(n, n), Qm(n, n), Z(n, n);
                            for (idx i = 0; i < n; i++)
                                for (idx j = 0; j < n; j++) {
                                    A(i, j) = i > j && (j < ilo || i >= ihi) ? T(0) : input<T>("a" + S(i) + "_" + S(j));
                                    if (i <= j) B(i, j) = input<T>("b" + S(i) + "_" + S(j));
                                }
                            // the strict lower triangle of B is set to zero by the routine
                            for (idx i = 0; i < n; i++) Qm(i, i) = Z(i, i) = T(1);
                            for (idx i = 0; i < n; i++)
                                for (idx j = 0; j < n; j++)
                                    if (i != j) Qm(i, j) = Z(i, j) = T(0);
                            auto A0 = A.d(), B0 = B.d();
                            for (idx i = 0; i < n; i++)
                                for (idx j = 0; j < i; j++) B0(i, j) = T(0);
                            auto Av = A.view(), Bv = B.view(), Qv = Qm.view(), Zv = Z.view();
                            // the pair does not depend on which of Q and Z is wanted
                            D<T> FR, GR;
                            if (wq != 3) {
                                Mat<T, L> A2(n, n), B2(n, n), Q2(n, n), Z2(n, n);
                                for (idx i = 0; i < n; i++)
                                    for (idx j = 0; j < n; j++) {
                                        A2(i, j) = A(i, j);
                                        B2(i, j) = B(i, j);
                                        Q2(i, j) = Z2(i, j) = T(i == j);
                                    }
                                auto av = A2.view(), bv = B2.view(), qv = Q2.view(), zv = Z2.view();
                                if (nb) {
                                    tl::Gghd3Opts go;
                                    go.nb = nb;
                                    tl::gghd3(true, true, ilo, ihi, av, bv, qv, zv, go);
                                }
                                else tl::gghrd(true, true, ilo, ihi, av, bv, qv, zv);
                                FR = A2.d();
                                GR = B2.d();
                            }
                            int info;
                            if (nb) {
                                tl::Gghd3Opts go;
                                go.nb = nb;
                                info = tl::gghd3(wq & 1, wq & 2, ilo, ihi, Av, Bv, Qv, Zv, go);
                            }
                            else info = tl::gghrd(wq & 1, wq & 2, ilo, ihi, Av, Bv, Qv, Zv);
                            check_concrete(info == 0 && A.padding_ok() && B.padding_ok() && Qm.padding_ok() && Z.padding_ok(), "info and storage");
                            auto F = A.d(), G = B.d(), Q1 = Qm.d(), Z1 = Z.d();
                            for (idx j = 0; j < n; j++)
                                for (idx i = j + 1; i < n; i++) {
                                    check_concrete(G(i, j) == T(0), "B upper triangular");
                                    if (i > j + 1) check_concrete(F(i, j) == T(0), "A upper Hessenberg");
                                }
                            Batch Q;
                            if (wq != 3) {
                                eqm(Q, F, FR, "A as with Q and Z");
                                eqm(Q, G, GR, "B as with Q and Z");
                            }
                            if (wq == 3) {
                                eqm(Q, Q1.h() * A0 * Z1, F, "Q^H A Z = H");
                                eqm(Q, Q1.h() * B0 * Z1, G, "Q^H B Z = T");
                            }
                            if (wq & 1) eqm(Q, Q1.h() * Q1, D<T>::eye(n), "Q unitary");
                            else eqm(Q, Q1, D<T>::eye(n), "Q not referenced");
                            if (wq & 2) eqm(Q, Z1.h() * Z1, D<T>::eye(n), "Z unitary");
                            else eqm(Q, Z1, D<T>::eye(n), "Z not referenced");
                        });
                    }
                }
}
void sx::register_all()
{
    covers("gghrd,gghd3,hessenberg_rq,rot_sequence,rot,gemm");
    bounds("hessenberg_rq: n 0..4 (complex 0..3); gghrd, gghd3: n 1..4 (complex 1..3), every ilo < ihi with ihi-ilo <= 3 (thorough: 4), nb 1..2");
    assumption("rotg is replaced by its contract (decided for the real rotg by property B01)");
    reg<SReal, Layout::ColMajor>();
    reg<SReal, Layout::RowMajor>();
    reg<SComplex, Layout::ColMajor>();
}
