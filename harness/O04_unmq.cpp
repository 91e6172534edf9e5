// Application of Q given by elementary reflectors: identities in free v, tau, C.
#include "refl.hpp"
#include <tlapack/lapack/householder_q_mul.hpp>
#include <tlapack/lapack/unm2r.hpp>
#include <tlapack/lapack/unm2l.hpp>
#include <tlapack/lapack/unml2.hpp>
#include <tlapack/lapack/unmr2.hpp>
#include <tlapack/lapack/unmqr.hpp>
#include <tlapack/lapack/unmql.hpp>
#include <tlapack/lapack/unmlq.hpp>
#include <tlapack/lapack/unmrq.hpp>
#include <tlapack/lapack/unmhr.hpp>
using namespace sx;
// C := op(Q) C or C op(Q)
template <class T>
void apply(D<T>& C, bool left, bool trans, const D<T>& V, const vector<T>& tau, idx q, Direction d, StoreV st)
{
    idx k = tau.size();
    bool c = st == StoreV::Columnwise, f = d == Direction::Forward;
    // Q = H_1 ... H_k (col fwd), H_k ... H_1 (col bwd), H_k^H ... H_1^H (row fwd), H_1^H ... H_k^H (row bwd)
    bool asc = c == f;           // the first factor of Q is that of reflector 0
    if (trans) asc = !asc;
    bool conjt = (!c) != trans;  // the factors of op(Q) are H_i^H
    for (idx s = 0; s < k; s++) {
        idx i = (left ? !asc : asc) ? s : k - 1 - s;
        auto v = reflvec(V, q, k, i, d, st);
        T tt = conjt ? cj(tau[i]) : tau[i];
        if (left) hleft(v, tt, C);
        else hright(v, tt, C);
    }
}
template <class T, Layout L>
void reg()
{
    const string t = tname<T>() + nm(L);
    const idx Nq = isC<T> && !thorough() ? 3 : 4, K = isC<T> && !thorough() ? 2 : 3;
    for (Direction d : {Direction::Forward, Direction::Backward})
        for (StoreV st : {StoreV::Columnwise, StoreV::Rowwise})
            for (Side sd : {Side::Left, Side::Right})
                for (Op op : {Op::NoTrans, Op::ConjTrans, Op::Trans})
                    for (idx q = 0; q <= Nq; q++)
                        for (idx k = 0; k <= std::min(K, q); k++)
                            for (idx e : {0, 1, 2, 3})
                                for (int v : {0, 10, 1, 11, 2, 12, 3, 13})
                                    for (int nb : {1, 2, 3, 32}) {
                                        if (isC<T> && op == Op::Trans) continue;
                                        if (!thorough() && (e == 3 || (e == 0 && q > 2) || (op == Op::Trans && v > 9))) continue;
                                        int w = v % 10;
                                        if ((w == 0 || w == 2) && nb != 1) continue;
                                        if (nb > 1 && nb != 32 && nb > (int)k) continue;
                                        bool c = st == StoreV::Columnwise, f = d == Direction::Forward, left = sd == Side::Left;
                                        add_case("mul_" + t + "_" + nm(d) + nm(st) + (left ? "L" : "R") + (op == Op::NoTrans ? "N" : op == Op::Trans ? "T" : "C") + "_" + S(q) + S(k) + S(e) + "_v" + S(v) + "_nb" + S(nb), [=] {
                                            Mat<T, L> Vm(c ? q : k, c ? k : q);
                                            in_refl(Vm, "v", q, k, d, st);
                                            Vec<T> tau(k, 2);
                                            tau.in("t");
                                            Mat<T, L> C(left ? q : e, left ? e : q);
                                            C.in("c");
                                            auto V0 = Vm.d();
                                            auto E = C.d();
                                            const auto Vv = Vm.view();
                                            const auto tv = tau.view();
                                            auto Cv = C.view();
                                            int info = 0;
                                            tl::HouseholderQMulOpts o;
                                            o.nb = nb;
                                            o.variant = w == 0 ? tl::HouseholderQMulVariant::Level2 : tl::HouseholderQMulVariant::Blocked;
                                            tl::UnmqrOpts oa; tl::UnmqlOpts ob; tl::UnmlqOpts oc; tl::UnmrqOpts od;
                                            oa.nb = ob.nb = oc.nb = od.nb = nb;
                                            if (v < 10) {
                                                if (w < 2) info = tl::householder_q_mul(sd, op, d, st, Vv, tv, Cv, o);
                                                else if (w == 2) info = c ? (f ? tl::unm2r(sd, op, Vv, tv, Cv) : tl::unm2l(sd, op, Vv, tv, Cv)) : (f ? tl::unml2(sd, op, Vv, tv, Cv) : tl::unmr2(sd, op, Vv, tv, Cv));
                                                else info = c ? (f ? tl::unmqr(sd, op, Vv, tv, Cv, oa) : tl::unmql(sd, op, Vv, tv, Cv, ob)) : (f ? tl::unmlq(sd, op, Vv, tv, Cv, oc) : tl::unmrq(sd, op, Vv, tv, Cv, od));
                                            }
                                            else {
                                                tl::WorkInfo wi;
                                                if (w < 2) wi = tl::householder_q_mul_worksize<T>(sd, op, d, st, Vv, tv, Cv, o);
                                                else if (w == 2) wi = c ? (f ? tl::unm2r_worksize<T>(sd, op, Vv, tv, Cv) : tl::unm2l_worksize<T>(sd, op, Vv, tv, Cv)) : (f ? tl::unml2_worksize<T>(sd, op, Vv, tv, Cv) : tl::unmr2_worksize<T>(sd, op, Vv, tv, Cv));
                                                else wi = c ? (f ? tl::unmqr_worksize<T>(sd, op, Vv, tv, Cv, oa) : tl::unmql_worksize<T>(sd, op, Vv, tv, Cv, ob)) : (f ? tl::unmlq_worksize<T>(sd, op, Vv, tv, Cv, oc) : tl::unmrq_worksize<T>(sd, op, Vv, tv, Cv, od));
                                                Mat<T, L> wk(wi.m, wi.n, 0);
                                                auto wv = wk.view();
                                                if (w < 2) info = tl::householder_q_mul_work(sd, op, d, st, Vv, tv, Cv, wv, o);
                                                else if (w == 2) info = tl::unmq_level2_work(sd, op, d, st, Vv, tv, Cv, wv);
                                                else { tl::UnmqOpts oq; oq.nb = nb; info = tl::unmq_work(sd, op, d, st, Vv, tv, Cv, wv, oq); }
                                                check_concrete(wk.padding_ok(), "storage around the workspace");
                                            }
                                            check_concrete(info == 0 && C.padding_ok() && tau.padding_ok() && Vm.padding_ok(), "info and storage around the operands");
                                            apply(E, left, op != Op::NoTrans, V0, tau.d(), q, d, st);
                                            Batch Q;
                                            eqm(Q, C.d(), E, "op(Q) applied to C");
                                            check_concrete(unchanged(Vm.d(), V0), "V unchanged");
                                        });
                                    }
    for (idx n = 1; n <= (isC<T> && !thorough() ? 3 : 4); n++)
        for (idx ilo = 0; ilo < n; ilo++)
            for (idx ihi = ilo; ihi <= n; ihi++)
                for (Side sd : {Side::Left, Side::Right})
                    for (Op op : {Op::NoTrans, Op::ConjTrans})
                        for (idx e = 1; e <= 2; e++)
                            for (int w = 0; w < 2; w++)
                                add_case("unmhr_" + t + "_" + S(n) + S(ilo) + S(ihi) + (sd == Side::Left ? "L" : "R") + (op == Op::NoTrans ? "N" : "C") + S(e) + (w ? "w" : ""), [=] {
                                    bool left = sd == Side::Left;
                                    Mat<T, L> A(n, n);
                                    Vec<T> tau(n - 1);
                                    idx r = ihi > ilo ? ihi - ilo - 1 : 0;
                                    D<T> V(r, r);
                                    vector<T> ts;
                                    for (idx i = 0; i < r; i++) {
                                        for (idx j = i + 1; j < r; j++) V(j, i) = A(ilo + 1 + j, ilo + i) = input<T>("v" + S(j) + "_" + S(i));
                                        ts.push_back(tau[ilo + i] = input<T>("t" + S(i)));
                                    }
                                    Mat<T, L> C(left ? n : e, left ? e : n);
                                    C.in("c");
                                    auto E = C.d(), A0 = A.d();
                                    auto Av = A.view();
                                    auto tv = tau.view();
                                    auto Cv = C.view();
                                    int info;
                                    if (w) {
                                        auto wi = tl::unmhr_worksize<T>(sd, op, ilo, ihi, Av, tv, Cv);
                                        Mat<T, L> wk(wi.m, wi.n, 0);
                                        auto wv = wk.view();
                                        info = tl::unmhr_work(sd, op, ilo, ihi, Av, tv, Cv, wv);
                                        check_concrete(wk.padding_ok(), "storage around the workspace");
                                    }
                                    else info = tl::unmhr(sd, op, ilo, ihi, Av, tv, Cv);
                                    check_concrete(info == 0 && A.padding_ok() && C.padding_ok() && tau.padding_ok(), "info and storage");
                                    D<T> Es(left ? r : e, left ? e : r);
                                    for (idx i = 0; i < Es.m; i++)
                                        for (idx j = 0; j < Es.n; j++) Es(i, j) = left ? E(ilo + 1 + i, j) : E(i, ilo + 1 + j);
                                    apply(Es, left, op != Op::NoTrans, V, ts, r, Direction::Forward, StoreV::Columnwise);
                                    for (idx i = 0; i < Es.m; i++)
                                        for (idx j = 0; j < Es.n; j++) (left ? E(ilo + 1 + i, j) : E(i, ilo + 1 + j)) = Es(i, j);
                                    Batch Q;
                                    eqm(Q, C.d(), E, "op(Q) applied to C");
                                    check_concrete(unchanged(A.d(), A0), "A unchanged");
                                });
}
void sx::register_all()
{
    covers("householder_q_mul,unmq,unmq_level2,unm2r,unm2l,unml2,unmr2,unmqr,unmql,unmlq,unmrq,unmhr,larf,larft,larfb");
    bounds("order of Q 0..4 (complex 0..3), 0..3 reflectors (complex 0..2), 0..2 columns/rows of C (thorough 3), nb in {1,2,3,32}, both layouts (complex: column major; thorough both); v, tau and C are free variables");
    reg<SReal, Layout::ColMajor>();
    if (thorough()) reg<SReal, Layout::RowMajor>();
    reg<SComplex, Layout::ColMajor>();
    if (thorough()) reg<SComplex, Layout::RowMajor>();
}
