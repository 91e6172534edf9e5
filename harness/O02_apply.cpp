// larf, larft, larfb: polynomial identities in free v, tau, T, C.
#include "refl.hpp"
#include <tlapack/lapack/larf.hpp>
#include <tlapack/lapack/larft.hpp>
#include <tlapack/lapack/larfb.hpp>
using namespace sx;
static const Direction DS[] = {Direction::Forward, Direction::Backward};
static const StoreV SS[] = {StoreV::Columnwise, StoreV::Rowwise};
static const Side SD[] = {Side::Left, Side::Right};
template <class T, Layout LV, Layout LC>
void reg()
{
    const string t = tname<T>() + nm(LV) + nm(LC);
    const idx N = thorough() ? 5 : 4;
    for (Side sd : SD)
        for (StoreV st : SS)
            for (idx m = 0; m <= N; m++)
                for (idx n = 0; n <= N; n++) {
                    if (m * n > (isC<T> && !thorough() ? 9 : 16)) continue;
                    string sz = S(m) + S(n);
                    for (Direction d : DS)
                        for (int w = 0; w < 2; w++)
                            add_case("larf_" + nm(sd) + nm(d) + nm(st) + "_" + t + "_" + sz + (w ? "_w" : ""), [=] {
                                idx q = sd == Side::Left ? m : n;
                                Mat<T, LC> C(m, n);
                                C.in("c");
                                Vec<T> v(q, 2);
                                for (idx i = 0; i < q; i++)
                                    if (i != (d == Direction::Forward ? 0 : q - 1)) v[i] = input<T>("v" + S(i));
                                T tau = input<T>("tau");
                                auto C0 = C.d();
                                auto v0 = v.d();
                                auto Cv = C.view();
                                auto vv = v.view();
                                if (w) {
                                    auto wi = tl::larf_worksize<T>(sd, d, st, vv, tau, Cv);
                                    Vec<T> wk(wi.size() + (m && n ? 0 : 0), 1);
                                    auto wv = wk.view();
                                    tl::larf_work(sd, d, st, vv, tau, Cv, wv);
                                    check_concrete(wk.padding_ok(), "storage around the workspace");
                                }
                                else tl::larf(sd, d, st, vv, tau, Cv);
                                if (m == 0 || n == 0) { check_concrete(C.padding_ok(), "empty"); return; }
                                vector<T> z(q);
                                for (idx i = 0; i < q; i++) z[i] = i == (d == Direction::Forward ? 0 : q - 1) ? T(1) : st == StoreV::Columnwise ? v0[i] : cj(v0[i]);
                                if (sd == Side::Left) hleft(z, tau, C0); else hright(z, tau, C0);
                                Batch Q;
                                eqm(Q, C.d(), C0, "C");
                                Q.flush();
                                check_concrete(C.padding_ok() && v.padding_ok() && (q == 0 || is_poison(v[d == Direction::Forward ? 0 : q - 1])), "storage around C and v, implicit one of v");
                            });
                    // C split in a vector C0 and a matrix C1 (m, n: sizes of C1)
                    add_case("larf0_" + nm(sd) + nm(st) + "_" + t + "_" + sz, [=] {
                        idx q = sd == Side::Left ? m : n, k = sd == Side::Left ? n : m;
                        Mat<T, LC> C1(m, n);
                        C1.in("c");
                        Vec<T> c0(k, 3), x(q, 2);
                        c0.in("z");
                        x.in("x");
                        T tau = input<T>("tau");
                        D<T> E(sd == Side::Left ? m + 1 : m, sd == Side::Left ? n : n + 1);
                        for (idx i = 0; i < k; i++) (sd == Side::Left ? E(0, i) : E(i, 0)) = c0[i];
                        for (idx i = 0; i < m; i++)
                            for (idx j = 0; j < n; j++) (sd == Side::Left ? E(i + 1, j) : E(i, j + 1)) = C1(i, j);
                        vector<T> z(q + 1);
                        z[0] = T(1);
                        for (idx i = 0; i < q; i++) z[i + 1] = st == StoreV::Columnwise ? x[i] : cj(x[i]);
                        auto C1v = C1.view();
                        auto c0v = c0.view();
                        auto xv = x.view();
                        tl::larf(sd, st, xv, tau, c0v, C1v);
                        if (sd == Side::Left) hleft(z, tau, E); else hright(z, tau, E);
                        Batch Q;
                        for (idx i = 0; i < k; i++) Q.eq(c0[i], sd == Side::Left ? E(0, i) : E(i, 0), "C0");
                        for (idx i = 0; i < m; i++)
                            for (idx j = 0; j < n; j++) Q.eq(C1(i, j), sd == Side::Left ? E(i + 1, j) : E(i, j + 1), "C1");
                        Q.flush();
                        check_concrete(C1.padding_ok() && c0.padding_ok() && x.padding_ok(), "storage around C0, C1 and x");
                    });
                }
    // triangular factor: I - V T V^H = H(1)...H(k) (Forward) or H(k)...H(1) (Backward)
    for (Direction d : DS)
        for (StoreV st : SS)
            for (idx n = 0; n <= N; n++)
                for (idx k = 0; k <= n && k <= (thorough() && !isC<T> ? 4 : 3); k++) {
                    if (isC<T> && !thorough() && k == 3 && n == 4) continue;
                    for (int z = -1; z < (int)k; z++)
                        add_case("larft_" + nm(d) + nm(st) + "_" + t + "_" + S(n) + S(k) + "_z" + S(z), [=] {
                            bool cw = st == StoreV::Columnwise;
                            Mat<T, LV> V(cw ? n : k, cw ? k : n);
                            in_refl(V, "v", n, k, d, st);
                            Vec<T> tau(k, 2);
                            tau.in("t");
                            if (z >= 0) tau[z] = T(0);  // H(z) = I
                            Mat<T, LC> Tm(k, k);
                            auto Vv = V.view();
                            auto tv = tau.view();
                            auto Tv = Tm.view();
                            auto V0 = V.d();
                            int info = tl::larft(d, st, Vv, tv, Tv);
                            check_concrete(info == 0, "info");
                            if (n == 0) return;
                            D<T> P = D<T>::eye(n);
                            for (idx i = 0; i < k; i++) {
                                auto v = reflvec(V0, n, k, i, d, st);
                                if (d == Direction::Forward) hright(v, tau[i], P);
                                else hleft(v, tau[i], P);
                            }
                            D<T> W(n, k);
                            for (idx i = 0; i < k; i++) {
                                auto v = reflvec(V0, n, k, i, d, st);
                                for (idx j = 0; j < n; j++) W(j, i) = v[j];
                            }
                            D<T> Tt = tri(Tm.d(), d == Direction::Forward ? Uplo::Upper : Uplo::Lower);
                            D<T> B = D<T>::eye(n) - W * Tt * W.h();
                            Batch Q;
                            eqm(Q, B, P, "I - V T V^H = product of the reflectors");
                            // unique: T itself, by the recurrence it satisfies
                            for (idx i = 0; i < k; i++) Q.eq(Tm(i, i), tau[i], "diagonal of T is tau");
                            Q.flush();
                            bool ok = Tm.padding_ok() && V.padding_ok();
                            for (idx i = 0; i < k; i++)
                                for (idx j = 0; j < k; j++)
                                    if (d == Direction::Forward ? i > j : i < j) ok = ok && is_poison(Tm(i, j));
                            check_concrete(ok && unchanged(V.d(), V0), "V, the other triangle of T and the storage around them unchanged");
                        });
                }
    // block reflector with a free triangular T
    for (Side sd : SD)
        for (Op op : {Op::NoTrans, Op::ConjTrans, Op::Trans})
            for (Direction d : DS)
                for (StoreV st : SS)
                    for (idx m = 0; m <= N; m++)
                        for (idx n = 0; n <= N; n++)
                            for (idx k = 0; k <= 3; k++) {
                                idx q = sd == Side::Left ? m : n;
                                if (k > q || m * n > (thorough() ? 12 : 8) || (k == 0 && q > 1)) continue;
                                if (isC<T> && (op == Op::Trans || (m * n > 6 && !thorough()))) continue;
                                for (int w = 0; w < 2; w++)
                                    add_case("larfb_" + nm(sd) + nm(op) + nm(d) + nm(st) + "_" + t + "_" + S(m) + S(n) + S(k) + (w ? "w" : ""), [=] {
                                        bool cw = st == StoreV::Columnwise;
                                        Mat<T, LV> V(cw ? q : k, cw ? k : q), Tm(k, k);
                                        in_refl(V, "v", q, k, d, st);
                                        Tm.in_tri("t", d == Direction::Forward ? Uplo::Upper : Uplo::Lower);
                                        Mat<T, LC> C(m, n);
                                        C.in("c");
                                        auto C0 = C.d(), V0 = V.d(), T0 = Tm.d();
                                        auto Vv = V.view();
                                        auto Tv = Tm.view();
                                        auto Cv = C.view();
                                        if (w) {
                                            auto wi = tl::larfb_worksize<T>(sd, op, d, st, Vv, Tv, Cv);
                                            Mat<T, LV> wk(wi.m, wi.n, 0);
                                            auto wv = wk.view();
                                            tl::larfb_work(sd, op, d, st, Vv, Tv, Cv, wv);
                                            check_concrete(wk.padding_ok(), "storage around the workspace");
                                        }
                                        else tl::larfb(sd, op, d, st, Vv, Tv, Cv);
                                        D<T> W(q, k);
                                        for (idx i = 0; i < k; i++) {
                                            auto v = reflvec(V0, q, k, i, d, st);
                                            for (idx j = 0; j < q; j++) W(j, i) = v[j];
                                        }
                                        D<T> Tt = tri(T0, d == Direction::Forward ? Uplo::Upper : Uplo::Lower).op(op);
                                        D<T> E = sd == Side::Left ? C0 - W * (Tt * (W.h() * C0)) : C0 - ((C0 * W) * Tt) * W.h();
                                        Batch Q;
                                        eqm(Q, C.d(), E, "C");
                                        Q.flush();
                                        check_concrete(C.padding_ok() && V.padding_ok() && unchanged(V.d(), V0) && unchanged(Tm.d(), T0), "V, T and the storage around C unchanged");
                                    });
                            }
}
void sx::register_all()
{
    covers("larf,larf_work,larft,larfb,larfb_work");
    bounds("larf: C up to 4x4 (complex: 9 entries); larft: order <= 4, k <= 3 reflectors, each tau free or zero; larfb: C up to 8 entries (complex 6), k <= 3; all sides, ops, directions, storage modes, layouts ColMajor/RowMajor mixed; every entry of v, tau, T, C free");
    reg<SReal, Layout::ColMajor, Layout::RowMajor>();
    reg<SReal, Layout::ColMajor, Layout::ColMajor>();
    reg<SComplex, Layout::RowMajor, Layout::ColMajor>();
}
