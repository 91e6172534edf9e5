// Auxiliary matrix and scalar kernels: copy, set, scale, scan, sort, merge.
#include "hx.hpp"
#include <tlapack/base/constants.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/lapack/lascl.hpp>
#include <tlapack/lapack/rscl.hpp>
#include <tlapack/lapack/ladiv.hpp>
#include <tlapack/lapack/lapy2.hpp>
#include <tlapack/lapack/lapy3.hpp>
#include <tlapack/lapack/conjugate.hpp>
#include <tlapack/lapack/hasnan.hpp>
#include <tlapack/lapack/hasinf.hpp>
#include <tlapack/lapack/lamrg.hpp>
#include <tlapack/lapack/lasrt.hpp>
#include <iostream>
using namespace sx;
static const Uplo U3[] = {Uplo::General, Uplo::Upper, Uplo::Lower};
static const Uplo U7[] = {Uplo::General, Uplo::Upper, Uplo::Lower, Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::StrictUpper, Uplo::StrictLower};
static bool in(Uplo u, idx i, idx j)
{
    switch (u) {
        case Uplo::Upper: return i <= j;
        case Uplo::Lower: return i >= j;
        case Uplo::UpperHessenberg: return i <= j + 1;
        case Uplo::LowerHessenberg: return j <= i + 1;
        case Uplo::StrictUpper: return i < j;
        case Uplo::StrictLower: return i > j;
        default: return true;
    }
}
static string un(Uplo u)
{
    switch (u) {
        case Uplo::Upper: return "U";
        case Uplo::Lower: return "L";
        case Uplo::UpperHessenberg: return "UH";
        case Uplo::LowerHessenberg: return "LH";
        case Uplo::StrictUpper: return "SU";
        case Uplo::StrictLower: return "SL";
        default: return "G";
    }
}
template <class T> T nan_of() { return isC<T> ? T(R(NANV)) : T(R(NANV)); }
template <class T, Layout L, Layout L2>
void reg()
{
    const string t = tname<T>() + nm(L);
    const idx N = thorough() ? 5 : 4;
    for (idx m = 0; m <= N; m++)
        for (idx n = 0; n <= N; n++) {
            const string sz = S(m) + S(n);
            for (Uplo u : U3) {
                add_case("lacpy_" + un(u) + "_" + t + "_" + sz, [=] {
                    Mat<T, L> A(m, n);
                    A.in("a");
                    for (idx i = 0; i < m; i++)
                        for (idx j = 0; j < n; j++)
                            if (!in(u, i, j)) A(i, j) = poison<T>();
                    Mat<T, L2> B(m + 1, n + 2);  // "at least m rows and at least n columns"
                    B.in("b");
                    auto A0 = A.d(), B0 = B.d();
                    auto Av = A.view();
                    auto Bv = B.view();
                    tl::lacpy(u, Av, Bv);
                    D<T> E = B0;
                    for (idx i = 0; i < m; i++)
                        for (idx j = 0; j < n; j++)
                            if (in(u, i, j)) E(i, j) = A0(i, j);
                    Batch Q;
                    eqm(Q, B.d(), E, "B");
                    Q.flush();
                    check_concrete(unchanged(A.d(), A0) && B.padding_ok(), "A unchanged");
                });
                add_case("laset_" + un(u) + "_" + t + "_" + sz, [=] {
                    Mat<T, L> A(m, n);
                    A.in("a");
                    auto E = A.d();
                    T al = input<T>("al"), be = input<T>("be");
                    auto Av = A.view();
                    tl::laset(u, al, be, Av);
                    for (idx i = 0; i < m; i++)
                        for (idx j = 0; j < n; j++)
                            if (i == j) E(i, j) = be; else if (in(u, i, j)) E(i, j) = al;
                    Batch Q;
                    eqm(Q, A.d(), E, "A");
                    Q.flush();
                    check_concrete(A.padding_ok(), "storage around A");
                });
            }
            // scaling by a/b over any access type; ratios from far below the safe minimum to far above the safe maximum
            auto accs = [=](const string& nmx, auto acc, std::function<bool(idx, idx)> inside) {
                int ex[][2] = {{0, 0}, {-130, 120}, {120, -130}, {100, -100}};
                for (auto& e : ex) {
                    int ea = e[0], eb = e[1];
                    if (ea && (m != n || m < 2)) continue;
                    CaseOpts o;
                    add_case("lascl_" + nmx + "_" + t + "_" + sz + "_" + S(ea) + "_" + S(eb), o, [=] {
                        Mat<T, L> A(m, n);
                        A.in("a");
                        for (idx i = 0; i < m; i++)
                            for (idx j = 0; j < n; j++)
                                if (!inside(i, j)) A(i, j) = poison<T>();
                        SReal a = var("sa"), b = var("sb");
                        assume(ne(b, SReal(0)));
                        if (ea) {
                            for (auto& p : {std::make_pair(a, ea), std::make_pair(b, eb)}) {
                                assume(ge(p.first, R(mk_pow2(p.second))));
                                assume(le(p.first, R(mk_pow2(p.second + 1))));
                            }
                        }
                        else {
                            // no rescaling: any signs, a may be zero
                            assume(le(sx::abs(b), R(mk_pow2(60))));
                            assume(ge(sx::abs(b), R(mk_pow2(-60))));
                            assume(le(sx::abs(a), R(mk_pow2(60))));
                            assume(f_or(eq(a, SReal(0)), ge(sx::abs(a), R(mk_pow2(-60)))));
                        }
                        auto A0 = A.d();
                        auto Av = A.view();
                        int info = tl::lascl(acc, b, a, Av);
                        check_concrete(info == 0, "info = 0");
                        Batch Q;
                        bool ok = A.padding_ok();
                        for (idx i = 0; i < m; i++)
                            for (idx j = 0; j < n; j++) {
                                if (inside(i, j)) Q.eq(T(b) * A(i, j), T(a) * A0(i, j), "A(" + S(i) + "," + S(j) + ") = a/b A");
                                else ok = ok && is_poison(A(i, j));
                            }
                        Q.flush();
                        check_concrete(ok, "entries outside the access type unchanged");
                    });
                }
                // NaN / Inf scans: the special value at each position
                for (int w = 0; w < 2; w++)
                    for (idx p = 0; p <= m * n; p++)
                        for (int part = 0; part < (isC<T> ? 2 : 1); part++)
                            add_case(string(w ? "hasinf_" : "hasnan_") + nmx + "_" + t + "_" + sz + "_at" + S(p) + (part ? "i" : ""), [=] {
                                Mat<T, L> A(m, n);
                                A.in("a");
                                bool want = false;
                                if (p < m * n) {
                                    idx i = p % m, j = p / m;
                                    SReal s = w ? R((p % 2) ? PINF : NINF) : R(NANV);
                                    if constexpr (isC<T>) A(i, j) = part ? T(re(A(i, j)), s) : T(s, im(A(i, j)));
                                    else A(i, j) = s;
                                    want = inside(i, j);
                                }
                                auto Av = A.view();
                                bool got = w ? tl::hasinf(acc, Av) : tl::hasnan(acc, Av);
                                check_concrete(got == want, "answer");
                            });
            };
            if (m * n > 12 && !thorough()) continue;
            for (Uplo u : U7) accs(un(u), u, [=](idx i, idx j) { return in(u, i, j); });
            for (idx kl = 0; kl < m; kl++)
                for (idx ku = 0; ku < n; ku++)
                    if (m >= 2 && n >= 2) accs("band" + S(kl) + S(ku), tl::BandAccess(kl, ku), [=](idx i, idx j) { return i <= j + kl && j <= i + ku; });
        }
    for (idx n = 0; n <= N; n++)
        add_case("conjugate_" + t + "_" + S(n), [=] {
            Vec<T> x(n, 2);
            x.in("x");
            auto x0 = x.d();
            auto xv = x.view();
            tl::conjugate(xv);
            Batch Q;
            for (idx i = 0; i < n; i++) Q.eq(x[i], cj(x0[i]), "x");
            Q.flush();
            check_concrete(x.padding_ok(), "storage around x");
        });
}
template <class T>
void scalars()
{
    const string t = tname<T>();
    CaseOpts o;
    o.nra_ms = 15000;
    for (idx n = 0; n <= 3; n++)
        for (int e : {-130, -100, 0, 100, 127}) {
            add_case("rscl_r_" + t + "_" + S(n) + "_" + S(e), o, [=] {
                Vec<T> x(n, 2);
                x.in("x");
                SReal a = var("al");
                assume(ge(sx::abs(a), R(mk_pow2(e))));
                assume(le(sx::abs(a), R(mk_pow2(e + 3))));
                auto x0 = x.d();
                auto xv = x.view();
                tl::rscl(a, xv);
                Batch Q;
                for (idx i = 0; i < n; i++) Q.eq(T(a) * x[i], x0[i], "alpha x = x0");
                Q.flush();
                check_concrete(x.padding_ok(), "storage around x");
            });
            if constexpr (isC<T>)
                for (int e2 : {-130, -100, 0, 100, 127}) {
                    if (n > 1) continue;
                    add_case("rscl_c_" + S(n) + "_" + S(e) + "_" + S(e2), o, [=] {
                        Vec<T> x(n, 2);
                        x.in("x");
                        T a = input<T>("al");
                        assume(ge(re(a), R(mk_pow2(e))));
                        assume(le(re(a), R(mk_pow2(e + 3))));
                        assume(le(im(a), -R(mk_pow2(e2))));
                        assume(ge(im(a), -R(mk_pow2(e2 + 3))));
                        auto x0 = x.d();
                        auto xv = x.view();
                        tl::rscl(a, xv);
                        Batch Q;
                        for (idx i = 0; i < n; i++) Q.eq(a * x[i], x0[i], "alpha x = x0");
                    });
                }
        }
}
void sx::register_all()
{
    covers("lacpy,laset,lascl,rscl,ladiv,lapy2,lapy3,conjugate,hasnan,hasinf,lamrg,lasrt");
    bounds("matrices 0..4 by 0..4 (scans and scalings up to 12 entries), every access type and bandwidth; any entry values; NaN/Inf at every single position; scale ratios a/b anywhere, and in the ranges 2^-250, 2^200, 2^250; sorted lists of total length <= 6, sorts of length <= 5 (and 22..24 with two free entries)");
    reg<SReal, Layout::ColMajor, Layout::RowMajor>();
    reg<SComplex, Layout::RowMajor, Layout::ColMajor>();
    scalars<SReal>();
    scalars<SComplex>();
    CaseOpts o;
    o.nra_ms = 15000;
    for (int z = 0; z < 2; z++) {
        // pure imaginary / real divisors
        add_case(string("rscl_c_axis") + S(z), o, [=] {
            Vec<SComplex> x(1, 1);
            x.in("x");
            SReal v = var("v");
            assume(ne(v, SReal(0)));
            SComplex a = z ? SComplex(SReal(0), v) : SComplex(v, SReal(0));
            auto x0 = x.d();
            auto xv = x.view();
            tl::rscl(a, xv);
            Batch Q;
            Q.eq(a * x[0], x0[0], "alpha x = x0");
        });
    }
    for (int e1 : {-120, 0, 127})
        for (int e2 : {-120, 0, 127})
            for (int dir = 0; dir < 3; dir++)
                add_case("ladiv_" + S(e1) + "_" + S(e2) + "_" + S(dir), o, [=] {
                    SReal a = var("a"), b = var("b"), c = var("c"), d = var("d");
                    SReal l1 = R(mk_pow2(e1)), l2 = R(mk_pow2(e2));
                    // magnitudes: numerator around 2^e1 or below, denominator's larger part around 2^e2
                    assume(le(sx::abs(a), l1)); assume(le(sx::abs(b), l1));
                    assume(le(sx::abs(c), l2)); assume(le(sx::abs(d), l2));
                    if (dir == 0) { assume(ge(c, l2 * SReal(0.5))); }
                    else if (dir == 1) { assume(le(d, -l2 * SReal(0.5))); }
                    else { assume(f_or(eq(c, SReal(0)), eq(d, SReal(0)))); assume(f_or(ne(c, SReal(0)), ne(d, SReal(0)))); }
                    SReal p, q;
                    tl::ladiv(a, b, c, d, p, q);
                    Batch Q;
                    Q.eq(p * c - q * d, a, "real part of (p+iq)(c+id)");
                    Q.eq(p * d + q * c, b, "imaginary part of (p+iq)(c+id)");
                });
    add_case("ladiv_complex", o, [=] {
        SComplex x = input<SComplex>("x"), y = input<SComplex>("y");
        assume(ge(re(y), SReal(1)));
        assume(le(re(y), SReal(100)));
        assume(ge(im(y), SReal(1)));
        assume(le(im(y), SReal(100)));
        assume(ge(re(x), SReal(1)));
        assume(le(re(x), SReal(100)));
        assume(le(sx::abs(im(x)), SReal(1)));
        SComplex z = tl::ladiv(x, y);
        Batch Q;
        Q.eq(z * y, x, "(x/y) y = x");
    });
    add_case("lapy2", o, [=] {
        SReal x = var("x"), y = var("y"), r = tl::lapy2(x, y);
        Batch Q;
        Q.add(ge(r, SReal(0)), "nonnegative");
        Q.eq(r * r, x * x + y * y, "square");
    });
    add_case("lapy3", o, [=] {
        SReal x = var("x"), y = var("y"), z = var("z"), r = tl::lapy3(x, y, z);
        Batch Q;
        Q.add(ge(r, SReal(0)), "nonnegative");
        Q.eq(r * r, x * x + y * y + z * z, "square");
    });
    for (idx n1 = 0; n1 <= 4; n1++)
        for (idx n2 = 0; n2 <= 4; n2++)
            for (int s = 0; s < 4; s++) {
                if (n1 + n2 > (thorough() ? 7 : 6)) continue;
                CaseOpts q;
                q.max_paths = 2000;
                add_case("lamrg_" + S(n1) + S(n2) + "_" + S(s), q, [=] {
                    idx n = n1 + n2;
                    Vec<SReal> a(n, 1);
                    a.in("a");
                    int d1 = s & 1 ? -1 : 1, d2 = s & 2 ? -1 : 1;
                    for (idx i = 0; i + 1 < n; i++) {
                        if (i + 1 == n1) continue;
                        int d = i < n1 ? d1 : d2;
                        assume(d > 0 ? le(a[i], a[i + 1]) : ge(a[i], a[i + 1]));
                    }
                    auto av = a.view();
                    vector<idx> ix(n + 1, 777);
                    tl::lamrg(n1, n2, av, d1, d2, ix);
                    vector<int> seen(n, 0);
                    bool ok = ix[n] == 777;
                    for (idx i = 0; i < n; i++) {
                        ok = ok && ix[i] < n;
                        if (!ok) break;
                        seen[ix[i]]++;
                    }
                    for (int x : seen) ok = ok && x == 1;
                    check_concrete(ok, "index is a permutation");
                    Batch Q;
                    for (idx i = 0; i + 1 < n; i++) Q.add(le(a[ix[i]], a[ix[i + 1]]), "merged list is sorted");
                });
            }
    for (char id : {'i', 'D'})
        for (idx n : {0, 1, 2, 3, 4, 5, 22, 23, 24}) {
            if (n > 22 && !thorough()) continue;
            for (int v = 0; v < (n > 5 ? 4 : 1); v++) {
                CaseOpts q;
                q.max_paths = 5000;
                q.case_s = 120;
                add_case(string("lasrt_") + id + "_" + S(n) + "_" + S(v), q, [=] {
                    Vec<SReal> d(n, 1);
                    d.in("d");
                    if (n > 5)
                        for (idx i = 0; i < n; i++) {
                            // two free entries among distinct and repeated constants
                            idx f1 = v == 0 ? 0 : v == 1 ? n / 2 : v == 2 ? n - 1 : 5;
                            if (i != f1 && i != (f1 + 7) % n) d[i] = SReal((long)((i * 7 + v) % (v == 3 ? 5 : n)));
                        }
                    auto d0 = d.d();
                    auto dv = d.view();
                    int info = tl::lasrt(id, n, dv);
                    check_concrete(info == 0 && d.padding_ok(), "info = 0");
                    Batch Q;
                    for (idx i = 0; i + 1 < n; i++) Q.add(id == 'i' ? le(d[i], d[i + 1]) : ge(d[i], d[i + 1]), "sorted");
                    Q.flush();
                    // entries are moved, never recomputed: the same terms in another order
                    vector<idx> used(n, 0);
                    bool ok = true;
                    for (idx i = 0; i < n && ok; i++) {
                        bool hit = false;
                        for (idx j = 0; j < n && !hit; j++)
                            if (!used[j] && (concrete_mode() ? d[i] == d0[j] : same(d[i], d0[j]))) { used[j] = 1; hit = true; }
                        ok = hit;
                    }
                    check_concrete(ok, "a permutation of the input");
                });
            }
        }
}
