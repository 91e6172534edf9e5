// Bunch-Kaufman factorization of symmetric and Hermitian matrices.
#include "hx.hpp"
#include <tlapack/lapack/hetrf.hpp>
using namespace sx;

// which entries are big (pairs/diagonal), for the larger orders
typedef vector<int> Pat;  // p[i]==i: dominant diagonal; p[i]=j: big off-diagonal entry (i,j)
template <class T, Layout L>
void bk(Uplo u, bool herm, idx n, idx nb, const Pat* pat, bool growth, unsigned symmask, const D<T>* given = 0)
{
    Mat<T, L> A(n, n);
    if (given) {
        for (idx j = 0; j < n; j++)
            for (idx i = 0; i < n; i++)
                if (u == Uplo::Upper ? i <= j : i >= j) A(i, j) = (*given)(i, j);
        symmask = ~0u;
    }
    else A.in_tri("a", u, Diag::NonUnit, herm);
    if (pat)
        for (idx j = 0; j < n; j++)
            for (idx i = 0; i < n; i++) {
                if (u == Uplo::Upper ? i > j : i < j) continue;
                bool big = (i == j) ? (*pat)[i] == (int)i : ((*pat)[i] == (int)j);
                SReal x = re(A(i, j)), y = im(A(i, j));
                if (symmask != ~0u && !((symmask >> (i * n + j)) & 1)) {
                    long h = (long)((i * 7 + j * 7 + i * j * 5 + 3) % 11) - 5;
                    A(i, j) = T(SReal(big ? 9 : 0) + SReal(h) / SReal(64));
                    if constexpr (isC<T>) if (!(herm && i == j)) A(i, j) += SComplex(SReal(0), SReal((long)((i * 3 + j * 3 + 1) % 5) - 2) / SReal(32));
                    continue;
                }
                if (big) { assume(ge(x, SReal(9))); assume(le(x, SReal(10))); }
                else { assume(le(x, SReal(0.0625))); assume(ge(x, SReal(-0.0625))); }
                if (isC<T> && !(herm && i == j)) { assume(le(y, SReal(0.0625))); assume(ge(y, SReal(-0.0625))); }
            }
    if (!pat && symmask != ~0u)
        for (idx j = 0; j < n; j++)
            for (idx i = 0; i < n; i++) {
                if (u == Uplo::Upper ? i > j : i < j) continue;
                idx k = std::min(i, j) * n + std::max(i, j);
                if ((symmask >> (i * n + j)) & 1) continue;
                static const int val[] = {1, 0, -2, 3, 1, -1, 4, 0, 2};
                A(i, j) = T(SReal(val[(k * 2 + symmask % 7) % 9]));
            }
    auto A0 = A.d();
    D<T> full = symfull(A0, u, herm);
    vector<int> piv(n + 2, -7777);
    tl::LegacyVector<int, idx, idx> pv(n, piv.data() + 1);
    auto Av = A.view();
    tl::HetrfOpts o;
    o.nb = nb;
    o.invariant = herm ? Op::ConjTrans : Op::Trans;
    int info = tl::hetrf(u, Av, pv, o);
    check_concrete(A.padding_ok() && piv[0] == -7777 && piv[n + 1] == -7777, "storage outside A and ipiv");
    auto F_ = A.d();
    {
        bool ok = true;
        each_tri_unref(A0, F_, u, [&](idx i, idx j) { ok = ok && is_poison(F_(i, j)); });
        check_concrete(ok, "the other triangle is not referenced");
    }
    check_concrete(info >= 0 && info <= (int)n, "info in 0..n");
    // blocks
    struct Blk { idx i; int k; idx s; int p; };  // first row, size, swapped row, partner
    vector<Blk> bl;
    bool ok = true;
    for (idx q = 0; q < n && ok;) {
        idx i = u == Uplo::Upper ? n - 1 - q : q;
        int p = pv[i];
        if (p >= 0) {
            ok = u == Uplo::Upper ? p <= (int)i : (p >= (int)i && p < (int)n);
            bl.push_back({i, 1, i, p});
            q++;
        }
        else {
            idx o2 = u == Uplo::Upper ? i - 1 : i + 1;
            ok = q + 1 < n && pv[o2] == p;
            p = -p - 1;
            ok = ok && (u == Uplo::Upper ? p <= (int)o2 : (p >= (int)o2 && p < (int)n));
            bl.push_back({u == Uplo::Upper ? i - 1 : i, 2, o2, p});
            q += 2;
        }
    }
    check_concrete(ok, "ipiv describes interchanges within the matrix and 2-by-2 blocks");
    if (!ok) return;
    D<T> M(n, n);
    vector<char> in2(n, 0);
    for (auto& b : bl) {
        M(b.i, b.i) = herm ? T(re(F_(b.i, b.i))) : F_(b.i, b.i);
        if (b.k == 2) {
            T e = u == Uplo::Upper ? F_(b.i, b.i + 1) : F_(b.i + 1, b.i);
            T c = herm ? cj(e) : e;
            M(b.i + 1, b.i + 1) = herm ? T(re(F_(b.i + 1, b.i + 1))) : F_(b.i + 1, b.i + 1);
            M(b.i, b.i + 1) = u == Uplo::Upper ? e : c;
            M(b.i + 1, b.i) = u == Uplo::Upper ? c : e;
            in2[b.i] = in2[b.i + 1] = 1;
        }
    }
    D<T> Dg = M;
    Batch B;
    if (herm) for (idx i = 0; i < n; i++) B.eq(im(F_(i, i)), SReal(0), "diagonal of D is real");
    // info: the diagonal entry of a 1-by-1 block is zero
    if (info) {
        check_concrete(!in2[info - 1], "info names a 1-by-1 block");
        B.eq(Dg(info - 1, info - 1), T(0), "D(info-1,info-1) = 0");
    }
    else
        for (auto& b : bl)
            if (b.k == 1) B.add(f_not(eq(Dg(b.i, b.i), T(0))), "info = 0: no 1-by-1 block is zero");
    for (size_t q = bl.size(); q-- > 0;) {
        auto& b = bl[q];
        D<T> Li = D<T>::eye(n);
        for (idx c = b.i; c < b.i + b.k; c++)
            for (idx k = (u == Uplo::Upper ? 0 : b.i + b.k); k < (u == Uplo::Upper ? b.i : n); k++) Li(k, c) = F_(k, c);
        M = Li * M * (herm ? Li.h() : Li.t());
        if ((int)b.s != b.p) {
            for (idx j = 0; j < n; j++) std::swap(M(b.s, j), M(b.p, j));
            for (idx j = 0; j < n; j++) std::swap(M(j, b.s), M(j, b.p));
        }
    }
    eqm(B, M, full, "A = (prod P L) D (prod P L)^op");
    B.flush();
    if (growth && !(isC<T> && !herm) && n >= 2) {
        // element growth of diagonal pivoting: (1+1/alpha)^(n-1) < 2.57^(n-1)
        SReal mx = SReal(0);
        for (auto& x : full.v) { SReal y = a1(x); if (y > mx) mx = y; }
        SReal bd = (n == 2 ? SReal(2.625) : n == 3 ? SReal(6.75) : n == 4 ? SReal(17) : SReal(44)) * SReal(isC<T> ? 2 : 1);
        for (auto& b : bl)
            for (idx i = b.i; i < b.i + b.k; i++)
                for (idx j = b.i; j < b.i + b.k; j++) check(le(a1(Dg(i, j)), bd * mx), "element growth of D is bounded");
    }
}
void sx::register_all()
{
    covers("hetrf,hetrf_blocked,hetf3,gemv,her2k,syr2k,swap,rscl,iamax,copy");
    bounds("Bunch-Kaufman: every symmetric/Hermitian matrix of order 0..2 (all pivot choices, singular ones included), block sizes 2, 3, 4 and 32; orders 3..5 for each pattern of 1-by-1 and 2-by-2 pivots, with one or two entries symbolic; order 3 with any two entries symbolic; element growth: orders 3 to 5, one entry in [1/4, 4096] next to a small pivot column; thorough: order 3 fully symbolic");
    assumption("block size nb >= 2 (documented 2-by-2 pivots need two columns)");
    CaseOpts o;
    o.strict_div = true;
    o.case_s = thorough() ? 120 : 9;
    o.max_paths = 4000;
    o.nra_ms = 5000;
    for (auto u : {Uplo::Upper, Uplo::Lower}) {
        for (idx n = 0; n <= 3; n++)
            for (idx nb : {2, 3, 32}) {
                if (nb > 2 && n < 3) continue;
                if (nb > 3 && n > 2) continue;
                if (n == 3 && !thorough()) continue;
                string s = nm(u) + "_" + S(n) + "_nb" + S(nb);
                CaseOpts p = o;
                if (n == 3) { p.case_s = 600; p.max_paths = 40000; }
                add_case("hetrf_r_col" + s, p, [=] { bk<SReal, Layout::ColMajor>(u, false, n, nb, 0, n <= 2, ~0u); });
                if (n <= 2) {
                    add_case("hetrf_r_row" + s, o, [=] { bk<SReal, Layout::RowMajor>(u, true, n, nb, 0, true, ~0u); });
                    add_case("hetrf_c_sym" + s, o, [=] { bk<SComplex, Layout::ColMajor>(u, false, n, nb, 0, false, ~0u); });
                    add_case("hetrf_c_her" + s, o, [=] { bk<SComplex, Layout::ColMajor>(u, true, n, nb, 0, false, ~0u); });
                }
            }
        // order 3, two entries range over all values
        for (int a = 0; a < 6; a++)
            for (int b = a; b < 6; b++)
                for (idx nb : {2, 3}) {
                    if (nb == 3 && (a + b) % 3) continue;
                    if (nb == 2 && (a + b) % 2 && !thorough()) continue;
                    static const int up[] = {0, 1, 2, 4, 5, 8}, lo[] = {0, 3, 6, 4, 7, 8};
                    unsigned m = (1u << (u == Uplo::Upper ? up : lo)[a]) | (1u << (u == Uplo::Upper ? up : lo)[b]);
                    string s = nm(u) + "_3_nb" + S(nb) + "_e" + S(a) + S(b);
                    add_case("hetrf_r2_" + s, o, [=] { bk<SReal, Layout::ColMajor>(u, false, 3, nb, 0, true, m); });
                }
        // the pivot choice bounds the growth of the elements: the entry (i,k) of one row ranges
        // over [1/4, 4096] while column c is small except in row i
        for (idx n = 3; n <= 5; n++)
            for (idx nb : {2, 3, 32})
                for (idx c = 0; c < n; c++)
                    for (idx i = 0; i < n; i++)
                        for (idx k = 0; k < n; k++)
                            for (int kind = 0; kind < 3; kind++) {
                                if (i == c || k == c || k == i) continue;
                                if (nb == 32 && n > 3 && !thorough()) continue;
                                if (n == 5 && nb != 3 && !thorough()) continue;
                                if (n > 3 && kind && !thorough()) continue;
                                if (c != (u == Uplo::Upper ? n - 1 : 0) && n > 4 && !thorough()) continue;
                                auto fam = [=](auto type) {
                                    typedef decltype(type) T;
                                    D<T> M(n, n);
                                    SReal t = var("t");
                                    assume(ge(t, SReal(0.25)));
                                    assume(le(t, SReal(4096)));
                                    for (idx q = 0; q < n; q++)
                                        for (idx r = 0; r <= q; r++) {
                                            T x = T(SReal((int)((q * 3 + r * 5) % 7) - 3) / SReal(8));
                                            if (q == r) x = q == c ? T(SReal(1) / SReal(1024)) : q == i ? T(SReal(0.75)) : T(SReal(1));
                                            else {
                                                if (q == c || r == c) x = T(SReal((q == i || r == i) ? SReal(1) : SReal(0.125)));
                                                if ((q == i && r == k) || (q == k && r == i)) x = T(t);
                                                if constexpr (isC<T>) x *= SComplex(SReal(0.6), SReal(0.8));
                                            }
                                            M(r, q) = x;
                                            M(q, r) = kind == 2 ? cj(x) : x;
                                        }
                                    return M;
                                };
                                CaseOpts p = o;
                                p.param = true;
                                string s = nm(u) + "_" + S(n) + "_nb" + S(nb) + "_" + S(c) + S(i) + S(k);
                                if (kind == 0) add_case("hetrf_grow_r_" + s, p, [=] { auto M = fam(SReal()); bk<SReal, Layout::ColMajor>(u, false, n, nb, 0, true, ~0u, &M); });
                                if (kind == 1) add_case("hetrf_grow_cs_" + s, p, [=] { auto M = fam(SComplex()); bk<SComplex, Layout::ColMajor>(u, false, n, nb, 0, false, ~0u, &M); });
                                if (kind == 2) add_case("hetrf_grow_ch_" + s, p, [=] { auto M = fam(SComplex()); bk<SComplex, Layout::RowMajor>(u, true, n, nb, 0, true, ~0u, &M); });
                            }
        for (idx n = 3; n <= (5); n++) {
            // every involution: dominant diagonal entries and dominant pairs
            vector<Pat> ps;
            Pat p(n, -1);
            std::function<void()> go = [&] {
                idx i = 0;
                while (i < n && p[i] >= 0) i++;
                if (i == n) { ps.push_back(p); return; }
                p[i] = i; go(); p[i] = -1;
                for (idx j = i + 1; j < n; j++)
                    if (p[j] < 0) { p[i] = j; p[j] = i; go(); p[i] = p[j] = -1; }
            };
            go();
            for (size_t q = 0; q < ps.size(); q++)
                for (idx nb : {2, 3, 4}) {
                    if (nb > n) continue;
                    if (n == 5 && (q + nb) % 3) continue;
                    for (int t = 0; t < 3; t++) {
                        if (n >= 4 && !thorough() && t != (int)((q + nb) % 3)) continue;
                        Pat pt = ps[q];
                        // a few entries stay symbolic
                        unsigned m = 0;
                        for (int c = 0; c < (t ? 1 : 2); c++) {
                            idx i = (c * 2 + q + nb) % n, j = (c + 1 + q / 2) % n;
                            if (u == Uplo::Upper ? i > j : i < j) std::swap(i, j);
                            m |= 1u << (i * n + j);
                        }
                        string s = nm(u) + "_" + S(n) + "_nb" + S(nb) + "_p" + S(q);
                        if (t == 0) add_case("hetrf_pat_r_" + s, o, [=] { bk<SReal, Layout::ColMajor>(u, false, n, nb, &pt, n <= 3, n == 3 ? m : m); });
                        if (t == 1) add_case("hetrf_pat_cs_" + s, o, [=] { bk<SComplex, Layout::ColMajor>(u, false, n, nb, &pt, false, m); });
                        if (t == 2) add_case("hetrf_pat_ch_" + s, o, [=] { bk<SComplex, Layout::RowMajor>(u, true, n, nb, &pt, false, m); });
                    }
                }
        }
    }
}
