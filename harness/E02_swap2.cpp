// schur_swap and schur_move with 2-by-2 blocks: one-parameter families.
#include "hx.hpp"
#include <iostream>
#include <tlapack/base/constants.hpp>
#include <tlapack/blas/rotg.hpp>
#include <tlapack/blas/rot.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/lapack/larfg.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/lange.hpp>
#include <tlapack/lapack/lasy2.hpp>
using namespace sx;
// The standardisation of a 2-by-2 block (decided for the real code by E01) is replaced by an
// arbitrary rotation; the blocks it returned are recorded.
namespace stub22 {
struct B4 { SReal a, b, c, d; };
inline vector<B4>& log() { static vector<B4> v; return v; }
inline int& n() { static int k = 0; return k; }
}
namespace sx {
inline void lahqr_schur22(SReal& a, SReal& b, SReal& c, SReal& d, SComplex& s1, SComplex& s2, SReal& cs, SReal& sn)
{
    int k = stub22::n()++;
    cs = R(mk_rat(k % 2 ? 5 : 3, k % 2 ? 13 : 5));
    sn = R(mk_rat(k % 2 ? -12 : 4, k % 2 ? 13 : 5));
    SReal p = cs * a + sn * c, q = cs * b + sn * d, r = cs * c - sn * a, s = cs * d - sn * b;
    a = p * cs + q * sn; b = q * cs - p * sn;
    c = r * cs + s * sn; d = s * cs - r * sn;
    s1 = s2 = poison<SComplex>();
    stub22::log().push_back({a, b, c, d});
}
}
#include <tlapack/lapack/lahqr_schur22.hpp>
#include <tlapack/lapack/schur_swap.hpp>
#include <tlapack/lapack/schur_move.hpp>
typedef vector<int> Blk;  // block sizes
static SReal rat(int a, int b) { return R(mk_rat(a, b)); }
static CaseOpts co()
{
    CaseOpts o;
    o.param = true;
    o.max_paths = 200;
    o.case_s = thorough() ? 200 : 30;
    return o;
}
static SReal par(SReal lo = SReal(-4), SReal hi = SReal(4))
{
    SReal t = var("t");
    assume(ge(t, lo));
    assume(le(t, hi));
    return t;
}
// A: the pair of blocks n1, n2 at j0; `what` is the place of the parameter
static void fill(D<SReal>& A, idx j0, int n1, int n2, int fam, int what)
{
    idx n = A.m;
    for (idx j = 0; j < n; j++)
        for (idx i = 0; i < n; i++) A(i, j) = SReal(i < j ? (int)((i * 3 + j * 5 + fam) % 7) - 3 : 0);
    for (idx i = 0; i < n; i++) A(i, i) = SReal((int)(i * 3 + fam) % 5 - 2);
    // norms of the first columns of B: Pythagorean quadruples
    static const int P[3][3] = {{2, 1, -2}, {2, 3, -6}, {-4, 4, -7}};
    const int* p = P[fam];
    idx a = j0, b = j0 + 1, c = j0 + 2, d = j0 + 3;
    SReal t = par();
    if (n1 == 1 && n2 == 2) {
        A(a, b) = SReal(p[0]);
        A(b, b) = A(a, a) + SReal(p[1]);
        A(c, b) = SReal(p[2]);
        A(b, c) = SReal(fam + 1); A(c, c) = A(b, b);
        if (what == 0) A(a, c) = t;
        if (what == 1) A(b, c) = t;
        if (what == 2) A(c, c) = t;
    }
    if (n1 == 2 && n2 == 1) {
        A(b, c) = SReal(p[0]);
        A(b, b) = A(c, c) + SReal(p[1]);
        A(b, a) = SReal(p[2]);
        A(a, b) = SReal(fam + 2); A(a, a) = A(b, b);
        if (what == 0) A(a, c) = t;
        if (what == 1) A(a, b) = t;
        if (what == 2) A(a, a) = t;
    }
    if (n1 == 2 && n2 == 2) {
        // coupling TL X - X TR with first column (x0, x1, -1, 0) of rational norm
        static const int X0[3][2] = {{2, 2}, {-4, 8}, {2, -2}};
        D<SReal> X(2, 2), TL(2, 2), TR(2, 2);
        X(0, 0) = SReal(X0[fam][0]); X(1, 0) = SReal(X0[fam][1]);
        X(0, 1) = SReal(fam == 1 ? 8 : 2); X(1, 1) = SReal(fam == 1 ? 4 : fam ? 2 : -2);   // rational norm, too
        TL(0, 0) = TL(1, 1) = SReal(1); TL(0, 1) = SReal(2 + fam); TL(1, 0) = SReal(-1);
        TR(0, 0) = TR(1, 1) = SReal(fam == 1 ? 1 : -2); TR(0, 1) = SReal(fam == 1 ? 6 : 1); TR(1, 0) = SReal(fam == 1 ? -1 : -2);
        if (what == 0) X(1, 1) = t;
        if (what == 1) TL(0, 1) = t;
        if (what == 2) TR(1, 0) = t;
        if (what >= 4) {  // one block is triangular: swapped in two steps
            if (what == 4) { TR(1, 0) = SReal(0); TR(0, 0) = SReal(-1); TR(1, 1) = SReal(2); }
            else { TL(1, 0) = SReal(0); TL(0, 0) = SReal(2); }
        }
        D<SReal> C = TL * X - X * TR;
        for (idx i = 0; i < 2; i++)
            for (idx j = 0; j < 2; j++) { A(a + i, a + j) = TL(i, j); A(c + i, c + j) = TR(i, j); A(a + i, c + j) = C(i, j); }
        if (what == 1) assume(ge(t, rat(1, 2)));
        if (what == 2) assume(le(t, rat(-3, 2)));
        if (fam == 1 && what == 1) assume(le(t, SReal(5)));   // eigenvalues of TR: 1 +- i sqrt 6
    }
    if (what >= 4) {  // rational norm in the first step
        A(b, c) = SReal(p[0]);
        if (what == 4) { A(b, b) = A(c, c) + SReal(p[1]); A(b, a) = SReal(p[2]); A(a, a) = A(b, b); }
        else { A(c, c) = A(b, b) + SReal(p[1]); A(d, c) = SReal(p[2]); A(d, d) = A(c, c); }
    }
    if (what >= 3) A(0, n - 1) = t;
}
template <Layout L>
static void verify(Mat<SReal, L>& A, Mat<SReal, L>& Q, const D<SReal>& A0, const Blk& b, const vector<int>& perm, bool wq, bool std22)
{
    idx n = A.n;
    auto A1 = A.d(), W = Q.d();
    check_concrete(A.padding_ok() && Q.padding_ok(), "storage around the operands");
    Batch B;
    vector<idx> st(b.size(), 0);
    for (size_t k = 1; k < b.size(); k++) st[k] = st[k - 1] + b[k - 1];
    vector<char> sub(n, 0);
    idx i = 0;
    for (size_t k = 0; k < b.size(); k++) {
        idx o = st[perm[k]];
        if (b[perm[k]] == 1) B.eq(A1(i, i), A0(o, o), "1-by-1 block " + S(i) + S(o));
        else {
            B.eq(A1(i, i) + A1(i + 1, i + 1), A0(o, o) + A0(o + 1, o + 1), "trace of the block");
            B.eq(A1(i, i) * A1(i + 1, i + 1) - A1(i, i + 1) * A1(i + 1, i), A0(o, o) * A0(o + 1, o + 1) - A0(o, o + 1) * A0(o + 1, o), "determinant of the block");
            sub[i] = 1;
            if (std22 && perm[k] != (int)k) {
                bool found = false;
                for (auto& g : stub22::log()) found = found || (same(g.a, A1(i, i)) && same(g.b, A1(i, i + 1)) && same(g.c, A1(i + 1, i)) && same(g.d, A1(i + 1, i + 1)));
                check_concrete(found, "a moved 2-by-2 block is standardised");
            }
        }
        i += b[perm[k]];
    }
    for (idx j = 0; j < n; j++)
        for (idx r = j + 1; r < n; r++)
            if (!(r == j + 1 && sub[j])) B.eq(A1(r, j), SReal(0), "block triangular");
    if (wq) {
        eqm(B, W.h() * W, D<SReal>::eye(n), "Q^T Q");
        eqm(B, A0 * W, W * A1, "A Q = Q A'");
    }
    else {
        B.flush();
        check_concrete([&] { for (auto& x : Q.buf) if (!is_poison(x)) return false; return true; }(), "Q is not referenced");
    }
    B.flush();
}
template <Layout L>
static void reg()
{
    const string t = nm(L);
    static const struct { Blk b; int k; } SW[] = {{{1, 2}, 0}, {{2, 1}, 0}, {{2, 2}, 0}, {{1, 1, 2}, 1}, {{1, 2, 1}, 0}, {{1, 2, 1}, 1}, {{2, 1, 1}, 0}, {{1, 2, 2}, 1}, {{2, 2, 1}, 0}, {{1, 1, 2, 1}, 1}, {{1, 2, 1, 1}, 1}, {{1, 2, 2, 1}, 1}};
    for (int c = 0; c < 12; c++)
        for (int fam = 0; fam < 3; fam++)
            for (int what = 0; what < 6; what++)
                for (int wq = 0; wq < 2; wq++) {
                    auto sw = SW[c];
                    idx n = 0, j0 = 0;
                    int n1 = sw.b[sw.k], n2 = sw.b[sw.k + 1];
                    for (size_t k = 0; k < sw.b.size(); k++) { if ((int)k < sw.k) j0 += sw.b[k]; n += sw.b[k]; }
                    if (L == Layout::RowMajor && (n > 4 || fam)) continue;
                    if (!wq && (fam || what == 3)) continue;
                    if (!thorough() && n1 + n2 == 4 && n > 4 && what < 3 && (fam || what == 1)) continue;
                    if (what >= 3 && n == idx(n1 + n2)) continue;
                    if (what > 3 && n1 + n2 < 4) continue;
                    add_case("swap2_" + t + S(c) + "_" + S(fam) + S(what) + S(wq), co(), [=] {
                        stub22::log().clear();
                        stub22::n() = 0;
                        Mat<SReal, L> A(n, n), Q(n, n);
                        D<SReal> A0(n, n);
                        fill(A0, j0, n1, n2, fam, what);
                        // other 2-by-2 blocks (none in these patterns next to the pair, except single rows)
                        A.set(A0);
                        if (wq) Q.set(D<SReal>::eye(n));
                        auto Av = A.view(), Qv = Q.view();
                        int info = tl::schur_swap((bool)wq, Av, Qv, j0, (idx)n1, (idx)n2);
                        check_concrete(info == 0, "info");
                        vector<int> p(sw.b.size());
                        for (size_t k = 0; k < p.size(); k++) p[k] = k;
                        std::swap(p[sw.k], p[sw.k + 1]);
                        auto bl = sw.b;
                        if (what > 3) {  // the triangular block is two blocks
                            size_t k = what == 4 ? sw.k + 1 : sw.k;
                            bl[k] = 1;
                            bl.insert(bl.begin() + k, 1);
                            p.clear();
                            for (size_t i = 0; i < bl.size(); i++) p.push_back(i);
                            if (what == 4) { p[sw.k] = sw.k + 1; p[sw.k + 1] = sw.k + 2; p[sw.k + 2] = sw.k; }
                            else { p[sw.k] = sw.k + 2; p[sw.k + 1] = sw.k; p[sw.k + 2] = sw.k + 1; }
                        }
                        verify(A, Q, A0, bl, p, wq, true);
                        if (!wq) {
                            Mat<SReal, L> A2(n, n), Q2(n, n);
                            A2.set(A0);
                            Q2.set(D<SReal>::eye(n));
                            auto A2v = A2.view(), Q2v = Q2.view();
                            stub22::n() = 0;
                            tl::schur_swap(true, A2v, Q2v, j0, (idx)n1, (idx)n2);
                            Batch B;
                            eqm(B, A.d(), A2.d(), "A does not depend on want_q");
                        }
                    });
                }
}
void sx::register_all()
{
    covers("schur_swap,schur_move,lasy2,larfg");
    bounds("schur_swap with 2-by-2 blocks, alone and inside matrices of order up to 6: three rational families with one symbolic entry in [-4,4] (coupling, entry of a block, entry outside; also with one triangular 2-by-2 block)");
    reg<Layout::ColMajor>();
    reg<Layout::RowMajor>();
}
