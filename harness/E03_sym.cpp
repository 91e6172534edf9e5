// Implicit QR iterations for real symmetric tridiagonal and bidiagonal matrices.
#define SX_MAX_EXP 600
#include "hx.hpp"
#include <iostream>
#include <tlapack/base/constants.hpp>
#include <tlapack/blas/rotg.hpp>
#include <tlapack/blas/rot.hpp>
#include <tlapack/blas/swap.hpp>
using namespace sx;
// The shift does not matter for the invariants: it is chosen here such that the first
// rotation of the sweep is rational, and the second request for one ends the run (the
// state is then the one after a complete sweep).  The rotations are those of rotg
// (decided for the real code by property B01).
struct SweepDone {};
namespace shiftstub {
inline int& calls() { static int c = 0; return c; }
inline int& limit() { static int c = 1; return c; }
inline vector<SReal>*& d() { static vector<SReal>* p = 0; return p; }
inline vector<SReal>*& e() { static vector<SReal>* p = 0; return p; }
inline SReal& q() { static SReal v; return v; }  // steqr: first rotation of (q f, f); svd_qr: the shift
inline int& left() { static int c = 0; return c; }   // svd_qr: rotations left in the sweep (-1: not counted)
inline void block(size_t& lo, size_t& hi)
{
    auto& E = *e();
    hi = d()->size() - 1;
    while (hi > 1 && sx::same(E[hi - 1], SReal(0))) hi--;
    lo = hi;
    while (lo > 0 && !sx::same(E[lo - 1], SReal(0))) lo--;
}
inline void next() { if (++calls() > limit()) throw SweepDone(); }
inline void start(vector<SReal>& D, vector<SReal>& E, int lim, SReal v) { d() = &D; e() = &E; calls() = 0; limit() = lim; q() = v; left() = -1; }
}
namespace sx {
// (found by argument-dependent lookup, preferred to the templates)
inline SReal lapy2(const SReal& x, const SReal&)
{
    shiftstub::next();
    auto &d = *shiftstub::d(), &e = *shiftstub::e();
    size_t lo, hi;
    shiftstub::block(lo, hi);
    bool fwd = abs(d[lo]) > abs(d[hi]);
    // the code uses g = first - p + ec / (x +- r)
    SReal p = fwd ? d[hi] : d[lo], first = fwd ? d[lo] : d[hi], ec = fwd ? e[hi - 1] : e[lo], f = fwd ? e[lo] : e[hi - 1];
    SReal G = shiftstub::q() * f - first + p;   // = ec / (x +- r)
    if (G == SReal(0)) G = SReal(1);
    SReal K = ec / G;
    return x < SReal(0) ? x - K : K - x;
}
inline void singularvalues22(const SReal&, const SReal&, const SReal&, SReal& mn, SReal& mx)
{
    mn = shiftstub::q();
    mx = SReal(0);
}
inline void rotg(SReal& a, SReal& b, SReal& c, SReal& s)
{
    // a sweep of svd_qr begins before anything has been changed
    if (shiftstub::left() == 0) {
        shiftstub::next();
        size_t lo, hi;
        shiftstub::block(lo, hi);
        shiftstub::left() = 2 * (hi - lo);
    }
    if (shiftstub::left() > 0) shiftstub::left()--;
    SReal r2 = a * a + b * b;
    if (r2 > SReal(0)) {
        SReal r = sx::sqrt(r2);
        c = a / r; s = b / r;
        a = r;
    }
    else { c = SReal(1); s = SReal(0); }
    b = poison<SReal>();
}
}
#include <tlapack/lapack/steqr.hpp>
#include <tlapack/lapack/svd_qr.hpp>
#include <tlapack/lapack/lange.hpp>
#include <tlapack/lapack/gesvd.hpp>

template <class T> T zval(int i, int j, int s)
{
    T r = T(SReal((i * 3 + j * 5 + i * j + s) % 7 - 3));
    if constexpr (isC<T>) r += SComplex(SReal(0), SReal((i + 2 * j + s) % 5 - 2));
    return r;
}
template <class T> D<T> diag3(const vector<SReal>& d, const vector<SReal>& e, int kind)  // 0 tridiagonal 1 upper 2 lower bidiagonal
{
    idx n = d.size();
    D<T> r(n, n);
    for (idx i = 0; i < n; i++) {
        r(i, i) = T(d[i]);
        if (i + 1 < n && kind != 2) r(i, i + 1) = T(e[i]);
        if (i + 1 < n && kind != 1) r(i + 1, i) = T(e[i]);
    }
    return r;
}
static const int dv[4][5] = {{5, 2, 4, 1, 3}, {1, 3, -2, 2, 5}, {2, 4, 3, 1, -5}, {-4, 1, -3, 2, 2}};
static const int ev[4][5] = {{2, 4, 1, 3, 0}, {-2, 1, 2, 1, 0}, {1, 1, 3, 2, 0}, {3, -1, 2, 1, 0}};
static SReal rat(int a, int b) { return R(mk_rat(a, b)); }
// one entry of d, e is the parameter
static void parameter(vector<SReal>& d, vector<SReal>& e, int what, bool neg)
{
    if (what < 0) return;
    SReal t = var("t");
    assume(le(t, SReal(4)));
    assume(ge(t, neg ? SReal(-4) : rat(1, 4)));
    if (what < (int)d.size()) d[what] = t; else e[what - d.size()] = t;
}
template <class T>
void st(idx n, int fam, int what, bool wz, int split, int lim, int sh, bool neg)
{
    eps_exp() = -300;
    vector<SReal> d, e;
    for (idx i = 0; i < n; i++) d.push_back(SReal(dv[fam][i]));
    for (idx i = 0; i + 1 < n; i++) e.push_back(SReal(ev[fam][i]));
    parameter(d, e, what, neg);
    for (idx i = 0; i + 1 < n; i++) if ((split >> i) & 1) e[i] = SReal(0);
    static const int qn[] = {3, -4, 0, 5}, qd[] = {4, 3, 1, 12};
    SReal q = rat(qn[sh], qd[sh]);
    shiftstub::start(d, e, lim, q);
    auto d0 = d, e0 = e;
    Mat<T> Z(n, n);
    D<T> Z0(n, n);
    for (idx j = 0; j < n; j++) for (idx i = 0; i < n; i++) Z0(i, j) = zval<T>(i, j, fam);
    if (wz) Z.set(Z0);
    auto Zv = Z.view();
    bool done = false;
    int info = 0;
    try { info = tl::steqr(wz, d, e, Zv); } catch (const SweepDone&) { done = true; }
    check_concrete(Z.padding_ok() && d.size() == n && e.size() + 1 >= n, "storage around the operands");
    if (!done) {
        check_concrete(info == 0, "info");
        Batch B;
        for (idx i = 0; i + 1 < n; i++) { B.eq(e[i], SReal(0), "e = 0"); B.add(le(d[i], d[i + 1]), "ascending eigenvalues"); }
        B.flush();
    }
    Batch B;
    if (wz) eqm(B, Z.d() * diag3<T>(d, e, 0) * Z.d().h(), Z0 * diag3<T>(d0, e0, 0) * Z0.h(), "Z T Z^H is preserved");
    else {
        // the same d and e as with vectors
        check_concrete([&] { for (auto& x : Z.buf) if (!is_poison(x)) return false; return true; }(), "Z is not referenced");
        Mat<T> Z2(n, n);
        Z2.set(Z0);
        auto Z2v = Z2.view();
        auto d2 = d0, e2 = e0;
        shiftstub::start(d2, e2, lim, q);
        bool done2 = false;
        try { tl::steqr(true, d2, e2, Z2v); } catch (const SweepDone&) { done2 = true; }
        check_concrete(done == done2, "same course with and without vectors");
        eqv(B, d, d2, "d with and without vectors");
        eqv(B, e, e2, "e with and without vectors");
    }
    B.flush();
    if (wz) { Batch C; eqm(C, Z.d() * Z.d().h(), Z0 * Z0.h(), "orthogonal transformation"); }
}
template <class T>
void sv(idx n, Uplo u, int fam, int what, int split, int lim, int sh, int wuv, bool neg)
{
    eps_exp() = -300;
    vector<SReal> d, e;
    for (idx i = 0; i < n; i++) d.push_back(SReal(dv[fam][i]));
    for (idx i = 0; i + 1 < n; i++) e.push_back(SReal(ev[fam][i]));
    if (u == Uplo::Lower && n) {
        // rational first rotations
        d[0] = SReal(3);
        if (n > 1) e[0] = SReal(4);
        if (n > 2) { d[1] = SReal(5); e[1] = fam % 2 ? SReal(4) : rat(9, 4); }
    }
    else if (sh == 0) {
        d[0] = SReal(fam % 2 ? -3 : 3);
        if (n > 1) { e[0] = SReal(4); e[n - 2] = SReal(n == 2 ? 4 : 12); d[n - 1] = SReal(fam < 2 ? 5 : 9); }
    }
    else {
        d[0] = SReal(fam % 2 ? -5 : 5);
        if (n > 1) { e[0] = e[n - 2] = fam < 2 ? rat(12, 5) : rat(-12, 5); d[n - 1] = SReal(fam == 0 || fam == 3 ? 3 : 5); if (fam == 0) { e[n - 2] = SReal(2); } }
    }
    parameter(d, e, what, neg);
    for (idx i = 0; i + 1 < n; i++) if ((split >> i) & 1) e[i] = SReal(0);
    for (idx i = 0; i < n; i++) if ((split >> (8 + i)) & 1) d[i] = SReal(0);
    SReal q = sh == 0 ? SReal(0) : SReal(3);
    shiftstub::start(d, e, lim, q);
    auto d0 = d, e0 = e;
    idx mu = n + 1, nv = n + 1;  // U has more rows, Vt more columns than B
    Mat<T> U(mu, n), V(n, nv);
    D<T> U0(mu, n), V0(n, nv);
    for (idx j = 0; j < n; j++) for (idx i = 0; i < mu; i++) U0(i, j) = zval<T>(i, j, fam);
    for (idx j = 0; j < nv; j++) for (idx i = 0; i < n; i++) V0(i, j) = zval<T>(j, i, fam + 1);
    bool wu = wuv & 1, wv = wuv & 2;
    if (wu) U.set(U0);
    if (wv) V.set(V0);
    auto Uv = U.view(), Vv = V.view();
    bool done = false;
    int info = 0;
    shiftstub::left() = u == Uplo::Lower && n ? (int)n - 1 : 0;
    try { info = tl::svd_qr(u, wu, wv, d, e, Uv, Vv); } catch (const SweepDone&) { done = true; }
    check_concrete(U.padding_ok() && V.padding_ok(), "storage around the operands");
    if (!done) {
        check_concrete(info == 0, "info");
        Batch B;
        for (idx i = 0; i < n; i++) {
            B.add(ge(d[i], SReal(0)), "singular values are nonnegative");
            if (i + 1 < n) { B.eq(e[i], SReal(0), "e = 0"); B.add(ge(d[i], d[i + 1]), "descending singular values"); }
        }
        B.flush();
    }
    int k0 = u == Uplo::Upper ? 1 : 2;
    Batch B;
    if (wu && wv) {
        eqm(B, U.d() * diag3<T>(d, e, 1) * V.d(), U0 * diag3<T>(d0, e0, k0) * V0, "U B Vt is preserved");
        eqm(B, U.d() * U.d().h(), U0 * U0.h(), "orthogonal transformation of U");
        eqm(B, V.d().h() * V.d(), V0.h() * V0, "orthogonal transformation of Vt");
    }
    else {
        Mat<T> U2(mu, n), V2(n, nv);
        U2.set(U0); V2.set(V0);
        auto U2v = U2.view(), V2v = V2.view();
        auto d2 = d0, e2 = e0;
        shiftstub::start(d2, e2, lim, q);
        bool done2 = false;
        shiftstub::left() = u == Uplo::Lower && n ? (int)n - 1 : 0;
    try { tl::svd_qr(u, true, true, d2, e2, U2v, V2v); } catch (const SweepDone&) { done2 = true; }
        check_concrete(done == done2, "same course with and without vectors");
        eqv(B, d, d2, "d with and without vectors");
        eqv(B, e, e2, "e with and without vectors");
        if (wu) eqm(B, U.d(), U2.d(), "U without Vt");
        if (wv) eqm(B, V.d(), V2.d(), "Vt without U");
        auto clean = [](auto& M) { for (auto& x : M.buf) if (!is_poison(x)) return false; return true; };
        check_concrete((wu || clean(U)) && (wv || clean(V)), "U, Vt not wanted: not referenced");
    }
}
// diagonal matrices: the ordering, for all values
template <class T> void order_st(idx n, bool wz)
{
    vector<SReal> d, e(n ? n - 1 : 0, SReal(0));
    for (idx i = 0; i < n; i++) d.push_back(var("d" + S(i)));
    auto d0 = d;
    Mat<T> Z(n, n);
    if (wz) Z.in("z");
    auto Z0 = Z.d();
    auto Zv = Z.view();
    int info = tl::steqr(wz, d, e, Zv);
    check_concrete(info == 0 && Z.padding_ok(), "info, storage");
    Batch B;
    for (idx i = 0; i + 1 < n; i++) B.add(le(d[i], d[i + 1]), "ascending eigenvalues");
    // a permutation
    vector<char> used(n, 0);
    for (idx i = 0; i < n; i++) {
        bool f = false;
        for (idx j = 0; j < n && !f; j++)
            if (!used[j] && same(d[i], d0[j])) {
                f = true;
                bool z = true;
                if (wz) for (idx k = 0; k < n; k++) z = z && same(Z(k, i), Z0(k, j));
                check_concrete(z || concrete_mode(), "columns of Z follow the eigenvalues");
                used[j] = 1;
            }
        check_concrete(f || concrete_mode(), "the eigenvalues are the diagonal entries");
    }
}
template <class T> void order_sv(idx n, bool wu, bool wv)
{
    vector<SReal> d, e(n ? n - 1 : 0, SReal(0));
    for (idx i = 0; i < n; i++) d.push_back(var("d" + S(i)));
    auto d0 = d;
    Mat<T> U(n, n), V(n, n);
    if (wu) U.in("u");
    if (wv) V.in("v");
    auto U0 = U.d(), V0 = V.d();
    auto Uv = U.view(), Vv = V.view();
    int info = tl::svd_qr(Uplo::Upper, wu, wv, d, e, Uv, Vv);
    check_concrete(info == 0 && U.padding_ok() && V.padding_ok(), "info, storage");
    Batch B;
    for (idx i = 0; i < n; i++) {
        B.add(ge(d[i], SReal(0)), "singular values are nonnegative");
        if (i + 1 < n) B.add(ge(d[i], d[i + 1]), "descending singular values");
    }
    if (wu && wv) {
        D<T> a(n, n), b(n, n);
        for (idx i = 0; i < n; i++) { a(i, i) = T(d[i]); b(i, i) = T(d0[i]); }
        eqm(B, U.d() * a * V.d(), U0 * b * V0, "U S Vt is preserved");
    }
    else {
        // the same as with both
        vector<SReal> d2 = d0, e2(n ? n - 1 : 0, SReal(0));
        Mat<T> U2(n, n), V2(n, n);
        if (wu) U2.set(U0); else U2.in("u");
        if (wv) V2.set(V0); else V2.in("v");
        auto U2v = U2.view(), V2v = V2.view();
        tl::svd_qr(Uplo::Upper, true, true, d2, e2, U2v, V2v);
        eqv(B, d, d2, "d with and without vectors");
        if (wu) eqm(B, U.d(), U2.d(), "U without Vt");
        if (wv) eqm(B, V.d(), V2.d(), "Vt without U");
    }
}
void sx::register_all()
{
    covers("steqr,svd_qr,laev2,lae2,svd22,lartg,rot,swap,lasrt,iamax,scal");
    bounds("steqr: order 1..4, svd_qr: order 1..4 (lower bidiagonal 1..3): integer data with one real parameter in [1/4,4] or [-4,4] in any position of d or e, zeros at single positions of d or e, forward and backward sweeps with zero and nonzero shift, decided up to the end of the first sweep (2-by-2 blocks, deflation, sign and order to the end); ordering of diagonal input: every d of order 0..4; machine precision 2^-300, so that deflation is exact at the resolution of the check");
    assumption("any shift: the shift is chosen by the harness; rotations are those of rotg (B01); later sweeps start from a matrix of the same form");
    CaseOpts o;
    o.param = true;
    o.case_s = thorough() ? 120 : 4;
    bool th = thorough();
    if (!th) o.nra_ms = o.lin_ms = 800;
    for (int fam = 0; fam < 4; fam++)
        for (idx n = 1; n <= 4; n++)
            for (int w = 0; w < (int)(2 * n - 1); w++)
                for (int split = 0; split < 1 << (n - 1); split++)
                    for (int sh = 0; sh < 4; sh++) {
                        if (w >= (int)n && (split >> (w - n) & 1)) continue;
                        if (n <= 2 && sh) continue;
                        if (n == 3 && split && sh) continue;
                        if (n == 4 && (sh != fam || (split & (split << 1)))) continue;
                        if (n == 3 && !th && fam > 1 && sh != fam) continue;
                        if (n == 4 && !th && ((w + fam) % 3 || split == 2)) continue;
                        if (n == 3 && !th && fam > 1 && (w + fam) % 2) continue;
                        string s = S(n) + "_f" + S(fam) + "_w" + S(w) + "_s" + S(split) + "_h" + S(sh);
                        bool neg = w < (int)n && fam % 2;
                        add_case("steqr_r_" + s, o, [=] { st<SReal>(n, fam, w, true, split, 1, sh, neg); });
                        if (th || (w + fam) % 3 == 1) add_case("steqr_c_" + s, o, [=] { st<SComplex>(n, fam, w, true, split, 1, sh, neg); });
                        if (th || (w + fam) % 3 == 2) add_case("steqr_nz_" + s, o, [=] { st<SReal>(n, fam, w, false, split, 1, sh, neg); });
                    }
    for (auto u : {Uplo::Upper, Uplo::Lower})
        for (int fam = 0; fam < 4; fam++)
            for (idx n = 1; n <= (u == Uplo::Upper ? 4 : 3); n++)
                for (int w = 0; w < (int)(2 * n - 1); w++)
                    for (int split : {0, 1, 2, 4, 0x100, 0x200, 0x400, 0x800}) {
                        if ((split & 255) >> (n - 1) || (split >> 8) >> n) continue;
                        if (w < (int)n ? (split >> (8 + w) & 1) : (split >> (w - n) & 1)) continue;
                        for (int sh = 0; sh < 2; sh++) {
                            if (n <= 2 && sh) continue;
                            if (u == Uplo::Lower && sh) continue;
                            if (n == 4 && !th && (fam > 1 || sh != fam % 2 || (w + fam) % 3 || split & 0x500)) continue;
                            if (n == 3 && !th && (w + fam + sh + (split & 7) + (split >> 8)) % (fam > 1 ? 4 : 2)) continue;
                            string s = string(u == Uplo::Upper ? "U" : "L") + S(n) + "_f" + S(fam) + "_w" + S(w) + "_s" + S(split) + "_h" + S(sh);
                            bool neg = w < (int)n && fam % 2;
                            if (n < 3 || th || fam % 2 == 0) add_case("svdqr_r_" + s, o, [=] { sv<SReal>(n, u, fam, w, split, 1, sh, 3, neg); });
                            if (th || (w + fam) % 3 == 1) add_case("svdqr_c_" + s, o, [=] { sv<SComplex>(n, u, fam, w, split, 1, sh, 3, neg); });
                            if (th || (w + fam) % 3 == 2) for (int wuv = 0; wuv < 3; wuv++) if (th || wuv == (w + split + n) % 3) add_case("svdqr_n" + S(wuv) + "_" + s, o, [=] { sv<SReal>(n, u, fam, w, split, 1, sh, wuv, neg); });
                        }
                    }
    CaseOpts q;
    if (!th) q.case_s = 5;
    for (idx n = 0; n <= 4; n++)
        for (int w = 0; w < 2; w++) {
            if (n >= 1) {
                add_case("steqr_order_r" + S(n) + S(w), q, [=] { order_st<SReal>(n, w); });
                if (n <= 3) add_case("steqr_order_c" + S(n) + S(w), q, [=] { order_st<SComplex>(n, w); });
            }
            for (int v = 0; v < 2; v++) {
                if (n == 4 && !th) continue;
                add_case("svdqr_order_r" + S(n) + S(w) + S(v), q, [=] { order_sv<SReal>(n, w, v); });
                if (n <= 3) add_case("svdqr_order_c" + S(n) + S(w) + S(v), q, [=] { order_sv<SComplex>(n, w, v); });
            }
        }
}
