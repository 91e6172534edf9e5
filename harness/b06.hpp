// BLAS interface checks shared by the legacy API and the C and CBLAS wrappers.
#ifndef B06_HPP
#define B06_HPP
#include "hx.hpp"
#include <tlapack/legacy_api/blas.hpp>
using namespace sx;
static const long INCS[] = {1, 2, -1, -2};
static const Uplo UL[] = {Uplo::Upper, Uplo::Lower};
static const Op OP3[] = {Op::NoTrans, Op::Trans, Op::ConjTrans};
static const Layout LY[] = {Layout::ColMajor, Layout::RowMajor};
// m-by-n matrix in caller's memory, layout known at run time
template <class T>
struct RM {
    idx m, n, ld, g = 2;
    Layout L;
    vector<T> buf;
    RM(Layout l, idx m_, idx n_, idx pad = 1) : m(m_), n(n_), ld(std::max<idx>(1, l == Layout::ColMajor ? m_ : n_) + pad), L(l)
    {
        buf.assign(2 * g + ld * (L == Layout::ColMajor ? n : m), poison<T>());
    }
    size_t at(idx i, idx j) const { return g + (L == Layout::ColMajor ? i + j * ld : j + i * ld); }
    T& operator()(idx i, idx j) { return buf[at(i, j)]; }
    const T& operator()(idx i, idx j) const { return buf[at(i, j)]; }
    T* ptr() { return buf.data() + g; }
    RM& in(const string& nm, Uplo u = Uplo::General, Diag d = Diag::NonUnit)
    {
        for (idx j = 0; j < n; j++)
            for (idx i = 0; i < m; i++) {
                if (i == j && d == Diag::Unit) continue;
                if (u == Uplo::General || (u == Uplo::Upper ? i <= j : i >= j)) (*this)(i, j) = input<T>(nm + S(i) + "_" + S(j));
            }
        return *this;
    }
    D<T> d() const
    {
        D<T> r(m, n);
        for (idx j = 0; j < n; j++)
            for (idx i = 0; i < m; i++) r(i, j) = (*this)(i, j);
        return r;
    }
    bool padding_ok() const
    {
        vector<char> inm(buf.size(), 0);
        for (idx j = 0; j < n; j++)
            for (idx i = 0; i < m; i++) inm[at(i, j)] = 1;
        for (size_t k = 0; k < buf.size(); k++)
            if (!inm[k] && !is_poison(buf[k])) return false;
        return true;
    }
};
template <class T>
D<T> colv(const vector<T>& x)
{
    D<T> r(x.size(), 1);
    r.v = x;
    return r;
}
template <class T>
bool vsame(const Vec<T>& x, const vector<T>& x0)
{
    for (idx i = 0; i < x.n; i++)
        if (concrete_mode() ? !(x[i] == x0[i]) : !same(x[i], x0[i])) return false;
    return x.padding_ok();
}
enum { ZERO_, ONE_, SYM_ };
template <class T>
T scal_in(const string& n, int k)
{
    return k == ZERO_ ? T(0) : k == ONE_ ? T(1) : input<T>(n);
}
// C, what the routine left there: plus + beta * C0 in the triangle u, nothing else touched
template <class T>
void expect(RM<T>& C, const D<T>& C0, const D<T>& plus, T be, int bk, Uplo u, bool herm)
{
    Batch B;
    bool ok = C.padding_ok();
    for (idx j = 0; j < C.n; j++)
        for (idx i = 0; i < C.m; i++) {
            if (u == Uplo::Upper ? i > j : u == Uplo::Lower && i < j) { ok = ok && is_poison(C(i, j)); continue; }
            T x = plus(i, j);
            if (bk != ZERO_) x = x + be * (herm && i == j ? T(re(C0(i, j))) : C0(i, j));
            if (herm && i == j) B.eq(re(C(i, j)), re(x), "C(" + S(i) + "," + S(i) + ")");
            else B.eq(C(i, j), x, "C(" + S(i) + "," + S(j) + ")");
        }
    B.flush();
    check_concrete(ok, "storage outside the result");
}
template <class T, class Api>
struct Blas {
    static void level1(const string& p, bool light)
    {
        idx N = thorough() ? 4 : 3;
        for (idx n = light ? 2 : 0; n <= (light ? 2 : N); n++)
            for (long ix : INCS) {
                auto nx = p + "_" + S(n) + "_" + S(ix);
                if (ix > 0) {
                    add_case("asum_" + nx, [=] {
                        Vec<T> x(n, ix);
                        x.in("x");
                        auto x0 = x.d();
                        SReal r = Api::asum(n, x.ptr(), ix), e;
                        for (auto& q : x0) e += a1(q);
                        check(eq(r, e), "asum");
                        check_concrete(vsame(x, x0), "x");
                    });
                    add_case("nrm2_" + nx, [=] {
                        Vec<T> x(n, ix);
                        x.in("x");
                        for (idx i = 0; i < n; i++) {  // no rescaling
                            assume(f_or(eq(abs2(x[i]), SReal(0)), ge(abs2(x[i]), R(mk_pow2(-40)))));
                            assume(le(abs2(x[i]), R(mk_pow2(40))));
                        }
                        auto x0 = x.d();
                        SReal r = Api::nrm2(n, x.ptr(), ix), e;
                        for (auto& q : x0) e += abs2(q);
                        check(f_and(eq(r * r, e), ge(r, SReal(0))), "nrm2");
                        check_concrete(vsame(x, x0), "x");
                    });
                    add_case("iamax_" + nx, [=] {
                        Vec<T> x(n, ix);
                        x.in("x");
                        for (idx i = 0; i < n; i++) assume(le(abs2(x[i]), R(mk_pow2(40))));
                        auto x0 = x.d();
                        size_t r = Api::iamax(n, x.ptr(), ix);
                        if (n == 0) return check_concrete(r == 0, "0 for an empty vector");
                        check_concrete(r < n, "an index");
                        for (idx i = 0; i < n; i++) check(i < r ? lt(a1(x0[i]), a1(x0[r])) : le(a1(x0[i]), a1(x0[r])), "first largest element");
                        check_concrete(vsame(x, x0), "x");
                    });
                    add_case("scal_" + nx, [=] {
                        Vec<T> x(n, ix);
                        x.in("x");
                        T al = input<T>("al");
                        auto e = x.d();
                        for (auto& q : e) q = al * q;
                        Api::scal(n, al, x.ptr(), ix);
                        Batch B;
                        eqv(B, x.d(), e, "x");
                        check_concrete(x.padding_ok(), "storage");
                    });
                }
                for (long iy : INCS) {
                    if (light && (ix + iy) % 2) continue;
                    auto ny = nx + "_" + S(iy);
                    add_case("vec2_" + ny, [=] {
                        for (int w = 0; w < 5; w++) {
                            Vec<T> x(n, ix), y(n, iy);
                            x.in("x");
                            y.in("y");
                            T al = input<T>("al");
                            auto x0 = x.d(), y0 = y.d(), ex = x0, ey = y0;
                            Batch B;
                            T d(0);
                            if (w == 0) {
                                Api::axpy(n, al, x.ptr(), ix, y.ptr(), iy);
                                for (idx i = 0; i < n; i++) ey[i] = ey[i] + al * x0[i];
                            }
                            if (w == 1) Api::copy(n, x.ptr(), ix, y.ptr(), iy), ey = x0;
                            if (w == 2) Api::swap(n, x.ptr(), ix, y.ptr(), iy), ey = x0, ex = y0;
                            if (w == 3) {
                                T r = Api::dot(n, x.ptr(), ix, y.ptr(), iy);
                                for (idx i = 0; i < n; i++) d += cj(x0[i]) * y0[i];
                                B.eq(r, d, "dot");
                            }
                            if (w == 4) {
                                T r = Api::dotu(n, x.ptr(), ix, y.ptr(), iy);
                                for (idx i = 0; i < n; i++) d += x0[i] * y0[i];
                                B.eq(r, d, "dotu");
                            }
                            eqv(B, x.d(), ex, "x after " + S(w));
                            eqv(B, y.d(), ey, "y after " + S(w));
                            B.flush();
                            check_concrete(x.padding_ok() && y.padding_ok(), "storage");
                        }
                    });
                    for (int rs = 0; rs < (Api::realrot ? 2 : 1); rs++)
                        add_case("rot" + S(rs) + "_" + ny, [=] {
                            Vec<T> x(n, ix), y(n, iy);
                            x.in("x");
                            y.in("y");
                            SReal c = var("c"), sr = var("sr");
                            T s = rs ? T(sr) : input<T>("s");
                            auto x0 = x.d(), y0 = y.d(), ex = x0, ey = y0;
                            for (idx i = 0; i < n; i++) {
                                ex[i] = T(c) * x0[i] + s * y0[i];
                                ey[i] = T(c) * y0[i] - cj(s) * x0[i];
                            }
                            if (rs) Api::srot(n, x.ptr(), ix, y.ptr(), iy, c, sr);
                            else Api::rot(n, x.ptr(), ix, y.ptr(), iy, c, s);
                            Batch B;
                            eqv(B, x.d(), ex, "x");
                            eqv(B, y.d(), ey, "y");
                            B.flush();
                            check_concrete(x.padding_ok() && y.padding_ok(), "storage");
                        });
                    if constexpr (!isC<T>)
                        for (int fl = -2; fl <= 1; fl++)
                            add_case("rotm_" + ny + "_" + S(fl), [=] {
                                Vec<T> x(n, ix), y(n, iy);
                                x.in("x");
                                y.in("y");
                                T h[5] = {T(fl), input<T>("h11"), input<T>("h21"), input<T>("h12"), input<T>("h22")};
                                T a = fl == -1 || fl == 0 ? (fl == 0 ? T(1) : h[1]) : fl == 1 ? h[1] : T(1);
                                T c = fl == -1 || fl == 0 ? h[2] : fl == 1 ? T(-1) : T(0);
                                T b = fl == -1 || fl == 0 ? h[3] : fl == 1 ? T(1) : T(0);
                                T dd = fl == -1 ? h[4] : fl == 0 ? T(1) : fl == 1 ? h[4] : T(1);
                                auto x0 = x.d(), y0 = y.d(), ex = x0, ey = y0;
                                for (idx i = 0; i < n; i++) {
                                    ex[i] = a * x0[i] + b * y0[i];
                                    ey[i] = c * x0[i] + dd * y0[i];
                                }
                                Api::rotm(n, x.ptr(), ix, y.ptr(), iy, h);
                                Batch B;
                                eqv(B, x.d(), ex, "x");
                                eqv(B, y.d(), ey, "y");
                                B.flush();
                                check_concrete(x.padding_ok() && y.padding_ok(), "storage");
                            });
                }
            }
    }
    static void level2(const string& p, bool light)
    {
        for (Layout L : LY)
            for (idx m = light ? 2 : 0; m <= (light ? 2 : 3); m++)
                for (idx n = light ? 3 : 0; n <= 3; n++)
                    for (int iq = 0; iq < 16; iq++) {
                        long ix = INCS[iq / 4], iy = INCS[iq % 4];
                        if (light ? iq != 7 : !(m == 2 && n == 3) && iq != (m + 5 * n) % 16 && !thorough()) continue;
                        auto nn = p + nm(L) + "_" + S(m) + S(n) + "_" + S(ix) + "_" + S(iy);
                        for (Op op : OP3)
                            for (int ak = 0; ak < 3; ak += 2)
                                for (int bk = 0; bk < 3; bk++) {
                                    if (light && (ak != 2 || bk != 2)) continue;
                                    if ((ak != 2 || bk != 2) && iq % 5) continue;
                                    add_case("gemv_" + nm(op) + "_" + nn + "_" + S(ak) + S(bk), [=] {
                                        RM<T> A(L, m, n);
                                        A.in("a");
                                        idx lx = op == Op::NoTrans ? n : m, ly = op == Op::NoTrans ? m : n;
                                        Vec<T> x(lx, ix), y(ly, iy);
                                        x.in("x");
                                        // beta = 0: y need not be set (an empty A leaves y alone)
                                        if (bk != ZERO_ || !m || !n) y.in("y");
                                        T al = scal_in<T>("al", ak), be = scal_in<T>("be", bk);
                                        auto A0 = A.d();
                                        auto x0 = x.d(), y0 = y.d();
                                        Api::gemv(L, op, m, n, al, A.ptr(), A.ld, x.ptr(), ix, be, y.ptr(), iy);
                                        Batch B;
                                        if (m && n) {
                                            auto e = scl(al, A0.op(op) * colv(x0));
                                            for (idx i = 0; i < ly; i++) B.eq(y[i], bk == ZERO_ ? e(i, 0) : e(i, 0) + be * y0[i], "y[" + S(i) + "]");
                                        }
                                        else eqv(B, y.d(), y0, "y");
                                        eqv(B, x.d(), x0, "x");
                                        B.flush();
                                        check_concrete(y.padding_ok() && x.padding_ok() && unchanged(A.d(), A0) && A.padding_ok(), "storage");
                                    });
                                }
                        for (int uu = 0; uu < 2; uu++)
                            add_case(string(uu ? "geru_" : "ger_") + nn, [=] {
                                RM<T> A(L, m, n);
                                A.in("a");
                                Vec<T> x(m, ix), y(n, iy);
                                x.in("x");
                                y.in("y");
                                T al = input<T>("al");
                                auto A0 = A.d();
                                auto x0 = x.d(), y0 = y.d();
                                if (uu) Api::geru(L, m, n, al, x.ptr(), ix, y.ptr(), iy, A.ptr(), A.ld);
                                else Api::ger(L, m, n, al, x.ptr(), ix, y.ptr(), iy, A.ptr(), A.ld);
                                auto yt = colv(y0);
                                expect(A, A0, scl(al, colv(x0) * (uu ? yt.t() : yt.h())), T(1), ONE_, Uplo::General, false);
                                check_concrete(vsame(x, x0) && vsame(y, y0), "x, y");
                            });
                        if (m != 2 && m != n) continue;  // the square routines use n only
                        for (Uplo u : UL) {
                            auto nu = nm(u) + "_" + nn;
                            for (int herm = 0; herm < 2; herm++) {
                                for (int ak = 0; ak < 3; ak += 2)
                                    for (int bk = 0; bk < 3; bk++) {
                                        if (light && (ak != 2 || bk != 2)) continue;
                                        if ((ak != 2 || bk != 2) && iq % 5) continue;
                                        add_case(string(herm ? "hemv_" : "symv_") + nu + "_" + S(ak) + S(bk), [=] {
                                            RM<T> A(L, n, n);
                                            A.in("a", u);
                                            Vec<T> x(n, ix), y(n, iy);
                                            x.in("x");
                                            if (bk != ZERO_) y.in("y");
                                            T al = scal_in<T>("al", ak), be = scal_in<T>("be", bk);
                                            auto A0 = A.d();
                                            auto x0 = x.d(), y0 = y.d();
                                            if (herm) Api::hemv(L, u, n, al, A.ptr(), A.ld, x.ptr(), ix, be, y.ptr(), iy);
                                            else Api::symv(L, u, n, al, A.ptr(), A.ld, x.ptr(), ix, be, y.ptr(), iy);
                                            Batch B;
                                            auto e = scl(al, symfull(A0, u, herm) * colv(x0));
                                            for (idx i = 0; i < n; i++) B.eq(y[i], bk == ZERO_ ? e(i, 0) : e(i, 0) + be * y0[i], "y[" + S(i) + "]");
                                            B.flush();
                                            check_concrete(y.padding_ok() && vsame(x, x0) && unchanged(A.d(), A0) && A.padding_ok(), "storage");
                                        });
                                    }
                                for (int two = 0; two < 2; two++) {
                                    if (!two && !herm && isC<T> && !Api::csyr) continue;
                                    add_case(string(herm ? "her" : "syr") + (two ? "2_" : "_") + nu, [=] {
                                        RM<T> A(L, n, n);
                                        A.in("a", u);
                                        Vec<T> x(n, ix), y(n, iy);
                                        x.in("x");
                                        y.in("y");
                                        SReal ar = var("ar");
                                        T al = herm && !two ? T(ar) : input<T>("al");
                                        auto A0 = A.d();
                                        auto x0 = x.d(), y0 = y.d();
                                        auto X = colv(x0), Y = colv(y0);
                                        D<T> e;
                                        if (two) e = herm ? scl(al, X * Y.h()) + scl(cj(al), Y * X.h()) : scl(al, X * Y.t()) + scl(al, Y * X.t());
                                        else e = scl(al, X * (herm ? X.h() : X.t()));
                                        if (two) {
                                            if (herm) Api::her2(L, u, n, al, x.ptr(), ix, y.ptr(), iy, A.ptr(), A.ld);
                                            else Api::syr2(L, u, n, al, x.ptr(), ix, y.ptr(), iy, A.ptr(), A.ld);
                                        }
                                        else {
                                            if (herm) Api::her(L, u, n, ar, x.ptr(), ix, A.ptr(), A.ld);
                                            else Api::syr(L, u, n, al, x.ptr(), ix, A.ptr(), A.ld);
                                        }
                                        // alpha = 0: A is not updated (imaginary parts of the diagonal included)
                                        expect(A, A0, e, T(1), ONE_, u, herm);
                                        check_concrete(vsame(x, x0) && vsame(y, y0), "x, y");
                                    });
                                }
                            }
                            if (iq % 4 != (int)(n % 4) && !light) continue;
                            for (Op op : OP3)
                                for (Diag d : {Diag::NonUnit, Diag::Unit})
                                    for (int solve = 0; solve < 2; solve++)
                                        add_case(string(solve ? "trsv_" : "trmv_") + nm(op) + nm(d) + nu, [=] {
                                            RM<T> A(L, n, n);
                                            A.in("a", u, d);
                                            Vec<T> x(n, ix);
                                            x.in("x");
                                            auto A0 = A.d();
                                            auto x0 = x.d();
                                            auto F_ = tri(A0, u, d).op(op);
                                            if (solve && d == Diag::NonUnit)
                                                for (idx i = 0; i < n; i++) assume(f_not(eq(A0(i, i), T(0))));
                                            if (solve) Api::trsv(L, u, op, d, n, A.ptr(), A.ld, x.ptr(), ix);
                                            else Api::trmv(L, u, op, d, n, A.ptr(), A.ld, x.ptr(), ix);
                                            auto e = solve ? F_ * colv(x.d()) : F_ * colv(x0);
                                            Batch B;
                                            for (idx i = 0; i < n; i++) B.eq(solve ? x0[i] : x[i], e(i, 0), "x[" + S(i) + "]");
                                            B.flush();
                                            check_concrete(x.padding_ok() && unchanged(A.d(), A0) && A.padding_ok(), "storage");
                                        });
                        }
                    }
    }
    static void level3(const string& p, bool light)
    {
        for (Layout L : LY)
            for (idx m = light ? 2 : 0; m <= (light ? 2 : 3); m++)
                for (idx n = light ? 3 : 0; n <= 3; n++) {
                    for (int ak = 0; ak < 3; ak += 2)
                        for (int bk = 0; bk < 3; bk++) {
                            bool full = light || (m == 2 && n == 3) || (m == 3 && n == 2) || thorough();
                            if (light && (ak != 2 || bk != 2)) continue;
                            if (!full && (int)((m + n) % 6) != bk * 2 + ak / 2) continue;
                            auto nn = p + nm(L) + "_" + S(m) + S(n) + "_" + S(ak) + S(bk);
                            for (Op ta : OP3)
                                for (Op tb : OP3)
                                    for (idx k : {0, 1, 2}) {
                                        if (light && k != 2) continue;
                                        add_case("gemm_" + nm(ta) + nm(tb) + "_" + nn + S(k), [=] {
                                            RM<T> A(L, ta == Op::NoTrans ? m : k, ta == Op::NoTrans ? k : m), B(L, tb == Op::NoTrans ? k : n, tb == Op::NoTrans ? n : k, 2), C(L, m, n);
                                            A.in("a");
                                            B.in("b");
                                            if (bk != ZERO_) C.in("c");
                                            T al = scal_in<T>("al", ak), be = scal_in<T>("be", bk);
                                            auto A0 = A.d(), B0 = B.d(), C0 = C.d();
                                            Api::gemm(L, ta, tb, m, n, k, al, A.ptr(), A.ld, B.ptr(), B.ld, be, C.ptr(), C.ld);
                                            expect(C, C0, scl(al, A0.op(ta) * B0.op(tb)), be, bk, Uplo::General, false);
                                            check_concrete(unchanged(A.d(), A0) && unchanged(B.d(), B0) && A.padding_ok() && B.padding_ok(), "A, B");
                                        });
                                    }
                            for (Uplo u : UL)
                                for (int herm = 0; herm < 2; herm++) {
                                    for (Side sd : {Side::Left, Side::Right})
                                        add_case(string(herm ? "hemm_" : "symm_") + nm(sd) + nm(u) + "_" + nn, [=] {
                                            idx q = sd == Side::Left ? m : n;
                                            RM<T> A(L, q, q), B(L, m, n, 2), C(L, m, n);
                                            A.in("a", u);
                                            B.in("b");
                                            if (bk != ZERO_) C.in("c");
                                            T al = scal_in<T>("al", ak), be = scal_in<T>("be", bk);
                                            auto A0 = A.d(), B0 = B.d(), C0 = C.d();
                                            if (herm) Api::hemm(L, sd, u, m, n, al, A.ptr(), A.ld, B.ptr(), B.ld, be, C.ptr(), C.ld);
                                            else Api::symm(L, sd, u, m, n, al, A.ptr(), A.ld, B.ptr(), B.ld, be, C.ptr(), C.ld);
                                            auto F_ = symfull(A0, u, herm);
                                            expect(C, C0, scl(al, sd == Side::Left ? F_ * B0 : B0 * F_), be, bk, Uplo::General, false);
                                            check_concrete(unchanged(A.d(), A0) && unchanged(B.d(), B0) && A.padding_ok() && B.padding_ok(), "A, B");
                                        });
                                    for (Op op : OP3)
                                        for (int two = 0; two < 2; two++) {
                                            if (isC<T> && op == (herm ? Op::Trans : Op::ConjTrans)) continue;
                                            idx k = m;
                                            add_case(string(herm ? "her" : "syr") + (two ? "2k_" : "k_") + nm(op) + nm(u) + "_" + nn, [=] {
                                                RM<T> A(L, op == Op::NoTrans ? n : k, op == Op::NoTrans ? k : n), B(L, A.m, A.n, 2), C(L, n, n);
                                                A.in("a");
                                                B.in("b");
                                                if (bk != ZERO_) C.in("c", u);
                                                SReal ar = scal_in<SReal>("ar", ak), br = scal_in<SReal>("br", bk);
                                                T al = herm && !two ? T(ar) : scal_in<T>("al", ak), be = herm ? T(br) : scal_in<T>("be", bk);
                                                auto A0 = A.d(), B0 = B.d(), C0 = C.d();
                                                if (herm && two) Api::her2k(L, u, op, n, k, al, A.ptr(), A.ld, B.ptr(), B.ld, br, C.ptr(), C.ld);
                                                else if (herm) Api::herk(L, u, op, n, k, ar, A.ptr(), A.ld, br, C.ptr(), C.ld);
                                                else if (two) Api::syr2k(L, u, op, n, k, al, A.ptr(), A.ld, B.ptr(), B.ld, be, C.ptr(), C.ld);
                                                else Api::syrk(L, u, op, n, k, al, A.ptr(), A.ld, be, C.ptr(), C.ld);
                                                auto X = op == Op::NoTrans ? A0 : herm ? A0.h() : A0.t();
                                                auto Y = op == Op::NoTrans ? B0 : herm ? B0.h() : B0.t();
                                                D<T> e;
                                                if (two) e = herm ? scl(al, X * Y.h()) + scl(cj(al), Y * X.h()) : scl(al, X * Y.t()) + scl(al, Y * X.t());
                                                else e = scl(al, X * (herm ? X.h() : X.t()));
                                                expect(C, C0, e, be, bk, u, herm);
                                                check_concrete(unchanged(A.d(), A0) && unchanged(B.d(), B0) && A.padding_ok() && B.padding_ok(), "A, B");
                                            });
                                        }
                                }
                            if (bk != 2) continue;
                            for (Side sd : {Side::Left, Side::Right})
                                for (Uplo u : UL)
                                    for (Op op : OP3)
                                        for (Diag d : {Diag::NonUnit, Diag::Unit})
                                            for (int solve = 0; solve < 2; solve++)
                                                add_case(string(solve ? "trsm_" : "trmm_") + nm(sd) + nm(u) + nm(op) + nm(d) + "_" + nn, [=] {
                                                    idx q = sd == Side::Left ? m : n;
                                                    RM<T> A(L, q, q), B(L, m, n, 2);
                                                    A.in("a", u, d);
                                                    B.in("b");
                                                    T al = scal_in<T>("al", ak);
                                                    auto A0 = A.d(), B0 = B.d();
                                                    if (solve && d == Diag::NonUnit)
                                                        for (idx i = 0; i < q; i++) assume(f_not(eq(A0(i, i), T(0))));
                                                    if (solve) Api::trsm(L, sd, u, op, d, m, n, al, A.ptr(), A.ld, B.ptr(), B.ld);
                                                    else Api::trmm(L, sd, u, op, d, m, n, al, A.ptr(), A.ld, B.ptr(), B.ld);
                                                    auto F_ = tri(A0, u, d).op(op);
                                                    auto B1 = B.d();
                                                    Batch Q;
                                                    if (solve) eqm(Q, sd == Side::Left ? F_ * B1 : B1 * F_, scl(al, B0), "op(A) X = alpha B");
                                                    else eqm(Q, B1, scl(al, sd == Side::Left ? F_ * B0 : B0 * F_), "B");
                                                    Q.flush();
                                                    check_concrete(unchanged(A.d(), A0) && A.padding_ok() && B.padding_ok(), "storage");
                                                });
                        }
                }
    }
    static void all(const string& p, bool light)
    {
        level1(p, light);
        level2(p, light);
        level3(p, light);
    }
};
#endif
