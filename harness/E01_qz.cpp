// 2-by-2 generalized eigenvalue kernels: lahqz_eig22, lahqz_schur22.
#include "hx.hpp"
#include <tlapack/base/constants.hpp>
#include <tlapack/blas/rotg.hpp>
#include <tlapack/blas/lartg.hpp>
#include <tlapack/lapack/lahqz_eig22.hpp>
#include <tlapack/lapack/lahqz_schur22.hpp>
using namespace sx;
inline SReal hc(const SReal& x) { return x; }
inline SComplex hc(const SComplex& x) { return conj(x); }
static CaseOpts co()
{
    CaseOpts o;
    o.lemmas = true;
    o.param = true;
    o.max_paths = 300;
    o.case_s = thorough() ? 200 : 9;
    o.nra_ms = thorough() ? 20000 : 4000;
    return o;
}
template <class T>
T num(const double* p, int k);
template <>
SReal num<SReal>(const double* p, int k) { return SReal(p[2 * k]); }
template <>
SComplex num<SComplex>(const double* p, int k) { return SComplex(SReal(p[2 * k]), SReal(p[2 * k + 1])); }
// A = B P diag(t, l2) P^-1 (kind 0), B P [t w; -w t] P^-1 (kind 1), or fixed A with one symbolic entry
struct Fam {
    double b[6];      // b00 b01 b11 (re, im)
    double p;         // P = [1 p; 0 1] then [1 0; p 1]
    int kind;
    double l2[2], w;
};
static const Fam FAM[] = {
    {{1, 0, 0, 0, 1, 0}, 1, 0, {2, 0}, 0},
    {{2, 0, 0, 0, 1, 0}, 0.5, 0, {-1, 1}, 0},
    {{3, 1, 1, 0, -2, 0}, 1, 0, {0, 0}, 0},
    {{1, 0, 4, -1, 0.5, 1}, -2, 0, {1, 0}, 0},
    {{-1, 0, 2, 0, 3, 0}, 0.25, 0, {0.5, 0}, 0},
    {{1, 0, 0, 0, 1, 0}, 1, 1, {}, 1},
    {{2, 0, 0, 0, 1, 0}, 0.5, 1, {}, 0.5},
    {{2, 0, 1, 0, -1, 0}, 0.25, 1, {}, 2},
    {{-3, 0, 0, 0, 4, 0}, 2, 1, {}, 3},
};
template <class T>
static void mk(const Fam& f, SReal t, D<T>& A, D<T>& B)
{
    B = D<T>(2, 2), A = D<T>(2, 2);
    B(0, 0) = num<T>(f.b, 0), B(0, 1) = num<T>(f.b, 1), B(1, 1) = num<T>(f.b, 2), B(1, 0) = T(0);
    D<T> M(2, 2), P(2, 2), Q(2, 2);
    SReal p(f.p), pp = SReal(1) + p * p;
    P(0, 0) = T(pp), P(0, 1) = T(p), P(1, 0) = T(p), P(1, 1) = T(SReal(1));
    Q(0, 0) = T(SReal(1)), Q(0, 1) = T(-p), Q(1, 0) = T(-p), Q(1, 1) = T(pp);
    if (f.kind == 0) M(0, 0) = T(t), M(1, 1) = num<T>(f.l2, 0), M(0, 1) = M(1, 0) = T(0);
    else M(0, 0) = M(1, 1) = T(t), M(0, 1) = T(SReal(f.w)), M(1, 0) = T(SReal(-f.w));
    A = B * (P * (M * Q));
}
template <class T>
static void pairs(const D<T>& A, const D<T>& B, SComplex a1, SComplex a2, SComplex b1, SComplex b2)
{
    SComplex dA(A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0)), dB(B(0, 0) * B(1, 1)), m(A(0, 0) * B(1, 1) + A(1, 1) * B(0, 0) - A(1, 0) * B(0, 1));
    Batch Q;
    Q.eq(a1 * a2 * dB, b1 * b2 * dA, "product of the eigenvalues");
    Q.eq((a1 * b2 + a2 * b1) * dB, b1 * b2 * m, "sum of the eigenvalues");
    Q.eq((a1 * b2 + a2 * b1) * dA, a1 * a2 * m, "sum of the reciprocals");
}
static void range(SReal t)
{
    assume(ge(t, SReal(-4)));
    assume(le(t, SReal(4)));
}
template <class T>
using In = std::function<void(D<T>&, D<T>&)>;
template <class T>
static void both(const string& nm, In<T> in)
{
    add_case("qz_eig22_" + nm, co(), [=] {
        D<T> A, B;
        in(A, B);
        Mat<T, Layout::ColMajor> a(2, 2), b(2, 2);
        a.set(A), b.set(B);
        b(1, 0) = poison<T>();
        SComplex a1, a2;
        SReal b1, b2;
        auto av = a.view(), bv = b.view();
        tl::lahqz_eig22(av, bv, a1, a2, b1, b2);
        pairs(A, B, a1, a2, SComplex(b1), SComplex(b2));
        for (idx i = 0; i < 2; i++)
            for (idx j = 0; j < 2; j++) check_concrete(same(a(i, j), A(i, j)) && (i > j || same(b(i, j), B(i, j))), "the pencil is unchanged");
    });
    add_case("qz_schur22_" + nm, co(), [=] {
        D<T> A, B;
        in(A, B);
        Mat<T, Layout::ColMajor> a(2, 2), b(2, 2);
        a.set(A), b.set(B);
        SComplex a1, a2;
        SReal b1, b2, cl, cr;
        T sl, sr, s0, s1;
        auto av = a.view(), bv = b.view();
        tl::lahqz_schur22(av, bv, a1, a2, b1, b2, cl, sl, cr, sr, s0, s1);
        auto S = a.d(), Tm = b.d();
        D<T> Q(2, 2), Z(2, 2);
        Q(0, 0) = T(cl), Q(0, 1) = -sl, Q(1, 0) = hc(sl), Q(1, 1) = T(cl);
        Z(0, 0) = T(cr) * s0, Z(0, 1) = -hc(sr) * s1, Z(1, 0) = sr * s0, Z(1, 1) = T(cr) * s1;
        Batch K;
        K.eq(cl * cl + abs2(sl), SReal(1), "left rotation");
        K.eq(cr * cr + abs2(sr), SReal(1), "right rotation");
        K.eq(abs2(s0), SReal(1), "scal0"), K.eq(abs2(s1), SReal(1), "scal1");
        eqm(K, A * Z, Q * S, "A Z = Q S");
        eqm(K, B * Z, Q * Tm, "B Z = Q T");
        K.eq(Tm(1, 0), T(SReal(0)), "T is upper triangular");
        for (idx i = 0; i < 2; i++) {
            K.add(ge(SReal(re(Tm(i, i))), SReal(0)), "T(i,i) >= 0");
            if constexpr (isC<T>) K.eq(im(Tm(i, i)), SReal(0), "T(i,i) is real");
        }
        if constexpr (isC<T>) K.eq(S(1, 0), T(SReal(0)), "S is upper triangular");
        else {
            // two real eigenvalues, or a diagonal T
            SReal m = A(0, 0) * B(1, 1) + A(1, 1) * B(0, 0) - A(1, 0) * B(0, 1), disc = m * m - SReal(4) * (A(0, 0) * A(1, 1) - A(0, 1) * A(1, 0)) * B(0, 0) * B(1, 1);
            if (S(1, 0) == SReal(0)) K.add(ge(disc, SReal(0)), "triangular S: real eigenvalues");
            else K.add(lt(disc, SReal(0)), "S is triangular when the eigenvalues are real"), K.eq(Tm(0, 1), SReal(0), "T is diagonal");
        }
        K.flush();
        pairs(A, B, a1, a2, SComplex(b1), SComplex(b2));
    });
}
template <class T>
static void fams()
{
    for (int f = 0; f < (int)(sizeof FAM / sizeof *FAM); f++) {
        if (isC<T> && FAM[f].kind) continue;
        both<T>(tname<T>() + "_f" + S(f), [=](D<T>& A, D<T>& B) {
            SReal t = var("t");
            range(t);
            // away from (not at) the eigenvalue at which A becomes (numerically) triangular
            SReal l = SReal(FAM[f].l2[0]) - t;
            if (FAM[f].kind == 0) assume(f_or(ge(l * l, R(mk_pow2(-20))), eq(l, SReal(0))));
            mk<T>(FAM[f], t, A, B);
        });
    }
    // singular B, triangular A: every entry symbolic
    for (int k = 0; k < 4; k++)
        both<T>(tname<T>() + "_s" + S(k), [=](D<T>& A, D<T>& B) {
            A = D<T>(2, 2), B = D<T>(2, 2);
            auto iv = [](const string& n) {
                SReal t = var(n);
                range(t);
                T x(t);
                if constexpr (isC<T>) x = T(t, SReal(1));
                return x;
            };
            auto away = [](T x) { assume(ge(abs2(x), R(mk_pow2(-20)))); };
            static const double fix[4][8] = {{1, 0, 2, 0, 3, 0, -1, 1}, {0, 0, 1, 1, 2, 0, 1, 0}, {2, 1, 0, 0, 1, -1, 0, 0}, {1, 1, 1, 0, 0, 2, 3, 0}};
            for (int i = 0; i < 4; i++) A(i & 1, i >> 1) = num<T>(fix[k], i);
            if (k == 0) A(1, 0) = T(SReal(0)), A(0, 0) = iv("a"), B(0, 0) = T(SReal(2)), B(0, 1) = T(SReal(1)), B(1, 1) = T(SReal(-1));
            if (k == 1) B(0, 0) = T(SReal(0)), B(0, 1) = T(SReal(1)), B(1, 1) = iv("b"), away(B(1, 1));
            if (k == 2) B(0, 0) = iv("b"), away(B(0, 0)), B(0, 1) = T(SReal(-2)), B(1, 1) = T(SReal(0));
            if (k == 3) B(0, 0) = T(SReal(0)), B(0, 1) = T(SReal(2)), B(1, 1) = T(SReal(0)), A(1, 1) = iv("a");
            B(1, 0) = T(SReal(0));
        });
}
void sx::register_all()
{
    covers("lahqz_eig22,lahqz_schur22");
    bounds("lahqz_eig22, lahqz_schur22: 9 families of pencils B M with one symbolic eigenvalue (real or complex pair) in [-4,4], singular B, triangular A with a symbolic entry");
    fams<SReal>();
    fams<SComplex>();
}
