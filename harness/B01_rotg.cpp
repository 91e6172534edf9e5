// Plane rotations: generation (real, complex, modified), all scaling branches.
#define SYMX_IMPLICIT_INT 1
#include "hx.hpp"
#include <tlapack/base/constants.hpp>
#include <tlapack/blas/rotg.hpp>
#include <tlapack/blas/lartg.hpp>
#include <tlapack/blas/rotmg.hpp>
using namespace sx;

// magnitude class of a nonnegative quantity, relative to lo, hi
static F mag(int k, const SReal& a, const SReal& lo, const SReal& hi)
{
    if (k == 0) return f_and(gt(a, lo), lt(a, hi));
    if (k == 1) return f_and(gt(a, SReal(0)), le(a, lo));
    if (k == 2) return ge(a, hi);
    return eq(a, SReal(0));
}
void sx::register_all()
{
    covers("rotg(real),rotg(complex),lartg,rotmg");
    bounds("rotg: every pair of numbers, split by magnitude class of each operand (tiny/mid/huge/zero); complex rotg with scaling: every magnitude along 4 fixed direction pairs; rotmg: every 2^-60<=d1<=2^60, with (a,b) from a list of 7 pairs and d2/d1 from a list of 11 ratios between 2^-50 and 2^48");
    CaseOpts o;
    o.nra_ms = 20000;
    o.max_paths = 2000;
    for (int ord = 0; ord < 3; ord++)
    add_case("rotg_real_" + S(ord), o, [=] {
        SReal a = var("a"), b = var("b"), c, s;
        if (ord == 0) assume(gt(sx::abs(a), sx::abs(b)));
        if (ord == 1) assume(lt(sx::abs(a), sx::abs(b)));
        if (ord == 2) assume(eq(sx::abs(a), sx::abs(b)));
        SReal a0 = a, b0 = b;
        tl::rotg(a, b, c, s);
        Batch B;
        B.eq(c * a0 + s * b0, a, "r = c a + s b");
        B.eq(c * b0 - s * a0, SReal(0), "0 = -s a + c b");
        B.eq(c * c + s * s, SReal(1), "c^2 + s^2 = 1");
        B.flush();
        // documented value of b on exit
        check(f_any({eq(b, s), eq(b * c, SReal(1)), f_and(eq(c, SReal(0)), eq(b, SReal(1)))}), "b is s, 1/c or 1");
        if (ord == 0) check(eq(b, s), "b = s when |a| > |b|");
        if (ord == 1) check(f_any({eq(b * c, SReal(1)), f_and(eq(c, SReal(0)), eq(b, SReal(1)))}), "b = 1/c (or 1) when |a| < |b|");
    });
    for (int big = 0; big < 3; big++)
        add_case("lartg_real_" + S(big), o, [=] {
            SReal a = var("a"), b = var("b"), c, s, r;
            if (big == 0) assume(gt(sx::abs(a), sx::abs(b)));
            if (big == 1) assume(lt(sx::abs(a), sx::abs(b)));
            if (big == 2) assume(eq(sx::abs(a), sx::abs(b)));
            tl::lartg(a, b, c, s, r);
            Batch B;
            B.eq(c * a + s * b, r, "r = c a + s b");
            B.eq(c * b - s * a, SReal(0), "0 = -s a + c b");
            B.eq(c * c + s * s, SReal(1), "c^2 + s^2 = 1");
        });
    // complex: [r;0] = [c s; -conj(s) c][a;b]; classes of max(|re|,|im|)
    // q < 2: any a, b with the larger component real / imaginary (unscaled classes);
    // q >= 2: a = p*(fixed direction), b = q*(fixed direction), any p, q in the class
    for (int ka = 0; ka < 4; ka++)
        for (int kb = 0; kb < 4; kb++)
            for (int q = 0; q < 6; q++) {
                bool full = (ka == 0 || ka == 3) && (kb == 0 || kb == 3);
                if (q < 2 && !full) continue;
                if (q >= 2 && full) continue;
                add_case("rotg_complex_" + S(ka) + S(kb) + S(q), o, [=] {
                    static const double DIR[4][4] = {{3, 4, 1, -2}, {-4, 3, 0, 1}, {1, 0, -5, 12}, {0, -2, -3, 0}};
                    SComplex a, b, s;
                    SReal c;
                    SReal sm = tl::safe_min<SReal>(), u = tl::ulp<SReal>();
                    SReal rtmin = sqrt(sm / u), rtmax = sqrt(tl::safe_max<SReal>() * u);
                    SReal xa, xb;
                    if (q < 2) {
                        a = input<SComplex>("a"), b = input<SComplex>("b");
                        xa = q ? sx::abs(im(a)) : sx::abs(re(a));
                        SReal ya = q ? sx::abs(re(a)) : sx::abs(im(a));
                        xb = q ? sx::abs(im(b)) : sx::abs(re(b));
                        SReal yb = q ? sx::abs(re(b)) : sx::abs(im(b));
                        assume(ge(xa, ya));
                        assume(ge(xb, yb));
                    }
                    else {
                        const double* d = DIR[q - 2];
                        SReal p = var("p"), t = var("q");
                        assume(ge(p, SReal(0)));
                        assume(ge(t, SReal(0)));
                        a = SComplex(SReal(d[0]) * p, SReal(d[1]) * p);
                        b = SComplex(SReal(d[2]) * t, SReal(d[3]) * t);
                        xa = SReal(std::max(std::abs(d[0]), std::abs(d[1]))) * p;
                        xb = SReal(std::max(std::abs(d[2]), std::abs(d[3]))) * t;
                    }
                    assume(mag(ka, xa, rtmin, rtmax));
                    assume(mag(kb, xb, rtmin, rtmax));
                    SComplex a0 = a, b0 = b;
                    tl::rotg(a, b, c, s);
                    Batch B;
                    B.eq(c * a0 + s * b0, a, "r = c a + s b");
                    B.eq(c * b0 - conj(s) * a0, SComplex(0), "0 = -conj(s) a + c b");
                    B.eq(c * c + abs2(s), SReal(1), "c^2 + |s|^2 = 1");
                    B.flush();
                    check(ge(c, SReal(0)), "c >= 0");
                });
            }
    // modified rotations: (a,b) and the ratio d2/d1 from lists, every d1 in the magnitude class
    static const double AB[][2] = {{1, 1}, {3, -0.5}, {-2, 5}, {0.25, 100}, {100, 0.125}, {0, 2}, {2, 0}};
    static const double RT[][2] = {{1.5, 0}, {-0.75, 0}, {0.6, -24}, {-1.5, -24}, {0.6, 24}, {-3, 24}, {0.7, -48}, {-1.5, -50}, {0.6, 48}, {-3, 45}, {0, 0}};
    for (int ab = 0; ab < 7; ab++)
    for (int sg = 0; sg < 11; sg++)
        for (int k1 = -2; k1 <= 2; k1++) {
                if (!thorough() && ab > 1 && (k1 + sg + ab) % 3) continue;
                add_case("rotmg_" + S(ab) + "_" + S(sg) + "_" + S(k1), o, [=] {
                    SReal d1 = var("d1"), d2 = SReal(RT[sg][0]) * R(mk_pow2((int)RT[sg][1])) * d1, a = SReal(AB[ab][0]), b = SReal(AB[ab][1]);
                    assume(gt(d1, R(mk_pow2(24 * k1 - 12))));
                    assume(le(d1, R(mk_pow2(24 * k1 + 12))));
                    SReal e1 = d1, e2 = d2, a0 = a;
                    SReal h[4];
                    int flag = tl::rotmg(d1, d2, a, b, h);
                    check_concrete(flag >= -2 && flag <= 1, "flag in range");
                    SReal h11 = flag == -1 || flag == 1 ? h[0] : SReal(1), h22 = flag == -1 || flag == 1 ? h[3] : SReal(1);
                    SReal h21 = flag == -1 || flag == 0 ? h[1] : flag == 1 ? SReal(-1) : SReal(0);
                    SReal h12 = flag == -1 || flag == 0 ? h[2] : flag == 1 ? SReal(1) : SReal(0);
                    if (flag == -2) {
                        Batch B;
                        B.eq(e2 * b, SReal(0), "H = I only when d2 b = 0");
                        B.eq(d1, e1, "d1");
                        B.eq(d2, e2, "d2");
                        B.eq(a, a0, "a");
                        return;
                    }
                    // degenerate case: -d2 b^2 >= d1 a^2 has no rotation; everything is zeroed
                    if (RT[sg][0] < 0) {
                        if (e1 * a0 * a0 <= -e2 * b * b) {
                            check(f_all({eq(d1, SReal(0)), eq(d2, SReal(0)), eq(a, SReal(0)), eq(h11, SReal(0)), eq(h12, SReal(0)), eq(h21, SReal(0)), eq(h22, SReal(0))}), "no rotation exists: zeros");
                            return;
                        }
                    }
                    Batch B;
                    B.eq(h11 * a0 + h12 * b, a, "first component");
                    B.eq(h21 * a0 + h22 * b, SReal(0), "second component annihilated");
                    B.eq(d1 * h11 * h11 + d2 * h21 * h21, e1, "H^T D H (1,1)");
                    B.eq(d1 * h11 * h12 + d2 * h21 * h22, SReal(0), "H^T D H (1,2)");
                    B.eq(d1 * h12 * h12 + d2 * h22 * h22, e2, "H^T D H (2,2)");
                });
            }
}
