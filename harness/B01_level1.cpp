// Level-1 BLAS: definitions over every value, strides and directions.
#include "hx.hpp"
#include <tlapack/blas/asum.hpp>
#include <tlapack/blas/axpy.hpp>
#include <tlapack/blas/copy.hpp>
#include <tlapack/blas/dot.hpp>
#include <tlapack/blas/dotu.hpp>
#include <tlapack/blas/iamax.hpp>
#include <tlapack/blas/nrm2.hpp>
#include <tlapack/blas/rot.hpp>
#include <tlapack/blas/rotm.hpp>
#include <tlapack/blas/scal.hpp>
#include <tlapack/blas/swap.hpp>
#include <tlapack/base/constants.hpp>
using namespace sx;

// run body with the forward or backward view of a Vec
template <class T, class Fn>
void withview(Vec<T>& v, Fn f)
{
    if (v.inc > 0) { auto w = v.view(); f(w); }
    else { auto w = v.bview(); f(w); }
}
template <class T, class U>
void two(const string& tag, idx n, long ix, long iy)
{
    add_case("axpy_" + tag, [=] {
        Vec<T> x(n, ix); Vec<U> y(n + 1, iy); x.in("x"); y.in("y");
        U al = input<U>("al");
        auto x0 = x.d(); auto y0 = y.d();
        withview(x, [&](auto& xv) { withview(y, [&](auto& yv) { tl::axpy(al, xv, yv); }); });
        Batch b;
        for (idx i = 0; i < n; i++) b.eq(y[i], y0[i] + al * x0[i], "y");
        b.eq(y[n], y0[n], "element past n");
        b.flush();
        check_concrete(x.padding_ok() && y.padding_ok(), "stores outside the vectors");
        eqv(b, x.d(), x0, "x unchanged");
    });
    add_case("copy_" + tag, [=] {
        Vec<T> x(n, ix); Vec<U> y(n + 1, iy); x.in("x");
        y[n] = input<U>("last");
        U l0 = y[n];
        auto x0 = x.d();
        withview(x, [&](auto& xv) { withview(y, [&](auto& yv) { tl::copy(xv, yv); }); });
        Batch b;
        for (idx i = 0; i < n; i++) b.eq(y[i], U(x0[i]), "y");
        b.eq(y[n], l0, "element past n");
        eqv(b, x.d(), x0, "x unchanged");
        b.flush();
        check_concrete(x.padding_ok() && y.padding_ok(), "stores outside the vectors");
    });
    add_case("dots_" + tag, [=] {
        Vec<T> x(n, ix); Vec<U> y(n, iy); x.in("x"); y.in("y");
        U s(0), u(0), rs(0), ru(0);
        withview(x, [&](auto& xv) { withview(y, [&](auto& yv) { s = tl::dot(xv, yv); u = tl::dotu(xv, yv); }); });
        for (idx i = n; i-- > 0;) { rs += U(cj(x[i])) * y[i]; ru += U(x[i]) * y[i]; }
        Batch b;
        b.eq(s, rs, "dot");
        b.eq(u, ru, "dotu");
    });
}
template <class T>
void same2(const string& tag, idx n, long ix, long iy)
{
    add_case("swap_" + tag, [=] {
        Vec<T> x(n, ix), y(n, iy); x.in("x"); y.in("y");
        auto x0 = x.d(), y0 = y.d();
        withview(x, [&](auto& xv) { withview(y, [&](auto& yv) { tl::swap(xv, yv); }); });
        Batch b;
        eqv(b, x.d(), y0, "x");
        eqv(b, y.d(), x0, "y");
        b.flush();
        check_concrete(x.padding_ok() && y.padding_ok(), "stores outside the vectors");
    });
    auto rotcase = [=](auto sdummy, const string& st) {
        typedef decltype(sdummy) ST;
        add_case("rot_" + st + tag, [=] {
            Vec<T> x(n, ix), y(n, iy); x.in("x"); y.in("y");
            SReal c = var("c");
            ST s = input<ST>("s");
            auto x0 = x.d(), y0 = y.d();
            withview(x, [&](auto& xv) { withview(y, [&](auto& yv) { tl::rot(xv, yv, c, s); }); });
            Batch b;
            for (idx i = 0; i < n; i++) {
                b.eq(x[i], T(c * x0[i] + s * y0[i]), "x");
                b.eq(y[i], T(c * y0[i] - cj(s) * x0[i]), "y");
            }
            b.flush();
            check_concrete(x.padding_ok() && y.padding_ok(), "stores outside the vectors");
        });
    };
    rotcase(SReal(), "rs_");
    if constexpr (isC<T>) rotcase(SComplex(), "cs_");
    if constexpr (!isC<T>) {
        auto rm = [=](auto fl) {
            constexpr int flag = decltype(fl)::value;
            add_case("rotm_" + S(flag) + "_" + tag, [=] {
                Vec<T> x(n, ix), y(n, iy); x.in("x"); y.in("y");
                T h[4];
                for (int i = 0; i < 4; i++) h[i] = var("h" + S(i));
                if (flag == 0) h[0] = h[3] = poison<T>();
                if (flag == 1) h[1] = h[2] = poison<T>();
                if (flag == -2) h[0] = h[1] = h[2] = h[3] = poison<T>();
                auto x0 = x.d(), y0 = y.d();
                withview(x, [&](auto& xv) { withview(y, [&](auto& yv) { tl::rotm<flag>(xv, yv, h); }); });
                T h11 = flag == -1 || flag == 1 ? h[0] : T(1), h22 = flag == -1 || flag == 1 ? h[3] : T(1);
                T h21 = flag == -1 || flag == 0 ? h[1] : flag == 1 ? T(-1) : T(0);
                T h12 = flag == -1 || flag == 0 ? h[2] : flag == 1 ? T(1) : T(0);
                Batch b;
                for (idx i = 0; i < n; i++) {
                    b.eq(x[i], h11 * x0[i] + h12 * y0[i], "x");
                    b.eq(y[i], h21 * x0[i] + h22 * y0[i], "y");
                }
                b.flush();
                check_concrete(x.padding_ok() && y.padding_ok(), "stores outside the vectors");
            });
        };
        rm(std::integral_constant<int, -2>());
        rm(std::integral_constant<int, -1>());
        rm(std::integral_constant<int, 0>());
        rm(std::integral_constant<int, 1>());
    }
}
template <class T>
void one(const string& tag, idx n, long ix)
{
    auto sc = [=](auto sdummy, const string& st) {
        typedef decltype(sdummy) ST;
        add_case("scal_" + st + tag, [=] {
            Vec<T> x(n, ix); x.in("x");
            ST al = input<ST>("al");
            auto x0 = x.d();
            withview(x, [&](auto& xv) { tl::scal(al, xv); });
            Batch b;
            for (idx i = 0; i < n; i++) b.eq(x[i], T(al * x0[i]), "x");
            b.flush();
            check_concrete(x.padding_ok(), "stores outside the vector");
        });
    };
    sc(T(), "");
    if constexpr (isC<T>) sc(SReal(), "r_");
    add_case("asum_" + tag, [=] {
        Vec<T> x(n, ix); x.in("x");
        SReal r;
        withview(x, [&](auto& xv) { r = tl::asum(xv); });
        SReal s(0);
        for (idx i = n; i-- > 0;) s = s + (isC<T> ? sx::abs(re(x[i])) + sx::abs(im(x[i])) : sx::abs(re(x[i])));
        Batch b;
        b.eq(r, s, "asum");
    });
    // first index of the maximum of |re|+|im|, both variants
    add_case("iamax_" + tag, [=] {
        Vec<T> x(n, ix); x.in("x");
        idx k = 0, k2 = 0, k3 = 0;
        withview(x, [&](auto& xv) {
            k = tl::iamax(xv);
            auto f = [](const T& z) -> SReal { return tl::abs1(z); };
            k2 = tl::iamax_nc(xv, f);
            tl::EcOpts noec(tl::NO_ERROR_CHECK);
            tl::IamaxOpts<decltype(f)> o(f, noec);
            k3 = tl::iamax(xv, o);
        });
        if (n == 0) { check_concrete(k == 0 && k2 == 0, "iamax of an empty vector is 0"); return; }
        check_concrete(k < n && k2 == k && k3 == k, "index in range, and the same with and without NaN checks");
        if (k >= n) return;
        Batch b;
        for (idx i = 0; i < n; i++) {
            if (i < k) b.add(lt(a1(x[i]), a1(x[k])), "strictly smaller before the index");
            else b.add(le(a1(x[i]), a1(x[k])), "not larger after the index");
        }
    });
    // user-supplied absolute value
    if (n <= 3)
        add_case("iamax_absf_" + tag, [=] {
            Vec<T> x(n, ix); x.in("x");
            idx k = 0;
            withview(x, [&](auto& xv) {
                auto f = [](const T& z) -> SReal { return sx::abs(z); };
                k = tl::iamax(xv, tl::IamaxOpts<decltype(f)>(f));
            });
            if (n == 0) { check_concrete(k == 0, "empty"); return; }
            check_concrete(k < n, "in range");
            if (k >= n) return;
            Batch b;
            for (idx i = 0; i < n; i++) {
                if (i < k) b.add(lt(abs2(x[i]), abs2(x[k])), "strictly smaller before the index");
                else b.add(le(abs2(x[i]), abs2(x[k])), "not larger after the index");
            }
        });
}
// nrm2^2 = sum |x_i|^2 for every magnitude class of the entries
template <class T>
void nrm(idx n, int mags, long ix)
{
    // mags: base-3 code of the class of each entry: 0 mid, 1 tiny, 2 huge
    string code;
    for (idx i = 0, m = mags; i < n; i++, m /= 3) code += "mth"[m % 3];
    CaseOpts o;
    o.nra_ms = 15000;
    add_case("nrm2_" + tname<T>() + S(n) + "_" + code + "_i" + S(ix), o, [=] {
        Vec<T> x(n, ix); x.in("x");
        SReal tsml = tl::blue_min<SReal>(), tbig = tl::blue_max<SReal>();
        int m = mags;
        bool anybig = false, anysml = false;
        for (idx i = 0; i < n; i++, m /= 3) {
            SReal a = isC<T> ? abs2(x[i]) : re(x[i]) * re(x[i]);
            int k = m % 3;
            if (k == 0) { assume(f_or(f_and(ge(a, tsml * tsml), le(a, tbig * tbig)), eq(a, SReal(0)))); }
            if (k == 1) { assume(lt(a, tsml * tsml)); anysml = true; }
            if (k == 2) { assume(gt(a, tbig * tbig)); anybig = true; }
        }
        SReal r;
        withview(x, [&](auto& xv) { r = tl::nrm2(xv); });
        SReal s(0);
        for (idx i = 0; i < n; i++) s += abs2(x[i]);
        Batch b;
        b.add(ge(r, SReal(0)), "nonnegative");
        if (anybig && anysml) {
            b.add(le(r * r, s), "nrm2^2 <= sum of squares");
            b.add(ge(r * r, s * (SReal(1) - R(mk_pow2(-90)))), "nrm2^2 >= sum of squares up to 2^-90");
        }
        else b.eq(r * r, s, "nrm2^2 = sum of squares");
    });
}
void sx::register_all()
{
    covers("asum,axpy,copy,dot,dotu,iamax,iamax_ec,iamax_nc,nrm2,lassq,rot,rotm,scal,swap,LegacyVector::operator[]");
    bounds("vector length 0..4 (thorough 0..7), increments 1,2,3 forward and 1,2 backward; entries any real/complex number");
    idx N = thorough() ? 7 : 4;
    long incs[][2] = {{1, 1}, {2, 1}, {1, 3}, {-1, 2}, {-2, -1}};
    for (idx n = 0; n <= N; n++) {
        int k = 0;
        for (auto& p : incs) {
            if (!thorough() && n != 3 && k++ > 1) continue;
            string t = S(n) + "_" + S(p[0]) + "_" + S(p[1]);
            two<SReal, SReal>("r" + t, n, p[0], p[1]);
            two<SComplex, SComplex>("c" + t, n, p[0], p[1]);
            if (n == 2) two<SReal, SComplex>("rc" + t, n, p[0], p[1]);
            same2<SReal>("r" + t, n, p[0], p[1]);
            same2<SComplex>("c" + t, n, p[0], p[1]);
        }
        for (long i : {1L, 2L, -2L}) {
            one<SReal>("r" + S(n) + "_" + S(i), n, i);
            if (n <= 4) one<SComplex>("c" + S(n) + "_" + S(i), n, i);
        }
    }
    for (idx n = 0; n <= (thorough() ? 4 : 3); n++) {
        int tot = 1;
        for (idx i = 0; i < n; i++) tot *= 3;
        for (int m = 0; m < tot; m++) nrm<SReal>(n, m, n == 2 ? 2 : 1);
        if (n <= 2) for (int m = 0; m < tot; m++) nrm<SComplex>(n, m, 1);
    }
}
