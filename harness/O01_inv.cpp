// inverse reflectors, over the contract of larfg
#include "stub_larfg.hpp"
#include <tlapack/lapack/inv_house3.hpp>
#include <iostream>
using namespace sx;
static void mag(const SReal& x, int lo, int hi, bool zero)
{
    F f = f_and(ge(sx::abs(x), R(mk_pow2(lo))), le(sx::abs(x), R(mk_pow2(hi))));
    assume(zero ? f_or(f, eq(x, SReal(0))) : f);
}
template <class T>
void mags(const T& x, int lo, int hi, bool zero)
{
    mag(re(x), lo, hi, zero);
    if constexpr (isC<T>) mag(im(x), lo, hi, zero);
}
// A x = 0 for the first column of the inverse reflector: A (H e1) = 0
template <class T>
void regih()
{
    const string t = tname<T>();
    for (int z = 0; z < 7; z++) {
        if (isC<T> && z == 0 && !thorough()) continue;
        CaseOpts o;
        o.nra_ms = 20000;
        o.max_paths = 2000;
        o.case_s = 120;
        add_case("inv_house3_" + t + "_" + S(z), o, [=] {
            Mat<T> A(2, 3);
            // z: 0 general, 1 rank one trailing block, 2 zero trailing block, 3 zero row, 4 zero column, 5 small integers times a free value, 6 rank one with the larger second column
            if (z == 0) A.in("a");
            else {
                T p = input<T>("p"), q = input<T>("q"), r = input<T>("r");
                A(0, 0) = q;
                A(1, 0) = r;
                if (z == 1) { A(0, 1) = SReal(2) * p; A(0, 2) = p; A(1, 1) = p; A(1, 2) = SReal(0.5) * p; mags(p, -5, 5, false); }
                if (z == 2) { A(0, 1) = A(0, 2) = A(1, 1) = A(1, 2) = T(0); }
                if (z == 3) { A(0, 1) = p; A(0, 2) = SReal(3) * p; A(1, 1) = A(1, 2) = T(0); mags(p, -5, 5, false); }
                if (z == 4) { A(0, 1) = A(1, 1) = T(0); A(0, 2) = p; A(1, 2) = SReal(2) * p; mags(p, -5, 5, false); }
                if (z == 5) { A(0, 1) = p; A(0, 2) = SReal(3) * p; A(1, 1) = SReal(2) * p; A(1, 2) = p; mags(p, -5, 5, false); }
                if (z == 6) { A(0, 1) = p; A(0, 2) = SReal(4) * p; A(1, 1) = SReal(2) * p; A(1, 2) = SReal(8) * p; mags(p, -5, 5, false); }
            }
            if (z == 0)
                for (idx i = 0; i < 2; i++)
                    for (idx j = 0; j < 3; j++) mags(A(i, j), -5, 5, true);
            else if (z != 2) {
                mags(A(0, 0), -5, 5, true);
                mags(A(1, 0), -5, 5, true);
            }
            if (z == 0 || z == 5) {
                // a nearly singular trailing block is treated as singular: exact statement for the others
                SReal d = a1(A(0, 1) * A(1, 2) - A(0, 2) * A(1, 1));
                assume(f_or(eq(d, SReal(0)), ge(d, R(mk_pow2(-20)))));
            }
            Vec<T> v(3, 1);
            stub::reset();
            T tau = poison<T>();
            auto Av = A.view();
            auto vv = v.view();
            auto A0 = A.d();
            tl::inv_house3(Av, vv, tau);
            // the reflector maps the vector given to larfg to a multiple of e1, hence H e1 is a multiple of it
            check_concrete(stub::calls<T>().size() == 1, "one reflector");
            auto& c = stub::calls<T>()[0];
            Batch Q;
            vector<F> nz;
            for (idx j = 0; j < 3; j++) nz.push_back(f_not(sx::eq(c.z[j], T(0))));
            Q.add(f_any(nz), "nonzero vector");
            for (idx i = 0; i < 2; i++) {
                T s(0);
                for (idx j = 0; j < 3; j++) s += A0(i, j) * c.z[j];
                Q.eq(s, T(0), "A x = 0, row " + S(i));
            }
            Q.eq(v[0], c.beta, "v");
            Q.eq(v[1], c.y[0], "v");
            Q.eq(v[2], c.y[1], "v");
            Q.eq(tau, c.tau, "tau");
            Q.flush();
            check_concrete(unchanged(A.d(), A0) && v.padding_ok(), "A unchanged");
        });
    }
}
void sx::register_all()
{
    covers("inv_house3");
    bounds("inv_house3: 2-by-3 matrices with entries 2^-5..2^5 or zero, general and singular trailing blocks (determinant zero or at least 2^-20)");
    assumption("inv_house3 is decided over the contract of larfg (property O01)");
    regih<SReal>();
    regih<SComplex>();
}
