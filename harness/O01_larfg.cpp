// Generation of elementary reflectors.
#include "refl.hpp"
#include <tlapack/lapack/larfg.hpp>
#include <iostream>
using namespace sx;
static void mag(const SReal& x, int lo, int hi, bool zero)
{
    F f = f_and(ge(sx::abs(x), R(mk_pow2(lo))), le(sx::abs(x), R(mk_pow2(hi))));
    assume(zero ? f_or(f, eq(x, SReal(0))) : f);
}
template <class T>
void mags(const T& x, int lo, int hi, bool zero)
{
    mag(re(x), lo, hi, zero);
    if constexpr (isC<T>) mag(im(x), lo, hi, zero);
}
// alpha0, x0: input; al, x, tau: output.  eq: exact contract
template <class T>
void contract(StoreV st, const T& al0, const vector<T>& x0, const T& al, const vector<T>& y, const T& tau)
{
    idx n = x0.size() + 1;
    // Columnwise: v = (1; y), H^H (alpha; x) = (beta; 0).  Rowwise: v^H = (1 y), (alpha x) H = (beta 0)
    vector<T> v(n), z(n);
    v[0] = T(1);
    z[0] = al0;
    for (idx i = 1; i < n; i++) {
        v[i] = st == StoreV::Columnwise ? y[i - 1] : cj(y[i - 1]);
        z[i] = x0[i - 1];
    }
    Batch Q;
    T s(0);
    if (st == StoreV::Columnwise) {
        for (idx i = 0; i < n; i++) s += cj(v[i]) * z[i];
        s = cj(tau) * s;
        for (idx i = 0; i < n; i++) Q.eq(z[i] - v[i] * s, i ? T(0) : al, "H^H (alpha; x) = (beta; 0), entry " + S(i));
    }
    else {
        for (idx i = 0; i < n; i++) s += z[i] * v[i];
        s = s * tau;
        for (idx i = 0; i < n; i++) Q.eq(z[i] - s * cj(v[i]), i ? T(0) : al, "(alpha x) H = (beta 0), entry " + S(i));
    }
    SReal nv(0), nx = abs2(al0);
    for (idx i = 0; i < n; i++) nv += abs2(v[i]);
    for (idx i = 1; i < n; i++) nx += abs2(z[i]);
    Q.eq(abs2(tau) * nv, SReal(2) * re(tau), "H^H H = I");
    Q.eq(im(al), SReal(0), "beta is real");
    Q.eq(re(al) * re(al), nx, "|beta| = norm");
    Q.add(f_or(eq(tau, T(0)), f_and(ge(re(tau), SReal(1)), le(re(tau), SReal(2)))), "tau = 0 or 1 <= re(tau) <= 2");
}
template <class T>
void reg(int nmax)
{
    const string t = tname<T>();
    struct Cl { const char* n; int lo, hi; bool zero; };
    for (Cl c : {Cl{"mid", -40, 40, true}, Cl{"tiny", -125, -122, false}, Cl{"tiny0", -110, -108, true}, Cl{"large", 100, 110, false}, Cl{"cross", -104, -98, true}, Cl{"zero", 0, 0, true}})
        for (int n = 0; n <= nmax; n++)
            for (StoreV st : {StoreV::Columnwise, StoreV::Rowwise})
                for (int form = 0; form < 3; form++) {
                    if (!thorough() && n == 2 && string(c.n) != "mid" && !(string(c.n) == "tiny0" && st == StoreV::Columnwise)) continue;
                    if (!thorough() && isC<T> && string(c.n) == "cross" && st == StoreV::Rowwise) continue;
                    if (form && isC<T> && !thorough() && (form == 1) == (st == StoreV::Columnwise)) continue;
                    if (form && string(c.n) != "mid" && string(c.n) != "zero") continue;
                    CaseOpts o;
                    o.nra_ms = 15000;
                    o.max_paths = 1000;
                    o.case_s = thorough() ? 150 : 35;
                    add_case(string("larfg_") + c.n + "_" + nm(st) + "_" + t + "_" + S(n) + "_" + S(form), o, [=] {
                        Vec<T> v(n + 1, 2), x(n, 2);
                        T al = input<T>("al");
                        if (string(c.n) == "zero") { if (isC<T>) assume(eq(im(al), SReal(0))); }
                        else mags(al, c.lo, c.hi, c.zero);
                        if constexpr (isC<T>)
                            if (!thorough() && (string(c.n) == "tiny" || string(c.n) == "large" || string(c.n) == "cross")) al = st == StoreV::Columnwise ? T(SReal(0), im(al)) : T(re(al), SReal(0));
                        vector<T> x0;
                        for (int i = 0; i < n; i++) {
                            T e = T(0);
                            if (string(c.n) != "zero") {
                                e = input<T>("x" + S(i));
                                mags(e, c.lo, c.hi, c.zero);
                                if constexpr (isC<T>)
                                    if (!thorough() && string(c.n) != "mid") {
                                        // smaller classes: one component of x, fixed signs
                                        e = T(st == StoreV::Columnwise ? re(e) : SReal(0), st == StoreV::Columnwise ? SReal(0) : im(e));
                                        assume(ge(im(al), SReal(0)));
                                        assume(ge(re(e) + im(e), SReal(0)));
                                    }
                            }
                            x0.push_back(e);
                            x[i] = e;
                            v[form == 2 ? i : i + 1] = e;
                        }
                        v[form == 2 ? n : 0] = al;
                        T al0 = al, tau = poison<T>();
                        if (form == 0) {
                            auto xv = x.view();
                            tl::larfg(st, al, xv, tau);
                        }
                        else {
                            auto vv = v.view();
                            if (form == 1) tl::larfg(tl::FORWARD, st, vv, tau);
                            else tl::larfg(tl::BACKWARD, st, vv, tau);
                            al = v[form == 2 ? n : 0];
                            for (int i = 0; i < n; i++) x[i] = v[form == 2 ? i : i + 1];
                        }
                        check_concrete(x.padding_ok() && v.padding_ok(), "storage around x");
                        if (string(c.n) == "zero") {
                            Batch Q;
                            Q.eq(tau, T(0), "tau = 0");
                            Q.eq(al, al0, "alpha unchanged");
                            return;
                        }
                        contract(st, al0, x0, al, x.d(), tau);
                    });
                }
}
void sx::register_all()
{
    covers("larfg,nrm2,lapy2,lapy3,rscl");
    bounds("larfg: x of length 0..2 (complex 0..1; thorough +1), entries of any sign with magnitudes in six classes (zero; 2^-40..2^40 or zero; around the safe minimum; far below it; near overflow)");
    reg<SReal>(thorough() ? 3 : 2);
    reg<SComplex>(thorough() ? 2 : 1);
}
