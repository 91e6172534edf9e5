// Contract of rotg (decided for the real code by property B01): c real, c^2 + |s|^2 = 1,
// [c s; -conj(s) c] (a, b)^T = (r, 0)^T.  Non-template overloads found by ADL.
#ifndef STUB_ROTG_HPP
#define STUB_ROTG_HPP
#include "hx.hpp"
namespace stubr {
inline int& count() { static int c = 0; return c; }
template <class T> struct Call { T a, b, s, r; SReal c; };
template <class T> std::vector<Call<T>>& calls() { static std::vector<Call<T>> v; return v; }
inline void reset() { count() = 0; calls<SReal>().clear(); calls<SComplex>().clear(); }
template <class T>
void rotg(T& a, const T& b, SReal& c, T& s)
{
    T a0 = a, b0 = b;
    // equal operands, equal result
    if (!sx::concrete_mode())
        for (auto& q : calls<T>())
            if (sx::same(q.a, a0) && sx::same(q.b, b0)) { c = q.c; s = q.s; a = q.r; return; }
    string k = S(count()++);
    if (sx::concrete_mode()) {
        SReal na = abs2(a0), nb = abs2(b0);
        if (!(nb > SReal(0))) { c = SReal(1); s = T(0); return; }
        if (!(na > SReal(0))) {
            SReal r = sx::sqrt(nb);
            c = SReal(0);
            s = cj(b0) / T(r);
            a = T(r);
            return;
        }
        SReal d = sx::sqrt(na + nb), aa = sx::sqrt(na);
        c = aa / d;
        s = a0 / T(aa) * cj(b0) / T(d);
        a = a0 / T(aa) * T(d);
        return;
    }
    c = sx::var("c_" + k);
    s = sx::input<T>("s_" + k);
    a = sx::input<T>("r_" + k);
    sx::assume(sx::eq(a, T(c) * a0 + s * b0));
    sx::assume(sx::eq(T(c) * b0 - cj(s) * a0, T(0)));
    sx::assume(sx::eq(c * c + abs2(s), SReal(1)));
    calls<T>().push_back({a0, b0, s, a, c});
}
}  // namespace stubr
namespace sx {
inline void rotg(SReal& a, SReal& b, SReal& c, SReal& s)
{
    SReal bb = b;
    stubr::rotg(a, bb, c, s);
    b = poison<SReal>();
}
inline void rotg(SComplex& a, const SComplex& b, SReal& c, SComplex& s) { stubr::rotg(a, b, c, s); }
}  // namespace sx
#endif
