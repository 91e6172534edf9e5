// Contract of larfg (decided for the real code by property O01), used as a
// specialisation for symbolic scalars: y, tau and beta are fresh values about
// which only the documented relations are known.
#ifndef STUB_LARFG_HPP
#define STUB_LARFG_HPP
#include "refl.hpp"
#include <tlapack/lapack/larfg.hpp>
namespace stub {
template <class T>
struct Call {
    vector<T> z;      // (alpha, x) on entry
    T beta, tau;
    vector<T> y;
};
template <class T> inline vector<Call<T>>& calls() { static vector<Call<T>> c; return c; }
inline bool& unitary() { static bool u = false; return u; }  // also assume H^H H = I
inline int& maxcalls() { static int m = 1000; return m; }
inline void reset(bool u = false)
{
    calls<SReal>().clear();
    calls<SComplex>().clear();
    unitary() = u;
}
template <class T>
void larfg(StoreV st, T& alpha, vector<T>& x, T& tau)
{
    Call<T> c;
    c.z.push_back(alpha);
    for (auto& e : x) c.z.push_back(e);
    idx n = c.z.size();
    if (sx::concrete_mode()) {
        SReal s2(0), s(0);
        for (idx i = 1; i < n; i++) s2 += abs2(c.z[i]);
        s = s2 + abs2(alpha);
        tau = T(0);
        if (s2 > SReal(0) || im(alpha) != SReal(0)) {
            SReal b = sx::sqrt(s);
            SReal beta = (re(alpha) < SReal(0)) ? b : -b;
            tau = (T(beta) - alpha) / T(beta);
            for (auto& e : x) e = e / (alpha - T(beta));
            if (st == StoreV::Rowwise) tau = cj(tau);
            alpha = T(beta);
        }
    }
    else {
        string k = S(calls<T>().size());
        tau = sx::input<T>("tau_" + k);
        alpha = T(sx::var("beta_" + k));
        for (idx i = 0; i < x.size(); i++) x[i] = sx::input<T>("y_" + k + "_" + S(i));
        vector<T> v(n), z = c.z;
        v[0] = T(1);
        for (idx i = 1; i < n; i++) v[i] = st == StoreV::Columnwise ? x[i - 1] : cj(x[i - 1]);
        T s(0);
        if (st == StoreV::Columnwise) {
            for (idx i = 0; i < n; i++) s += cj(v[i]) * z[i];
            s = cj(tau) * s;
        }
        else {
            for (idx i = 0; i < n; i++) s += z[i] * v[i];
            s = s * tau;
        }
        for (idx i = 0; i < n; i++)
            sx::assume(sx::eq(z[i] - (st == StoreV::Columnwise ? v[i] : cj(v[i])) * s, i ? T(0) : alpha));
        if (unitary()) {
            SReal nv(0);
            for (idx i = 0; i < n; i++) nv += abs2(v[i]);
            sx::assume(sx::eq(abs2(tau) * nv, SReal(2) * re(tau)));
        }
    }
    c.beta = alpha;
    c.tau = tau;
    c.y = x;
    calls<T>().push_back(c);
    if ((int)calls<T>().size() > maxcalls()) sx::cut("number of reflectors");
}
}  // namespace stub
namespace tlapack {
template <TLAPACK_DIRECTION direction_t, TLAPACK_STOREV storage_t, class T, class idx_t, class int_t, Direction dir,
          std::enable_if_t<std::is_convertible_v<direction_t, Direction>, int> = 0,
          std::enable_if_t<std::is_same_v<T, sx::SReal> || std::is_same_v<T, sx::SComplex>, int> = 0>
void larfg(direction_t direction, storage_t st, LegacyVector<T, idx_t, int_t, dir>& v, T& tau)
{
    idx_t n = size(v);
    bool fw = direction == Direction::Forward;
    T alpha = v[fw ? 0 : n - 1];
    std::vector<T> x;
    for (idx_t i = 0; i + 1 < n; i++) x.push_back(v[fw ? i + 1 : i]);
    stub::larfg(StoreV(st), alpha, x, tau);
    v[fw ? 0 : n - 1] = alpha;
    for (idx_t i = 0; i + 1 < n; i++) v[fw ? i + 1 : i] = x[i];
}
template <TLAPACK_STOREV storage_t, class T, class idx_t, class int_t, Direction dir,
          std::enable_if_t<std::is_same_v<T, sx::SReal> || std::is_same_v<T, sx::SComplex>, int> = 0>
void larfg(storage_t st, T& alpha, LegacyVector<T, idx_t, int_t, dir>& v, T& tau)
{
    std::vector<T> x;
    for (idx_t i = 0; i < size(v); i++) x.push_back(v[i]);
    stub::larfg(StoreV(st), alpha, x, tau);
    for (idx_t i = 0; i < size(v); i++) v[i] = x[i];
}
}  // namespace tlapack
#endif
