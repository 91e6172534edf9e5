// Householder reflectors: dense oracles and the contract of larfg.
#ifndef REFL_HPP
#define REFL_HPP
#include "hx.hpp"
// I - tau v v^H
template <class T>
D<T> house(const vector<T>& v, const T& tau)
{
    idx n = v.size();
    D<T> H = D<T>::eye(n);
    for (idx i = 0; i < n; i++)
        for (idx j = 0; j < n; j++) H(i, j) -= tau * v[i] * cj(v[j]);
    return H;
}
// C := H C, C := C H with H = I - tau v v^H (without forming H: smaller terms)
template <class T>
void hleft(const vector<T>& v, const T& tau, D<T>& C)
{
    for (idx j = 0; j < C.n; j++) {
        T s(0);
        for (idx i = 0; i < C.m; i++) s += cj(v[i]) * C(i, j);
        s = tau * s;
        for (idx i = 0; i < C.m; i++) C(i, j) -= v[i] * s;
    }
}
template <class T>
void hright(const vector<T>& v, const T& tau, D<T>& C)
{
    for (idx i = 0; i < C.m; i++) {
        T s(0);
        for (idx j = 0; j < C.n; j++) s += C(i, j) * v[j];
        s = s * tau;
        for (idx j = 0; j < C.n; j++) C(i, j) -= s * cj(v[j]);
    }
}
// v_i of the i-th of k reflectors of order n kept in V (Columnwise: in column i, Rowwise: v^H in row i).
// Forward: v = [0..0 1 x] with the one at position i; Backward: v = [x 1 0..0], one at n-k+i.
template <class T>
vector<T> reflvec(const D<T>& V, idx n, idx k, idx i, Direction d, StoreV s)
{
    vector<T> v(n, T(0));
    idx p = d == Direction::Forward ? i : n - k + i;
    v[p] = T(1);
    for (idx j = 0; j < n; j++)
        if (d == Direction::Forward ? j > p : j < p) v[j] = s == StoreV::Columnwise ? V(j, i) : cj(V(i, j));
    return v;
}
inline bool vstored(idx n, idx k, idx i, idx j, Direction d)
{
    return d == Direction::Forward ? j > i : j < n - k + i;
}
// inputs for V; everything the documentation calls "not stored" keeps the sentinel
template <class M>
void in_refl(M& V, const string& nm, idx n, idx k, Direction d, StoreV s)
{
    typedef std::decay_t<decltype(V(0, 0))> T;
    for (idx i = 0; i < k; i++)
        for (idx j = 0; j < n; j++)
            if (vstored(n, k, i, j, d)) (s == StoreV::Columnwise ? V(j, i) : V(i, j)) = sx::input<T>(nm + S(j) + "_" + S(i));
}
inline string nm(Direction d) { return d == Direction::Forward ? "f" : "b"; }
inline string nm(StoreV s) { return s == StoreV::Columnwise ? "c" : "r"; }
#endif
