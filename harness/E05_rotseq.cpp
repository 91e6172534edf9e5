// rot_sequence and rot_sequence3 against the product of the plane rotations applied one after the other.
#include "hx.hpp"
#include <tlapack/lapack/rot_sequence.hpp>
#include <tlapack/lapack/rot_sequence3.hpp>
using namespace sx;
// one rotation on rows (columns) i, i+1
template <class T>
static void one_rot(D<T>& A, bool left, idx i, const SReal& c, const T& s)
{
    if (left)
        for (idx j = 0; j < A.n; j++) {
            T x = A(i, j), y = A(i + 1, j);
            A(i, j) = T(c) * x + s * y;
            A(i + 1, j) = T(c) * y - cj(s) * x;
        }
    else
        for (idx r = 0; r < A.m; r++) {
            T x = A(r, i), y = A(r, i + 1);
            A(r, i) = T(c) * x + cj(s) * y;
            A(r, i + 1) = T(c) * y - s * x;
        }
}
template <class T, Layout L, Layout LC>
static void one_case(const string& name, bool left, bool fwd, idx m, idx n, idx l, bool three, std::vector<idx> live)
{
    CaseOpts o;
    o.case_s = thorough() ? 120 : 30;
    add_case(name, o, [=] {
        idx d = left ? m : n, k = d ? d - 1 : 0;
        Mat<T, L> A(m, n);
        for (idx i = 0; i < m; i++)
            for (idx j = 0; j < n; j++) {
                bool on = live.empty();
                for (idx q : live) on = on || q == (left ? j : i);
                A(i, j) = on ? input<T>("a" + S(i) + "_" + S(j)) : T(0);
            }
        Mat<SReal, LC> C(k, l);
        Mat<T, LC> Sm(k, l);
        C.in("c");
        Sm.in("s");
        auto C0 = C.d();
        auto S0 = Sm.d();
        auto E = A.d();
        auto Av = A.view();
        auto Cv = C.view();
        auto Sv = Sm.view();
        tl::Side side = left ? tl::Side::Left : tl::Side::Right;
        tl::Direction dir = fwd ? tl::Direction::Forward : tl::Direction::Backward;
        if (three) tl::rot_sequence3(side, dir, Cv, Sv, Av);
        else {
            auto c = tl::col(Cv, 0);
            auto s = tl::col(Sv, 0);
            int info = tl::rot_sequence(side, dir, c, s, Av);
            check_concrete(info == 0, "info");
        }
        check_concrete(A.padding_ok() && C.padding_ok() && Sm.padding_ok(), "storage around the operands");
        check_concrete(unchanged(C.d(), C0) && unchanged(Sm.d(), S0), "rotations unchanged");
        for (idx j = 0; j < l; j++)
            for (idx q = 0; q < k; q++) {
                idx i = fwd ? k - 1 - q : q;
                one_rot(E, left, i, C0(i, j), S0(i, j));
            }
        Batch Q;
        eqm(Q, A.d(), E, "rotations applied in order");
    });
}
template <class T, Layout L>
static void reg()
{
    const string t = tname<T>() + nm(L);
    const bool th = thorough();
    for (int lf = 0; lf < 4; lf++) {
        bool left = lf & 1, fwd = lf & 2;
        string f = string(left ? "L" : "R") + (fwd ? "F" : "B");
        idx dmax = isC<T> ? (th ? 6 : 5) : (th ? 9 : 7);
        for (idx d = 0; d <= dmax; d++)
            for (idx o : {0, 1, 2}) {
                if (isC<T> && o == 2 && d > 4) continue;
                idx m = left ? d : o, n = left ? o : d;
                one_case<T, L, Layout::ColMajor>("rotseq_" + t + f + "_" + S(d) + "_" + S(o), left, fwd, m, n, 1, false, {});
            }
        idx l3 = isC<T> ? 3 : (th ? 5 : 4);
        for (idx l = 0; l <= l3; l++)
            for (idx d = 0; d <= (isC<T> ? idx(th ? 5 : 4) : idx(th ? 8 : 6)); d++) {
                if (d && (d - 1) * l > (isC<T> ? 9 : (th ? 20 : 15))) continue;
                for (idx o : {0, 1, 2}) {
                    if (o == 2 && d > 4) continue;
                    idx m = left ? d : o, n = left ? o : d;
                    one_case<T, L, Layout::ColMajor>("rotseq3_" + t + f + "_" + S(d) + "_l" + S(l) + "_" + S(o), left, fwd, m, n, l, true, {});
                    if (o == 1 && d < 5) one_case<T, L, Layout::RowMajor>("rotseq3r_" + t + f + "_" + S(d) + "_l" + S(l) + "_" + S(o), left, fwd, m, n, l, true, {});
                }
            }
        // more than one block of 256 rows or columns: a few of them carry data
        for (idx d : {3, 4, 5}) {
            
            idx o = 513;
            idx m = left ? d : o, n = left ? o : d;
            for (idx l = d == 5 && !th ? 3 : 1; l < (d == 5 && !th ? 4 : d); l++)
                one_case<T, L, Layout::ColMajor>("rotseq3_" + t + f + "_" + S(d) + "_l" + S(l) + "_513", left, fwd, m, n, l, true, {0, 255, 256, 511, 512});
        }
    }
}
void sx::register_all()
{
    covers("rot_sequence,rot_sequence3,rot");
    bounds("rot_sequence: up to 6 rotations (complex 4; thorough 8 / 5), 0..2 rows or columns; rot_sequence3: up to 4 sequences (complex 3; thorough 5) of up to 5 rotations, 0..2 rows or columns, and 513 of them (five carrying symbolic data) for the blocking by 256");
    reg<SReal, Layout::ColMajor>();
    reg<SReal, Layout::RowMajor>();
    reg<SComplex, Layout::ColMajor>();
    reg<SComplex, Layout::RowMajor>();
}
