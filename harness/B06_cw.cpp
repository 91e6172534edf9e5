// C and CBLAS wrappers (src/tlapack_cwrappers.cpp) against the definitions.
#define SYMX_IMPLICIT_INT 1
#include "b06.hpp"
#include <tlapack/legacy_api/blas.hpp>
#include "B06_cw_gen.hpp"

namespace enc {
inline cwc::Layout c(Layout l) { return l == Layout::RowMajor ? cwc::RowMajor : cwc::ColMajor; }
inline cwc::Op c(Op o) { return o == Op::NoTrans ? cwc::NoTrans : o == Op::Trans ? cwc::Trans : cwc::ConjTrans; }
inline cwc::Uplo c(Uplo u) { return u == Uplo::Upper ? cwc::Upper : cwc::Lower; }
inline cwc::Diag c(Diag d) { return d == Diag::Unit ? cwc::Unit : cwc::NonUnit; }
inline cwc::Side c(Side s) { return s == Side::Left ? cwc::Left : cwc::Right; }
inline cwb::CBLAS_LAYOUT b(Layout l) { return l == Layout::RowMajor ? cwb::CblasRowMajor : cwb::CblasColMajor; }
inline cwb::CBLAS_TRANSPOSE b(Op o) { return o == Op::NoTrans ? cwb::CblasNoTrans : o == Op::Trans ? cwb::CblasTrans : cwb::CblasConjTrans; }
inline cwb::CBLAS_UPLO b(Uplo u) { return u == Uplo::Upper ? cwb::CblasUpper : cwb::CblasLower; }
inline cwb::CBLAS_DIAG b(Diag d) { return d == Diag::Unit ? cwb::CblasUnit : cwb::CblasNonUnit; }
inline cwb::CBLAS_SIDE b(Side s) { return s == Side::Left ? cwb::CblasLeft : cwb::CblasRight; }
template <class V> V c(V v) { return v; }
template <class V> V b(V v) { return v; }
}  // namespace enc

// F(name) is the wrapper's function name, E the encoding of its enumerations
#define COMMON(T, F, E)                                                                                              \
    typedef SReal Rl;                                                                                                \
    static Rl asum(idx n, const T* x, long i) { return F(asum)(n, x, i); }                                           \
    static Rl nrm2(idx n, const T* x, long i) { return F(nrm2)(n, x, i); }                                           \
    static void scal(idx n, T a, T* x, long i) { F(scal)(n, a, x, i); }                                              \
    static void axpy(idx n, T a, const T* x, long i, T* y, long j) { F(axpy)(n, a, x, i, y, j); }                    \
    static void copy(idx n, const T* x, long i, T* y, long j) { F(copy)(n, x, i, y, j); }                            \
    static void swap(idx n, T* x, long i, T* y, long j) { F(swap)(n, x, i, y, j); }                                  \
    static T dot(idx n, const T* x, long i, const T* y, long j) { return F(dot)(n, x, i, y, j); }                    \
    static T dotu(idx n, const T* x, long i, const T* y, long j) { return F(dotu)(n, x, i, y, j); }                  \
    static void rot(idx n, T* x, long i, T* y, long j, Rl c, T s) { F(rot)(n, x, i, y, j, c, s); }                   \
    FW(gemv, F, E) FW(ger, F, E) FW(geru, F, E) FW(hemv, F, E) FW(symv, F, E) FW(her, F, E) FW(her2, F, E)           \
    FW(syr2, F, E) FW(trmv, F, E) FW(trsv, F, E) FW(gemm, F, E) FW(hemm, F, E) FW(symm, F, E) FW(herk, F, E)         \
    FW(syrk, F, E) FW(her2k, F, E) FW(syr2k, F, E) FW(trmm, F, E) FW(trsm, F, E)
#define FW(f, F, E) template <class... A> static void f(A... a) { F(f)(enc::E(a)...); }
#define NOTHING(...)

#define REALAPI(S, F, IA, E)                                                                                         \
    struct S {                                                                                                       \
        static const bool realrot = false, csyr = false;                                                             \
        COMMON(SReal, F, E)                                                                                          \
        FW(syr, F, E)                                                                                                \
        static size_t iamax(idx n, const SReal* x, long i) { return IA(n, x, i); }                                   \
        static void srot(...) {}                                                                                     \
        static void rotm(idx n, SReal* x, long i, SReal* y, long j, const SReal* h) { F(rotm)(n, x, i, y, j, h); }   \
        static void rotmg(SReal* d1, SReal* d2, SReal* a, SReal b, SReal* p) { F(rotmg)(d1, d2, a, b, p); }          \
        static void rotg(SReal* a, SReal* b, SReal* c, SReal* s) { F(rotg)(a, b, c, s); }                            \
    };
#define CPLXAPI(S, F, IA, SR, E)                                                                                     \
    struct S {                                                                                                       \
        static const bool realrot = true, csyr = false;                                                              \
        COMMON(SComplex, F, E)                                                                                       \
        static size_t iamax(idx n, const SComplex* x, long i) { return IA(n, x, i); }                                \
        static void srot(idx n, SComplex* x, long i, SComplex* y, long j, SReal c, SReal s) { SR(n, x, i, y, j, c, s); } \
        static void rotm(...) {}                                                                                     \
        template <class... A> static void syr(A...) {}                                                               \
        static void rotg(SComplex* a, SComplex* b, SReal* c, SComplex* s) { F(rotg)(a, b, c, s); }                   \
    };
#define CS(f) cwc::s##f
#define CD(f) cwc::d##f
#define CC(f) cwc::c##f
#define CZ(f) cwc::z##f
#define BS(f) cwb::cblas_s##f
#define BD(f) cwb::cblas_d##f
#define BC(f) cwb::cblas_c##f
#define BZ(f) cwb::cblas_z##f
REALAPI(Cs, CS, cwc::isamax, c)
REALAPI(Cd, CD, cwc::idamax, c)
CPLXAPI(Cc, CC, cwc::icamax, cwc::csrot, c)
CPLXAPI(Cz, CZ, cwc::izamax, cwc::zdrot, c)
REALAPI(Bs, BS, cwb::cblas_isamax, b)
REALAPI(Bd, BD, cwb::cblas_idamax, b)
CPLXAPI(Bc, BC, cwb::cblas_icamax, cwb::cblas_csrot, b)
CPLXAPI(Bz, BZ, cwb::cblas_izamax, cwb::cblas_zdrot, b)

// the generators of rotations return what the C++ routines return
template <class Api>
void gens(std::string p, SReal*)
{
    add_case(p + "rotg", [=] {
        Batch B;
        SReal a = var("a"), b = var("b"), c, s;
        for (SReal x : {a, b}) assume(gt(x, SReal(1))), assume(lt(x, SReal(2)));
        SReal a1 = a, b1 = b, c1, s1;
        Api::rotg(&a, &b, &c, &s);
        tlapack::rotg(a1, b1, c1, s1);
        B.eq(a, a1, "a"), B.eq(c, c1, "c"), B.eq(s, s1, "s");
    });
    static const double AB[][3] = {{1, 1, 0.5}, {3, -0.5, 2}, {-2, 5, 0.75}, {0.25, 8, -0.5}, {2, 0, 1}, {2, 3, -0.75}};
    for (auto& ab : AB)
        add_case(p + "rotmg_" + S(int(&ab - AB)), [=] {
            SReal d1 = var("d1"), d2 = SReal(ab[2]) * d1, a = SReal(ab[0]), b = SReal(ab[1]), h[5], g[4];
            assume(gt(d1, SReal(1)));
            assume(lt(d1, SReal(2)));
            for (auto& e : h) e = SReal(-7);
            SReal e1 = d1, e2 = d2, e3 = a;
            Api::rotmg(&d1, &d2, &a, b, h);
            int f = tlapack::rotmg(e1, e2, e3, b, g);
            Batch B;
            B.eq(d1, e1, "d1"), B.eq(d2, e2, "d2"), B.eq(a, e3, "a");
            B.eq(h[0], SReal(f), "flag");
            if (f == -1) for (int i = 0; i < 4; i++) B.eq(h[1 + i], g[i], "h");
            if (f == 0) B.eq(h[2], g[1], "h21"), B.eq(h[3], g[2], "h12");
            if (f == 1) B.eq(h[1], g[0], "h11"), B.eq(h[4], g[3], "h22");
        });
}
template <class Api>
void gens(std::string p, SComplex*)
{
    add_case(p + "rotg", [=] {
        Batch B;
        SReal x = var("x"), y = var("y");
        for (SReal z : {x, y}) assume(gt(z, SReal(1))), assume(lt(z, SReal(2)));
        SComplex a(x * SReal(3), x * SReal(4)), b(y * SReal(-5), y * SReal(12)), s, a1 = a, b1 = b, s1;
        SReal c, c1;
        Api::rotg(&a, &b, &c, &s);
        tlapack::rotg(a1, b1, c1, s1);
        B.eq(a, a1, "a"), B.eq(c, c1, "c"), B.eq(s, s1, "s");
    });
}
template <class T, class Api>
void one(std::string p)
{
    Blas<T, Api>::all(p, true);
    gens<Api>(p, (T*)nullptr);
}
void sx::register_all()
{
    covers("src/tlapack_cwrappers.cpp: all C and CBLAS wrappers (s, d, c, z)");
    bounds("C/CBLAS wrappers: vectors of length 0..3, matrices up to 2-by-2, float and double replaced by the symbolic real");
    one<SReal, Cs>("C_s_");
    one<SReal, Cd>("C_d_");
    one<SComplex, Cc>("C_c_");
    one<SComplex, Cz>("C_z_");
    one<SReal, Bs>("CB_s_");
    one<SReal, Bd>("CB_d_");
    one<SComplex, Bc>("CB_c_");
    one<SComplex, Bz>("CB_z_");
}
