// Legacy (pointer based) BLAS interface against the definitions.
#include "b06.hpp"
namespace lg = tlapack::legacy;
template <class T>
struct Lg {
    static const bool realrot = false, csyr = true;
    typedef SReal Rl;
    static Rl asum(idx n, const T* x, long i) { return lg::asum<T>(n, x, i); }
    static Rl nrm2(idx n, const T* x, long i) { return lg::nrm2<T>(n, x, i); }
    static size_t iamax(idx n, const T* x, long i) { return lg::iamax<T>(n, x, i); }
    static void scal(idx n, T a, T* x, long i) { lg::scal<T, T>(n, a, x, i); }
    static void axpy(idx n, T a, const T* x, long i, T* y, long j) { lg::axpy<T, T>(n, a, x, i, y, j); }
    static void copy(idx n, const T* x, long i, T* y, long j) { lg::copy<T, T>(n, x, i, y, j); }
    static void swap(idx n, T* x, long i, T* y, long j) { lg::swap<T, T>(n, x, i, y, j); }
    static T dot(idx n, const T* x, long i, const T* y, long j) { return lg::dot<T, T>(n, x, i, y, j); }
    static T dotu(idx n, const T* x, long i, const T* y, long j) { return lg::dotu<T, T>(n, x, i, y, j); }
    static void rot(idx n, T* x, long i, T* y, long j, Rl c, T s) { lg::rot<T, T>(n, x, i, y, j, c, s); }
    static void srot(idx n, T* x, long i, T* y, long j, Rl c, Rl s) {}
    static void rotm(idx n, T* x, long i, T* y, long j, const T* h) { lg::rotm<T, T>(n, x, i, y, j, h); }
    template <class... A> static void gemv(A... a) { lg::gemv<T, T, T>(a...); }
    template <class... A> static void ger(A... a) { lg::ger<T, T, T>(a...); }
    template <class... A> static void geru(A... a) { lg::geru<T, T, T>(a...); }
    template <class... A> static void hemv(A... a) { lg::hemv<T, T, T>(a...); }
    template <class... A> static void symv(A... a) { lg::symv<T, T, T>(a...); }
    template <class... A> static void her(A... a) { lg::her<T, T>(a...); }
    template <class... A> static void syr(A... a) { lg::syr<T, T>(a...); }
    template <class... A> static void her2(A... a) { lg::her2<T, T, T>(a...); }
    template <class... A> static void syr2(A... a) { lg::syr2<T, T, T>(a...); }
    template <class... A> static void trmv(A... a) { lg::trmv<T, T>(a...); }
    template <class... A> static void trsv(A... a) { lg::trsv<T, T>(a...); }
    template <class... A> static void gemm(A... a) { lg::gemm<T, T, T>(a...); }
    template <class... A> static void hemm(A... a) { lg::hemm<T, T, T>(a...); }
    template <class... A> static void symm(A... a) { lg::symm<T, T, T>(a...); }
    template <class... A> static void herk(A... a) { lg::herk<T, T>(a...); }
    template <class... A> static void syrk(A... a) { lg::syrk<T, T>(a...); }
    template <class... A> static void her2k(A... a) { lg::her2k<T, T, T>(a...); }
    template <class... A> static void syr2k(A... a) { lg::syr2k<T, T, T>(a...); }
    template <class... A> static void trmm(A... a) { lg::trmm<T, T>(a...); }
    template <class... A> static void trsm(A... a) { lg::trsm<T, T>(a...); }
};
void sx::register_all()
{
    covers("legacy::asum,nrm2,iamax,scal,axpy,copy,swap,dot,dotu,rot,rotm,gemv,ger,geru,hemv,symv,her,syr,her2,syr2,trmv,trsv,gemm,hemm,symm,herk,syrk,her2k,syr2k,trmm,trsm");
    bounds("legacy API: vectors of length 0..3, increments 1, 2, -1, -2; matrices up to 3-by-3, inner dimension 0..3; leading dimension larger than needed; alpha 0 or symbolic, beta 0, 1 or symbolic");
    Blas<SReal, Lg<SReal>>::all("r", false);
    Blas<SComplex, Lg<SComplex>>::all("c", false);
}
