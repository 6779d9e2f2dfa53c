// plain loops with the interface of CBLAS (row-major and column-major)
#pragma once
#include <complex>
#include <vector>
enum CBLAS_ORDER { CblasRowMajor = 101, CblasColMajor = 102 };
enum CBLAS_TRANSPOSE { CblasNoTrans = 111, CblasTrans = 112, CblasConjTrans = 113 };
typedef CBLAS_ORDER CBLAS_LAYOUT;
namespace vfblas {
typedef std::complex<double> Z;
inline double cj(double x) { return x; }
inline Z cj(Z x) { return std::conj(x); }
template <class T> T el(const T *a, int i, int j, int ld, int order, int tr) {
    if (tr != CblasNoTrans) std::swap(i, j);
    T x = order == CblasRowMajor ? a[(long)i * ld + j] : a[(long)j * ld + i];
    return tr == CblasConjTrans ? cj(x) : x;
}
template <class T> void gemm(int o, int ta, int tb, int m, int n, int k, T al, const T *a, int lda, const T *b, int ldb, T be, T *c, int ldc) {
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < n; ++j) {
            T s = 0;
            for (int l = 0; l < k; ++l) s += el(a, i, l, lda, o, ta) * el(b, l, j, ldb, o, tb);
            T &x = o == CblasRowMajor ? c[(long)i * ldc + j] : c[(long)j * ldc + i];
            x = al * s + (be == T(0) ? T(0) : be * x);
        }
}
template <class T> void gemv(int o, int t, int m, int n, T al, const T *a, int lda, const T *x, int ix, T be, T *y, int iy) {
    int r = t == CblasNoTrans ? m : n, c = t == CblasNoTrans ? n : m;
    for (int i = 0; i < r; ++i) {
        T s = 0;
        for (int j = 0; j < c; ++j) s += el(a, i, j, lda, o, t) * x[(long)j * ix];
        y[(long)i * iy] = al * s + (be == T(0) ? T(0) : be * y[(long)i * iy]);
    }
}
}
#define Zp(x) static_cast<const vfblas::Z *>(static_cast<const void *>(x))
#define Zm(x) static_cast<vfblas::Z *>(static_cast<void *>(x))
inline void cblas_zgemm(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, const void *al, const void *a, int lda, const void *b, int ldb, const void *be, void *c, int ldc) { vfblas::gemm<vfblas::Z>(o, ta, tb, m, n, k, *Zp(al), Zp(a), lda, Zp(b), ldb, *Zp(be), Zm(c), ldc); }
inline void cblas_dgemm(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, double al, const double *a, int lda, const double *b, int ldb, double be, double *c, int ldc) { vfblas::gemm<double>(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); }
inline void cblas_zgemv(CBLAS_ORDER o, CBLAS_TRANSPOSE t, int m, int n, const void *al, const void *a, int lda, const void *x, int ix, const void *be, void *y, int iy) { vfblas::gemv<vfblas::Z>(o, t, m, n, *Zp(al), Zp(a), lda, Zp(x), ix, *Zp(be), Zm(y), iy); }
inline void cblas_dgemv(CBLAS_ORDER o, CBLAS_TRANSPOSE t, int m, int n, double al, const double *a, int lda, const double *x, int ix, double be, double *y, int iy) { vfblas::gemv<double>(o, t, m, n, al, a, lda, x, ix, be, y, iy); }
inline void cblas_zdotu_sub(int n, const void *x, int ix, const void *y, int iy, void *r) { vfblas::Z s = 0; for (int i = 0; i < n; ++i) s += Zp(x)[(long)i * ix] * Zp(y)[(long)i * iy]; *Zm(r) = s; }
inline void cblas_zdotc_sub(int n, const void *x, int ix, const void *y, int iy, void *r) { vfblas::Z s = 0; for (int i = 0; i < n; ++i) s += std::conj(Zp(x)[(long)i * ix]) * Zp(y)[(long)i * iy]; *Zm(r) = s; }
inline double cblas_ddot(int n, const double *x, int ix, const double *y, int iy) { double s = 0; for (int i = 0; i < n; ++i) s += x[(long)i * ix] * y[(long)i * iy]; return s; }
inline void cblas_zscal(int n, const void *a, void *x, int ix) { for (int i = 0; i < n; ++i) Zm(x)[(long)i * ix] *= *Zp(a); }
inline void cblas_zdscal(int n, double a, void *x, int ix) { for (int i = 0; i < n; ++i) Zm(x)[(long)i * ix] *= a; }
inline void cblas_dscal(int n, double a, double *x, int ix) { for (int i = 0; i < n; ++i) x[(long)i * ix] *= a; }
inline void cblas_zaxpy(int n, const void *a, const void *x, int ix, void *y, int iy) { for (int i = 0; i < n; ++i) Zm(y)[(long)i * iy] += *Zp(a) * Zp(x)[(long)i * ix]; }
inline void cblas_daxpy(int n, double a, const double *x, int ix, double *y, int iy) { for (int i = 0; i < n; ++i) y[(long)i * iy] += a * x[(long)i * ix]; }
inline void cblas_zcopy(int n, const void *x, int ix, void *y, int iy) { for (int i = 0; i < n; ++i) Zm(y)[(long)i * iy] = Zp(x)[(long)i * ix]; }
inline void cblas_dcopy(int n, const double *x, int ix, double *y, int iy) { for (int i = 0; i < n; ++i) y[(long)i * iy] = x[(long)i * ix]; }
