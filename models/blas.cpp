// Reference semantics of the BLAS/LAPACK entry points used by src/math/matrix.cpp, taken from the
// public interface descriptions.  Only used for the encoding: native replays use the installed library.
#include <cblas.h>
#include <lapack.h>
#include <lapacke.h>

namespace
{
template <class R>
struct C {
  R re;
  R im;
};
template <class R>
C<R> operator+(C<R> a, C<R> b) { return {a.re + b.re, a.im + b.im}; }
template <class R>
C<R> operator-(C<R> a, C<R> b) { return {a.re - b.re, a.im - b.im}; }
template <class R>
C<R> operator*(C<R> a, C<R> b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
template <class R>
C<R> operator/(C<R> a, C<R> b)
{
  R const d = b.re * b.re + b.im * b.im;
  return {(a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d};
}
template <class R>
bool isZero(C<R> a) { return a.re == 0 && a.im == 0; }
bool isZero(float a) { return a == 0; }
bool isZero(double a) { return a == 0; }
template <class R>
C<R> conjOf(C<R> a) { return {a.re, -a.im}; }
float conjOf(float a) { return a; }
double conjOf(double a) { return a; }

template <class T>
T at(T const * a, int ld, int order, int tr, int i, int j)
{
  if (tr != CblasNoTrans) {
    int const t = i;
    i = j;
    j = t;
  }
  T const v = order == CblasColMajor ? a[static_cast<long>(j) * ld + i] : a[static_cast<long>(i) * ld + j];
  return tr == CblasConjTrans ? conjOf(v) : v;
}
template <class T>
void gemv(int order, int tr, int m, int n, T alpha, T const * a, int lda, T const * x, int incx, T beta, T * y, int incy)
{
  int const rows = tr == CblasNoTrans ? m : n;
  int const cols = tr == CblasNoTrans ? n : m;
  for (int i = 0; i < rows; ++i) {
    T s{};
    for (int j = 0; j < cols; ++j) {
      s = s + at(a, lda, order, tr, i, j) * x[static_cast<long>(j) * incx];
    }
    s = alpha * s;
    T * p = y + static_cast<long>(i) * incy;
    *p = isZero(beta) ? s : s + beta * *p;
  }
}
template <class T>
void gemm(int order, int ta, int tb, int m, int n, int k, T alpha, T const * a, int lda, T const * b, int ldb, T beta, T * c, int ldc)
{
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i < m; ++i) {
      T s{};
      for (int l = 0; l < k; ++l) {
        s = s + at(a, lda, order, ta, i, l) * at(b, ldb, order, tb, l, j);
      }
      s = alpha * s;
      T * p = order == CblasColMajor ? c + static_cast<long>(j) * ldc + i : c + static_cast<long>(i) * ldc + j;
      *p = isZero(beta) ? s : s + beta * *p;
    }
  }
}
// Solution by elimination; rows are exchanged only when the pivot is exactly zero
template <class T>
int gesv(int layout, int n, int nrhs, T * a, int lda, int * ipiv, T * b, int ldb)
{
  int const cm = layout == LAPACK_COL_MAJOR;
  auto A = [&](int i, int j) -> T & { return cm ? a[static_cast<long>(j) * lda + i] : a[static_cast<long>(i) * lda + j]; };
  auto B = [&](int i, int j) -> T & { return cm ? b[static_cast<long>(j) * ldb + i] : b[static_cast<long>(i) * ldb + j]; };
  for (int k = 0; k < n; ++k) {
    int p = k;
    while (p < n && isZero(A(p, k))) {
      ++p;
    }
    if (p == n) {
      return k + 1;
    }
    ipiv[k] = p + 1;
    if (p != k) {
      for (int j = 0; j < n; ++j) {
        T const t = A(k, j);
        A(k, j) = A(p, j);
        A(p, j) = t;
      }
      for (int j = 0; j < nrhs; ++j) {
        T const t = B(k, j);
        B(k, j) = B(p, j);
        B(p, j) = t;
      }
    }
    for (int i = k + 1; i < n; ++i) {
      T const f = A(i, k) / A(k, k);
      A(i, k) = f;
      for (int j = k + 1; j < n; ++j) {
        A(i, j) = A(i, j) - f * A(k, j);
      }
      for (int j = 0; j < nrhs; ++j) {
        B(i, j) = B(i, j) - f * B(k, j);
      }
    }
  }
  for (int j = 0; j < nrhs; ++j) {
    for (int i = n - 1; i >= 0; --i) {
      T s = B(i, j);
      for (int l = i + 1; l < n; ++l) {
        s = s - A(i, l) * B(l, j);
      }
      B(i, j) = s / A(i, i);
    }
  }
  return 0;
}
// Eigenvalues of a matrix that is upper triangular, or of a real 2x2 rotation-like block
// [[p, q], [-q, p]].  Anything else is outside the model and answers with a nonzero info.
template <class R>
int geevReal(int layout, char jl, char jr, int n, R * a, int lda, R * wr, R * wi, int ldvl, int ldvr, R * work, int lwork)
{
  if (n < 0 || lda < (n > 1 ? n : 1) || ldvl < 1 || ldvr < 1 || layout != LAPACK_COL_MAJOR || jl != 'N' || jr != 'N' || lwork < 3 * n) {
    return -99;
  }
  for (int i = 0; i < lwork; ++i) {
    work[i] = static_cast<R>(-7);
  }
  auto A = [&](int i, int j) -> R { return a[static_cast<long>(j) * lda + i]; };
  bool tri = true;
  for (int j = 0; j < n; ++j) {
    for (int i = j + 1; i < n; ++i) {
      tri = tri && A(i, j) == 0;
    }
  }
  if (tri) {
    for (int i = 0; i < n; ++i) {
      wr[i] = A(i, i);
      wi[i] = 0;
    }
  } else if (n == 2 && A(0, 0) == A(1, 1) && A(0, 1) == -A(1, 0)) {
    R const q = A(1, 0) < 0 ? -A(1, 0) : A(1, 0);
    wr[0] = A(0, 0);
    wr[1] = A(0, 0);
    wi[0] = q;
    wi[1] = -q;
  } else {
    return 99;
  }
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i < n; ++i) {
      a[static_cast<long>(j) * lda + i] = static_cast<R>(-7);
    }
  }
  return 0;
}
template <class R>
int geevComplex(int layout, char jl, char jr, int n, C<R> * a, int lda, C<R> * w, int ldvl, int ldvr, C<R> * work, int lwork, R * rwork)
{
  if (n < 0 || lda < (n > 1 ? n : 1) || ldvl < 1 || ldvr < 1 || layout != LAPACK_COL_MAJOR || jl != 'N' || jr != 'N' || lwork < 2 * n) {
    return -99;
  }
  for (int i = 0; i < lwork; ++i) {
    work[i] = {static_cast<R>(-7), 0};
  }
  for (int i = 0; i < 2 * n; ++i) {
    rwork[i] = static_cast<R>(-7);
  }
  for (int j = 0; j < n; ++j) {
    for (int i = j + 1; i < n; ++i) {
      if (!isZero(a[static_cast<long>(j) * lda + i])) {
        return 99;
      }
    }
  }
  for (int i = 0; i < n; ++i) {
    w[i] = a[static_cast<long>(i) * lda + i];
  }
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i < n; ++i) {
      a[static_cast<long>(j) * lda + i] = {static_cast<R>(-7), 0};
    }
  }
  return 0;
}
using cf = C<float>;
using cd = C<double>;
} // namespace

extern "C" {
#define GEMV(P, T)                                                                                                                        \
  void cblas_##P##gemv(CBLAS_LAYOUT o, CBLAS_TRANSPOSE t, int m, int n, T al, T const * a, int lda, T const * x, int ix, T be, T * y, int iy) \
  {                                                                                                                                       \
    gemv<T>(o, t, m, n, al, a, lda, x, ix, be, y, iy);                                                                                    \
  }                                                                                                                                       \
  void cblas_##P##gemm(CBLAS_LAYOUT o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, T al, T const * a, int lda,           \
                       T const * b, int ldb, T be, T * c, int ldc)                                                                        \
  {                                                                                                                                       \
    gemm<T>(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc);                                                                          \
  }
GEMV(s, float)
GEMV(d, double)
#define GEMVC(P, T)                                                                                                                       \
  void cblas_##P##gemv(CBLAS_LAYOUT o, CBLAS_TRANSPOSE t, int m, int n, void const * al, void const * a, int lda, void const * x, int ix, \
                       void const * be, void * y, int iy)                                                                                 \
  {                                                                                                                                       \
    gemv<T>(o, t, m, n, *static_cast<T const *>(al), static_cast<T const *>(a), lda, static_cast<T const *>(x), ix,                       \
            *static_cast<T const *>(be), static_cast<T *>(y), iy);                                                                        \
  }                                                                                                                                       \
  void cblas_##P##gemm(CBLAS_LAYOUT o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, void const * al, void const * a,      \
                       int lda, void const * b, int ldb, void const * be, void * c, int ldc)                                              \
  {                                                                                                                                       \
    gemm<T>(o, ta, tb, m, n, k, *static_cast<T const *>(al), static_cast<T const *>(a), lda, static_cast<T const *>(b), ldb,              \
            *static_cast<T const *>(be), static_cast<T *>(c), ldc);                                                                       \
  }
GEMVC(c, cf)
GEMVC(z, cd)

lapack_int LAPACKE_sgesv(int l, lapack_int n, lapack_int r, float * a, lapack_int lda, lapack_int * p, float * b, lapack_int ldb)
{
  return gesv<float>(l, n, r, a, lda, p, b, ldb);
}
lapack_int LAPACKE_dgesv(int l, lapack_int n, lapack_int r, double * a, lapack_int lda, lapack_int * p, double * b, lapack_int ldb)
{
  return gesv<double>(l, n, r, a, lda, p, b, ldb);
}
lapack_int LAPACKE_cgesv(int l, lapack_int n, lapack_int r, lapack_complex_float * a, lapack_int lda, lapack_int * p,
                         lapack_complex_float * b, lapack_int ldb)
{
  return gesv<cf>(l, n, r, reinterpret_cast<cf *>(a), lda, p, reinterpret_cast<cf *>(b), ldb);
}
lapack_int LAPACKE_zgesv(int l, lapack_int n, lapack_int r, lapack_complex_double * a, lapack_int lda, lapack_int * p,
                         lapack_complex_double * b, lapack_int ldb)
{
  return gesv<cd>(l, n, r, reinterpret_cast<cd *>(a), lda, p, reinterpret_cast<cd *>(b), ldb);
}
lapack_int LAPACKE_sgeev_work(int l, char jl, char jr, lapack_int n, float * a, lapack_int lda, float * wr, float * wi, float *, lapack_int vl,
                              float *, lapack_int vr, float * w, lapack_int lw)
{
  return geevReal<float>(l, jl, jr, n, a, lda, wr, wi, vl, vr, w, lw);
}
lapack_int LAPACKE_dgeev_work(int l, char jl, char jr, lapack_int n, double * a, lapack_int lda, double * wr, double * wi, double *,
                              lapack_int vl, double *, lapack_int vr, double * w, lapack_int lw)
{
  return geevReal<double>(l, jl, jr, n, a, lda, wr, wi, vl, vr, w, lw);
}
lapack_int LAPACKE_cgeev_work(int l, char jl, char jr, lapack_int n, lapack_complex_float * a, lapack_int lda, lapack_complex_float * w,
                              lapack_complex_float *, lapack_int vl, lapack_complex_float *, lapack_int vr, lapack_complex_float * wk,
                              lapack_int lw, float * rw)
{
  return geevComplex<float>(l, jl, jr, n, reinterpret_cast<cf *>(a), lda, reinterpret_cast<cf *>(w), vl, vr, reinterpret_cast<cf *>(wk), lw, rw);
}
lapack_int LAPACKE_zgeev_work(int l, char jl, char jr, lapack_int n, lapack_complex_double * a, lapack_int lda, lapack_complex_double * w,
                              lapack_complex_double *, lapack_int vl, lapack_complex_double *, lapack_int vr, lapack_complex_double * wk,
                              lapack_int lw, double * rw)
{
  return geevComplex<double>(l, jl, jr, n, reinterpret_cast<cd *>(a), lda, reinterpret_cast<cd *>(w), vl, vr, reinterpret_cast<cd *>(wk), lw, rw);
}
}
