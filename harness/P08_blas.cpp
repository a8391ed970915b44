// Dynamic matrices, BLAS/LAPACK code path
// @bounds every shape with 1..3 rows and columns (4 in thorough); elements any real in [-100, 100]; float, double, complex float, complex double; systems of order 1..2 (3 for double; complex order 2 with the first coefficient fixed) with 1..2 right sides; eigenvalues of triangular matrices of order 1..3 and of 2x2 rotation blocks
// @outside rounding; the inside of BLAS and LAPACK; empty matrices; eigenvalues of general matrices
// @stub models/blas.cpp states the documented meaning of cblas_*gemv, cblas_*gemm, LAPACKE_*gesv and LAPACKE_*geev_work; native replays call the installed library
// @src src/math/matrix.cpp
// @config UM2_USE_BLAS_LAPACK=1
// @models blas
// @native -llapacke -lopenblas
#include "p08.inc"
// @entry h_be_c mode=real
extern "C" void h_be_c() { elementwise<Complex<float>>(); }
// @entry h_bp_d mode=real
extern "C" void h_bp_d() { products<double>(); }
// @entry h_bp_f mode=real
extern "C" void h_bp_f() { products<float>(); }
// @entry h_bp_c mode=real
extern "C" void h_bp_c() { products<Complex<float>>(); }
// @entry h_bp_z mode=real
extern "C" void h_bp_z() { products<Complex<double>>(); }

template <class T>
static T magnitude(T a)
{
  return a < 0 ? -a : a;
}
template <class T>
static void solve(Int nmax)
{
  using N = Num<T>;
  Int const n = 1 + vx_choice("n", nmax);
  Int const r = 1 + vx_choice("r", 2);
  Matrix<T> am = anyMatrix<T>(n, n, "a");
  if constexpr (!std::is_same_v<T, float> && !std::is_same_v<T, double>) {
    if (n > 1) {
      am(0, 0) = T(2, -3); // keeps the second pivot polynomial
    }
  }
  Matrix<T> const a = am;
  Matrix<T> const b = anyMatrix<T>(n, r, "b");
  // well away from singular: leading minors bounded below
  if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double>) {
    vx_assume(a(0, 0) > 1);
    if (n > 1) {
      vx_assume(a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0) > 1);
    }
    if (n > 2) {
      vx_assume(a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) +
                    a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0)) >
                1);
    }
  } else {
    if (n == 1) {
      vx_assume(a(0, 0).real() > 1);
    }
    if (n > 1) {
      vx_assume(N::sub(N::mul(a(0, 0), a(1, 1)), N::mul(a(0, 1), a(1, 0))).real() > 1);
    }
  }
  Matrix<T> const a0 = a;
  Matrix<T> const b0 = b;
  Matrix<T> const x = um2::linearSolve(a, b);
  Matrix<T> lu = a;
  Matrix<T> y = b;
  Vector<Int> ipiv(n);
  um2::linearSolve(lu, y, ipiv);
  vx_assert(x.rows() == n && x.cols() == r, "solution shape");
  for (Int j = 0; j < r; ++j) {
    for (Int i = 0; i < n; ++i) {
      T s(0);
      T t(0);
      for (Int k = 0; k < n; ++k) {
        s = N::add(s, N::mul(a0(i, k), x(k, j)));
        t = N::add(t, N::mul(a0(i, k), y(k, j)));
      }
      N::same(s, b0(i, j), "the solution satisfies the system");
      N::same(t, b0(i, j), "the in-place solution satisfies the system");
      N::same(b(i, j), b0(i, j), "the right side is not modified");
    }
  }
  for (Int i = 0; i < n * n; ++i) {
    N::same(a(i), a0(i), "the coefficients are not modified");
  }
}
// @entry h_bs_d mode=real
extern "C" void h_bs_d() { solve<double>(3); }
// @entry h_bs_f mode=real
extern "C" void h_bs_f() { solve<float>(2); }
// @entry h_bs_c mode=real
extern "C" void h_bs_c() { solve<Complex<float>>(2); }
// @entry h_bs_z mode=real
extern "C" void h_bs_z() { solve<Complex<double>>(2); }

template <class T>
static void eigen()
{
  using N = Num<T>;
  Int const n = 1 + vx_choice("n", 3);
  Matrix<T> a = anyMatrix<T>(n, n, "a");
  for (Int j = 0; j < n; ++j) {
    for (Int i = j + 1; i < n; ++i) {
      a(i, j) = T(0);
    }
  }
  Matrix<T> const a0 = a;
  auto const w = um2::eigvals(a);
  vx_assert(w.size() == n, "one eigenvalue per row");
  for (Int i = 0; i < n; ++i) {
    if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double>) {
      N::same(w[i].real(), a0(i, i), "eigenvalues of a triangular matrix");
      N::same(w[i].imag(), T(0), "eigenvalues of a triangular matrix");
    } else {
      N::same(w[i], a0(i, i), "eigenvalues of a triangular matrix");
    }
  }
  for (Int i = 0; i < n * n; ++i) {
    N::same(a(i), a0(i), "the matrix is not modified");
  }
}
// @entry h_bw_d mode=real
extern "C" void h_bw_d() { eigen<double>(); }
// @entry h_bw_f mode=real
extern "C" void h_bw_f() { eigen<float>(); }
// @entry h_bw_c mode=real
extern "C" void h_bw_c() { eigen<Complex<float>>(); }
// @entry h_bw_z mode=real
extern "C" void h_bw_z() { eigen<Complex<double>>(); }

// Complex pairs
template <class T>
static void rotation()
{
  T const p = static_cast<T>(vx_real("p", -100, 100));
  T const q = static_cast<T>(vx_real("q", 0.5, 100));
  Matrix<T> a(2, 2);
  a(0, 0) = p;
  a(1, 1) = p;
  a(0, 1) = -q;
  a(1, 0) = q;
  auto const w = um2::eigvals(a);
  Num<T>::same(w[0].real(), p, "real part of a conjugate pair");
  Num<T>::same(w[1].real(), p, "real part of a conjugate pair");
  Num<T>::same(w[0].imag(), q, "imaginary part of a conjugate pair");
  Num<T>::same(w[1].imag(), -q, "imaginary part of a conjugate pair");
}
// @entry h_br_d mode=real
extern "C" void h_br_d() { rotation<double>(); }
// @entry h_br_f mode=real
extern "C" void h_br_f() { rotation<float>(); }
