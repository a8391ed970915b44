#include "vrt.hpp"
#include <um2/math/matrix.hpp>

using um2::Matrix;
using um2::Vector;

template <class T>
struct Num {
  static T any(char const * n) { return static_cast<T>(vx_real(n, -100, 100)); }
  static void same(T a, T b, char const * l) { vx_near(static_cast<double>(a), static_cast<double>(b), 0, l); }
  static T conjOf(T a) { return a; }
  static T mul(T a, T b) { return a * b; }
  static T add(T a, T b) { return a + b; }
  static T sub(T a, T b) { return a - b; }
};
template <class R>
struct Num<Complex<R>> {
  using T = Complex<R>;
  static T any(char const * n)
  {
    R const a = static_cast<R>(vx_real(n, -100, 100));
    R const b = static_cast<R>(vx_real(n, -100, 100));
    return T(a, b);
  }
  static void same(T a, T b, char const * l)
  {
    vx_near(static_cast<double>(a.real()), static_cast<double>(b.real()), 0, l);
    vx_near(static_cast<double>(a.imag()), static_cast<double>(b.imag()), 0, l);
  }
  static T conjOf(T a) { return T(a.real(), -a.imag()); }
  static T mul(T a, T b) { return T(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
  static T add(T a, T b) { return T(a.real() + b.real(), a.imag() + b.imag()); }
  static T sub(T a, T b) { return T(a.real() - b.real(), a.imag() - b.imag()); }
};

template <class T>
static Matrix<T> anyMatrix(Int m, Int n, char const * name)
{
  Matrix<T> a(m, n);
  for (Int j = 0; j < n; ++j) {
    for (Int i = 0; i < m; ++i) {
      a(i, j) = Num<T>::any(name);
    }
  }
  return a;
}

// Element access, identity, sums, differences, scaling, transposition
template <class T>
static void elementwise()
{
  using N = Num<T>;
  Int const hi = vx_tier() > 0 ? 4 : 3;
  Int const m = 1 + vx_choice("m", hi);
  Int const n = 1 + vx_choice("n", hi);
  Matrix<T> const a = anyMatrix<T>(m, n, "a");
  Matrix<T> const b = anyMatrix<T>(m, n, "b");
  T const s = N::any("s");
  vx_assert(a.rows() == m && a.cols() == n, "requested shape");
  vx_assert(a.end() - a.begin() == static_cast<ptrdiff_t>(m) * n && a.asVector().size() == m * n, "storage covers every element");
  auto const sum = a + b;
  auto const dif = a - b;
  Matrix<T> c = a;
  c += b;
  Matrix<T> d = a;
  d -= b;
  Matrix<T> e = a;
  e *= s;
  Matrix<T> z = a;
  z.zero();
  Matrix<T> const f(m, n, s);
  for (Int j = 0; j < n; ++j) {
    for (Int i = 0; i < m; ++i) {
      N::same(a(j * m + i), a(i, j), "linear index is column major");
      vx_assert(&a(i, j) == a.data() + j * m + i, "storage is contiguous by column");
      N::same(sum(i, j), N::add(a(i, j), b(i, j)), "sum");
      N::same(dif(i, j), N::sub(a(i, j), b(i, j)), "difference");
      N::same(c(i, j), N::add(a(i, j), b(i, j)), "in-place sum");
      N::same(d(i, j), N::sub(a(i, j), b(i, j)), "in-place difference");
      N::same(e(i, j), N::mul(a(i, j), s), "scaling");
      N::same(z(i, j), T(0), "zeroed");
      N::same(f(i, j), s, "filled");
    }
  }
  Matrix<T> t = anyMatrix<T>(m, m, "t");
  Matrix<T> u = t;
  u.transpose();
  auto const id = Matrix<T>::identity(m);
  for (Int j = 0; j < m; ++j) {
    for (Int i = 0; i < m; ++i) {
      N::same(u(i, j), N::conjOf(t(j, i)), "transpose");
      N::same(id(i, j), i == j ? T(1) : T(0), "identity");
    }
  }
}

// Products, for every shape
template <class T>
static void products()
{
  using N = Num<T>;
  Int const hi = vx_tier() > 0 ? 4 : 3;
  Int const m = 1 + vx_choice("m", hi);
  Int const n = 1 + vx_choice("n", hi);
  Int const p = 1 + vx_choice("p", hi);
  Matrix<T> const a = anyMatrix<T>(m, n, "a");
  Matrix<T> const b = anyMatrix<T>(n, p, "b");
  Vector<T> x(n);
  for (Int i = 0; i < n; ++i) {
    x[i] = N::any("x");
  }
  Vector<T> const y = a * x;
  Matrix<T> const c = a * b;
  Matrix<T> d = anyMatrix<T>(m, p, "d");
  um2::matmul(d, a, b);
  vx_assert(y.size() == m && c.rows() == m && c.cols() == p, "product shape");
  for (Int i = 0; i < m; ++i) {
    T s(0);
    for (Int k = 0; k < n; ++k) {
      s = N::add(s, N::mul(a(i, k), x[k]));
    }
    N::same(y[i], s, "matrix times vector");
    for (Int j = 0; j < p; ++j) {
      T e(0);
      for (Int k = 0; k < n; ++k) {
        e = N::add(e, N::mul(a(i, k), b(k, j)));
      }
      N::same(c(i, j), e, "matrix times matrix");
      N::same(d(i, j), e, "product into existing storage replaces it");
    }
  }
}
