// Small fixed-size vectors and matrices
// @bounds every real component value in [-1000, 1000]; sizes 1..4 for double and float (2 and 4 are SIMD storage, 1 and 3 plain arrays), int32 sizes 2..4 with all values in +-20000
// @bounds matrices 2x2, 3x3, 2x3, 3x2; products 2x3*3x2, 3x2*2x3, 2x2*2x3, 3x1*1x2
// @outside rounding of floating-point arithmetic (entries in mode=real decide the identities over the reals); NaN and infinities
#include "vrt.hpp"
#include <um2/math/mat.hpp>
#include <um2/math/vec.hpp>

using um2::Mat;
using um2::Vec;

template <class T>
static T anyOf(char const * n)
{
  if constexpr (std::is_integral_v<T>) {
    return vx_int(n, -20000, 20000);
  } else {
    return static_cast<T>(vx_real(n, -1000, 1000));
  }
}
template <Int D, class T>
static Vec<D, T> any(char const * n)
{
  Vec<D, T> v;
  for (Int i = 0; i < D; ++i) {
    v[i] = anyOf<T>(n);
  }
  return v;
}
template <class T>
static void same(T a, T b, char const * l)
{
  if constexpr (std::is_integral_v<T>) {
    vx_assert(a == b, l);
  } else {
    vx_near(static_cast<double>(a), static_cast<double>(b), 0, l);
  }
}

template <Int D, class T>
static void arith()
{
  using V = Vec<D, T>;
  V const u = any<D, T>("u");
  V const v = any<D, T>("v");
  T const s = anyOf<T>("s");
  V const sum = u + v;
  V const dif = u - v;
  V const pro = u * v;
  V const neg = -u;
  V const us = u + s;
  V const su = s + u;
  V const ums = u - s;
  V const smu = s - u;
  V const uts = u * s;
  V const stu = s * u;
  V const up2 = u + 2;
  V const t3u = 3 * u;
  V const m2u = 2 - u;
  V a = u;
  a += v;
  V b = u;
  b -= v;
  V c = u;
  c *= v;
  V d = u;
  d += s;
  V e = u;
  e -= s;
  V f = u;
  f *= s;
  V g;
  g = s;
  V const z = V::zero();
  for (Int i = 0; i < D; ++i) {
    same<T>(sum[i], u[i] + v[i], "vector sum");
    same<T>(dif[i], u[i] - v[i], "vector difference");
    same<T>(pro[i], u[i] * v[i], "componentwise product");
    same<T>(neg[i], -u[i], "negation");
    same<T>(us[i], u[i] + s, "vector plus scalar");
    same<T>(su[i], u[i] + s, "scalar plus vector");
    same<T>(ums[i], u[i] - s, "vector minus scalar");
    same<T>(smu[i], s - u[i], "scalar minus vector");
    same<T>(uts[i], u[i] * s, "vector times scalar");
    same<T>(stu[i], u[i] * s, "scalar times vector");
    same<T>(up2[i], u[i] + 2, "vector plus integer");
    same<T>(t3u[i], 3 * u[i], "integer times vector");
    same<T>(m2u[i], 2 - u[i], "integer minus vector");
    same<T>(a[i], u[i] + v[i], "in-place sum");
    same<T>(b[i], u[i] - v[i], "in-place difference");
    same<T>(c[i], u[i] * v[i], "in-place product");
    same<T>(d[i], u[i] + s, "in-place scalar sum");
    same<T>(e[i], u[i] - s, "in-place scalar difference");
    same<T>(f[i], u[i] * s, "in-place scaling");
    same<T>(g[i], s, "assignment of a scalar");
    same<T>(z[i], 0, "zero vector");
  }
  vx_assert(u.end() - u.begin() == D, "iterators span the components");
  T dt = 0;
  T sq = 0;
  for (Int i = 0; i < D; ++i) {
    dt += u[i] * v[i];
    T const di = u[i] - v[i];
    sq += di * di;
    same<T>(u.begin()[i], u[i], "iterator element");
  }
  same<T>(u.dot(v), dt, "dot product");
  same<T>(um2::dot(v, u), dt, "dot product is symmetric");
  if constexpr (!std::is_integral_v<T> || D == 2) {
    same<T>(u.squaredDistanceTo(v), sq, "squared distance");
    same<T>((u - v).squaredNorm(), sq, "squared norm");
  }
  if constexpr (!std::is_integral_v<T>) {
    vx_assume(s > 0.01 || s < -0.01);
    V q = u;
    q /= s;
    V const us2 = u / s;
    for (Int i = 0; i < D; ++i) {
      vx_near(static_cast<double>(q[i] * s), static_cast<double>(u[i]), 0, "in-place scalar division");
      vx_near(static_cast<double>(us2[i] * s), static_cast<double>(u[i]), 0, "division by a scalar");
    }
  }
}
// @entry h_d2 mode=real
extern "C" void h_d2() { arith<2, double>(); }
// @entry h_d3 mode=real
extern "C" void h_d3() { arith<3, double>(); }
// @entry h_d4 mode=real
extern "C" void h_d4() { arith<4, double>(); }
// @entry h_f4 mode=real
extern "C" void h_f2();
// @entry h_f2 mode=real
extern "C" void h_f4() { arith<4, float>(); }
extern "C" void h_f2() { arith<2, float>(); }
// @entry h_f3 mode=real
extern "C" void h_f3() { arith<3, float>(); }
// @entry h_i2
extern "C" void h_i2() { arith<2, int32_t>(); }
// @entry h_i3
extern "C" void h_i3() { arith<3, int32_t>(); }

// Bitwise identical results in both storage forms: IEEE arithmetic, no reals
template <Int D>
static void ieee()
{
  Vec<D, double> u;
  Vec<D, double> v;
  for (Int i = 0; i < D; ++i) {
    u[i] = vx_fp("u");
    v[i] = vx_fp("v");
  }
  Vec<D, double> const s = u + v;
  Vec<D, double> const d = u - v;
  Vec<D, double> lo = u;
  lo.min(v);
  Vec<D, double> const hi = um2::max(u, v);
  for (Int i = 0; i < D; ++i) {
    vx_assume(u[i] == u[i] && v[i] == v[i]);
    double const x = u[i] + v[i];
    double const y = u[i] - v[i];
    vx_assert(s[i] == x || x != x, "IEEE componentwise sum");
    vx_assert(d[i] == y || y != y, "IEEE componentwise difference");
    vx_assert(lo[i] == (u[i] < v[i] ? u[i] : v[i]), "componentwise minimum");
    vx_assert(hi[i] == (u[i] < v[i] ? v[i] : u[i]), "componentwise maximum");
  }
  bool eq = true;
  for (Int i = 0; i < D; ++i) {
    eq = eq && u[i] == v[i];
  }
  vx_assert((u == v) == eq && (u != v) == !eq, "equality of vectors");
}
// @entry h_ieee2 mode=fp
extern "C" void h_ieee2() { ieee<2>(); }
// @entry h_ieee3 mode=fp
extern "C" void h_ieee3() { ieee<3>(); }

// Lexicographic ordering
template <Int D, class T>
static void order()
{
  Vec<D, T> const u = any<D, T>("u");
  Vec<D, T> const v = any<D, T>("v");
  bool eq = true;
  bool lt = false;
  for (Int i = D - 1; i >= 0; --i) {
    if (u[i] != v[i]) {
      eq = false;
      lt = u[i] < v[i];
    }
  }
  vx_assert((u < v) == lt && (u >= v) == !lt, "less than is lexicographic");
  vx_assert((u > v) == (!lt && !eq) && (u <= v) == (lt || eq), "greater than is lexicographic");
}
// @entry h_order2
extern "C" void h_order2() { order<2, int32_t>(); }
// @entry h_order3
extern "C" void h_order3() { order<3, int32_t>(); }

// Norms and normalisation
template <Int D>
static void norms()
{
  Vec<D, double> const u = any<D, double>("u");
  Vec<D, double> const v = any<D, double>("v");
  double sq = 0;
  for (Int i = 0; i < D; ++i) {
    sq += u[i] * u[i];
  }
  vx_near(u.squaredNorm(), sq, 0, "squared norm is the sum of squares");
  double const n = u.norm();
  vx_le(0, n, 0, "norm is not negative");
  vx_near(n * n, sq, 0, "norm squared is the squared norm");
  double const dist = u.distanceTo(v);
  vx_near(dist * dist, u.squaredDistanceTo(v), 0, "distance squared is the squared distance");
  vx_assert(u.isApprox(v, 0.25) == (u.squaredDistanceTo(v) < 0.25), "approximate equality is closeness");
  vx_assume(sq > 0.01);
  Vec<D, double> const w = u.normalized();
  vx_near(w.squaredNorm(), 1, 0, "normalised vectors have unit length");
  vx_le(0, w.dot(u), 0, "normalisation keeps the direction");
  for (Int i = 0; i < D; ++i) {
    vx_near(w[i] * n, u[i], 0, "normalisation divides by the norm");
  }
}
// @entry h_norm2 mode=real
extern "C" void h_norm2() { norms<2>(); }
// @entry h_norm3 mode=real
extern "C" void h_norm3() { norms<3>(); }

// Cross products
// @entry h_cross mode=real
extern "C" void h_cross()
{
  auto const a = any<2, double>("a");
  auto const b = any<2, double>("b");
  vx_near(a.cross(b), a[0] * b[1] - a[1] * b[0], 0, "planar cross product");
  vx_near(um2::cross(b, a), -(a[0] * b[1] - a[1] * b[0]), 0, "planar cross product is antisymmetric");
  auto const u = any<3, double>("u");
  auto const v = any<3, double>("v");
  auto const w = u.cross(v);
  vx_near(w[0], u[1] * v[2] - u[2] * v[1], 0, "cross product x");
  vx_near(w[1], u[2] * v[0] - u[0] * v[2], 0, "cross product y");
  vx_near(w[2], u[0] * v[1] - u[1] * v[0], 0, "cross product z");
  vx_near(w.dot(u), 0, 0, "cross product is orthogonal to its factors");
}

template <Int M, Int N>
static Mat<M, N, double> anyMat(char const * n)
{
  Mat<M, N, double> m;
  for (Int j = 0; j < N; ++j) {
    for (Int i = 0; i < M; ++i) {
      m(i, j) = vx_real(n, -1000, 1000);
    }
  }
  return m;
}
template <Int M, Int N>
static void matBasics()
{
  auto const a = anyMat<M, N>("a");
  auto const b = anyMat<M, N>("b");
  auto const x = any<N, double>("x");
  auto const s = a + b;
  auto const d = a - b;
  auto const y = a * x;
  auto const z = Mat<M, N, double>::zero();
  for (Int i = 0; i < M; ++i) {
    double yi = 0;
    for (Int j = 0; j < N; ++j) {
      vx_near(s(i, j), a(i, j) + b(i, j), 0, "matrix sum");
      vx_near(d(i, j), a(i, j) - b(i, j), 0, "matrix difference");
      vx_near(z(i, j), 0, 0, "zero matrix");
      vx_near(a(j * M + i), a(i, j), 0, "linear index is column major");
      vx_near(a.col(j)[i], a(i, j), 0, "column access");
      yi += a(i, j) * x[j];
    }
    vx_near(y[i], yi, 0, "matrix times vector");
  }
}
// @entry h_mat22 mode=real
extern "C" void h_mat22() { matBasics<2, 2>(); }
// @entry h_mat23 mode=real
extern "C" void h_mat23() { matBasics<2, 3>(); }
// @entry h_mat32 mode=real
extern "C" void h_mat32() { matBasics<3, 2>(); }
// @entry h_mat33 mode=real
extern "C" void h_mat33() { matBasics<3, 3>(); }

template <Int M, Int N, Int P>
static void matProduct()
{
  auto const a = anyMat<M, N>("a");
  auto const b = anyMat<N, P>("b");
  auto const c = a * b;
  for (Int i = 0; i < M; ++i) {
    for (Int j = 0; j < P; ++j) {
      double e = 0;
      for (Int k = 0; k < N; ++k) {
        e += a(i, k) * b(k, j);
      }
      vx_near(c(i, j), e, 0, "matrix product");
    }
  }
}
// @entry h_prod222 mode=real
extern "C" void h_prod222() { matProduct<2, 2, 2>(); }
// @entry h_prod333 mode=real
extern "C" void h_prod333() { matProduct<3, 3, 3>(); }
// @entry h_prod232 mode=real
extern "C" void h_prod232() { matProduct<2, 3, 2>(); }
// @entry h_prod323 mode=real
extern "C" void h_prod323() { matProduct<3, 2, 3>(); }
// @entry h_prod223 mode=real
extern "C" void h_prod223() { matProduct<2, 2, 3>(); }

// @entry h_inverse mode=real
extern "C" void h_inverse()
{
  auto const a = anyMat<2, 2>("a");
  double const det = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0);
  vx_assume(det > 0.001 || det < -0.001);
  auto const b = um2::inv(a);
  auto const p = a * b;
  auto const q = b * a;
  auto const id = Mat<2, 2, double>::identity();
  for (Int i = 0; i < 2; ++i) {
    for (Int j = 0; j < 2; ++j) {
      vx_near(id(i, j), i == j ? 1 : 0, 0, "identity matrix");
      vx_near(p(i, j), id(i, j), 0, "matrix times inverse");
      vx_near(q(i, j), id(i, j), 0, "inverse times matrix");
    }
  }
  auto const id3 = Mat<3, 3, double>::identity();
  for (Int i = 0; i < 3; ++i) {
    for (Int j = 0; j < 3; ++j) {
      vx_near(id3(i, j), i == j ? 1 : 0, 0, "identity matrix");
    }
  }
}
// @entry h_rotation mode=real
extern "C" void h_rotation()
{
  // sine and cosine are any pair on the unit circle; the angle stays away from the axes so that replays differ from them too
  double const t = vx_choice("quadrant", 2) == 0 ? vx_real("t", 0.4, 1.2) : vx_real("t", -2.8, -2);
  auto const r = um2::makeRotationMatrix(t);
  vx_near(r(0, 0), um2::cos(t), 0, "rotation cosine");
  vx_near(r(1, 0), um2::sin(t), 0, "rotation sine");
  vx_near(r(0, 1), -um2::sin(t), 0, "rotation minus sine");
  vx_near(r(1, 1), um2::cos(t), 0, "rotation cosine");
  auto const u = any<2, double>("u");
  auto const v = r * u;
  vx_near(v.squaredNorm(), u.squaredNorm(), 0, "rotation keeps lengths");
}
// Integer constructors convert
// @entry h_convert mode=real
extern "C" void h_convert()
{
  Int const a = vx_int("a", -1000, 1000);
  Int const b = vx_int("b", -1000, 1000);
  Vec<2, double> const v(a, b);
  vx_near(v[0], a, 0, "constructor converts integers");
  vx_near(v[1], b, 0, "constructor converts integers");
  Vec<3, float> const w(a, b, a);
  vx_near(static_cast<double>(w[2]), a, 0, "constructor converts integers");
}
