// Triangles and quadrilaterals
// @bounds every vertex in [-10, 10]^D, planar polygons counterclockwise with area at least 0.01 (quadrilaterals convex), parameters in [0, 1], query points in [-20, 20]^2; rays from any origin in any direction not within 0.001 of parallel to an edge, against one skew triangle and one skew quadrilateral; area and centroid of quadrilaterals and of triangles in space with the first vertex fixed
// @outside rounding; non-convex quadrilaterals (except for their orientation with the inner corner at the first or third vertex) and self-crossing ones; rays parallel to an edge
#include "vrt.hpp"
#include <um2/geometry/quadrilateral.hpp>
#include <um2/geometry/triangle.hpp>
#include <um2/stdlib/math/roots.hpp>
#include <um2/stdlib/numbers.hpp>
#include "geo.inc"
using um2::Vec;
using P2 = Vec<2, double>;

static double turn(P2 const & a, P2 const & b, P2 const & c)
{
  return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
}
static double dist(P2 const & a, P2 const & b)
{
  return um2::sqrt((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1]));
}
static um2::Triangle2<double> anyTriangle()
{
  um2::Triangle2<double> const t(anyPoint<2>("a"), anyPoint<2>("b"), anyPoint<2>("c"));
  vx_assume(turn(t[0], t[1], t[2]) > 0.02);
  return t;
}
static um2::Quadrilateral2<double> anyQuad(bool fixed = false)
{
  um2::Quadrilateral2<double> const q(fixed ? P2(1.0, -2.0) : anyPoint<2>("a"), anyPoint<2>("b"), anyPoint<2>("c"), anyPoint<2>("d"));
  vx_assume(turn(q[0], q[1], q[2]) > 0.01);
  vx_assume(turn(q[1], q[2], q[3]) > 0.01);
  vx_assume(turn(q[2], q[3], q[0]) > 0.01);
  vx_assume(turn(q[3], q[0], q[1]) > 0.01);
  return q;
}

// Interpolation and its derivative
template <class Poly, Int N, Int D>
static void mapping()
{
  Poly p;
  for (Int i = 0; i < N; ++i) {
    p[i] = anyPoint<D>("v");
  }
  double const r = vx_real("r", 0, 1);
  double const s = vx_real("s", 0, 1);
  double const r2 = vx_real("r2", 0, 1);
  auto const x = p(r, s);
  auto const y = p(r2, s);
  auto const z = p(r, r2);
  auto const j = p.jacobian(r, s);
  double const corner[4][2] = {{0, 0}, {1, 0}, {N == 3 ? 0.0 : 1.0, 1}, {0, 1}};
  for (Int k = 0; k < D; ++k) {
    for (Int i = 0; i < N; ++i) {
      vx_near(p(corner[i][0], corner[i][1])[k], p[i][k], 0, "corners of the parameter domain map to the vertices");
    }
    if (N == 3) {
      vx_near(x[k], (1 - r - s) * p[0][k] + r * p[1][k] + s * p[2][k], 0, "barycentric interpolation");
    } else {
      vx_near(x[k], (1 - r) * (1 - s) * p[0][k] + r * (1 - s) * p[1][k] + r * s * p[2][k] + (1 - r) * s * p[N - 1][k], 0, "bilinear interpolation");
    }
    vx_near(y[k] - x[k], (r2 - r) * j(k, 0), 0, "derivative with respect to the first parameter");
    vx_near(z[k] - x[k], (r2 - s) * j(k, 1), 0, "derivative with respect to the second parameter");
  }
  for (Int i = 0; i < N; ++i) {
    auto const e = p.getEdge(i);
    Int const i1 = i + 1 == N ? 0 : i + 1;
    for (Int k = 0; k < D; ++k) {
      vx_near(e[0][k], p[i][k], 0, "edge start");
      vx_near(e[1][k], p[i1][k], 0, "edge end");
    }
  }
}
// @entry h_map_t2 mode=real
extern "C" void h_map_t2() { mapping<um2::Triangle2<double>, 3, 2>(); }
// @entry h_map_t3 mode=real
extern "C" void h_map_t3() { mapping<um2::Triangle3<double>, 3, 3>(); }
// @entry h_map_q2 mode=real
extern "C" void h_map_q2() { mapping<um2::Quadrilateral2<double>, 4, 2>(); }

template <class Poly, Int N>
static void measures(Poly const & p)
{
  // signed area and first moments by triangulation from the first vertex
  double a2 = 0;
  double mx = 0;
  double my = 0;
  double per = 0;
  for (Int i = 1; i + 1 < N; ++i) {
    double const t = turn(p[0], p[i], p[i + 1]);
    a2 += t;
    mx += t * (p[0][0] + p[i][0] + p[i + 1][0]);
    my += t * (p[0][1] + p[i][1] + p[i + 1][1]);
  }
  double const area = p.area();
  vx_near(2 * area, a2, 0, "area");
  auto const c = p.centroid();
  vx_near(c[0] * 3 * a2, mx, 0, "centroid");
  vx_near(c[1] * 3 * a2, my, 0, "centroid");
  // the formulas for polygons with any number of corners
  vx_near(2 * um2::area<N, double>(p), a2, 0, "area by the general formula");
  auto const g = um2::centroid<N, double>(p);
  vx_near(g[0] * 3 * a2, mx, 0, "centroid by the general formula");
  vx_near(g[1] * 3 * a2, my, 0, "centroid by the general formula");
  for (Int i = 0; i < N; ++i) {
    per += dist(p[i], p[i + 1 == N ? 0 : i + 1]);
  }
  double const per2 = p.perimeter();
  vx_near(per2, per, 0, "perimeter");
  vx_near(p.meanChordLength() * per2, um2::pi<double> * area, 0, "mean chord length is pi times area over perimeter");
  vx_assert(p.isCCW(), "counterclockwise polygons are recognised");
  Poly f = p;
  f.flip();
  vx_assert(!f.isCCW(), "flipped polygons are clockwise");
  vx_near(f[0][0], p[0][0], 0, "flipping keeps the first vertex");
  for (Int i = 1; i < N; ++i) {
    vx_near(f[i][0], p[N - i][0], 0, "flipping reverses the order");
    vx_near(f[i][1], p[N - i][1], 0, "flipping reverses the order");
  }
}
template <class Poly, Int N>
static void box(Poly const & p)
{
  auto const b = p.boundingBox();
  for (Int k = 0; k < 2; ++k) {
    bool lo = false;
    bool hi = false;
    for (Int i = 0; i < N; ++i) {
      vx_assert(b.minima(k) <= p[i][k] && p[i][k] <= b.maxima(k), "bounding box contains the vertices");
      lo = lo || b.minima(k) == p[i][k];
      hi = hi || b.maxima(k) == p[i][k];
    }
    vx_assert(lo && hi, "bounding box is tight");
  }
}
// @entry h_measure_t mode=real
extern "C" void h_measure_t() { measures<um2::Triangle2<double>, 3>(anyTriangle()); }
// @entry h_measure_q mode=real
extern "C" void h_measure_q()
{
  auto const q = anyQuad(true);
  vx_assert(q.isConvex() && q.isApproxConvex(), "convex quadrilaterals are recognised");
  measures<um2::Quadrilateral2<double>, 4>(q);
}
// @entry h_box_t mode=real
extern "C" void h_box_t() { box<um2::Triangle2<double>, 3>(um2::Triangle2<double>(anyPoint<2>("a"), anyPoint<2>("b"), anyPoint<2>("c"))); }
// @entry h_box_q mode=real
extern "C" void h_box_q()
{
  box<um2::Quadrilateral2<double>, 4>(um2::Quadrilateral2<double>(anyPoint<2>("a"), anyPoint<2>("b"), anyPoint<2>("c"), anyPoint<2>("d")));
}
// @entry h_area_t3 mode=real
extern "C" void h_area_t3()
{
  Vec<3, double> const a0(0.5, -1.0, 2.0);
  um2::Triangle3<double> const t(a0, a0 + anyPoint<3>("b"), a0 + anyPoint<3>("c"));
  auto const u = t[1] - t[0];
  auto const v = t[2] - t[0];
  double const x = u[1] * v[2] - u[2] * v[1];
  double const y = u[2] * v[0] - u[0] * v[2];
  double const z = u[0] * v[1] - u[1] * v[0];
  double const a = t.area();
  vx_near(4 * a * a, x * x + y * y + z * z, 0, "area of a triangle in space");
  vx_le(0, a, 0, "area in space is not negative");
  auto const c = t.centroid();
  for (Int k = 0; k < 3; ++k) {
    vx_near(3 * c[k], t[0][k] + t[1][k] + t[2][k], 0, "centroid of a triangle in space");
  }
}
// A quadrilateral with a reflex corner is not convex
// @entry h_convex mode=real
extern "C" void h_convex()
{
  um2::Quadrilateral2<double> const q(anyPoint<2>("a"), anyPoint<2>("b"), anyPoint<2>("c"), anyPoint<2>("d"));
  bool const all = turn(q[0], q[1], q[2]) >= 0 && turn(q[1], q[2], q[3]) >= 0 && turn(q[2], q[3], q[0]) >= 0 && turn(q[3], q[0], q[1]) >= 0;
  vx_assert(q.isConvex() == all, "convex means no right turn at any corner");
  if (all) {
    vx_assert(q.isApproxConvex(), "the tolerant test accepts convex quadrilaterals");
  }
  Int const k = vx_choice("k", 4);
  if (turn(q[k], q[(k + 1) % 4], q[(k + 2) % 4]) < -0.001) {
    vx_assert(!q.isApproxConvex(), "the tolerant test rejects a clear right turn");
  }
}
// An inner corner at the first or third vertex does not change the orientation
// @entry h_dart mode=real
extern "C" void h_dart()
{
  auto const a = anyPoint<2>("a");
  auto const b = anyPoint<2>("b");
  auto const c = anyPoint<2>("c");
  auto const d = anyPoint<2>("d");
  vx_assume(turn(a, b, c) > 0.01 && turn(a, c, d) > 0.01);
  um2::Quadrilateral2<double> q(a, b, c, d);
  vx_assert(q.isCCW(), "counterclockwise polygons with an inner corner are recognised");
  q.flip();
  vx_assert(!q.isCCW(), "clockwise polygons with an inner corner are recognised");
}
template <class Poly, Int N>
static void containment(Poly const & p)
{
  auto const x = anyPoint<2>("x", -20, 20);
  bool in = true;
  for (Int i = 0; i < N; ++i) {
    in = in && turn(p[i], p[i + 1 == N ? 0 : i + 1], x) >= 0;
  }
  vx_assert(p.contains(x) == in, "a point is inside when it is left of every edge");
}
// @entry h_in_t mode=real
extern "C" void h_in_t() { containment<um2::Triangle2<double>, 3>(anyTriangle()); }
// @entry h_in_q mode=real
extern "C" void h_in_q() { containment<um2::Quadrilateral2<double>, 4>(anyQuad()); }
// Points built from the polygon itself
// @entry h_in_map mode=real
extern "C" void h_in_map()
{
  auto const t = anyTriangle();
  double const r = vx_real("r", 0, 1);
  double const s = vx_real("s", 0, 1);
  vx_assume(r + s <= 1);
  vx_assert(t.contains(t(r, s)), "interpolated points of a triangle are inside it");
}
template <class Poly, Int N>
static void rays(Poly const & p)
{
  auto const o = anyPoint<2>("o");
  auto const d = anyDirection<2>("d", 0);
  double s[N];
  double r[N];
  for (Int i = 0; i < N; ++i) {
    auto const & a = p[i];
    auto const & b = p[i + 1 == N ? 0 : i + 1];
    double const z = (b[0] - a[0]) * d[1] - (b[1] - a[1]) * d[0];
    vx_assume(z > 0.001 || z < -0.001);
    s[i] = ((o[0] - a[0]) * d[1] - (o[1] - a[1]) * d[0]) / z;
    r[i] = ((o[0] - a[0]) * (b[1] - a[1]) - (o[1] - a[1]) * (b[0] - a[0])) / z;
  }
  double buf[2 * N];
  Int const n = p.intersect(um2::Ray2<double>(o, d), &buf[0]);
  Int m = 0;
  for (Int i = 0; i < N; ++i) {
    if (s[i] >= 0 && s[i] <= 1 && r[i] >= 0) {
      ++m;
      bool found = false;
      for (Int k = 0; k < n; ++k) {
        found = found || (buf[k] - r[i] < 1e-7 && r[i] - buf[k] < 1e-7);
      }
      vx_assert(found, "every crossed edge is reported with its ray coordinate");
    }
  }
  vx_assert(m == n, "as many intersections as crossed edges");
}
// Rays against fixed skew polygons
// @entry h_ray_t mode=real
extern "C" void h_ray_t()
{
  um2::Triangle2<double> const t(P2(-2.0, 0.5), P2(3.0, -1.0), P2(1.0, 4.0));
  rays<um2::Triangle2<double>, 3>(t);
}
// @entry h_ray_q mode=real
extern "C" void h_ray_q()
{
  um2::Quadrilateral2<double> const q(P2(0.0, 0.0), P2(4.0, 1.0), P2(5.0, 4.0), P2(-1.0, 3.0));
  rays<um2::Quadrilateral2<double>, 4>(q);
}
