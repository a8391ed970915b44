// Straight segments
// @bounds every pair of end points in [-10, 10]^D at least 0.01 apart, every query point in [-20, 20]^D, D = 2 and 3; rays of any direction not within 0.001 of parallel to the segment
// @outside rounding; zero-length segments; rays parallel to the segment
#include "vrt.hpp"
#include <um2/geometry/line_segment.hpp>
#include "geo.inc"
using um2::LineSegment;
using um2::Vec;

template <Int D>
static LineSegment<D, double> anySegment()
{
  auto const a = anyPoint<D>("a");
  auto const b = anyPoint<D>("b");
  double q = 0;
  for (Int i = 0; i < D; ++i) {
    q += (b[i] - a[i]) * (b[i] - a[i]);
  }
  vx_assume(q > 0.0001);
  return {a, b};
}
template <Int D>
static void basics()
{
  auto const l = anySegment<D>();
  double const r = vx_real("r", 0, 1);
  auto const p = l(r);
  double q = 0;
  for (Int i = 0; i < D; ++i) {
    vx_near(p[i], (1 - r) * l[0][i] + r * l[1][i], 0, "linear interpolation");
    vx_near(l.jacobian(r)[i], l[1][i] - l[0][i], 0, "derivative");
    q += (l[1][i] - l[0][i]) * (l[1][i] - l[0][i]);
  }
  double const len = l.length();
  vx_near(len * len, q, 0, "length squared");
  vx_le(0, len, 0, "length is not negative");
  auto const b = l.boundingBox();
  for (Int i = 0; i < D; ++i) {
    vx_assert(b.minima(i) <= p[i] && p[i] <= b.maxima(i), "bounding box contains the segment");
    vx_assert(b.minima(i) == l[0][i] || b.minima(i) == l[1][i], "bounding box is tight");
    vx_assert(b.maxima(i) == l[0][i] || b.maxima(i) == l[1][i], "bounding box is tight");
  }
}
// @entry h_basic2 mode=real
extern "C" void h_basic2() { basics<2>(); }
// @entry h_basic3 mode=real
extern "C" void h_basic3() { basics<3>(); }

template <Int D>
static double sq(Vec<D, double> const & a, Vec<D, double> const & b)
{
  double s = 0;
  for (Int i = 0; i < D; ++i) {
    s += (a[i] - b[i]) * (a[i] - b[i]);
  }
  return s;
}
template <Int D>
static void closest()
{
  auto const l = anySegment<D>();
  auto const p = anyPoint<D>("p", -20, 20);
  double const r = l.pointClosestTo(p);
  vx_le(0, r, 0, "closest parameter is at least 0");
  vx_le(r, 1, 0, "closest parameter is at most 1");
  // optimality: the derivative of the squared distance has the right sign at r
  double g = 0;
  for (Int i = 0; i < D; ++i) {
    g += (l[0][i] + r * (l[1][i] - l[0][i]) - p[i]) * (l[1][i] - l[0][i]);
  }
  vx_assert(r > 0 || g >= 0, "no closer point past the start");
  vx_assert(r < 1 || g <= 0, "no closer point before the end");
  if (r > 0 && r < 1) {
    vx_near(g, 0, 0, "the closest interior point is the foot of the perpendicular");
  }
  double const d2 = l.squaredDistanceTo(p);
  vx_near(d2, sq<D>(l(r), p), 0, "squared distance to the closest point");
  if constexpr (D == 2) {
    double const d = l.distanceTo(p);
    vx_near(d * d, d2, 0, "distance squared");
    vx_le(0, d, 0, "distance is not negative");
  }
}
// @entry h_closest2 mode=real
extern "C" void h_closest2() { closest<2>(); }
// @entry h_closest3 mode=real
extern "C" void h_closest3() { closest<3>(); }

// @entry h_side mode=real
extern "C" void h_side()
{
  auto const l = anySegment<2>();
  auto const p = anyPoint<2>("p", -20, 20);
  double const c = (l[1][0] - l[0][0]) * (p[1] - l[0][1]) - (l[1][1] - l[0][1]) * (p[0] - l[0][0]);
  vx_assert(l.isLeft(p) == (c >= 0), "left of the segment or on its line");
  auto const m = l.getRotation();
  auto const e = m * (l[1] - l[0]);
  vx_near(e[0], l.length(), 0, "rotation puts the end on the x axis");
  vx_near(e[1], 0, 0, "rotation puts the end on the x axis");
  auto const f = m * p;
  vx_near(f[0] * f[0] + f[1] * f[1], p[0] * p[0] + p[1] * p[1], 0, "rotation keeps lengths");
  vx_assert((f[0] * e[1] - f[1] * e[0] <= 0) == (p[0] * (l[1][1] - l[0][1]) - p[1] * (l[1][0] - l[0][0]) <= 0), "rotation keeps orientation");
}
// What is reported is an intersection
// @entry h_ray_sound mode=real
extern "C" void h_ray_sound()
{
  auto const l = anySegment<2>();
  auto const o = anyPoint<2>("o");
  auto const d = anyDirection<2>("d", 0);
  double const z = (l[1][0] - l[0][0]) * d[1] - (l[1][1] - l[0][1]) * d[0];
  vx_assume(z > 0.001 || z < -0.001);
  double buf[4];
  Int const n = l.intersect(um2::Ray2<double>(o, d), &buf[0]);
  vx_assert(n == 0 || n == 1, "at most one intersection");
  // solve the 2x2 system by hand
  double const s = ((o[0] - l[0][0]) * d[1] - (o[1] - l[0][1]) * d[0]) / z;
  double const r = ((o[0] - l[0][0]) * (l[1][1] - l[0][1]) - (o[1] - l[0][1]) * (l[1][0] - l[0][0])) / z;
  bool const hit = s >= 0 && s <= 1 && r >= 0;
  vx_assert((n == 1) == hit, "an intersection is reported exactly when ray and segment meet");
  if (n == 1) {
    vx_near(buf[0], r, 0, "reported ray coordinate");
    for (Int i = 0; i < 2; ++i) {
      vx_near(o[i] + buf[0] * d[i], l[0][i] + s * (l[1][i] - l[0][i]), 0, "the reported point is on the segment");
    }
  }
}
// Points: the middle of two, and the sense of rotation of three
template <Int D>
static void middle()
{
  auto const a = anyPoint<D>("a");
  auto const b = anyPoint<D>("b");
  auto const m = um2::midpoint(a, b);
  for (Int k = 0; k < D; ++k) {
    vx_near(2 * m[k], a[k] + b[k], 0, "the midpoint is halfway");
  }
}
// @entry h_points mode=real
extern "C" void h_points()
{
  middle<2>();
  middle<3>();
  auto const a = anyPoint<2>("p");
  auto const b = anyPoint<2>("q");
  auto const c = anyPoint<2>("r");
  double const t = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
  vx_assert(um2::areCCW(a, b, c) == (t >= 0), "counterclockwise points turn left or not at all");
  if (t >= 0) {
    vx_assert(um2::areApproxCCW(a, b, c), "the tolerant test accepts left turns");
  }
  if (t < -0.01) {
    vx_assert(!um2::areApproxCCW(a, b, c), "the tolerant test rejects clear right turns");
  }
}
