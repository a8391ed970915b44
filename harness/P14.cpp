// Quadratic segments
// @bounds every triple of control points in [-10, 10]^D (ends at least 0.1 apart); D = 2 and 3 for interpolation, derivative and bounds; side test: middle nodes above five positions along the chord, at any height from 0.05 to 2 chord lengths, for chords in four fixed directions (two turning each way) and every point near the curve; rays of seven directions against five curves and every origin in [-5, 5]^2
// @outside rounding; arc length is compared with the closed form with the logarithm uninterpreted; crossings of two quadratic segments (recursive bisection with a Newton step): four pairs of fixed shape at every place and size, one pair that crosses twice on fixed inputs only
#include "vrt.hpp"
#include <um2/geometry/quadratic_segment.hpp>
#include "geo.inc"
using um2::QuadraticSegment;
using um2::Vec;
using Q2 = QuadraticSegment<2, double>;
using V2 = Vec<2, double>;

template <Int D>
static QuadraticSegment<D, double> anyQuad()
{
  auto const a = anyPoint<D>("a");
  auto const b = anyPoint<D>("b");
  auto const c = anyPoint<D>("c");
  double q = 0;
  for (Int i = 0; i < D; ++i) {
    q += (b[i] - a[i]) * (b[i] - a[i]);
  }
  vx_assume(q > 0.01);
  return {a, b, c};
}
template <Int D>
static void basics()
{
  auto const q = anyQuad<D>();
  samePoint<D>(q(0), q[0], 1e-9, "starts at the first node");
  samePoint<D>(q(1), q[1], 1e-9, "ends at the second node");
  samePoint<D>(q(0.5), q[2], 1e-9, "passes the middle node halfway");
  double const r = vx_real("r", -1, 2);
  double const h = vx_real("h", 0.01, 1);
  auto const p = q(r + h) - q(r - h);
  auto const j = q.jacobian(r);
  auto const e = q(r);
  auto const k = q.getPolyCoeffs();
  for (Int i = 0; i < D; ++i) {
    vx_near(p[i], 2 * h * j[i], 1e-9, "derivative: central difference of a quadratic is exact");
    vx_near(e[i], k[0][i] + r * k[1][i] + r * r * k[2][i], 1e-9, "coefficients describe the curve");
    // a quadratic has constant second difference
    vx_near(q(r + 2 * h)[i] - 3 * q(r + h)[i] + 3 * q(r)[i] - q(r - h)[i], 0, 1e-9, "the curve is quadratic");
  }
}
// @entry h_basic2 mode=real
extern "C" void h_basic2() { basics<2>(); }
// @entry h_basic3 mode=real
extern "C" void h_basic3() { basics<3>(); }

// One coordinate at a time: the others are straight
template <Int D>
static void box()
{
  Int const ax = vx_choice("axis", D);
  um2::Vec<D, double> a;
  um2::Vec<D, double> b;
  um2::Vec<D, double> c;
  for (Int i = 0; i < D; ++i) {
    a[i] = 6;
    b[i] = 2 * i;
    c[i] = i + 3;
  }
  a[ax] = vx_real("a", -10, 10);
  b[ax] = vx_real("b", -10, 10);
  c[ax] = vx_real("c", -10, 10);
  QuadraticSegment<D, double> const q(a, b, c);
  double const r = vx_real("r", 0, 1);
  auto const p = q(r);
  auto const x = q.boundingBox();
  for (Int i = 0; i < D; ++i) {
    vx_le(x.minima(i), p[i], 1e-9, "bounding box contains the curve");
    vx_le(p[i], x.maxima(i), 1e-9, "bounding box contains the curve");
    if (i != ax) {
      vx_near(x.minima(i), b[i], 1e-9, "straight directions are bounded by the ends");
      vx_near(x.maxima(i), a[i], 1e-9, "straight directions are bounded by the ends");
    }
  }
  double lo = a[ax] < b[ax] ? a[ax] : b[ax];
  double hi = a[ax] < b[ax] ? b[ax] : a[ax];
  double const A = 2 * (a[ax] + b[ax]) - 4 * c[ax];
  double const B = 4 * c[ax] - 3 * a[ax] - b[ax];
  if ((B > 0) != (2 * A + B > 0)) {
    vx_assume(A > 0.0001 || A < -0.0001);
    double const e = a[ax] - B * B / (4 * A);
    lo = e < lo ? e : lo;
    hi = e > hi ? e : hi;
  }
  vx_near(x.minima(ax), lo, 1e-6, "bounding box is tight below");
  vx_near(x.maxima(ax), hi, 1e-6, "bounding box is tight above");
}
// @entry h_box2 mode=real time=40
extern "C" void h_box2() { box<2>(); }
// @entry h_box3 mode=real time=40
extern "C" void h_box3() { box<3>(); }

// Area and centroid of the region between curve and chord, from the exact boundary integrals
// @entry h_enclosed mode=real
extern "C" void h_enclosed()
{
  auto const q = anyQuad<2>();
  // curve coefficients relative to the first node
  double B[2];
  double A[2];
  double L[2];
  for (Int i = 0; i < 2; ++i) {
    L[i] = q[1][i] - q[0][i];
    double const m = q[2][i] - q[0][i];
    B[i] = 4 * m - L[i];
    A[i] = 2 * L[i] - 4 * m;
  }
  double const area = (B[0] * A[1] - B[1] * A[0]) / 6;
  vx_near(um2::enclosedArea(q), area, 1e-9, "enclosed area");
  // int x^2 dy along x = B0 r + A0 r^2, dy = (B1 + 2 A1 r) dr, minus the chord
  auto const x2dy = [&](Int x, Int y) {
    return B[x] * B[x] * B[y] / 3 + (2 * A[x] * B[x] * B[y] + 2 * A[y] * B[x] * B[x]) / 4 +
           (A[x] * A[x] * B[y] + 4 * A[x] * B[x] * A[y]) / 5 + 2 * A[x] * A[x] * A[y] / 6 -
           L[x] * L[x] * L[y] / 3;
  };
  double const mx = x2dy(0, 1) / 2;
  double const my = -x2dy(1, 0) / 2;
  auto const c = um2::enclosedCentroid(q);
  vx_near((c[0] - q[0][0]) * area, mx, 1e-6, "enclosed first moment in x");
  vx_near((c[1] - q[0][1]) * area, my, 1e-6, "enclosed first moment in y");
  double const z = L[0] * (q[2][1] - q[0][1]) - L[1] * (q[2][0] - q[0][0]);
  // the curve turns left when the middle node is to the right of the chord
  if (z < -1e-6 || z > 1e-6) {
    vx_assert(q.curvesLeft() == (z < 0), "turning direction");
  }
  auto const m = q.getRotation();
  auto const e = m * (q[1] - q[0]);
  vx_near(e[1], 0, 1e-6, "the rotation puts the chord on the x axis");
  vx_le(0, e[0], 1e-6, "the rotation puts the chord on the x axis");
  vx_near(e[0] * e[0], L[0] * L[0] + L[1] * L[1], 1e-6, "the rotation keeps lengths");
}

// @entry h_straight mode=real time=40
extern "C" void h_straight()
{
  auto const a = anyPoint<2>("a");
  auto const b = anyPoint<2>("b");
  double const q2 = (b[0] - a[0]) * (b[0] - a[0]) + (b[1] - a[1]) * (b[1] - a[1]);
  vx_assume(q2 > 0.01);
  Q2 const q(a, b, v2((a[0] + b[0]) / 2, (a[1] + b[1]) / 2));
  vx_assert(um2::isStraight(q), "a middle node halfway on the chord is straight");
  double const len = q.length();
  vx_near(len * len, q2, 1e-6, "length of a straight segment");
  vx_le(0, len, 0, "length of a straight segment");
  auto const p = anyPoint<2>("p", -20, 20);
  double const r = q.pointClosestTo(p);
  vx_le(0, r, 1e-9, "nearest parameter is in range");
  vx_le(r, 1, 1e-9, "nearest parameter is in range");
  double const d2 = q.squaredDistanceTo(p);
  auto const l = um2::LineSegment<2, double>(a, b);
  vx_near(d2, l.squaredDistanceTo(p), 1e-6, "distance to a straight segment");
  double const z = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0]);
  if (z > 1e-4 || z < -1e-4) {
    vx_assert(q.isLeft(p) == (z > 0), "side of a straight segment");
  }
}
// @entry h_not_straight mode=real
extern "C" void h_not_straight()
{
  auto const q = anyQuad<2>();
  double const q2 = (q[1] - q[0]).squaredNorm();
  double const z = (q[1][0] - q[0][0]) * (q[2][1] - q[0][1]) - (q[1][1] - q[0][1]) * (q[2][0] - q[0][0]);
  vx_assume(z * z > 0.0001 * q2);
  vx_assert(!um2::isStraight(q), "a middle node off the chord is curved");
}
// @entry h_folded mode=real
extern "C" void h_folded()
{
  double const x = vx_real("x", -10, 10);
  double const y = vx_real("y", -10, 10);
  double const u = vx_real("u", 0.1, 10);
  double const v = vx_real("v", -10, 10);
  double const t = vx_real("t", 1, 5);
  Q2 const q(v2(x, y), v2(x + u, y + v), v2(x + t * u, y + t * v));
  vx_assert(!um2::isStraight(q), "a middle node behind the end is not straight");
}
// @entry h_not_straight3 mode=real
extern "C" void h_not_straight3()
{
  auto const a = anyPoint<3>("a");
  double const h = vx_real("h", 0.01, 1);
  Int const ax = vx_choice("axis", 3);
  auto b = a;
  b[ax] += 3;
  auto m = a;
  m[ax] += vx_real("m", 0.1, 2);
  QuadraticSegment<3, double> const s(a, b, m);
  vx_assert(um2::isStraight(s), "a middle node on the chord is straight in three dimensions");
  m[(ax + 1 + vx_choice("side", 2)) % 3] += h;
  QuadraticSegment<3, double> const c(a, b, m);
  vx_assert(!um2::isStraight(c), "a middle node off the chord is curved in three dimensions");
}

// Arc length against the closed form of the integral of the speed
// @entry h_length mode=real
extern "C" void h_length()
{
  double const u = vx_choice("small", 2) == 0 ? 1 : 0.0009765625;
  V2 const a(0, 0);
  V2 const b = v2(u * vx_real("bx", 1, 4), 0);
  V2 const c(u * vx_real("cx", 0.5, 3), u * vx_real("cy", 0.5, 3));
  Q2 const q(a, b, c);
  double const A0 = 2 * b[0] - 4 * c[0];
  double const A1 = -4 * c[1];
  double const B0 = 4 * c[0] - b[0];
  double const B1 = 4 * c[1];
  double const x = 4 * (A0 * A0 + A1 * A1);
  double const y = 4 * (A0 * B0 + A1 * B1);
  double const z = B0 * B0 + B1 * B1;
  double const sx = um2::sqrt(x);
  double const s1 = um2::sqrt(x + y + z);
  double const s0 = um2::sqrt(z);
  vx_allow_exit(true); // the sign of the uninterpreted logarithm is unknown to the asserts
  double const len = q.length();
  vx_allow_exit(false);
  double const ref = ((2 * x + y) * s1 - y * s0) / (4 * x) +
                     (y * y - 4 * x * z) / (8 * x * sx) * um2::log((2 * sx * s0 + y) / (2 * sx * s1 + 2 * x + y));
  vx_near(len / u, ref / u, 1e-6, "closed form of the arc length");
}

// Side of a curved segment. The chord lies along one of five directions; relative to it, points
// are given by the height of a horizontal slice of the curve and the position along that slice.
// @entry h_left mode=real time=60
extern "C" void h_left()
{
  static double const D[4][3] = {{1, 0, 1}, {3, 4, 5}, {-4, 3, 5}, {-5, -12, 13}};
  Int const k = vx_choice("chord", 4);
  double const ux = D[k][0] / D[k][2];
  double const uy = D[k][1] / D[k][2];
  double const L = D[k][2];
  double const sgn = k < 2 ? 1 : -1;
  double const ox = k == 2 ? 2.5 : 0;
  static double const M[5] = {0.5, 0.3, 0.75, -0.5, 1.4};
  double const mx = M[vx_choice("middle", 5)] * L;
  double const my = vx_real("my", 0.05 * L, 2 * L); // height of the middle node above the chord
  // local -> global
  auto const at = [&](double x, double y) { return v2(ox + ux * x - uy * y * sgn, uy * x + ux * y * sgn - ox); };
  Q2 const q(at(0, 0), at(L, 0), at(mx, my));
  Int const where = vx_choice("where", 3);
  double px;
  double py;
  bool enclosed = false;
  if (where == 0) { // on the other side of the chord
    px = vx_real("px", -30, 30);
    py = vx_real("py", -30, -0.001);
  } else if (where == 1) { // higher than the curve
    px = vx_real("px", -30, 30);
    py = my + vx_real("py", 0.001, 30);
  } else {
    double const s = vx_real("s", 0.001, 0.499);
    double const t = vx_real("t", -3, 4);
    vx_assume(t < -0.001 || (t > 0.001 && t < 0.999) || t > 1.001);
    py = 4 * my * s * (1 - s);
    double const x0 = s * (4 * mx - L) + s * s * (2 * L - 4 * mx);
    px = x0 + t * (1 - 2 * s) * L;
    enclosed = t > 0 && t < 1;
  }
  bool const above = where == 0 ? false : !enclosed;
  vx_assert(q.isLeft(at(px, py)) == (sgn > 0 ? above : !above), "side of a curved segment");
}

static Q2 someCurve(Int k)
{
  switch (k) {
  case 0:
    return {v2(0, 0), v2(2, 0), v2(1, 1)};
  case 1:
    return {v2(1, 1), v2(-3, 2), v2(-1.25, -0.5)};
  case 2:
    return {v2(-1, 2), v2(3, -2), v2(1.5, 0.25)};
  case 3:
    return {v2(0, 0), v2(1, 0), v2(1.5, 0.5)}; // bulges past its end
  default:
    return {v2(2, -1), v2(2, 3), v2(2, 1)}; // straight
  }
}
// Fixed unit directions (exact over the reals)
static V2 unitDirection()
{
  static double const D[7][3] = {{1, 0, 1}, {0, -1, 1}, {3, 4, 5}, {-4, 3, 5}, {-5, -12, 13}, {15, -8, 17}, {-24, -7, 25}};
  Int const k = vx_choice("direction", 7);
  return v2(D[k][0] / D[k][2], D[k][1] / D[k][2]);
}
// Every common point of ray and curve is reported
// @entry h_ray_complete mode=real time=60
extern "C" void h_ray_complete()
{
  auto const q = someCurve(vx_choice("curve", 5));
  auto const d = unitDirection();
  double const s = vx_real("s", 0.001, 0.999);
  double const r = vx_real("r", 0.001, 20);
  auto const k = q.getPolyCoeffs();
  double const a = k[2][0] * d[1] - k[2][1] * d[0];
  double const b = k[1][0] * d[1] - k[1][1] * d[0];
  // not tangential, and not within the root finder's degenerate range
  vx_assume(2 * a * s + b > 0.01 || 2 * a * s + b < -0.01);
  vx_assume(a > 0.001 || a < -0.001 || (k[2][0] == 0 && k[2][1] == 0));
  auto const p = q(s);
  um2::Ray2<double> const ray(v2(p[0] - r * d[0], p[1] - r * d[1]), d);
  double buf[4];
  Int const n = q.intersect(ray, &buf[0]);
  vx_assert(n == 1 || n == 2, "a ray through a curve point meets it once or twice");
  bool found = false;
  for (Int i = 0; i < n; ++i) {
    double const e = buf[i] - r;
    found = found || (e < 1e-5 && e > -1e-5);
  }
  vx_assert(found, "every common point of ray and curve is reported");
}
// What is reported is on ray and curve, nearest first
// @entry h_ray_sound mode=real time=60
extern "C" void h_ray_sound()
{
  Int const c = vx_choice("curve", 5);
  auto const q = someCurve(c);
  auto const d = unitDirection();
  auto const o = anyPoint<2>("o", -5, 5);
  double buf[4];
  Int const n = q.intersect(um2::Ray2<double>(o, d), &buf[0]);
  vx_assert(n >= 0 && n <= 2, "at most two intersections");
  if (n == 2) {
    vx_le(buf[0], buf[1], 1e-6, "nearest intersection first");
  }
  for (Int i = 0; i < n; ++i) {
    vx_le(0, buf[i], 1e-9, "reported points are ahead of the origin");
    double const x = o[0] + buf[i] * d[0];
    double const y = o[1] + buf[i] * d[1];
    // implicit form of each curve, and a box around it
    double f = 0;
    bool in = true;
    switch (c) {
    case 0: // y = x (2 - x)
      f = y - x * (2 - x);
      in = x > -1e-6 && x < 2 + 1e-6;
      break;
    case 1: { // x = 1 - 5 r + r^2, y = 1 - 7 r + 8 r^2
      double const r = (y - 8 * x + 7) / 33;
      f = x - (1 - 5 * r + r * r);
      in = r > -1e-6 && r < 1 + 1e-6;
      break;
    }
    case 2: { // x = -1 + 6 r - 2 r^2, y = 2 - 3 r - r^2
      double const r = (x - 2 * y + 5) / 12;
      f = x - (-1 + 6 * r - 2 * r * r);
      in = r > -1e-6 && r < 1 + 1e-6;
      break;
    }
    case 3: { // x = 5 r - 4 r^2, y = 2 r - 2 r^2
      double const r = x - 2 * y;
      f = y - (2 * r - 2 * r * r);
      in = r > -1e-6 && r < 1 + 1e-6;
      break;
    }
    default:
      f = x - 2;
      in = y > -1 - 1e-6 && y < 3 + 1e-6;
    }
    vx_near(f, 0, 1e-5, "reported points are on the curve");
    vx_assert(in, "reported points are between the ends");
  }
}

// @entry h_twice
extern "C" void h_twice()
{
  // fixed inputs
  V2 buf[16];
  Q2 const a(v2(0, 0), v2(2, 0), v2(1, 1));
  Q2 const b(v2(0, 0.75), v2(2, 0.75), v2(1, 0.75));
  Int const n = a.intersect(b, &buf[0]);
  vx_assert(n == 2 && a.intersects(b), "two crossings");
  for (Int i = 0; i < n; ++i) {
    vx_near(buf[i][1], 0.75, 1e-5, "crossings are on both curves");
    vx_near(buf[i][0] * (2 - buf[i][0]), 0.75, 1e-5, "crossings are on both curves");
  }
}
// Two curves of fixed shape anywhere in the plane, in any size
// @entry h_cross mode=real time=100
extern "C" void h_cross()
{
  double const x = vx_real("x", -100, 100);
  double const y = vx_real("y", -100, 100);
  double const s = vx_real("s", 0.1, 10);
  auto const at = [&](double u, double v) { return v2(x + s * u, y + s * v); };
  V2 buf[16];
  Q2 const a(at(0, 0), at(2, 0), at(1, 1));
  Int n = 0;
  switch (1 + vx_choice("case", 4)) {
  case 1: {
    Q2 const c(at(0.5, -1), at(0.5, 2), at(0.5, 0.5));
    n = a.intersect(c, &buf[0]);
    vx_assert(n == 1 && a.intersects(c), "one crossing");
    vx_near(buf[0][0] - x, 0.5 * s, 1e-4, "crossing position");
    vx_near(buf[0][1] - y, 0.75 * s, 1e-4, "crossing position");
    break;
  }
  case 2: {
    // at the middle of both
    Q2 const d(at(1, 0), at(1, 2), at(1, 1));
    n = a.intersect(d, &buf[0]);
    vx_assert(n == 1 && a.intersects(d), "one crossing");
    vx_near(buf[0][0] - x, 1 * s, 1e-4, "crossing position");
    vx_near(buf[0][1] - y, 1 * s, 1e-4, "crossing position");
    break;
  }
  case 3: {
    // at an end of both
    Q2 const d(at(2, 0), at(4, 0), at(3, 1));
    n = a.intersect(d, &buf[0]);
    vx_assert(n == 1 && a.intersects(d), "one crossing");
    vx_near(buf[0][0] - x, 2 * s, 1e-4, "crossing position");
    vx_near(buf[0][1] - y, 0 * s, 1e-4, "crossing position");
    break;
  }
  default: {
    Q2 const e(at(0, 1.5), at(2, 1.5), at(1, 1.25));
    vx_assert(a.intersect(e, &buf[0]) == 0 && !a.intersects(e), "no crossing");
  }
  }
}
// Curves with separated boxes do not cross
// @entry h_apart mode=real time=30
extern "C" void h_apart()
{
  double const x = vx_real("x", -9, 9);
  double const y = vx_real("y", -9, 9);
  vx_assume(x > 2.2 || x < -2.2 || y > 2.2 || y < -2.2);
  Q2 const a(v2(-1, -1), v2(1, 1), v2(0.5, -0.5));
  Q2 const b(v2(x - 1, y + 1), v2(x + 1, y - 1), v2(x, y));
  V2 buf[16];
  vx_assert(a.intersect(b, &buf[0]) == 0, "separated curves do not cross");
  vx_assert(!a.intersects(b), "separated curves do not cross");
}
