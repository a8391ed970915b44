// Nearest points of quadratic segments, given a root finder that meets its contract
// @bounds four curves and every query point in [-5, 5]^2; stationary points and ends are the only candidates for the nearest point
// @outside rounding; other curves
// @models cubic
// @native -lm
// @stub solveCubic (in nearest-point queries of curved segments): returns numbers that satisfy the given cubic and include all of its real roots; the real one is used in replays and checked separately
#include "vrt.hpp"
#include <um2/geometry/quadratic_segment.hpp>
#include "geo.inc"
using um2::QuadraticSegment;
using Q2 = QuadraticSegment<2, double>;
using V2 = um2::Vec<2, double>;

static Q2 someCurve(Int k)
{
  switch (k) {
  case 0:
    return {v2(0, 0), v2(2, 0), v2(1, 1)};
  case 1:
    return {v2(1, 1), v2(-3, 2), v2(-1.25, -0.5)};
  case 2:
    return {v2(-1, 2), v2(3, -2), v2(1.5, 0.25)};
  case 3:
    return {v2(0, 0), v2(1, 0), v2(1.5, 0.5)}; // bulges past its end
  default:
    return {v2(2, -1), v2(2, 3), v2(2, 1)}; // straight
  }
}
static void nearest(Q2 const & q, V2 const & p)
{
  double const r = q.pointClosestTo(p);
  vx_le(0, r, 1e-9, "nearest parameter is in range");
  vx_le(r, 1, 1e-9, "nearest parameter is in range");
  auto const n = q(r);
  double const d2 = (n[0] - p[0]) * (n[0] - p[0]) + (n[1] - p[1]) * (n[1] - p[1]);
  vx_near(q.squaredDistanceTo(p), d2, 1e-6, "squared distance is the one to the nearest point");
  // ends and stationary points: (Q(s) - p) . Q'(s) = 0
  double A[2];
  double B[2];
  for (Int i = 0; i < 2; ++i) {
    A[i] = 2 * (q[0][i] + q[1][i]) - 4 * q[2][i];
    B[i] = 4 * q[2][i] - 3 * q[0][i] - q[1][i];
  }
  double const w[2] = {q[0][0] - p[0], q[0][1] - p[1]};
  auto const roots = um2::solveCubic<double>(2 * (A[0] * A[0] + A[1] * A[1]), 3 * (A[0] * B[0] + A[1] * B[1]),
                                     B[0] * B[0] + B[1] * B[1] + 2 * (A[0] * w[0] + A[1] * w[1]), B[0] * w[0] + B[1] * w[1]);
  for (Int what = 0; what < 5; ++what) {
    double const s = what < 2 ? what : roots[what - 2];
    if (s >= 0 && s <= 1) {
      auto const o = q(s);
      double const e2 = (o[0] - p[0]) * (o[0] - p[0]) + (o[1] - p[1]) * (o[1] - p[1]);
      vx_le(d2, e2, 1e-6, "no end or stationary point of the curve is closer");
    }
  }
}
// @entry h_nearest mode=real time=60
extern "C" void h_nearest()
{
  nearest(someCurve(vx_choice("curve", 4)), anyPoint<2>("p", -5, 5));
}
// A straight segment whose middle node is not halfway
// @entry h_nearest_skew mode=real time=60
extern "C" void h_nearest_skew()
{
  double const m = vx_real("m", 1.1, 1.9);
  Q2 const q(v2(0, 0), v2(4, 0), v2(m, 0));
  nearest(q, anyPoint<2>("p", -5, 5));
}
