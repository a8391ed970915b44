// Axis-aligned boxes
// @bounds boxes in 1, 2 and 3 dimensions with every corner in [-10, 10]^D, every point in [-20, 20]^D, bounding boxes of 1..4 points, ray directions with every component at least 0.05 in magnitude (in 3 dimensions the eight directions (+-2/3, +-1/3, +-2/3)); axis-parallel rays (infinite inverse direction) with all box values of magnitude up to 1000
// @outside rounding in the entries over the reals; directions with a nonzero component below 0.05; an axis-parallel ray that starts exactly in the plane of a face
#include "vrt.hpp"
#include <um2/geometry/axis_aligned_box.hpp>
#include "geo.inc"

using um2::AxisAlignedBox;
using um2::Vec;

template <Int D>
static AxisAlignedBox<D, double> anyBox(char const * n)
{
  auto const a = anyPoint<D>(n);
  auto const b = anyPoint<D>(n);
  for (Int i = 0; i < D; ++i) {
    vx_assume(a[i] <= b[i]);
  }
  return {a, b};
}
template <Int D>
static bool inside(AxisAlignedBox<D, double> const & b, Vec<D, double> const & p)
{
  bool in = true;
  for (Int i = 0; i < D; ++i) {
    in = in && b.minima()[i] <= p[i] && p[i] <= b.maxima()[i];
  }
  return in;
}
template <Int D>
static void basics()
{
  auto const a = anyBox<D>("a");
  auto const b = anyBox<D>("b");
  auto const p = anyPoint<D>("p", -20, 20);
  vx_assert(a.contains(p) == inside<D>(a, p), "containment is componentwise and closed");
  auto const u = a + b;
  auto const ap = a + p;
  for (Int i = 0; i < D; ++i) {
    double const lo = a.minima(i) < b.minima(i) ? a.minima(i) : b.minima(i);
    double const hi = a.maxima(i) > b.maxima(i) ? a.maxima(i) : b.maxima(i);
    vx_near(u.minima(i), lo, 0, "union minimum");
    vx_near(u.maxima(i), hi, 0, "union maximum");
    vx_near(ap.minima(i), a.minima(i) < p[i] ? a.minima(i) : p[i], 0, "box grown to a point: minimum");
    vx_near(ap.maxima(i), a.maxima(i) > p[i] ? a.maxima(i) : p[i], 0, "box grown to a point: maximum");
    vx_near(a.extents()[i], a.maxima(i) - a.minima(i), 0, "extents");
    vx_near(a.extents(i), a.maxima(i) - a.minima(i), 0, "extent of one axis");
    vx_near(2 * a.centroid()[i], a.maxima(i) + a.minima(i), 0, "centroid");
  }
}
// @entry h_basic1 mode=real
extern "C" void h_basic1() { basics<1>(); }
// @entry h_basic2 mode=real
extern "C" void h_basic2() { basics<2>(); }
// @entry h_basic3 mode=real
extern "C" void h_basic3() { basics<3>(); }

template <Int D>
static void overlap()
{
  auto const a = anyBox<D>("a");
  auto const b = anyBox<D>("b");
  bool common = true;
  for (Int i = 0; i < D; ++i) {
    double const lo = a.minima(i) > b.minima(i) ? a.minima(i) : b.minima(i);
    double const hi = a.maxima(i) < b.maxima(i) ? a.maxima(i) : b.maxima(i);
    common = common && lo <= hi;
  }
  vx_assert(a.intersects(b) == common, "boxes overlap exactly when they share a point");
  vx_assert(b.intersects(a) == common, "overlap is symmetric");
  auto const e = AxisAlignedBox<D, double>::empty();
  vx_assert(!e.contains(a.minima()), "the empty box contains nothing");
  auto const g = e + a.minima();
  vx_assert(g.minima() == a.minima() && g.maxima() == a.minima(), "the empty box grows to exactly the first point");
}
// @entry h_overlap2 mode=real
extern "C" void h_overlap2() { overlap<2>(); }
// @entry h_overlap3 mode=real
extern "C" void h_overlap3() { overlap<3>(); }

// @entry h_scale mode=real
extern "C" void h_scale()
{
  auto const a = anyBox<2>("a");
  double const s = vx_real("s", 0, 10);
  auto b = a;
  b.scale(s);
  for (Int i = 0; i < 2; ++i) {
    vx_near(b.extents(i), s * a.extents(i), 0, "scaling multiplies the extents");
    vx_near(b.centroid()[i], a.centroid()[i], 0, "scaling keeps the centre");
  }
}
template <Int D>
static void hull()
{
  Vec<D, double> p[4];
  Int const n = 1 + vx_choice("n", D == 2 ? 4 : 3);
  for (Int i = 0; i < n; ++i) {
    p[i] = anyPoint<D>("p");
  }
  auto const b = um2::boundingBox(&p[0], n);
  auto const c = um2::boundingBox(&p[0], &p[0] + n);
  for (Int k = 0; k < D; ++k) {
    bool lo = false;
    bool hi = false;
    for (Int i = 0; i < n; ++i) {
      vx_assert(b.minima(k) <= p[i][k] && p[i][k] <= b.maxima(k), "bounding box contains every point");
      lo = lo || b.minima(k) == p[i][k];
      hi = hi || b.maxima(k) == p[i][k];
    }
    vx_assert(lo && hi, "bounding box is tight");
    vx_assert(b.minima(k) == c.minima(k) && b.maxima(k) == c.maxima(k), "both forms agree");
  }
}
// @entry h_hull2 mode=real
extern "C" void h_hull2() { hull<2>(); }
// @entry h_hull3 mode=real
extern "C" void h_hull3() { hull<3>(); }

template <Int D>
static void ray()
{
  auto const b = anyBox<D>("b");
  auto const o = anyPoint<D>("o");
  Vec<D, double> d;
  if constexpr (D == 3) {
    // fixed magnitudes, every sign combination
    d[0] = (vx_choice("sx", 2) == 0 ? 1 : -1) * (2.0 / 3.0);
    d[1] = (vx_choice("sy", 2) == 0 ? 1 : -1) * (1.0 / 3.0);
    d[2] = (vx_choice("sz", 2) == 0 ? 1 : -1) * (2.0 / 3.0);
  } else {
    d = anyDirection<D>("d", 0.05);
  }
  um2::Ray<D, double> const r(o, d);
  auto const t = b.intersect(r);
  auto const u = b.intersect(r, r.inverseDirection());
  vx_near(t[0], u[0], 0, "both intersection forms agree");
  vx_near(t[1], u[1], 0, "both intersection forms agree");
  double const x = vx_real("x", 0, 500);
  Vec<D, double> const p = r(x);
  for (Int i = 0; i < D; ++i) {
    vx_near(p[i], o[i] + x * d[i], 0, "point along a ray");
  }
  bool in = true;
  for (Int i = 0; i < D; ++i) {
    in = in && b.minima(i) <= p[i] && p[i] <= b.maxima(i);
  }
  if (t[0] < 0) {
    vx_near(t[0], -1, 0, "a miss is marked by -1");
    vx_near(t[1], -1, 0, "a miss is marked by -1");
    vx_assert(!in, "a missed box has no point of the ray");
  } else {
    vx_le(t[0], t[1], 0, "entry comes before exit");
    vx_assert(in == (t[0] <= x && x <= t[1]), "the ray is in the box exactly between entry and exit");
  }
}
// @entry h_ray1 mode=real
extern "C" void h_ray1() { ray<1>(); }
// @entry h_ray2 mode=real
extern "C" void h_ray2() { ray<2>(); }
// @entry h_ray3 mode=real
extern "C" void h_ray3() { ray<3>(); }

// Axis-parallel rays, including the infinite inverse direction
// @entry h_axis mode=real
extern "C" void h_axis()
{
  Int const ax = vx_choice("ax", 2);
  double const sg = vx_choice("sg", 2) == 0 ? 1 : -1;
  Vec<2, double> lo;
  Vec<2, double> hi;
  Vec<2, double> o;
  for (Int i = 0; i < 2; ++i) {
    lo[i] = vx_real("lo", -1000, 1000);
    hi[i] = vx_real("hi", -1000, 1000);
    o[i] = vx_real("o", -1000, 1000);
    vx_assume(lo[i] < hi[i]);
  }
  Vec<2, double> d;
  d[ax] = sg;
  d[1 - ax] = 0;
  vx_assume(o[1 - ax] != lo[1 - ax] && o[1 - ax] != hi[1 - ax]);
  AxisAlignedBox<2, double> const b(lo, hi);
  auto const t = b.intersect(um2::Ray<2, double>(o, d));
  bool const across = lo[1 - ax] < o[1 - ax] && o[1 - ax] < hi[1 - ax];
  double const near = sg > 0 ? (lo[ax] - o[ax]) : (o[ax] - hi[ax]);
  double const far = sg > 0 ? (hi[ax] - o[ax]) : (o[ax] - lo[ax]);
  if (!across || far < 0) {
    vx_near(t[0], -1, 0, "a parallel ray beside or behind misses");
    vx_near(t[1], -1, 0, "a parallel ray beside or behind misses");
  } else {
    vx_near(t[0], near > 0 ? near : 0, 0, "a parallel ray enters at the near face");
    vx_near(t[1], far, 0, "a parallel ray leaves at the far face");
  }
}
