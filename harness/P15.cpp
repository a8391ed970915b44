// Quadratic triangles and quadrilaterals
// @bounds interpolation, derivative, edges and flips: every node in [-10, 10]^D, D = 2 and 3; area: every element with convex counterclockwise corners; centroid: fixed corners and every edge node within 1 of its edge's midpoint; containment and rays: four fixed elements (straight, bulging and hollow edges) and every point or ray origin
// @outside rounding; arc lengths enter through the segment's own length; self-intersection (recursive bisection with a Newton step) on fixed elements numbered from any corner only (opposite edges crossing exactly once are not reported by the library)
#include "vrt.hpp"
#include <um2/geometry/quadratic_quadrilateral.hpp>
#include <um2/geometry/quadratic_triangle.hpp>
#include <um2/stdlib/numbers.hpp>
#include "geo.inc"
using V2 = um2::Vec<2, double>;
template <Int D>
using T6 = um2::QuadraticTriangle<D, double>;
template <Int D>
using Q8 = um2::QuadraticQuadrilateral<D, double>;

template <class P, Int D, Int N>
static P anyElement()
{
  P p;
  for (Int i = 0; i < N; ++i) {
    p[i] = anyPoint<D>("v");
  }
  return p;
}
template <class P, Int D, Int N>
static void edges(P const & p)
{
  Int const m = N / 2;
  for (Int i = 0; i < m; ++i) {
    auto const e = p.getEdge(i);
    samePoint<D>(e[0], p[i], 0, "edge i starts at node i");
    samePoint<D>(e[1], p[(i + 1) % m], 0, "edge i ends at the next node");
    samePoint<D>(e[2], p[i + m], 0, "edge i has the i-th edge node in the middle");
    samePoint<D>(p.linearPolygon()[i], p[i], 0, "linear polygon through the corners");
  }
}
template <class P, Int D>
static void derivative(P const & p)
{
  double const r = vx_real("r", -1, 2);
  double const s = vx_real("s", -1, 2);
  double const h = vx_real("h", 0.01, 1);
  auto const j = p.jacobian(r, s);
  auto const a = p(r + h, s) - p(r - h, s);
  auto const b = p(r, s + h) - p(r, s - h);
  for (Int i = 0; i < D; ++i) {
    vx_near(a[i], 2 * h * j(i, 0), 1e-9, "derivative in the first coordinate");
    vx_near(b[i], 2 * h * j(i, 1), 1e-9, "derivative in the second coordinate");
  }
}
template <Int D>
static void tri()
{
  auto const t = anyElement<T6<D>, D, 6>();
  samePoint<D>(t(0, 0), t[0], 1e-9, "triangle passes through its corners");
  samePoint<D>(t(1, 0), t[1], 1e-9, "triangle passes through its corners");
  samePoint<D>(t(0, 1), t[2], 1e-9, "triangle passes through its corners");
  samePoint<D>(t(0.5, 0), t[3], 1e-9, "triangle passes through its edge nodes");
  samePoint<D>(t(0.5, 0.5), t[4], 1e-9, "triangle passes through its edge nodes");
  samePoint<D>(t(0, 0.5), t[5], 1e-9, "triangle passes through its edge nodes");
  edges<T6<D>, D, 6>(t);
  double const r = vx_real("u", 0, 1);
  samePoint<D>(t(r, 0), t.getEdge(0)(r), 1e-9, "edges are the sides of the triangle");
  samePoint<D>(t(1 - r, r), t.getEdge(1)(r), 1e-9, "edges are the sides of the triangle");
  samePoint<D>(t(0, 1 - r), t.getEdge(2)(r), 1e-9, "edges are the sides of the triangle");
  derivative<T6<D>, D>(t);
  auto f = t;
  f.flip();
  double const s = vx_real("w", 0, 1);
  samePoint<D>(f(r, s), t(s, r), 1e-9, "flipping the triangle swaps its coordinates");
}
template <Int D>
static void quad()
{
  auto const t = anyElement<Q8<D>, D, 8>();
  samePoint<D>(t(0, 0), t[0], 1e-9, "quadrilateral passes through its corners");
  samePoint<D>(t(1, 0), t[1], 1e-9, "quadrilateral passes through its corners");
  samePoint<D>(t(1, 1), t[2], 1e-9, "quadrilateral passes through its corners");
  samePoint<D>(t(0, 1), t[3], 1e-9, "quadrilateral passes through its corners");
  samePoint<D>(t(0.5, 0), t[4], 1e-9, "quadrilateral passes through its edge nodes");
  samePoint<D>(t(1, 0.5), t[5], 1e-9, "quadrilateral passes through its edge nodes");
  samePoint<D>(t(0.5, 1), t[6], 1e-9, "quadrilateral passes through its edge nodes");
  samePoint<D>(t(0, 0.5), t[7], 1e-9, "quadrilateral passes through its edge nodes");
  edges<Q8<D>, D, 8>(t);
  double const r = vx_real("u", 0, 1);
  samePoint<D>(t(r, 0), t.getEdge(0)(r), 1e-9, "edges are the sides of the quadrilateral");
  samePoint<D>(t(1, r), t.getEdge(1)(r), 1e-9, "edges are the sides of the quadrilateral");
  samePoint<D>(t(1 - r, 1), t.getEdge(2)(r), 1e-9, "edges are the sides of the quadrilateral");
  samePoint<D>(t(0, 1 - r), t.getEdge(3)(r), 1e-9, "edges are the sides of the quadrilateral");
  derivative<Q8<D>, D>(t);
  auto f = t;
  f.flip();
  double const s = vx_real("w", 0, 1);
  samePoint<D>(f(r, s), t(s, r), 1e-9, "flipping the quadrilateral swaps its coordinates");
}
// @entry h_tri2 mode=real
extern "C" void h_tri2() { tri<2>(); }
// @entry h_tri3 mode=real
extern "C" void h_tri3() { tri<3>(); }
// @entry h_quad2 mode=real
extern "C" void h_quad2() { quad<2>(); }
// @entry h_quad3 mode=real
extern "C" void h_quad3() { quad<3>(); }

static double x2dy(double const * B, double const * A, double c, Int x, Int y)
{
  // integral over r in [0, 1] of (c + B_x r + A_x r^2)^2 (B_y + 2 A_y r)
  double const p[5] = {c * c, 2 * c * B[x], B[x] * B[x] + 2 * c * A[x], 2 * A[x] * B[x], A[x] * A[x]};
  double s = 0;
  for (Int i = 0; i < 5; ++i) {
    s += p[i] * B[y] / (i + 1) + 2 * p[i] * A[y] / (i + 2);
  }
  return s;
}
// Integrals of 1, x and y over the element from its boundary
template <class P>
static void integrals(P const & p, Int m, double * out)
{
  out[0] = out[1] = out[2] = 0;
  for (Int i = 0; i < m; ++i) {
    V2 const a = p[i];
    V2 const b = p[(i + 1) % m];
    V2 const c = p[i + m];
    double A[2];
    double B[2];
    for (Int k = 0; k < 2; ++k) {
      A[k] = 2 * (a[k] + b[k]) - 4 * c[k];
      B[k] = 4 * c[k] - 3 * a[k] - b[k];
    }
    out[0] += (a[0] * b[1] - a[1] * b[0]) / 2 + (B[0] * A[1] - B[1] * A[0]) / 6;
    out[1] += x2dy(B, A, a[0], 0, 1) / 2;
    out[2] -= x2dy(B, A, a[1], 1, 0) / 2;
  }
}
template <class P, Int N>
static void area()
{
  auto p = anyElement<P, 2, N>();
  Int const m = N / 2;
  // corners in counterclockwise order and convex
  for (Int i = 0; i < m - (m == 3 ? 2 : 0); ++i) {
    auto const a = p[(i + 1) % m] - p[i];
    auto const b = p[(i + 2) % m] - p[i];
    vx_assume(a[0] * b[1] - a[1] * b[0] > 0.01);
  }
  double w[3];
  integrals(p, m, w);
  vx_assume(w[0] > 0.01);
  vx_near(p.area(), w[0], 1e-6, "area is the integral over the shape");
  vx_assert(p.isCCW(), "counterclockwise corners");
  auto f = p;
  f.flip();
  vx_assert(!f.isCCW(), "flipping reverses the orientation");
}
// @entry h_area_t mode=real
extern "C" void h_area_t() { area<T6<2>, 6>(); }
// @entry h_area_q mode=real
extern "C" void h_area_q() { area<Q8<2>, 8>(); }

template <class P>
static P cornered(double const (*c)[2], Int m, double spread)
{
  P p;
  for (Int i = 0; i < m; ++i) {
    Int const j = (i + 1) % m;
    p[i] = v2(c[i][0], c[i][1]);
    p[m + i] = v2((c[i][0] + c[j][0]) / 2 + (spread > 0 ? vx_real("dx", -spread, spread) : 0),
                  (c[i][1] + c[j][1]) / 2 + (spread > 0 ? vx_real("dy", -spread, spread) : 0));
  }
  return p;
}
// corners with edges of rational length
static double const TRI[3][2] = {{-1, -2}, {3, -2}, {3, 1}};
static double const QUAD[4][2] = {{-2, 1}, {2, 1}, {6, 4}, {2, 4}};

template <class P>
static void centroid(P const & p, Int m)
{
  double w[3];
  integrals(p, m, w);
  vx_assume(w[0] > 0.1);
  auto const c = p.centroid();
  vx_near(c[0] * w[0], w[1], 1e-5, "centroid is the mean of x over the shape");
  vx_near(c[1] * w[0], w[2], 1e-5, "centroid is the mean of y over the shape");
}
// @entry h_centroid_t mode=real
extern "C" void h_centroid_t() { centroid(cornered<T6<2>>(TRI, 3, 1), 3); }
// @entry h_centroid_q mode=real
extern "C" void h_centroid_q() { centroid(cornered<Q8<2>>(QUAD, 4, 1), 4); }

// Elements with straight edges have the measures of the linear polygon
template <class P>
static void straight(P const & p, Int m)
{
  auto const l = p.linearPolygon();
  vx_near(p.area(), l.area(), 1e-6, "area of an element with straight edges");
  samePoint<2>(p.centroid(), l.centroid(), 1e-6, "centroid of an element with straight edges");
  vx_near(p.perimeter(), l.perimeter(), 1e-6, "perimeter of an element with straight edges");
  vx_near(p.meanChordLength(), l.meanChordLength(), 1e-6, "mean chord of an element with straight edges");
  vx_near(p.meanChordLength() * p.perimeter(), um2::pi<double> * l.area(), 1e-5, "mean chord length");
  vx_assert(p.isCCW() == l.isCCW(), "orientation of an element with straight edges");
  auto const b = p.boundingBox();
  auto const c = l.boundingBox();
  samePoint<2>(b.minima(), c.minima(), 1e-6, "box of an element with straight edges");
  samePoint<2>(b.maxima(), c.maxima(), 1e-6, "box of an element with straight edges");
}
// @entry h_straight_t mode=real
extern "C" void h_straight_t()
{
  double c[3][2] = {{-1, -2}, {3, -2}, {vx_real("x", -5, 5), vx_real("y", -1, 5)}};
  straight(cornered<T6<2>>(c, 3, 0), 3);
}
// @entry h_straight_q mode=real
extern "C" void h_straight_q()
{
  double c[4][2] = {{-2, 1}, {2, 1}, {vx_real("x", 1, 6), vx_real("y", 3, 6)}, {-1, 4}};
  straight(cornered<Q8<2>>(c, 4, 0), 4);
}
// @entry h_box mode=real time=40
extern "C" void h_box()
{
  Int const m = 3 + vx_choice("corners", 2);
  Int const k = vx_concrete(vx_int("edge", 0, m - 1));
  double const r = vx_real("r", 0, 1);
  double const y = vx_real("cy", -1, 1);
  V2 p;
  V2 lo;
  V2 hi;
  V2 elo = v2(1e9, 1e9);
  V2 ehi = v2(-1e9, -1e9);
  auto const go = [&](auto q) {
    q[m + k][0] += 0.5 * y;
    q[m + k][1] += y;
    p = q.getEdge(k)(r);
    auto const b = q.boundingBox();
    lo = b.minima();
    hi = b.maxima();
    for (Int i = 0; i < m; ++i) {
      auto const e = q.getEdge(i).boundingBox();
      for (Int d = 0; d < 2; ++d) {
        elo[d] = e.minima(d) < elo[d] ? e.minima(d) : elo[d];
        ehi[d] = e.maxima(d) > ehi[d] ? e.maxima(d) : ehi[d];
      }
    }
  };
  if (m == 3) {
    go(cornered<T6<2>>(TRI, 3, 0));
  } else {
    go(cornered<Q8<2>>(QUAD, 4, 0));
  }
  for (Int d = 0; d < 2; ++d) {
    vx_le(lo[d], p[d], 1e-6, "box contains every edge");
    vx_le(p[d], hi[d], 1e-6, "box contains every edge");
    vx_near(lo[d], elo[d], 1e-9, "box is the union of the boxes of the edges");
    vx_near(hi[d], ehi[d], 1e-9, "box is the union of the boxes of the edges");
  }
}

static T6<2> someTri(Int k)
{
  auto t = cornered<T6<2>>(TRI, 3, 0);
  if (k == 1) {
    t[3] = v2(1.25, -2.5);  // bulges outward
    t[4] = v2(2.5, -0.5);   // hollow
    t[5] = v2(0.75, -0.25); // bulges outward
  }
  return t;
}
static Q8<2> someQuad(Int k)
{
  auto t = cornered<Q8<2>>(QUAD, 4, 0);
  if (k == 1) {
    t[4] = v2(0, 1.25);
    t[5] = v2(4.5, 2);
    t[6] = v2(4, 4.5);
    t[7] = v2(0.25, 2.25);
  }
  return t;
}
// @entry h_contains mode=real time=60
extern "C" void h_contains()
{
  Int const kind = vx_choice("kind", 2);
  Int const k = vx_choice("element", 2);
  bool const inside = vx_choice("inside", 2) == 1;
  double const r = vx_real("r", 0.01, 0.99);
  static double const S[4] = {0.01, 0.3, 0.6, 0.97};
  if (inside) {
    double const s = S[vx_choice("s", 4)];
    if (kind == 0) {
      vx_assume(r + s < 0.99);
      auto const t = someTri(k);
      vx_assert(t.contains(t(r, s)), "interior points are contained");
    } else {
      auto const t = someQuad(k);
      vx_assert(t.contains(t(r, s)), "interior points are contained");
    }
    return;
  }
  // just beyond an edge
  Int const e = vx_concrete(vx_int("edge", 0, 2 + kind));
  double const h = vx_choice("far", 2) == 0 ? 0.02 : 0.2;
  auto const go = [&](auto const & t) {
    auto const q = t.getEdge(e);
    auto const p = q(r);
    auto const j = q.jacobian(r);
    vx_assert(!t.contains(v2(p[0] + h * j[1] / 8, p[1] - h * j[0] / 8)), "points beyond an edge are not contained");
  };
  if (kind == 0) {
    go(someTri(k));
  } else {
    go(someQuad(k));
  }
}
// @entry h_ray mode=real time=60
extern "C" void h_ray()
{
  static double const D[3][3] = {{1, 0, 1}, {-3, 4, 5}, {-5, -12, 13}};
  Int const d = vx_choice("direction", 3);
  Int const kind = vx_choice("kind", 2);
  um2::Ray2<double> const ray(anyPoint<2>("o", -6, 8), v2(D[d][0] / D[d][2], D[d][1] / D[d][2]));
  auto const go = [&](auto const & t, Int m) {
    double a[16];
    double b[16];
    Int const n = t.intersect(ray, &a[0]);
    Int c = 0;
    for (Int i = 0; i < m; ++i) {
      c += t.getEdge(i).intersect(ray, &b[c]);
    }
    vx_assert(n == c, "as many hits as on all edges together");
    for (Int i = 0; i < c; ++i) {
      bool found = false;
      for (Int j = 0; j < n; ++j) {
        found = found || a[j] == b[i];
      }
      vx_assert(found, "every hit of an edge is reported");
    }
  };
  if (kind == 0) {
    go(someTri(1), 3);
  } else {
    go(someQuad(1), 4);
  }
}
// The same element, numbered from another corner
template <class P>
static P renumbered(P const & p, Int m, Int k)
{
  P q;
  for (Int i = 0; i < m; ++i) {
    q[i] = p[(i + k) % m];
    q[m + i] = p[m + (i + k) % m];
  }
  return q;
}
// Fixed elements, numbered from any corner
// @entry h_self
extern "C" void h_self()
{
  V2 buf[64];
  if (vx_choice("kind", 2) == 0) {
    Int const k = vx_choice("first", 3);
    auto t = someTri(1);
    t[3] = v2(1.9, -0.2);
    t = renumbered(t, 3, k);
    vx_assert(t.hasSelfIntersection(), "edges bent through each other cross");
    vx_assert(t.hasSelfIntersection(&buf[0]), "edges bent through each other cross");
  } else {
    Int const k = vx_choice("first", 4);
    static double const R[4][2] = {{0, 0}, {2, 0}, {2, 1}, {0, 1}};
    auto q = cornered<Q8<2>>(R, 4, 0);
    q[4] = v2(1, 1.5);
    q = renumbered(q, 4, k);
    vx_assert(q.hasSelfIntersection(), "opposite edges bent through each other cross");
    // neighbouring edges
    q = cornered<Q8<2>>(R, 4, 0);
    q[4] = v2(1.9, 0.4);
    q = renumbered(q, 4, k);
    vx_assert(q.hasSelfIntersection(), "neighbouring edges bent through each other cross");
  }
}
// @entry h_sound time=100
extern "C" void h_sound()
{
  V2 buf[64];
  double const x = vx_choice("x", 2) * 10;
  double const y = -5;
  double const s = vx_choice("s", 2) == 0 ? 1 : 0.1;
  auto const go = [&](auto p, Int m) {
    for (Int i = 0; i < 2 * m; ++i) {
      p[i] = v2(x + s * p[i][0], y + s * p[i][1]);
    }
    auto const q = renumbered(p, m, vx_choice("first", m));
    vx_assert(!q.hasSelfIntersection(), "a valid element does not cross itself");
    vx_assert(!q.hasSelfIntersection(&buf[0]), "a valid element does not cross itself");
  };
  switch (vx_choice("kind", 4)) {
  case 0:
    go(someTri(0), 3);
    break;
  case 1:
    go(someTri(1), 3);
    break;
  case 2:
    go(someQuad(1), 4);
    break;
  default:
    go(someQuad(0), 4);
  }
}
// A straight edge crossed by its curved neighbour is bent the same way
template <class Poly>
static void repair(Poly t, Int e, Int m)
{
  V2 buf[64];
  Int vid = -1;
  Poly const old = t;
  vx_assert(t.hasSelfIntersection(), "the curved edge crosses the straight one");
  vx_assert(um2::fixSelfIntersection(t, &buf[0], vid), "the crossing is repaired");
  vx_assert(vid == m + e, "the straight edge's middle node is the one moved");
  Int const c = e == 0 ? 1 : 0;
  auto const curved = old.getEdge(c);
  double const dx = curved[1][0] - curved[0][0];
  double const dy = curved[1][1] - curved[0][1];
  double const z = ((curved[2][0] - curved[0][0]) * dy - (curved[2][1] - curved[0][1]) * dx) / (dx * dx + dy * dy);
  vx_near(buf[0][0], z * dy, 1e-9, "by as much as the curved edge leaves its chord");
  vx_near(buf[0][1], -z * dx, 1e-9, "by as much as the curved edge leaves its chord");
  for (Int i = 0; i < 2 * m; ++i) {
    for (Int k = 0; k < 2; ++k) {
      vx_near(t[i][k], old[i][k] + (i == vid ? buf[0][k] : 0), 1e-9, "the other nodes stay");
    }
  }
  vx_assert(!t.hasSelfIntersection(), "no crossing is left");
}
// @entry h_repair
extern "C" void h_repair()
{
  Int const turn = vx_choice("turn", 4);
  Int const e = vx_choice("straight", 2);
  Int const kind = vx_choice("kind", 2);
  static double const C[4] = {1, 0, -1, 0};
  auto const at = [&](double x, double y) {
    // the straight edge second: mirrored, so that the order of the corners stays counterclockwise
    double const u = e == 0 ? x : -x;
    return v2(3 + C[turn] * u - C[(turn + 3) % 4] * y, -2 + C[(turn + 3) % 4] * u + C[turn] * y);
  };
  if (kind == 0) {
    T6<2> t;
    if (e == 0) {
      t = T6<2>(at(0, 0), at(2, 0), at(0, 0.5), at(1, 0), at(1, -0.05), at(0, 0.25));
    } else {
      t = T6<2>(at(0, 0.5), at(2, 0), at(0, 0), at(1, -0.05), at(1, 0), at(0, 0.25));
    }
    repair(t, e, 3);
  } else {
    Q8<2> t;
    if (e == 0) {
      t = Q8<2>(at(0, 0), at(2, 0), at(0.5, 0.5), at(0, 0.5), at(1, 0), at(1.25, -0.02), at(0.25, 0.5), at(0, 0.25));
    } else {
      t = Q8<2>(at(0.5, 0.5), at(2, 0), at(0, 0), at(0, 0.5), at(1.25, -0.02), at(1, 0), at(0, 0.25), at(0.25, 0.5));
    }
    repair(t, e, 4);
  }
}
