// Regular grids and partitions
// @bounds every origin in [-10, 10]^D, every spacing in [0.05, 5], 1 to 4 cells per direction (1 to 3 in three dimensions), every query point and box in [-20, 20]^D; D = 1, 2, 3 (location in D = 1, 2 with the second direction fixed, cell addressing in all)
// @outside rounding at cell boundaries
#include "vrt.hpp"
#include <um2/stdlib/vector.hpp>
#include <um2/mesh/regular_partition.hpp>
#include "geo.inc"
using um2::RegularGrid;
using um2::Vec;

template <Int D>
static Vec<D, Int> counts(Int hi)
{
  Vec<D, Int> n;
  for (Int i = 0; i < D; ++i) {
    n[i] = 1 + vx_choice("n", hi);
  }
  return n;
}
template <Int D>
static auto flat(RegularGrid<D, double> const & g, Vec<D, Int> const & k) -> Int
{
  if constexpr (D == 1) {
    return g.getFlatIndex(k[0]);
  } else if constexpr (D == 2) {
    return g.getFlatIndex(k[0], k[1]);
  } else {
    return g.getFlatIndex(k[0], k[1], k[2]);
  }
}
template <Int D, class F>
static void forCells(Vec<D, Int> const & n, F const & f)
{
  Vec<D, Int> k;
  for (Int i = 0; i < D; ++i) {
    k[i] = 0;
  }
  for (;;) {
    f(k);
    Int d = 0;
    while (d < D && ++k[d] == n[d]) {
      k[d++] = 0;
    }
    if (d == D) {
      return;
    }
  }
}
template <Int D>
static void tiling(Int hi)
{
  auto const n = counts<D>(hi);
  auto const lo = anyPoint<D>("lo");
  auto const dx = anyPoint<D>("dx", 0.05, 5);
  RegularGrid<D, double> const g(lo, dx, n);
  Int total = 1;
  auto const b = g.boundingBox();
  for (Int i = 0; i < D; ++i) {
    total *= n[i];
    vx_assert(g.numCells(i) == n[i] && g.numCells()[i] == n[i], "cell counts");
    vx_near(g.minima(i), lo[i], 1e-9, "lower corner");
    vx_near(g.minima()[i], lo[i], 1e-9, "lower corner");
    vx_near(g.spacing(i), dx[i], 1e-9, "spacing");
    vx_near(g.spacing()[i], dx[i], 1e-9, "spacing");
    vx_near(g.extents(i), n[i] * dx[i], 1e-9, "extents");
    vx_near(g.extents()[i], n[i] * dx[i], 1e-9, "extents");
    vx_near(g.maxima(i), lo[i] + n[i] * dx[i], 1e-9, "upper corner");
    vx_near(g.maxima()[i], lo[i] + n[i] * dx[i], 1e-9, "upper corner");
    vx_near(b.minima(i), lo[i], 1e-9, "bounding box");
    vx_near(b.maxima(i), lo[i] + n[i] * dx[i], 1e-9, "bounding box");
  }
  vx_assert(g.totalNumCells() == total, "total number of cells");
  um2::Vector<Int> v(total);
  for (Int i = 0; i < total; ++i) {
    v[i] = 100 + i;
  }
  um2::RegularPartition<D, Int> part(g, v);
  Int next = 0;
  forCells<D>(n, [&](Vec<D, Int> const & k) {
    // first index fastest
    vx_assert(flat<D>(g, k) == next && g.getFlatIndex(k) == next, "flat indices count cells with the first index fastest");
    um2::AxisAlignedBox<D, double> c;
    um2::Vec<D, double> m;
    Int child;
    if constexpr (D == 1) {
      c = g.getBox(k[0]);
      m = g.getCellCentroid(k[0]);
      child = part.getChild(k[0]);
    } else if constexpr (D == 2) {
      c = g.getBox(k[0], k[1]);
      m = g.getCellCentroid(k[0], k[1]);
      child = part.getChild(k[0], k[1]);
    } else {
      c = g.getBox(k[0], k[1], k[2]);
      m = g.getCellCentroid(k[0], k[1], k[2]);
      child = part.getChild(k[0], k[1], k[2]);
    }
    for (Int i = 0; i < D; ++i) {
      vx_near(c.minima(i), lo[i] + k[i] * dx[i], 1e-9, "cell box starts at its index");
      vx_near(c.maxima(i), lo[i] + (k[i] + 1) * dx[i], 1e-9, "cell box ends at the next index");
      vx_near(m[i], lo[i] + k[i] * dx[i] + dx[i] / 2, 1e-9, "cell centroid");
    }
    vx_assert(child == 100 + next, "the value stored for the cell");
    ++next;
  });
  vx_assert(next == total && part.children().size() == total, "all cells visited");
  vx_assert(part.grid().totalNumCells() == total, "grid of the partition");
}
// @entry h_tiling1 mode=real
extern "C" void h_tiling1() { tiling<1>(4); }
// @entry h_tiling2 mode=real
extern "C" void h_tiling2() { tiling<2>(4); }
// @entry h_tiling3 mode=real
extern "C" void h_tiling3() { tiling<3>(3); }

// Grid of one cell from a box
// @entry h_from_box mode=real
extern "C" void h_from_box()
{
  auto const lo = anyPoint<2>("lo");
  auto const dx = anyPoint<2>("dx", 0.05, 5);
  RegularGrid<2, double> const g(um2::AxisAlignedBox2<double>(lo, lo + dx));
  for (Int i = 0; i < 2; ++i) {
    vx_assert(g.numCells(i) == 1, "one cell");
    vx_near(g.minima(i), lo[i], 1e-9, "one cell that is the box");
    vx_near(g.maxima(i), lo[i] + dx[i], 1e-9, "one cell that is the box");
  }
}

template <Int D>
static RegularGrid<D, double> placed(Int ax, Int n)
{
  auto lo = anyPoint<D>("lo", 1, 1);
  auto dx = anyPoint<D>("dx", 2, 2);
  Vec<D, Int> k;
  for (Int i = 0; i < D; ++i) {
    k[i] = 3;
  }
  lo[ax] = vx_real("lo", -10, 10);
  dx[ax] = vx_real("dx", 0.05, 5);
  k[ax] = n;
  return RegularGrid<D, double>(lo, dx, k);
}
template <Int D>
static void locate()
{
  Int const ax = vx_choice("axis", D);
  Int const n = 1 + vx_choice("cells", 4);
  auto const g = placed<D>(ax, n);
  auto p = anyPoint<D>("q", 4, 4);
  p[ax] = vx_real("p", -20, 20);
  double const t = (p[ax] - g.minima(ax));
  vx_assume(t < 600 * g.spacing(ax) && t > -600 * g.spacing(ax));
  bool const below = p[ax] < g.minima(ax);
  bool const above = p[ax] > g.maxima(ax);
  vx_assume(below || above || p[ax] < g.maxima(ax));
  if (below || above) {
    // keep the number of integer cases small
    vx_assume(t > -2 * g.spacing(ax) && t < (n + 2) * g.spacing(ax));
  }
  auto const k = g.getCellIndexContaining(p);
  for (Int i = 0; i < D; ++i) {
    if (i != ax) {
      vx_assert(k[i] == 1, "the other directions are located on their own");
    }
  }
  if (below || above) {
    vx_assert(k[ax] == -1, "points outside are in no cell");
  } else {
    vx_assert(k[ax] >= 0 && k[ax] < n, "points inside are in a cell");
    vx_le(g.minima(ax) + k[ax] * g.spacing(ax), p[ax], 1e-9, "the located cell contains the point");
    vx_le(p[ax], g.minima(ax) + (k[ax] + 1) * g.spacing(ax), 1e-9, "the located cell contains the point");
  }
}
// @entry h_locate1 mode=real
extern "C" void h_locate1() { locate<1>(); }
// @entry h_locate2 mode=real
extern "C" void h_locate2() { locate<2>(); }

template <Int D>
static void cover()
{
  Int const ax = vx_choice("axis", D);
  Int const n = 1 + vx_choice("cells", 3);
  auto const g = placed<D>(ax, n);
  double const dx = g.spacing(ax);
  auto a = anyPoint<D>("a", 4, 4);
  auto b = anyPoint<D>("b", 6, 6);
  double const u = vx_real("u", -2, 5);
  double const v = vx_real("v", -2, 5);
  vx_assume(u <= v && v < n + 2);
  a[ax] = g.minima(ax) + u * dx;
  b[ax] = g.minima(ax) + v * dx;
  auto const k = g.getCellIndicesIntersecting(um2::AxisAlignedBox<D, double>(a, b));
  for (Int i = 0; i < D; ++i) {
    if (i != ax) {
      vx_assert(k[i] == 1 && k[i + D] == 2, "the other directions are covered on their own");
    }
  }
  Int const lo = k[ax];
  Int const hi = k[ax + D];
  if (v < 0 || u > n) {
    vx_assert(lo == -1 && hi == -1, "a box outside meets no cell");
    return;
  }
  Int const c = vx_choice("cell", 3);
  vx_assume(c < n);
  if (u < c + 1 && v > c) {
    vx_assert(lo <= c && c <= hi, "every cell that meets the box is in the range");
  }
  if (lo <= c && c <= hi) {
    vx_assert(u <= c + 1 && v >= c, "only cells that meet the box are in the range");
  }
  vx_assert(lo >= -1 && hi < n, "the range stays in the grid");
}
// @entry h_cover1 mode=real
extern "C" void h_cover1() { cover<1>(); }
// @entry h_cover2 mode=real
extern "C" void h_cover2() { cover<2>(); }
