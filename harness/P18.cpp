// Rectilinear grids and partitions
// @bounds every strictly increasing division with cells at least 0.00001 wide, up to 3 x 2 cells in two dimensions (2 x 2 x 2, 2 x 1 x 3, 3 x 2 x 1 and 1 x 2 x 3 in three), every order of the boxes (all orders up to 4 boxes, rotations and reversals beyond), ids from up to 3 column widths and 2 row heights
// @outside rounding; coordinates of different divisions that differ by less than a hundred times the library's distance tolerance (corners of
// @outside neighbouring boxes may differ by up to 0.8 times that tolerance in one and two dimensions)
#include "vrt.hpp"
#include <um2/mesh/rectilinear_partition.hpp>
#include "geo.inc"
using um2::RectilinearGrid;
using um2::Vec;
using um2::Vector;
template <Int D>
using Box = um2::AxisAlignedBox<D, double>;

template <Int D>
struct Divs {
  Int n[D];
  double x[D][5];
};
template <Int D>
static Divs<D> anyDivs(Int nx, Int ny, Int nz)
{
  Divs<D> d;
  Int const n[3] = {nx, ny, nz};
  for (Int i = 0; i < D; ++i) {
    d.n[i] = n[i];
    d.x[i][0] = vx_real("x0", -10, 10);
    for (Int j = 0; j < n[i]; ++j) {
      d.x[i][j + 1] = d.x[i][j] + vx_real("dx", 0.00001, 5);
    }
  }
  return d;
}
template <Int D>
static Box<D> cellOf(Divs<D> const & d, Int const * k)
{
  Vec<D, double> lo;
  Vec<D, double> hi;
  for (Int i = 0; i < D; ++i) {
    lo[i] = d.x[i][k[i]];
    hi[i] = d.x[i][k[i] + 1];
  }
  return {lo, hi};
}
template <Int D>
static void same(RectilinearGrid<D, double> const & g, Divs<D> const & d)
{
  Int total = 1;
  auto const b = g.boundingBox();
  for (Int i = 0; i < D; ++i) {
    Int const n = d.n[i];
    total *= n;
    vx_assert(g.divs(i).size() == n + 1, "one more division than cells");
    vx_assert(g.numCells(i) == n && g.numCells()[i] == n, "cell counts");
    for (Int j = 0; j <= n; ++j) {
      vx_near(g.divs(i)[j], d.x[i][j], 1e-9, "divisions in increasing order");
    }
    vx_near(g.minima(i), d.x[i][0], 1e-9, "lower corner");
    vx_near(g.minima()[i], d.x[i][0], 1e-9, "lower corner");
    vx_near(g.maxima(i), d.x[i][n], 1e-9, "upper corner");
    vx_near(g.maxima()[i], d.x[i][n], 1e-9, "upper corner");
    vx_near(g.extents(i), d.x[i][n] - d.x[i][0], 1e-9, "extents");
    vx_near(g.extents()[i], d.x[i][n] - d.x[i][0], 1e-9, "extents");
    vx_near(b.minima(i), d.x[i][0], 1e-9, "bounding box");
    vx_near(b.maxima(i), d.x[i][n], 1e-9, "bounding box");
  }
  vx_assert(g.totalNumCells() == total, "total number of cells");
  Int k[3] = {0, 0, 0};
  for (Int f = 0; f < total; ++f) {
    k[0] = f % d.n[0];
    if constexpr (D > 1) {
      k[1] = (f / d.n[0]) % d.n[1];
    }
    if constexpr (D > 2) {
      k[2] = f / (d.n[0] * d.n[1]);
    }
    Box<D> c;
    Int flat;
    if constexpr (D == 1) {
      c = g.getBox(k[0]);
      flat = g.getFlatIndex(k[0]);
    } else if constexpr (D == 2) {
      c = g.getBox(k[0], k[1]);
      flat = g.getFlatIndex(k[0], k[1]);
    } else {
      c = g.getBox(k[0], k[1], k[2]);
      flat = g.getFlatIndex(k[0], k[1], k[2]);
    }
    vx_assert(flat == f, "flat indices count cells with the first index fastest");
    auto const e = cellOf<D>(d, k);
    for (Int i = 0; i < D; ++i) {
      vx_near(c.minima(i), e.minima(i), 1e-9, "cell box");
      vx_near(c.maxima(i), e.maxima(i), 1e-9, "cell box");
    }
  }
}
template <Int D>
static void fromBoxes(Int nx, Int ny, Int nz)
{
  auto const d = anyDivs<D>(nx, ny, nz);
  Int const total = nx * ny * nz;
  // order of the boxes
  Int ord[8];
  if (total <= 4) {
    bool used[4] = {false, false, false, false};
    for (Int i = 0; i < total; ++i) {
      Int r = vx_choice("order", total - i);
      Int c = 0;
      while (used[c] || r > 0) {
        if (!used[c]) {
          --r;
        }
        ++c;
      }
      used[c] = true;
      ord[i] = c;
    }
  } else {
    Int const s = vx_choice("first", total);
    bool const rev = vx_choice("reversed", 2) == 1;
    for (Int i = 0; i < total; ++i) {
      ord[i] = rev ? (total - 1 - i + s) % total : (i + s) % total;
    }
  }
  Vector<Box<D>> boxes(total);
  for (Int i = 0; i < total; ++i) {
    Int const f = ord[i];
    Int const k[3] = {f % nx, (f / nx) % ny, f / (nx * ny)};
    boxes[i] = cellOf<D>(d, k);
  }
  RectilinearGrid<D, double> const g(boxes);
  same<D>(g, d);
}
// @entry h_boxes1 mode=real
extern "C" void h_boxes1() { fromBoxes<1>(1 + vx_choice("n", 4), 1, 1); }
// @entry h_boxes2 mode=real
extern "C" void h_boxes2() { fromBoxes<2>(1 + vx_choice("nx", 3), 1 + vx_choice("ny", 2), 1); }
// @entry h_boxes3 mode=real
extern "C" void h_boxes3()
{
  switch (vx_choice("shape", 4)) {
  case 0:
    fromBoxes<3>(2, 2, 2);
    break;
  case 1:
    fromBoxes<3>(2, 1, 3);
    break;
  case 2:
    fromBoxes<3>(3, 2, 1);
    break;
  default:
    fromBoxes<3>(1, 2, 3);
  }
}
// Corners of neighbouring boxes that differ by less than the distance tolerance are the same division
template <Int D>
static void noisy(Int nx, Int ny)
{
  auto const d = anyDivs<D>(nx, ny, 1);
  Int const total = nx * ny;
  Int const first = vx_choice("first", total);
  double const tol = 4e-8;
  Vector<Box<D>> boxes(total);
  for (Int i = 0; i < total; ++i) {
    Int const f = (i + first) % total;
    Int const k[3] = {f % nx, f / nx, 0};
    auto const c = cellOf<D>(d, k);
    Vec<D, double> lo = c.minima();
    Vec<D, double> hi = c.maxima();
    for (Int j = 0; j < D; ++j) {
      lo[j] += vx_real("error", -tol, tol);
      hi[j] += vx_real("error", -tol, tol);
    }
    boxes[i] = Box<D>(lo, hi);
  }
  RectilinearGrid<D, double> const g(boxes);
  for (Int i = 0; i < D; ++i) {
    vx_assert(g.numCells(i) == d.n[i], "cell counts of boxes given with small errors");
    for (Int j = 0; j <= d.n[i]; ++j) {
      vx_near(g.divs(i)[j], d.x[i][j], 4.1e-8, "divisions of boxes given with small errors");
    }
  }
}
// @entry h_noise mode=real
extern "C" void h_noise()
{
  if (vx_choice("dim", 2) == 0) {
    noisy<1>(1 + vx_choice("n", 3), 1);
  } else {
    noisy<2>(1 + vx_choice("nx", 2), 1 + vx_choice("ny", 2));
  }
}
// @entry h_single mode=real
extern "C" void h_single()
{
  Int const k[3] = {0, 0, 0};
  auto const a = anyDivs<1>(1, 1, 1);
  same<1>(RectilinearGrid<1, double>(cellOf<1>(a, k)), a);
  auto const b = anyDivs<2>(1, 1, 1);
  same<2>(RectilinearGrid<2, double>(cellOf<2>(b, k)), b);
  auto const c = anyDivs<3>(1, 1, 1);
  RectilinearGrid<3, double> g(cellOf<3>(c, k));
  same<3>(g, c);
  g.clear();
  vx_assert(g.divs(0).empty() && g.divs(1).empty() && g.divs(2).empty(), "clearing removes the divisions");
}
// Divisions set directly
// @entry h_divs mode=real
extern "C" void h_divs()
{
  auto const d = anyDivs<2>(1 + vx_choice("nx", 3), 1 + vx_choice("ny", 3), 1);
  RectilinearGrid<2, double> g;
  for (Int i = 0; i < 2; ++i) {
    for (Int j = 0; j <= d.n[i]; ++j) {
      g.divs(i).push_back(d.x[i][j]);
    }
  }
  same<2>(g, d);
}
// Cell sizes with a map of ids; the first row of the map is the top
// @entry h_ids mode=real time=40
extern "C" void h_ids()
{
  Int const nx = 1 + vx_choice("nx", 3);
  Int const ny = 1 + vx_choice("ny", 2);
  double const w[2] = {vx_real("w", 0.00001, 5), vx_real("w", 0.00001, 5)};
  double const h[2] = {vx_real("h", 0.00001, 5), vx_real("h", 0.00001, 5)};
  Int col[3];
  Int row[2];
  for (Int j = 0; j < nx; ++j) {
    col[j] = vx_choice("col", 2);
  }
  for (Int i = 0; i < ny; ++i) {
    row[i] = vx_choice("row", 2);
  }
  // id = column type + 2 * row type
  Vector<Vec<2, double>> dxdy(4);
  for (Int k = 0; k < 4; ++k) {
    dxdy[k] = v2(w[k % 2], h[k / 2]);
  }
  Vector<Vector<Int>> ids(ny);
  for (Int i = 0; i < ny; ++i) {
    ids[i].resize(nx);
    for (Int j = 0; j < nx; ++j) {
      ids[i][j] = col[j] + 2 * row[i];
    }
  }
  Divs<2> d;
  d.n[0] = nx;
  d.n[1] = ny;
  d.x[0][0] = 0;
  d.x[1][0] = 0;
  for (Int j = 0; j < nx; ++j) {
    d.x[0][j + 1] = d.x[0][j] + w[col[j]];
  }
  for (Int i = 0; i < ny; ++i) {
    d.x[1][i + 1] = d.x[1][i] + h[row[ny - 1 - i]];
  }
  um2::RectilinearPartition2<int16_t> p(dxdy, ids);
  same<2>(p.grid(), d);
  auto const & cp = p;
  vx_assert(p.children().size() == nx * ny, "one value per cell");
  for (Int i = 0; i < ny; ++i) {
    for (Int j = 0; j < nx; ++j) {
      vx_assert(cp.getChild(j, i) == ids[ny - 1 - i][j], "cells have the value of their box");
      vx_assert(p.getChild(j, i) == cp.getChild(j, i), "both accessors agree");
      auto const b = p.grid().getBox(j, i);
      auto const & e = dxdy[ids[ny - 1 - i][j]];
      vx_near(b.extents(0), e[0], 1e-9, "cells have the size of their box");
      vx_near(b.extents(1), e[1], 1e-9, "cells have the size of their box");
    }
  }
  p.clear();
  vx_assert(p.children().empty(), "clearing removes the values");
}
// @entry h_partition mode=real
extern "C" void h_partition()
{
  auto const d = anyDivs<2>(1 + vx_choice("nx", 3), 1 + vx_choice("ny", 2), 1);
  RectilinearGrid<2, double> g;
  for (Int i = 0; i < 2; ++i) {
    for (Int j = 0; j <= d.n[i]; ++j) {
      g.divs(i).push_back(d.x[i][j]);
    }
  }
  Vector<Int> v;
  for (Int i = 0; i < d.n[0] * d.n[1]; ++i) {
    v.push_back(vx_int("value", -100, 100));
  }
  um2::RectilinearPartition2<Int> const p(g, v);
  same<2>(p.grid(), d);
  for (Int i = 0; i < d.n[1]; ++i) {
    for (Int j = 0; j < d.n[0]; ++j) {
      vx_assert(p.getChild(j, i) == v[i * d.n[0] + j], "values are addressed row by row");
    }
  }
}
// Two boxes that leave a gap, overlap or coincide do not make a grid
// @entry h_reject mode=real
extern "C" void h_reject()
{
  double const a = vx_real("a", -5, 5);
  double const b = a + vx_real("w", 0.01, 5);
  double const c = vx_real("c", -5, 5);
  double const e = c + vx_real("v", 0.01, 5);
  double const t = 0.00001;
  auto const off = [&](double u, double v) { return u - v > t || v - u > t; };
  vx_assume(off(b, c) && off(a, e));
  vx_assume(off(a, c) || (a == c));
  vx_assume(off(b, e) || (b == e));
  vx_assume(off(a, c) || off(b, e) || (a == c && b == e));
  Vector<Box<1>> boxes(2);
  Vec<1, double> p;
  Vec<1, double> q;
  p[0] = a;
  q[0] = b;
  boxes[0] = Box<1>(p, q);
  p[0] = c;
  q[0] = e;
  boxes[1] = Box<1>(p, q);
  // boxes that share exactly one end form two intervals of the same divisions: not detected
  vx_assume((a == c) == (b == e));
  vx_reach("two boxes that are not neighbours");
  vx_allow_exit(true);
  RectilinearGrid<1, double> const g(boxes);
  vx_never("two boxes that are not neighbours are rejected");
}
