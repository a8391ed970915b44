// Sorting and validating face-vertex meshes
// @src src/mesh/face_vertex_mesh.cpp src/mesh/polytope_soup.cpp src/common/logger.cpp src/common/settings.cpp
// @config UM2_USE_HDF5=0 UM2_USE_PUGIXML=0
// @models morton
// @native -lm
// @stub Morton code: cut off after two levels of the curve (16 cells); the full code is checked on its own and used in replays
// @bounds sorting: meshes of three triangles, two quadrilaterals or two quadratic faces at every place in [-50, 50]^2 and every size in [0.5, 20], one vertex anywhere within a quarter of the mesh; validation: every list of 1 to 3 triangles over 5 vertices (thorough: 4 triangles with 2 fixed) with one vertex free, quadrilateral lattices with one vertex free, quadratic pairs with three bulges in both windings
// @outside overlaps that share no edge (not looked for by the library); larger meshes; repairs of self-intersecting faces beyond fixed inputs
#include "vrt.hpp"
#include <um2/mesh/face_vertex_mesh.hpp>
#include "geo.inc"
#include "quiet.inc"
template <Int P, Int N>
using Mesh = um2::FaceVertexMesh<P, N>;
template <Int N>
using Conn = um2::Vec<N, Int>;
using V2 = um2::Vec<2, double>;

template <Int P, Int N>
static void addFace(Mesh<P, N> & m, Int const (&l)[N])
{
  Conn<N> c;
  for (Int i = 0; i < N; ++i) {
    c[i] = l[i];
  }
  m.addFace(c);
}
// A small mesh in the unit square, numbered against the curve
template <Int P, Int N>
static Mesh<P, N> unitMesh(double dx, double dy)
{
  Mesh<P, N> m;
  if constexpr (P == 1 && N == 3) {
    double const x[5] = {1, 1, 0, 0, 0.5 + dx};
    double const y[5] = {1, 0, 1, 0, 0.5 + dy};
    for (Int i = 0; i < 5; ++i) {
      m.addVertex(v2(x[i], y[i]));
    }
    addFace<1, 3>(m, {0, 2, 4});
    addFace<1, 3>(m, {1, 0, 4});
    addFace<1, 3>(m, {3, 1, 4});
  } else if constexpr (P == 1) {
    double const x[6] = {1, 0.5 + dx, 0, 1, 0.5, 0};
    double const y[6] = {1, 0.75 + dy, 1, 0, 0, 0};
    for (Int i = 0; i < 6; ++i) {
      m.addVertex(v2(x[i], y[i]));
    }
    addFace<1, 4>(m, {4, 3, 0, 1});
    addFace<1, 4>(m, {5, 4, 1, 2});
  } else if constexpr (N == 6) {
    double const x[9] = {1, 1, 0, 0, 0.5 + dx, 1, 0.5, 0, 0.5};
    double const y[9] = {1, 0, 1, 0, 0.5 + dy, 0.5, 1, 0.5, 0};
    for (Int i = 0; i < 9; ++i) {
      m.addVertex(v2(x[i], y[i]));
    }
    addFace<2, 6>(m, {1, 0, 2, 5, 6, 4});
    addFace<2, 6>(m, {3, 1, 2, 8, 4, 7});
  } else {
    double const x[13] = {1, 0.5, 0, 1, 0.5, 0, 1, 0.5 + dx, 0, 0.75, 0.25, 0.75, 0.25};
    double const y[13] = {1, 1, 1, 0, 0, 0, 0.5, 0.5 + dy, 0.5, 1, 1, 0, 0};
    for (Int i = 0; i < 13; ++i) {
      m.addVertex(v2(x[i], y[i]));
    }
    addFace<2, 8>(m, {4, 3, 0, 1, 11, 6, 9, 7});
    addFace<2, 8>(m, {5, 4, 1, 2, 12, 7, 10, 8});
  }
  return m;
}
template <Int P, Int N>
static bool sameFace(um2::Polygon<P, N, 2, double> const & a, um2::Polygon<P, N, 2, double> const & b)
{
  bool same = true;
  for (Int i = 0; i < N; ++i) {
    for (Int k = 0; k < 2; ++k) {
      double const d = a[i][k] - b[i][k];
      same = same && d < 1e-9 && d > -1e-9;
    }
  }
  return same;
}
// Quadrant of the square along the curve; bounds for points too close to its middle lines to tell
static unsigned quadrant(V2 const & p, double ox, double oy, double s, double slack)
{
  double const u = (p[0] - ox) / s;
  double const v = (p[1] - oy) / s;
  return (u < 0.5 + slack ? 0U : 1U) + (v < 0.5 + slack ? 0U : 2U);
}
static bool ordered(V2 const & a, V2 const & b, double ox, double oy, double s)
{
  return quadrant(a, ox, oy, s, 0.001) <= quadrant(b, ox, oy, s, -0.001);
}
template <Int P, Int N>
static void sorting()
{
  quiet(true);
  Int const what = vx_choice("sort", 3);
  bool const vf = vx_choice("lists", 2) == 1;
  Int const axis = vx_choice("axis", 2);
  double const w = vx_real("w", -0.24, 0.24);
  double const dx = axis == 0 ? w : 0.0625;
  double const dy = axis == 1 ? w : 0.0625;
  double const ox = axis == 0 ? vx_real("ox", -50, 50) : -7.5;
  double const oy = axis == 1 ? vx_real("oy", -50, 50) : 3.25;
  double const s = vx_choice("size", 2) == 0 ? 1 : 12;
  auto m = unitMesh<P, N>(dx, dy);
  for (Int i = 0; i < m.numVertices(); ++i) {
    m.vertices()[i] = v2(ox + s * m.vertices()[i][0], oy + s * m.vertices()[i][1]);
  }
  auto const before = m;
  if (vf) {
    m.populateVF();
  }
  Int const rounds = 1 + vx_choice("again", 2);
  for (Int k = 0; k < rounds; ++k) {
    if (what == 0) {
      m.mortonSort();
    } else if (what == 1) {
      m.mortonSortVertices();
    } else {
      m.mortonSortFaces();
    }
  }
  vx_assert(m.numVertices() == before.numVertices() && m.numFaces() == before.numFaces(), "nothing added or lost");
  // every face is still there, once, as the same list of points
  for (Int f = 0; f < m.numFaces(); ++f) {
    Int n = 0;
    for (Int g = 0; g < m.numFaces(); ++g) {
      n += sameFace<P, N>(before.getFace(f), m.getFace(g)) ? 1 : 0;
    }
    vx_assert(n == 1, "faces are the same lists of points");
  }
  if (what == 2) {
    for (Int i = 0; i < m.numVertices(); ++i) {
      samePoint<2>(m.getVertex(i), before.getVertex(i), 0, "sorting faces leaves vertices alone");
    }
  } else {
    // in the order of the curve's quadrants
    for (Int i = 1; i < m.numVertices(); ++i) {
      vx_assert(ordered(m.getVertex(i - 1), m.getVertex(i), ox, oy, s),
                "vertices follow the curve");
    }
  }
  if (what != 1) {
    for (Int i = 1; i < m.numFaces(); ++i) {
      vx_assert(ordered(m.getFace(i - 1).centroid(), m.getFace(i).centroid(), ox, oy, s),
                "faces follow the curve");
    }
  }
  if (what == 0 && vf) {
    auto again = m;
    again.populateVF();
    vx_assert(again.vertexFaceOffsets() == m.vertexFaceOffsets() && again.vertexFaceConn() == m.vertexFaceConn(),
              "vertex-to-face lists follow the new numbering");
  }
}
// @entry h_sort_tri mode=real time=60
extern "C" void h_sort_tri() { sorting<1, 3>(); }
// @entry h_sort_quad mode=real time=60
extern "C" void h_sort_quad() { sorting<1, 4>(); }
// @entry h_sort_tri6 mode=real time=60
extern "C" void h_sort_tri6() { sorting<2, 6>(); }
// @entry h_sort_quad8 mode=real time=60
extern "C" void h_sort_quad8() { sorting<2, 8>(); }

// Independent verdict on oriented faces: every directed edge at most once, no vertex left twice by
// the boundary, boundary one loop
template <Int NC>
static bool proper(Int const (&f)[4][NC], Int nf, Int nv)
{
  bool out[16][16];
  for (Int i = 0; i < nv; ++i) {
    for (Int j = 0; j < nv; ++j) {
      out[i][j] = false;
    }
  }
  for (Int k = 0; k < nf; ++k) {
    for (Int e = 0; e < NC; ++e) {
      Int const a = f[k][e];
      Int const b = f[k][(e + 1) % NC];
      if (out[a][b]) {
        return false;
      }
      out[a][b] = true;
    }
  }
  Int next[16];
  Int count = 0;
  Int first = -1;
  for (Int i = 0; i < nv; ++i) {
    next[i] = -1;
    for (Int j = 0; j < nv; ++j) {
      if (out[i][j] && !out[j][i]) {
        if (next[i] >= 0) {
          return false;
        }
        next[i] = j;
        ++count;
        first = i;
      }
    }
  }
  if (count == 0) {
    return false;
  }
  Int at = next[first];
  Int len = 1;
  while (at != first && at >= 0 && len <= count) {
    at = next[at];
    ++len;
  }
  return at == first && len == count;
}
static Int const triple[10][3] = {{0, 1, 2}, {0, 1, 3}, {0, 1, 4}, {0, 2, 3}, {0, 2, 4},
                                  {0, 3, 4}, {1, 2, 3}, {1, 2, 4}, {1, 3, 4}, {2, 3, 4}};
// Triangles over the corners of a convex pentagon, one corner free
static void verdict(Int nf, Int const * pick, unsigned winding)
{
  quiet(true);
  um2::Vector<V2> v;
  v.push_back(v2(0, 0) + anyPoint<2>("d", -0.5, 0.5));
  v.push_back(v2(4, -1));
  v.push_back(v2(6, 3));
  v.push_back(v2(3, 6));
  v.push_back(v2(-2, 4));
  um2::Vector<Conn<3>> fv;
  Int f[4][3];
  for (Int k = 0; k < nf; ++k) {
    Int const * t = triple[pick[k]];
    bool const turn = ((winding >> k) & 1) != 0;
    Conn<3> c;
    c[0] = t[0];
    c[1] = turn ? t[2] : t[1];
    c[2] = turn ? t[1] : t[2];
    fv.push_back(c);
    for (Int i = 0; i < 3; ++i) {
      f[k][i] = t[i]; // increasing order is counterclockwise here
    }
  }
  if (proper<3>(f, nf, 5)) {
    Mesh<1, 3> const m(v, fv);
    for (Int k = 0; k < nf; ++k) {
      vx_assert(m.getFace(k).isCCW(), "faces of an accepted mesh are counterclockwise");
      bool const turn = ((winding >> k) & 1) != 0;
      auto const c = m.getFaceConn(k);
      if (turn) {
        vx_assert(c[0] == f[k][0] && c[1] == f[k][1] && c[2] == f[k][2], "clockwise face is turned");
      } else {
        vx_assert(c == fv[k], "good face is left alone");
      }
    }
    vx_reach("good mesh accepted");
  } else {
    vx_reach("bad mesh offered");
    quiet(false);
    um2::logger::buffer[0] = 0;
    Mesh<1, 3> const m(v, fv);
    vx_assert(um2::logger::buffer[0] != 0, "mesh with overlapping faces or more than one boundary loop accepted");
  }
}
// @entry h_validate2 mode=real time=60
extern "C" void h_validate2()
{
  Int const nf = 1 + vx_choice("faces", 2);
  Int pick[4] = {0, 0, 0, 0};
  pick[0] = vx_choice("a", 10);
  if (nf > 1) {
    pick[1] = vx_choice("b", 10);
  }
  verdict(nf, pick, vx_choice("winding", 1 << nf));
}
// @entry h_validate3 mode=real time=90
extern "C" void h_validate3()
{
  Int pick[4];
  pick[0] = vx_choice("a", 10);
  pick[1] = vx_choice("b", 10);
  pick[2] = vx_choice("c", 10);
  vx_assume(pick[0] >= pick[1] && pick[1] >= pick[2]);
  verdict(3, pick, vx_choice("winding", 2) == 0 ? 0U : 5U);
}
// Rings, separate parts and parts meeting in a point, as quadrilaterals
// @entry h_validate_quads mode=real
extern "C" void h_validate_quads()
{
  quiet(true);
  Int const kind = vx_choice("kind", 6);
  unsigned const winding = vx_choice("winding", 3);
  um2::Vector<V2> v;
  // 4 x 4 points of a 3 x 3 lattice, one of the inner ones free
  for (Int j = 0; j < 4; ++j) {
    for (Int i = 0; i < 4; ++i) {
      v.push_back(v2(i, j));
    }
  }
  v[5] = v[5] + anyPoint<2>("d", -0.25, 0.25);
  // cells of the lattice by number 3 * j + i
  Int const list[6][9] = {{0, 1, 2, 3, 4, 5, 6, 7, 8}, {0, 1, 2, 3, 5, 6, 7, 8, -1}, {0, 8, -1},
                          {0, 4, -1},                  {0, 1, 3, 4, -1},            {3, 4, 4, -1}};
  bool const good = kind == 0 || kind == 4;
  um2::Vector<Conn<4>> fv;
  for (Int k = 0; k < 9 && list[kind][k] >= 0; ++k) {
    Int const i = list[kind][k] % 3;
    Int const j = list[kind][k] / 3;
    Int const a = 4 * j + i;
    Conn<4> c;
    c[0] = a;
    c[1] = a + 1;
    c[2] = a + 5;
    c[3] = a + 4;
    if (winding == 1 || (winding == 2 && k % 2 == 1)) {
      c[1] = a + 4;
      c[3] = a + 1;
    }
    fv.push_back(c);
  }
  if (good) {
    Mesh<1, 4> const m(v, fv);
    for (Int k = 0; k < m.numFaces(); ++k) {
      vx_assert(m.getFace(k).isCCW(), "quadrilaterals of an accepted mesh are counterclockwise");
      vx_assert(m.getFaceConn(k)[0] == fv[k][0] && m.getFaceConn(k)[2] == fv[k][2], "same quadrilateral");
    }
  } else {
    vx_reach("bad quadrilateral mesh offered");
    quiet(false);
    um2::logger::buffer[0] = 0;
    Mesh<1, 4> const m(v, fv);
    vx_assert(um2::logger::buffer[0] != 0, "bad quadrilateral mesh accepted");
  }
}
// Rings of triangles around a hole of three or four sides, and the same ring closed by filling it
// @entry h_validate_rings mode=real
extern "C" void h_validate_rings()
{
  quiet(true);
  Int const n = 3 + vx_choice("sides", 2);
  Int const fill = vx_choice("fill", 2);
  double const ox[4] = {0, 8, 8, 0};
  double const oy[4] = {0, 0, 8, 8};
  double const ix[4] = {3, 5, 5, 3};
  double const iy[4] = {2, 2, 4, 4};
  um2::Vector<V2> v;
  for (Int i = 0; i < n; ++i) {
    v.push_back(v2(ox[i], oy[i]));
  }
  auto const d = anyPoint<2>("d", -0.5, 0.5);
  for (Int i = 0; i < n; ++i) {
    v.push_back(v2(ix[i], iy[i]) + (i == 1 ? d : v2(0, 0)));
  }
  um2::Vector<Conn<3>> fv;
  auto add = [&](Int a, Int b, Int c) {
    Conn<3> t;
    t[0] = a;
    t[1] = b;
    t[2] = c;
    fv.push_back(t);
  };
  for (Int i = 0; i < n; ++i) {
    Int const j = (i + 1) % n;
    add(i, j, n + i);
    add(j, n + j, n + i);
  }
  if (fill == 1) {
    add(n, n + 1, n + 2);
    if (n == 4) {
      add(n, n + 2, n + 3);
    }
    Mesh<1, 3> const m(v, fv);
    for (Int k = 0; k < m.numFaces(); ++k) {
      vx_assert(m.getFaceConn(k) == fv[k], "filled ring is left alone");
    }
  } else {
    quiet(false);
    um2::logger::buffer[0] = 0;
    Mesh<1, 3> const m(v, fv);
    vx_assert(um2::logger::buffer[0] != 0, "mesh with a hole accepted");
  }
}
// Quadratic pairs: good in either winding, not with a face twice
template <Int N>
static void quadraticPair()
{
  quiet(true);
  double const w = 0.0625 * (vx_choice("bulge", 3) - 1);
  auto base = unitMesh<2, N>(w, w);
  unsigned const winding = vx_choice("winding", 4);
  bool const twice = vx_choice("twice", 2) == 1;
  Conn<N> want[2] = {base.getFaceConn(0), base.getFaceConn(1)};
  for (Int k = 0; k < 2; ++k) {
    if (((winding >> k) & 1) != 0) {
      base.flipFace(k);
    }
  }
  auto const v = base.vertices();
  auto fv = base.faceVertexConn();
  if (twice) {
    fv.push_back(fv[1]);
    vx_reach("repeated face offered");
    quiet(false);
    um2::logger::buffer[0] = 0;
    Mesh<2, N> const m(v, fv);
    vx_assert(um2::logger::buffer[0] != 0, "mesh with a repeated face accepted");
  } else {
    Mesh<2, N> const m(v, fv);
    for (Int k = 0; k < 2; ++k) {
      vx_assert(m.getFaceConn(k) == want[k], "quadratic faces end up counterclockwise");
    }
    for (Int i = 0; i < m.numVertices(); ++i) {
      samePoint<2>(m.getVertex(i), v[i], 0, "vertices of a good mesh stay put");
    }
  }
}
// @entry h_validate_tri6 mode=real time=60
extern "C" void h_validate_tri6() { quadraticPair<6>(); }
// @entry h_validate_quad8 mode=real time=60
extern "C" void h_validate_quad8() { quadraticPair<8>(); }
// Faces whose straight edge is crossed by their curved edge are repaired when the mesh is built: the straight edge's
// middle node moves by as much as the curved edge leaves its chord, everything else stays; a repair that changes the
// outline's bounding box is refused
template <Int N>
static void repairedMesh()
{
  quiet(true);
  Int const turn = vx_choice("turn", 4);
  Int const kind = vx_choice("mesh", N == 6 ? 3 : 2); // alone, with a neighbour, with a neighbour and a second bad face
  Int const first = vx_choice("first", kind + 1);
  static double const C[4] = {1, 0, -1, 0};
  um2::Vector<V2> v;
  auto const add = [&](double x, double y) {
    v.push_back(v2(3 + C[turn] * x - C[(turn + 3) % 4] * y, -2 + C[(turn + 3) % 4] * x + C[turn] * y));
    return v.size() - 1;
  };
  um2::Vector<Conn<N>> list;
  auto const face = [&](std::initializer_list<Int> l) {
    Conn<N> c;
    Int i = 0;
    for (auto const x : l) {
      c[i++] = x;
    }
    list.push_back(c);
  };
  Int moved[2] = {-1, -1};
  V2 by[2];
  Int nmoved = 0;
  auto const expect = [&](Int node, Int a, Int b, Int mid) {
    double const dx = v[b][0] - v[a][0];
    double const dy = v[b][1] - v[a][1];
    double const z = ((v[mid][0] - v[a][0]) * dy - (v[mid][1] - v[a][1]) * dx) / (dx * dx + dy * dy);
    moved[nmoved] = node;
    by[nmoved] = v2(z * dy, -z * dx);
    ++nmoved;
  };
  Int const o = add(0, 0);
  Int const r = add(2, 0);
  Int const straight = add(1, 0);
  if constexpr (N == 6) {
    Int const t = add(0, 0.5);
    Int const c = add(1, -0.05);
    face({o, r, t, straight, c, add(0, 0.25)});
    expect(straight, r, t, c);
    if (kind > 0) {
      Int const b = add(0, -2);
      Int const left = add(0, -1);
      face({o, b, r, left, add(1, -1), straight});
      if (kind > 1) {
        Int const s = add(-0.5, -2);
        Int const d = add(0.05, -1);
        face({b, o, s, left, d, add(-0.25, -2)});
        expect(left, o, s, d);
      }
    }
  } else {
    Int const s = add(0.5, 0.5);
    Int const t = add(0, 0.5);
    Int const c = add(1.25, -0.02);
    face({o, r, s, t, straight, c, add(0.25, 0.5), add(0, 0.25)});
    expect(straight, r, s, c);
    if (kind > 0) {
      Int const b = add(0, -2);
      Int const e = add(2, -2);
      face({o, b, e, r, add(0, -1), add(1, -2), add(2, -1), straight});
    }
  }
  um2::Vector<Conn<N>> fv;
  for (Int i = 0; i <= kind; ++i) {
    fv.push_back(list[(i + first) % (kind + 1)]);
  }
  if (kind == 0) {
    vx_reach("repair would change the outline");
    vx_allow_exit(true);
    Mesh<2, N> const m(v, fv);
    vx_never("a repair that changes the outline is refused");
    return;
  }
  Mesh<2, N> const m(v, fv);
  for (Int i = 0; i < m.numFaces(); ++i) {
    vx_assert(m.getFaceConn(i) == fv[i], "repairs leave the faces alone");
    vx_assert(!m.getFace(i).hasSelfIntersection(), "no crossing is left in the mesh");
  }
  for (Int i = 0; i < v.size(); ++i) {
    V2 want = v[i];
    for (Int k = 0; k < nmoved; ++k) {
      if (i == moved[k]) {
        want += by[k];
      }
    }
    samePoint<2>(m.getVertex(i), want, 1e-9, "only the straight edge's middle node moves");
  }
}
// @entry h_repaired_tri6 time=100
extern "C" void h_repaired_tri6() { repairedMesh<6>(); }
// @entry h_repaired_quad8 time=100
extern "C" void h_repaired_quad8() { repairedMesh<8>(); }
