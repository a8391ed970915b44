// Face-vertex mesh connectivity
// @src src/mesh/face_vertex_mesh.cpp src/mesh/polytope_soup.cpp src/common/logger.cpp src/common/settings.cpp
// @config UM2_USE_HDF5=0 UM2_USE_PUGIXML=0
// @bounds triangle meshes of 1 to 3 faces over 4 or 5 vertices with every connectivity (quadrilaterals and quadratic kinds: 1 to 2 faces), every vertex position in [-10, 10]^2; point location in four fixed meshes (one per kind) with a hole and every point in [-1, 4]^2
// @outside larger meshes; rounding on edges
#include "vrt.hpp"
#include <um2/mesh/face_vertex_mesh.hpp>
#include "geo.inc"
#include "quiet.inc"
template <Int P, Int N>
using Mesh = um2::FaceVertexMesh<P, N>;
template <Int N>
using Conn = um2::Vec<N, Int>;

// Any face over nv vertices, no vertex twice
template <Int N>
static Conn<N> anyFace(Int nv)
{
  Conn<N> c;
  for (Int j = 0; j < N; ++j) {
    c[j] = vx_int("c", 0, nv - 1);
    for (Int k = 0; k < j; ++k) {
      vx_assume(c[k] != c[j]);
    }
  }
  return c;
}
template <Int P, Int N>
static void checkVF(Mesh<P, N> const & m)
{
  auto const & off = m.vertexFaceOffsets();
  auto const & vf = m.vertexFaceConn();
  vx_assert(off.size() == m.numVertices() + 1, "one offset per vertex plus one");
  vx_assert(vf.size() == N * m.numFaces(), "every use of a vertex is listed");
  vx_assert(off[0] == 0, "first offset");
  Int pos = 0;
  for (Int v = 0; v < m.numVertices(); ++v) {
    for (Int f = 0; f < m.numFaces(); ++f) {
      bool uses = false;
      for (Int j = 0; j < N; ++j) {
        uses = uses || m.getFaceConn(f)[j] == v;
      }
      if (uses) {
        vx_assert(vf[pos] == f, "faces of a vertex in increasing order");
        ++pos;
      }
    }
    vx_assert(off[v + 1] == pos, "offsets delimit the faces of each vertex");
  }
}
template <Int P, Int N>
static void vertexFaces(Int nv, Int max_faces)
{
  quiet(true);
  Mesh<P, N> m;
  for (Int i = 0; i < nv; ++i) {
    m.addVertex(v2(i, i * i));
  }
  Int const nf = 1 + vx_choice("faces", max_faces);
  for (Int i = 0; i < nf; ++i) {
    m.addFace(anyFace<N>(nv));
  }
  m.populateVF();
  checkVF<P, N>(m);
  // Growing the mesh and listing again starts from scratch
  Int const again = vx_choice("again", N < 6 ? 4 : 3);
  if (again == 3) {
    // connectivity changed through the accessor
    Conn<N> & c = m.faceVertexConn()[0];
    Int const first = c[0];
    for (Int j = 0; j + 1 < N; ++j) {
      c[j] = c[j + 1];
    }
    c[N - 1] = first;
    for (Int j = 0; j < nv; ++j) {
      bool used = false;
      for (Int k = 0; k < N; ++k) {
        used = used || c[k] == j;
      }
      if (!used) {
        c[0] = j;
        break;
      }
    }
    m.populateVF();
    checkVF<P, N>(m);
  } else if (again > 0) {
    Conn<N> c = m.getFaceConn(0);
    if (again == 1) {
      m.addVertex(v2(-1, 0));
      c[N - 1] = nv;
    }
    m.addFace(c);
    m.populateVF();
    checkVF<P, N>(m);
  }
}
// @entry h_vf_tri
extern "C" void h_vf_tri() { vertexFaces<1, 3>(4, 2 + vx_tier()); }
// @entry h_vf_quad
extern "C" void h_vf_quad() { vertexFaces<1, 4>(5, 1); }
// @entry h_vf_tri6 time=60
extern "C" void h_vf_tri6() { vertexFaces<2, 6>(6, 1); }

// Faces and edges are those of the stored connectivity
template <Int P, Int N>
static void edges(Conn<N> const & a, Conn<N> const & b, Int nv)
{
  quiet(true);
  Mesh<P, N> m;
  double xs[16];
  double ys[16];
  for (Int i = 0; i < nv; ++i) {
    xs[i] = vx_real("x", -10, 10);
    ys[i] = vx_real("y", -10, 10);
    m.addVertex(v2(xs[i], ys[i]));
  }
  m.addFace(a);
  m.addFace(b);
  vx_assert(m.numVertices() == nv && m.numFaces() == 2, "counts");
  Int const ne = P == 1 ? N : N / 2;
  for (Int f = 0; f < 2; ++f) {
    Conn<N> const & c = f == 0 ? a : b;
    auto const face = m.getFace(f);
    for (Int j = 0; j < N; ++j) {
      vx_assert(m.getFaceConn(f)[j] == c[j], "stored connectivity");
      samePoint<2>(face[j], v2(xs[c[j]], ys[c[j]]), 0, "vertices of a face");
    }
    for (Int e = 0; e < ne; ++e) {
      auto const edge = m.getEdge(f, e);
      auto const ec = m.getEdgeConn(f, e);
      auto const fe = face.getEdge(e);
      Int want[3] = {c[e], c[(e + 1) % ne], P == 2 ? c[(e + ne) % N] : 0};
      for (Int k = 0; k <= P; ++k) {
        vx_assert(ec[k] == want[k], "vertices of an edge by number");
        samePoint<2>(edge[k], v2(xs[want[k]], ys[want[k]]), 0, "vertices of an edge by position");
        samePoint<2>(edge[k], fe[k], 0, "edge of the mesh is the edge of the face");
      }
    }
  }
  if constexpr (P == 1) {
    auto const box = m.boundingBox();
    bool at[4] = {false, false, false, false};
    for (Int i = 0; i < nv; ++i) {
      vx_le(box.minima(0), xs[i], 0, "box holds every vertex");
      vx_le(xs[i], box.maxima(0), 0, "box holds every vertex");
      vx_le(box.minima(1), ys[i], 0, "box holds every vertex");
      vx_le(ys[i], box.maxima(1), 0, "box holds every vertex");
      at[0] = at[0] || box.minima(0) == xs[i];
      at[1] = at[1] || box.maxima(0) == xs[i];
      at[2] = at[2] || box.minima(1) == ys[i];
      at[3] = at[3] || box.maxima(1) == ys[i];
    }
    vx_assert(at[0] && at[1] && at[2] && at[3], "box is no larger than the vertices need");
  }
}
template <Int N>
static Conn<N> conn(std::initializer_list<Int> l)
{
  Conn<N> c;
  Int i = 0;
  for (Int v : l) {
    c[i++] = v;
  }
  return c;
}
// @entry h_edges_tri mode=real
extern "C" void h_edges_tri() { edges<1, 3>(conn<3>({0, 1, 2}), conn<3>({3, 0, 2}), 4); }
// @entry h_edges_quad mode=real
extern "C" void h_edges_quad() { edges<1, 4>(conn<4>({4, 1, 2, 0}), conn<4>({3, 4, 0, 2}), 5); }
// @entry h_edges_tri6 mode=real
extern "C" void h_edges_tri6()
{
  edges<2, 6>(conn<6>({5, 1, 2, 3, 4, 0}), conn<6>({6, 5, 2, 8, 0, 7}), 9);
}
// @entry h_edges_quad8 mode=real
extern "C" void h_edges_quad8()
{
  edges<2, 8>(conn<8>({7, 1, 2, 3, 4, 5, 6, 0}), conn<8>({2, 1, 8, 9, 4, 10, 11, 12}), 13);
}
// Two faces with a gap between them; the point is in the first one that holds it
template <Int P, Int N>
static void location(Mesh<P, N> const & m, double ax, double ay, double bx, double by)
{
  auto const p = anyPoint<2>("p", -1, 4);
  Int const k = m.faceContaining(p);
  Int want = -1;
  for (Int f = m.numFaces() - 1; f >= 0; --f) {
    if (m.getFace(f).contains(p)) {
      want = f;
    }
  }
  vx_assert(k == want, "first face that holds the point, or none");
  // Clearly inside the unit squares (halved for triangles) with these lower corners
  bool const half = (P == 1 && N == 3) || (P == 2 && N == 6);
  auto inside = [&](double x, double y, double e) {
    double const u = p[0] - x;
    double const v = p[1] - y;
    return u > e && v > e && u < 1 - e && v < 1 - e && (!half || u + v < 1 - e);
  };
  if (inside(ax, ay, 0.001)) {
    vx_assert(k == 0, "point of the first face");
  } else if (inside(bx, by, 0.001)) {
    vx_assert(k == 1, "point of the second face");
  } else if (!inside(ax, ay, -0.001) && !inside(bx, by, -0.001)) {
    vx_assert(k == -1, "point of no face");
  }
}
template <Int P, Int N>
static Mesh<P, N> twoFaces(double ax, double ay, double bx, double by)
{
  quiet(true);
  Mesh<P, N> m;
  Int const nc = P == 1 ? N : N / 2;
  double const cx[4] = {0, 1, nc == 3 ? 0.0 : 1.0, 0};
  double const cy[4] = {0, 0, 1, 1};
  for (Int f = 0; f < 2; ++f) {
    double const x = f == 0 ? ax : bx;
    double const y = f == 0 ? ay : by;
    for (Int i = 0; i < nc; ++i) {
      m.addVertex(v2(x + cx[i], y + cy[i]));
    }
    if (P == 2) {
      for (Int i = 0; i < nc; ++i) {
        Int const j = (i + 1) % nc;
        m.addVertex(v2(x + (cx[i] + cx[j]) / 2, y + (cy[i] + cy[j]) / 2));
      }
    }
    Conn<N> c;
    for (Int i = 0; i < N; ++i) {
      c[i] = f * N + i;
    }
    m.addFace(c);
  }
  return m;
}
// @entry h_locate_tri mode=real
extern "C" void h_locate_tri() { location<1, 3>(twoFaces<1, 3>(0, 0, 2, 1.5), 0, 0, 2, 1.5); }
// @entry h_locate_quad mode=real
extern "C" void h_locate_quad() { location<1, 4>(twoFaces<1, 4>(2, 0, 0.25, 1.5), 2, 0, 0.25, 1.5); }
// @entry h_locate_tri6 mode=real
extern "C" void h_locate_tri6() { location<2, 6>(twoFaces<2, 6>(0, 0, 2, 1.5), 0, 0, 2, 1.5); }
// @entry h_locate_quad8 mode=real
extern "C" void h_locate_quad8() { location<2, 8>(twoFaces<2, 8>(2, 0, 0.25, 1.5), 2, 0, 0.25, 1.5); }

// Reversing a face keeps its vertices, turns its direction and undoes itself
template <Int P, Int N>
static void flip()
{
  auto m = twoFaces<P, N>(0, 0, 2, 1);
  Int const nc = P == 1 ? N : N / 2;
  m.vertices()[1] = m.vertices()[1] + anyPoint<2>("d", -0.25, 0.25);
  if (P == 2) {
    m.vertices()[nc] = (m.vertices()[0] + m.vertices()[1]) / 2;
  }
  auto const before = m.getFace(0);
  Conn<N> const c = m.getFaceConn(0);
  vx_assert(before.isCCW(), "counterclockwise before");
  m.flipFace(0);
  auto const after = m.getFace(0);
  vx_assert(!after.isCCW(), "clockwise after one reversal");
  Conn<N> const r = m.getFaceConn(0);
  vx_assert(r[0] == c[0], "first vertex stays");
  for (Int e = 0; e < nc; ++e) {
    // edge e backwards is edge nc - 1 - e of the reversed face
    auto const a = before.getEdge(e);
    auto const b = after.getEdge(nc - 1 - e);
    samePoint<2>(a[0], b[1], 0, "same edges, opposite direction");
    samePoint<2>(a[1], b[0], 0, "same edges, opposite direction");
    if (P == 2) {
      samePoint<2>(a[P], b[P], 0, "edge nodes stay on their edges");
    }
  }
  for (Int i = 0; i < N; ++i) {
    vx_assert(m.getFaceConn(1)[i] == N + i, "other face untouched");
  }
  m.flipFace(0);
  for (Int i = 0; i < N; ++i) {
    vx_assert(m.getFaceConn(0)[i] == c[i], "two reversals cancel");
  }
}
// @entry h_flip_tri mode=real
extern "C" void h_flip_tri() { flip<1, 3>(); }
// @entry h_flip_quad mode=real
extern "C" void h_flip_quad() { flip<1, 4>(); }
// @entry h_flip_tri6 mode=real
extern "C" void h_flip_tri6() { flip<2, 6>(); }
// @entry h_flip_quad8 mode=real
extern "C" void h_flip_quad8() { flip<2, 8>(); }

// Bounding box of a quadratic mesh covers the bulge of its edges, whichever face has it
template <Int N>
static void curvedBox()
{
  auto m = twoFaces<2, N>(0, 0, 2, 1);
  Int const nc = N / 2;
  Int const f = vx_choice("face", 2);
  double const d = vx_real("d", 0, 0.4);
  Int const e = f * N + nc; // first edge, along x
  m.vertices()[e][1] -= d;
  auto const box = m.boundingBox();
  double const low = f == 0 ? -d : (d < 1 ? 0.0 : 1 - d);
  vx_near(box.minima(1), low, 1e-9, "lower side of the box");
  vx_near(box.minima(0), 0, 1e-9, "left side of the box");
  vx_near(box.maxima(0), 3, 1e-9, "right side of the box");
  vx_near(box.maxima(1), 2, 1e-9, "upper side of the box");
}
// @entry h_curved_tri6 mode=real
extern "C" void h_curved_tri6() { curvedBox<6>(); }
// @entry h_curved_quad8 mode=real
extern "C" void h_curved_quad8() { curvedBox<8>(); }
