// Soups, meshes and sources
// @src src/mesh/face_vertex_mesh.cpp src/mesh/polytope_soup.cpp src/mpact/source.cpp src/common/logger.cpp src/common/settings.cpp src/physics/material.cpp src/physics/cross_section.cpp src/physics/nuclide.cpp src/physics/cross_section_library.cpp src/math/matrix.cpp
// @config UM2_USE_HDF5=0 UM2_USE_PUGIXML=0 UM2_USE_BLAS_LAPACK=0
// @bounds meshes of two faces of each kind with every vertex position (elevations included), every combination of up to three element kinds; sources: two faces, two materials, one to three groups, every flux and cross section
// @outside larger meshes
#include "vrt.hpp"
#include <um2/mesh/face_vertex_mesh.hpp>
#include <um2/mpact/source.hpp>
#include "geo.inc"
#include "quiet.inc"
template <Int P, Int N>
using Mesh = um2::FaceVertexMesh<P, N>;
template <Int N>
using Conn = um2::Vec<N, Int>;
using um2::PolytopeSoup;
using um2::Vector;
using um2::VTKElemType;

template <Int N>
static VTKElemType kind()
{
  return N == 3   ? VTKElemType::Triangle
         : N == 4 ? VTKElemType::Quad
         : N == 6 ? VTKElemType::QuadraticTriangle
                  : VTKElemType::QuadraticQuad;
}
template <Int P, Int N>
static void views()
{
  quiet(true);
  Int const nv = N + 2;
  Mesh<P, N> m;
  PolytopeSoup s;
  double x[16];
  double y[16];
  bool const flat = vx_choice("flat", 2) == 1;
  for (Int i = 0; i < nv; ++i) {
    x[i] = vx_real("x", -10, 10);
    y[i] = vx_real("y", -10, 10);
    m.addVertex(v2(x[i], y[i]));
    s.addVertex(x[i], y[i], flat ? 0.0 : vx_real("z", -10, 10));
  }
  for (Int f = 0; f < 2; ++f) {
    Conn<N> c;
    Vector<Int> l;
    for (Int j = 0; j < N; ++j) {
      c[j] = (f * 2 + j * (f == 0 ? 1 : nv - 1)) % nv;
      l.push_back(c[j]);
    }
    m.addFace(c);
    s.addElement(kind<N>(), l);
  }
  // mesh to soup
  PolytopeSoup const t = m;
  vx_assert(t.numVertices() == nv && t.numElements() == 2 && t.numElsets() == 0, "counts of the soup");
  Vector<Int> conn;
  VTKElemType type = VTKElemType::Invalid;
  for (Int f = 0; f < 2; ++f) {
    t.getElement(f, type, conn);
    vx_assert(type == kind<N>() && conn.size() == N, "kind of the faces");
    for (Int j = 0; j < N; ++j) {
      vx_assert(conn[j] == m.getFaceConn(f)[j], "connectivity of the soup");
    }
  }
  for (Int i = 0; i < nv; ++i) {
    vx_near(t.getVertex(i)[0], x[i], 0, "positions in the soup");
    vx_near(t.getVertex(i)[1], y[i], 0, "positions in the soup");
    vx_near(t.getVertex(i)[2], 0, 0, "positions in the soup");
  }
  vx_assert(um2::getMeshType(t.getElemTypes()) == static_cast<um2::MeshType>(N), "kind of mesh");
  // soup to mesh
  Mesh<P, N> const b(s, false);
  vx_assert(b.numVertices() == nv && b.numFaces() == 2, "counts of the mesh");
  for (Int i = 0; i < nv; ++i) {
    samePoint<2>(b.getVertex(i), v2(x[i], y[i]), 0, "positions in the mesh");
  }
  for (Int f = 0; f < 2; ++f) {
    vx_assert(b.getFaceConn(f) == m.getFaceConn(f), "connectivity of the mesh");
  }
}
// @entry h_tri mode=real
extern "C" void h_tri() { views<1, 3>(); }
// @entry h_quad mode=real
extern "C" void h_quad() { views<1, 4>(); }
// @entry h_tri6 mode=real
extern "C" void h_tri6() { views<2, 6>(); }
// @entry h_quad8 mode=real
extern "C" void h_quad8() { views<2, 8>(); }

// A soup of one or two triangles in any winding becomes a counterclockwise mesh of the same faces
// @entry h_orient mode=real
extern "C" void h_orient()
{
  quiet(true);
  PolytopeSoup s;
  double const x = vx_real("x", -0.4, 0.4);
  double const y = vx_real("y", -0.4, 0.4);
  s.addVertex(x, y);
  s.addVertex(1, 0);
  s.addVertex(1, 1);
  s.addVertex(0, 1);
  unsigned const w = vx_choice("winding", 4);
  Int const f[2][3] = {{0, 1, 2}, {2, 3, 0}};
  for (Int k = 0; k < 2; ++k) {
    Vector<Int> l;
    bool const turn = (w >> k & 1U) != 0;
    l.push_back(f[k][0]);
    l.push_back(turn ? f[k][2] : f[k][1]);
    l.push_back(turn ? f[k][1] : f[k][2]);
    s.addElement(VTKElemType::Triangle, l);
  }
  Mesh<1, 3> const m(s);
  for (Int k = 0; k < 2; ++k) {
    for (Int j = 0; j < 3; ++j) {
      vx_assert(m.getFaceConn(k)[j] == f[k][j], "faces counterclockwise");
    }
  }
}
// Soups of other kinds, or of several, are refused
// @entry h_refuse mode=real
extern "C" void h_refuse()
{
  quiet(true);
  PolytopeSoup s;
  for (Int i = 0; i < 4; ++i) {
    s.addVertex(i, i * i, 0);
  }
  Int const a = vx_choice("a", 3);
  Int const b = vx_choice("b", 3);
  VTKElemType const k[3] = {VTKElemType::Triangle, VTKElemType::Quad, VTKElemType::Line};
  Int const n[3] = {3, 4, 2};
  for (Int e = 0; e < 2; ++e) {
    Int const q = e == 0 ? a : b;
    Vector<Int> l;
    for (Int j = 0; j < n[q]; ++j) {
      l.push_back(j);
    }
    s.addElement(k[q], l);
  }
  if (a == 0 && b == 0) {
    Mesh<1, 3> const m(s, false);
    vx_assert(m.numFaces() == 2, "soup of triangles is a triangle mesh");
  } else {
    vx_reach("other soup offered");
    vx_allow_exit(true);
    Mesh<1, 3> const m(s, false);
    vx_never("soup with other elements accepted as a triangle mesh");
  }
}
// Scattering and fission source of every face, group by group
template <Int N>
static void sources()
{
  quiet(true);
  PolytopeSoup s;
  for (Int i = 0; i < N + 1; ++i) {
    s.addVertex(i, i * i, 0);
  }
  Vector<Int> ids;
  for (Int f = 0; f < 2; ++f) {
    Vector<Int> l;
    for (Int j = 0; j < N; ++j) {
      l.push_back(f + j);
    }
    s.addElement(kind<N>(), l);
    ids.push_back(f);
  }
  Int const ng = 1 + vx_choice("groups", 3);
  double sc[2][3];
  double nf[2][3];
  Vector<um2::Material> mats(2);
  for (Int k = 0; k < 2; ++k) {
    um2::XSec xs(ng);
    for (Int g = 0; g < ng; ++g) {
      xs.s()[g] = sc[k][g] = vx_real("s", 0, 10);
      xs.nuf()[g] = nf[k][g] = vx_real("nuf", 0, 10);
      xs.a()[g] = 100;
      xs.tr()[g] = 200;
      xs.f()[g] = 300;
    }
    mats[k].xsec() = xs;
  }
  Int mat[2];
  Vector<Float> data;
  for (Int f = 0; f < 2; ++f) {
    mat[f] = vx_choice("mat", 2);
    data.push_back(mat[f] + 1);
  }
  s.addElset("material", ids, data);
  double want[2][2] = {{0, 0}, {0, 0}};
  // listed backwards: the group is in the name
  char const * const names[3] = {"flux_001", "flux_002", "flux_003"};
  for (Int g = ng - 1; g >= 0; --g) {
    data.clear();
    for (Int f = 0; f < 2; ++f) {
      double const phi = vx_real("phi", -10, 10);
      data.push_back(phi);
      want[f][0] += phi * sc[mat[f]][g];
      want[f][1] += phi * nf[mat[f]][g];
    }
    s.addElset(um2::String(names[g]), ids, data);
  }
  auto const q = um2::mpact::getSource(s, mats);
  vx_assert(q.size() == 2, "one source per face");
  for (Int f = 0; f < 2; ++f) {
    vx_near(q[f][0], want[f][0], 1e-9, "scattering source");
    vx_near(q[f][1], want[f][1], 1e-9, "fission source");
  }
}
// @entry h_source3 mode=real
extern "C" void h_source3() { sources<3>(); }
// @entry h_source8 mode=real
extern "C" void h_source8() { sources<8>(); }
