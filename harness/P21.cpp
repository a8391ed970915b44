// Rays through face-vertex meshes
// @src src/mesh/face_vertex_mesh.cpp src/mesh/polytope_soup.cpp src/common/logger.cpp src/common/settings.cpp
// @config UM2_USE_HDF5=0 UM2_USE_PUGIXML=0
// @bounds one fixed mesh of each kind (2 to 3 faces, shared edges, one face apart), four fixed directions, every ray origin in [-3, 5]^2; ordering: 1 to 3 faces with 1 to 3 crossings each and every coordinate in [0, 10]
// @outside rays through vertices within rounding; meshes of more than three faces
#include "vrt.hpp"
#include <um2/mesh/face_vertex_mesh.hpp>
#include "geo.inc"
#include "quiet.inc"
template <Int P, Int N>
using Mesh = um2::FaceVertexMesh<P, N>;

static um2::Vec<2, double> someDirection(Int k)
{
  switch (k) {
  case 0:
    return v2(3.0 / 5, 4.0 / 5);
  case 1:
    return v2(-4.0 / 5, 3.0 / 5);
  case 2:
    return v2(5.0 / 13, -12.0 / 13);
  default:
    return v2(-8.0 / 17, -15.0 / 17);
  }
}
template <Int P, Int N>
static void addFace(Mesh<P, N> & m, Int const (&l)[N])
{
  um2::Vec<N, Int> c;
  for (Int i = 0; i < N; ++i) {
    c[i] = l[i];
  }
  m.addFace(c);
}
// Three faces: two share an edge, the third stands apart; listed so that neither numbering nor
// position follows the ray
template <Int N>
static Mesh<1, N> straightMesh()
{
  quiet(true);
  Mesh<1, N> m;
  double const x[8] = {0, 2, 2, 0, 3, 4, 4, 3};
  double const y[8] = {0, 0, 2, 2, 1, 1, 3, 3};
  for (Int i = 0; i < 8; ++i) {
    m.addVertex(v2(x[i], y[i]));
  }
  if constexpr (N == 3) {
    addFace<1, 3>(m, {4, 5, 6});
    addFace<1, 3>(m, {0, 1, 2});
    addFace<1, 3>(m, {2, 3, 0});
  } else {
    addFace<1, 4>(m, {4, 5, 6, 7});
    addFace<1, 4>(m, {0, 1, 2, 3});
    addFace<1, 4>(m, {1, 4, 7, 2});
  }
  return m;
}
template <Int P, Int N>
static void lists(Mesh<P, N> const & m, um2::Vec<2, double> const & o, um2::Vec<2, double> const & d)
{
  Int constexpr per_face = (P == 1 ? N : 2 * (N / 2));
  Int const nf = m.numFaces();
  um2::Ray2F const ray(o, d);
  Int constexpr room = 3 * per_face;
  double coords[room + 1];
  double plain[room + 1];
  Int offsets[5];
  Int faces[4];
  coords[room] = -7;
  plain[room] = -7;
  offsets[nf + 1] = -7;
  faces[nf] = -7;
  auto const hf = m.intersect(ray, &coords[0], &offsets[0], &faces[0]);
  vx_assert(coords[room] == -7 && offsets[nf + 1] == -7 && faces[nf] == -7, "nothing written past the buffers");
  Int const n = m.intersect(ray, &plain[0]);
  vx_assert(plain[room] == -7, "nothing written past the buffer");
  vx_assert(hf[0] == n, "same number of crossings with and without grouping");
  vx_assert(offsets[0] == 0 && offsets[hf[1]] == n, "offsets cover all crossings");
  for (Int i = 0; i < n; ++i) {
    vx_near(coords[i], plain[i], 0, "same crossings with and without grouping");
  }
  Int at = 0;
  for (Int f = 0; f < nf; ++f) {
    double own[per_face];
    Int const k = m.getFace(f).intersect(ray, &own[0]);
    if (k == 0) {
      continue;
    }
    vx_assert(at < hf[1] && faces[at] == f, "crossed faces listed in order");
    vx_assert(offsets[at + 1] - offsets[at] == k, "crossings per face");
    for (Int i = 0; i < k; ++i) {
      vx_near(coords[offsets[at] + i], own[i], 0, "crossings of the face");
    }
    ++at;
  }
  vx_assert(at == hf[1], "number of crossed faces");
  if constexpr (P == 1) {
    // Every reported crossing is on an edge of the face it is listed under, and every edge crossed
    // away from its ends is reported
    for (Int j = 0; j < hf[1]; ++j) {
      Int const f = faces[j];
      for (Int e = 0; e < N; ++e) {
        auto const edge = m.getEdge(f, e);
        double const ex = edge[1][0] - edge[0][0];
        double const ey = edge[1][1] - edge[0][1];
        double const z = d[0] * ey - d[1] * ex;
        if (z == 0) {
          continue;
        }
        double const s = ((edge[0][0] - o[0]) * d[1] - (edge[0][1] - o[1]) * d[0]) / z;
        double const r = ((edge[0][0] - o[0]) * ey - (edge[0][1] - o[1]) * ex) / z;
        if (s > 0 && s < 1 && r > 0) {
          bool found = false;
          for (Int i = offsets[j]; i < offsets[j + 1]; ++i) {
            found = found || (coords[i] - r < 1e-7 && r - coords[i] < 1e-7);
          }
          vx_assert(found, "crossing of an edge is listed under its face");
        }
      }
    }
  }
}
// @entry h_tri mode=real
extern "C" void h_tri() { lists<1, 3>(straightMesh<3>(), anyPoint<2>("o", -3, 5), someDirection(vx_choice("d", 4))); }
// @entry h_quad mode=real
extern "C" void h_quad() { lists<1, 4>(straightMesh<4>(), anyPoint<2>("o", -3, 5), someDirection(vx_choice("d", 4))); }

// Two quadratic faces, one edge curved; the ray starts anywhere on a line across the mesh
template <Int N>
static Mesh<2, N> curvedMesh()
{
  quiet(true);
  Mesh<2, N> m;
  if constexpr (N == 6) {
    double const x[9] = {0, 2, 0, 2, 1, 1, 0, 2, 1};
    double const y[9] = {0, 0, 2, 2, -0.5, 1, 1, 1, 2};
    for (Int i = 0; i < 9; ++i) {
      m.addVertex(v2(x[i], y[i]));
    }
    addFace<2, 6>(m, {1, 3, 2, 7, 8, 5});
    addFace<2, 6>(m, {0, 1, 2, 4, 5, 6});
  } else {
    double const x[13] = {0, 2, 2, 0, 4, 4, 1, 2, 1, 0, 3, 4, 3};
    double const y[13] = {0, 0, 2, 2, 0, 2, -0.5, 1, 2, 1, 0, 1, 2.25};
    for (Int i = 0; i < 13; ++i) {
      m.addVertex(v2(x[i], y[i]));
    }
    addFace<2, 8>(m, {1, 4, 5, 2, 10, 11, 12, 7});
    addFace<2, 8>(m, {0, 1, 2, 3, 6, 7, 8, 9});
  }
  return m;
}
// @entry h_tri6 mode=real time=60
extern "C" void h_tri6()
{
  double const t = vx_real("t", -3, 5);
  lists<2, 6>(curvedMesh<6>(), v2(t, -1), someDirection(vx_choice("d", 2)));
}
// @entry h_quad8 mode=real time=60
extern "C" void h_quad8()
{
  double const t = vx_real("t", -3, 5);
  lists<2, 8>(curvedMesh<8>(), v2(t, -1), someDirection(vx_choice("d", 2)));
}

// Ordering the faces along the ray
// @entry h_sort mode=real time=60
extern "C" void h_sort()
{
  Int const nf = 1 + vx_choice("faces", 3);
  Int offsets[4] = {0, 0, 0, 0};
  Int faces[3] = {7, 2, 5};
  Int const budget = vx_tier() > 0 ? 7 : 6;
  for (Int i = 0; i < nf; ++i) {
    offsets[i + 1] = offsets[i] + 1 + vx_choice("hits", 3);
  }
  Int const n = offsets[nf];
  vx_assume(n <= budget);
  // buffers of exactly the stated sizes: any access outside is an error by itself
  auto * const coords = new double[n];
  auto * const sorted = new double[n];
  auto * const soff = new Int[nf + 1];
  auto * const sfaces = new Int[nf];
  auto * const perm = new Int[nf];
  double key[3];
  for (Int i = 0; i < n; ++i) {
    coords[i] = vx_real("c", 0, 10);
  }
  um2::Vec2I hf;
  hf[0] = n;
  hf[1] = nf;
  um2::sortRayMeshIntersections(&coords[0], &offsets[0], &faces[0], &sorted[0], &soff[0], &sfaces[0], &perm[0], hf);
  vx_assert(soff[0] == 0 && soff[nf] == n, "offsets cover all crossings");
  for (Int j = 0; j < nf; ++j) {
    Int k = -1;
    for (Int i = 0; i < nf; ++i) {
      if (faces[i] == sfaces[j]) {
        k = i;
      }
    }
    vx_assert(k >= 0, "sorted faces are the crossed faces");
    for (Int i = 0; i < j; ++i) {
      vx_assert(sfaces[i] != sfaces[j], "each face once");
    }
    Int const size = offsets[k + 1] - offsets[k];
    vx_assert(soff[j + 1] - soff[j] == size, "each face keeps its number of crossings");
    double sum = 0;
    double sq = 0;
    for (Int i = 0; i < size; ++i) {
      if (i > 0) {
        vx_le(sorted[soff[j] + i - 1], sorted[soff[j] + i], 0, "crossings of a face in increasing order");
      }
      sum += sorted[soff[j] + i] - coords[offsets[k] + i];
      sq += sorted[soff[j] + i] * sorted[soff[j] + i] - coords[offsets[k] + i] * coords[offsets[k] + i];
    }
    vx_near(sum, 0, 1e-9, "each face keeps its crossings");
    vx_near(sq, 0, 1e-9, "each face keeps its crossings");
    key[j] = size > 1 ? (sorted[soff[j]] + sorted[soff[j] + 1]) / 2 : sorted[soff[j]];
    if (j > 0) {
      vx_le(key[j - 1], key[j], 1e-9, "faces in the order in which the ray crosses them");
    }
  }
  delete[] coords;
  delete[] sorted;
  delete[] soff;
  delete[] sfaces;
  delete[] perm;
}
