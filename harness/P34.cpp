// Writing and reading models
#include "modelsrc.inc"
// @bounds one or two modules per lattice, one or two slices, one or two assemblies, every id, cells with faces of all four kinds, every width and height from 0.5 to 5 for one module (curved kinds and other placements: one size), slice planes from a list, every assignment of two materials, with and without cross-section and chord-length data
// @outside larger hierarchies; models with parts that are not placed; slice planes are written with six decimals
#include "vrt.hpp"
#include "quiet.inc"
#include "model.inc"
#include "hier.inc"
#include <fstream>

static Material makeMat(Int i, double const * v)
{
  Material m;
  m.setName(i == 0 ? "UO2" : "H2O");
  um2::XSec xs(2);
  xs.isMacro() = true;
  xs.isFissile() = i == 0;
  for (Int g = 0; g < 2; ++g) {
    xs.a()[g] = v[3 * g];
    xs.f()[g] = i == 0 ? v[3 * g + 1] : 0;
    xs.nuf()[g] = i == 0 ? v[3 * g + 1] * 2.5 : 0;
    xs.s()[g] = v[3 * g + 2];
    xs.tr()[g] = v[3 * g] + v[3 * g + 2];
    xs.ss()(g, g) = v[3 * g + 2];
  }
  m.xsec() = xs;
  return m;
}
template <Int P, Int N>
static void sameMesh(um2::FaceVertexMesh<P, N> const & a, um2::FaceVertexMesh<P, N> const & b)
{
  vx_assert(a.numFaces() == b.numFaces() && a.numVertices() == b.numVertices(), "size of the mesh");
  for (Int f = 0; f < a.numFaces(); ++f) {
    auto const & c = a.faceVertexConn()[f];
    auto const & d = b.faceVertexConn()[f];
    for (Int k = 0; k < N; ++k) {
      auto const & p = a.vertices()[c[k]];
      auto const & q = b.vertices()[d[k]];
      vx_near(p[0], q[0], 1e-3, "faces of the mesh");
      vx_near(p[1], q[1], 1e-3, "faces of the mesh");
    }
  }
}
static bool sameName(um2::String const & a, char const * b)
{
  Int n = 0;
  for (; b[n] != 0; ++n) {
    if (n >= a.size() || a.data()[n] != b[n]) {
      return false;
    }
  }
  return a.size() == n;
}
static void roundTrip(Plan const & p, bool knudsen, bool xsec, double const (*v)[6])
{
  Model m;
  m.addMaterial(makeMat(0, v[0]), false);
  m.addMaterial(makeMat(1, v[1]), false);
  addParts(m, p);
  m.write("model.xdmf", knudsen, xsec);
  Model r;
  r.read("model.xdmf");
  vx_assert(r.materials().size() == 2 && sameName(r.materials()[0].getName(), "UO2") &&
                sameName(r.materials()[1].getName(), "H2O"),
            "materials");
  vx_assert(r.numCoarseCells() == 2 && r.numRTMs() == m.numRTMs() && r.numLattices() == m.numLattices() &&
                r.numAssemblies() == m.numAssemblies(),
            "number of parts");
  for (Int c = 0; c < 2; ++c) {
    auto const & cell = r.getCoarseCell(c);
    vx_assert(cell.mesh_type == (c == 0 ? MeshType::Quad : KIND_TYPE[p.kind]), "kind of the mesh");
    vx_near(cell.xy_extents[0], c == 0 ? p.wa : p.wb, 1e-3, "extents of the cell");
    vx_near(cell.xy_extents[1], p.h, 1e-3, "extents of the cell");
    vx_assert(cell.material_ids.size() == facesOf(p, c), "materials of the cell");
    for (Int f = 0; f < facesOf(p, c); ++f) {
      vx_assert(cell.material_ids[f] == p.mat[c == 0 ? 0 : 1 + f], "materials of the cell");
    }
    Int const id = m.getCoarseCell(c).mesh_id;
    if (c == 0 || p.kind == 1) {
      sameMesh(r.getQuadMesh(cell.mesh_id), m.getQuadMesh(id));
    } else if (p.kind == 0) {
      sameMesh(r.getTriMesh(cell.mesh_id), m.getTriMesh(id));
    } else if (p.kind == 2) {
      sameMesh(r.getTri6Mesh(cell.mesh_id), m.getTri6Mesh(id));
    } else {
      sameMesh(r.getQuad8Mesh(cell.mesh_id), m.getQuad8Mesh(id));
    }
  }
  for (Int i = 0; i < r.numRTMs(); ++i) {
    auto const & q = r.getRTM(i);
    vx_assert(q.grid().numCells(0) == 2 && q.grid().numCells(1) == 1, "shape of the module");
    vx_assert(q.getChild(0, 0) == cellOf(i, 0) && q.getChild(1, 0) == cellOf(i, 1), "cells of the module");
    vx_near(q.grid().getBox(0, 0).maxima(0), i == 0 ? p.wa : p.wb, 1e-3, "cells of the module");
  }
  for (Int l = 0; l < r.numLattices(); ++l) {
    auto const & q = r.getLattice(l);
    vx_assert(q.grid().numCells(0) == p.nc && q.grid().numCells(1) == p.nr, "shape of the lattice");
    for (Int i = 0; i < p.nr; ++i) {
      for (Int j = 0; j < p.nc; ++j) {
        vx_assert(q.getChild(j, i) == p.lat[l][(p.nr - 1 - i) * p.nc + j], "modules of the lattice");
      }
    }
    vx_near(q.grid().extents(0), p.nc * (p.wa + p.wb), 1e-2, "size of the lattice");
    vx_near(q.grid().extents(1), p.nr * p.h, 1e-2, "size of the lattice");
  }
  for (Int a = 0; a < r.numAssemblies(); ++a) {
    auto const & q = r.getAssembly(a);
    vx_assert(q.grid().numCells(0) == slicesOf(p, a), "number of slices");
    for (Int k = 0; k < slicesOf(p, a); ++k) {
      vx_assert(q.getChild(k) == latticeOf(p, a, k), "lattice of the slice");
      vx_near(q.grid().divs(0)[k], lowOf(p, a, k), 1e-6, "planes of the slice");
      vx_near(q.grid().divs(0)[k + 1], highOf(p, a, k), 1e-6, "planes of the slice");
    }
  }
  vx_assert(r.getCore().grid().numCells(0) == p.cc && r.getCore().grid().numCells(1) == p.cr, "shape of the core");
  for (Int i = 0; i < p.cr; ++i) {
    for (Int j = 0; j < p.cc; ++j) {
      vx_assert(r.getCore().getChild(j, i) == p.asy[(p.cr - 1 - i) * p.cc + j], "assemblies of the core");
    }
  }
  // the file of cross sections
  std::ifstream in("model.xs");
  int mats = 0;
  int groups = 0;
  in >> mats;
  in >> groups;
  vx_assert(mats == 2 && groups == 2, "numbers of materials and groups");
  for (Int i = 0; i < 2; ++i) {
    char const * const name = i == 0 ? "UO2" : "H2O";
    for (Int k = 0; k < 3; ++k) {
      char c = 0;
      in >> c;
      vx_assert(c == name[k], "name of the material");
    }
    for (Int g = 0; g < 2; ++g) {
      double x[5] = {};
      for (Int k = 0; k < 5; ++k) {
        in >> x[k];
      }
      vx_near(x[0], v[i][3 * g], 1e-9, "absorption");
      vx_near(x[1], i == 0 ? v[i][3 * g + 1] : 0, 1e-9, "fission");
      vx_near(x[2], i == 0 ? v[i][3 * g + 1] * 2.5 : 0, 1e-9, "production");
      vx_near(x[3], v[i][3 * g] + v[i][3 * g + 2], 1e-9, "transport");
      vx_near(x[4], v[i][3 * g + 2], 1e-9, "scattering");
    }
  }
}
// All kinds of faces and materials
// @entry h_kinds mode=real time=200
extern "C" void h_kinds()
{
  quiet(true);
  Plan p;
  p.kind = vx_choice("kind", 4);
  if (p.kind < 2) {
    p.wa = vx_real("wa", 0.5, 5);
    p.wb = vx_real("wb", 0.5, 5);
    p.h = vx_real("h", 0.5, 5);
  } else {
    p.wb = 1.5;
    p.h = 2;
  }
  for (Int i = 0; i < 3; ++i) {
    p.mat[i] = vx_choice("mat", 2);
  }
  if (vx_choice("plane", 2) == 1) {
    p.z[0] = -0.5;
    p.z[1] = 0.5;
  }
  double v[2][6];
  for (Int i = 0; i < 6; ++i) {
    v[0][i] = vx_real("v", 0.01, 2);
    v[1][i] = vx_real("v", 0.01, 2);
  }
  Int const what = vx_choice("data", 4);
  roundTrip(p, what % 2 == 1, what / 2 == 1, v);
}
// All placements
// @entry h_places mode=real time=200
extern "C" void h_places()
{
  quiet(true);
  Plan p;
  p.kind = 0;
  p.wa = 1.25;
  p.wb = 0.75;
  p.h = 2;
  p.mat[1] = 1;
  shape2(vx_choice("lattice", 3), p.nr, p.nc);
  p.lat[0][0] = vx_choice("module", 2);
  p.lat[0][1] = p.nr + p.nc == 2 ? 0 : vx_choice("module", 2);
  p.lat[1][0] = 1 - p.lat[0][0];
  p.lat[1][1] = p.lat[0][1];
  p.slices = 1 + vx_choice("slices", 2);
  p.lats[0] = p.slices == 1 ? 0 : vx_choice("slice", 2);
  p.lats[1] = p.slices == 1 ? 0 : vx_choice("slice", 2);
  Int const z = vx_choice("z", 2);
  p.z[1] = z == 0 ? 0.125 : 2.5;
  p.z[2] = z == 0 ? 10.75 : 3;
  shape2(vx_choice("core", 3), p.cr, p.cc);
  p.asy[0] = vx_choice("assembly", 2);
  p.asy[1] = p.cr + p.cc == 2 ? 0 : vx_choice("assembly", 2);
  // every part is placed
  vx_assume(usesAssembly(p, 0) && usesLattice(p, 0) && usesModule(p, 0));
  double const v[2][6] = {{1, 0.5, 2, 1.5, 0.75, 2}, {0.25, 0, 1, 0.5, 0, 3}};
  roundTrip(p, false, false, v);
}
