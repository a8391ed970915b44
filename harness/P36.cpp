// The C interface
#include "modelsrc.inc"
// @src src/um2c.cpp
// @bounds one or two modules per lattice, one or two slices, one or two assemblies, every id, cells with faces of all four kinds, every width and height from 0.5 to 5 (curved kinds: one size, every bulge of the edge between two faces up to 0.25), every pair of slice heights from 0.5 to 5 that agree to 1e-9 or are at least 0.01 apart, every point, and rays through every point of one side in a list of directions
// @outside larger hierarchies; starting and ending the library; indices that do not exist; heights that differ by more than 1e-9 and less than 0.01
#include "vrt.hpp"
#include "quiet.inc"
#include "model.inc"
#include "hier.inc"
#include <um2c.h>
namespace um2
{
void initialize() {}
void finalize() {}
} // namespace um2
static double const GUARD = -77;

static void choosePlan(Plan & p)
{
  shape2(vx_choice("lattice shape", 3), p.nr, p.nc);
  shape2(vx_choice("core shape", 3), p.cr, p.cc);
  p.slices = 1 + vx_choice("slices", 2);
  // every arrangement within reach needs only one part to vary at a time
  Int const part = vx_choice("part", 3);
  Int const first = vx_choice("first", 2);
  Int const second = vx_choice("second", 2);
  if (part == 0) {
    p.lat[0][0] = first;
    p.lat[0][1] = second;
  } else if (part == 1) {
    p.lats[0] = 0;
    p.lats[1] = second;
    p.lat[0][1] = first;
  } else {
    p.asy[0] = first;
    p.asy[1] = second;
  }
  if (p.asy[0] == 1 && (p.cr * p.cc == 1 || p.asy[1] == 1)) {
    p.asy[0] = 0;
  }
}
static void addMaterials(Model & m)
{
  m.addMaterial(makeMaterial("A", 1), false);
  m.addMaterial(makeMaterial("B", 2), false);
}
// @entry h_hierarchy mode=real time=300
extern "C" void h_hierarchy()
{
  quiet(true);
  Plan p;
  choosePlan(p);
  p.wa = vx_real("wa", 0.5, 5);
  p.wb = vx_real("wb", 0.5, 5);
  p.h = vx_real("h", 0.5, 5);
  // the modules of one row must be equally wide, which they are by construction
  double const d0 = vx_real("d0", 0.5, 5);
  double const d1 = vx_real("d1", 0.5, 5);
  p.z[1] = d0;
  p.z[2] = d0 + d1;
  p.mat[0] = vx_choice("m0", 2);
  p.mat[1] = 1 - p.mat[0];
  void * model = nullptr;
  um2NewMPACTModel(&model);
  Model & m = *static_cast<Model *>(model);
  addMaterials(m);
  addParts(m, p);
  vx_assert(!logged(), "model accepted");
  Int n = -1;
  Int nx = -1;
  Int ny = -1;
  Int id = -1;
  um2MPACTNumCoarseCells(model, &n);
  vx_assert(n == 2, "cells");
  um2MPACTNumRTMs(model, &n);
  vx_assert(n == (usesModule(p, 1) ? 2 : 1), "modules");
  um2MPACTNumLattices(model, &n);
  vx_assert(n == (usesLattice(p, 1) ? 2 : 1), "lattices");
  um2MPACTNumAssemblies(model, &n);
  vx_assert(n == (usesAssembly(p, 1) ? 2 : 1), "assemblies");
  um2MPACTCoreNumCells(model, &nx, &ny);
  vx_assert(nx == p.cc && ny == p.cr, "assemblies of the core");
  for (Int j = 0; j < p.cr; ++j) {
    for (Int i = 0; i < p.cc; ++i) {
      um2MPACTCoreGetChild(model, i, j, &id);
      vx_assert(id == p.asy[(p.cr - 1 - j) * p.cc + i], "assembly of the core");
    }
  }
  for (Int a = 0; a < (usesAssembly(p, 1) ? 2 : 1); ++a) {
    um2MPACTAssemblyNumCells(model, a, &nx);
    vx_assert(nx == slicesOf(p, a), "slices");
    double heights[3] = {GUARD, GUARD, GUARD};
    um2MPACTAssemblyHeights(model, a, heights);
    for (Int k = 0; k < slicesOf(p, a); ++k) {
      um2MPACTAssemblyGetChild(model, a, k, &id);
      vx_assert(id == latticeOf(p, a, k), "lattice of the slice");
      vx_near(heights[k], highOf(p, a, k) - lowOf(p, a, k), 1e-9, "height of the slice");
    }
    vx_assert(heights[slicesOf(p, a)] == GUARD, "nothing behind the heights");
  }
  for (Int l = 0; l < (usesLattice(p, 1) ? 2 : 1); ++l) {
    um2MPACTLatticeNumCells(model, l, &nx, &ny);
    vx_assert(nx == p.nc && ny == p.nr, "modules of the lattice");
    for (Int j = 0; j < p.nr; ++j) {
      for (Int i = 0; i < p.nc; ++i) {
        um2MPACTLatticeGetChild(model, l, i, j, &id);
        vx_assert(id == p.lat[l][(p.nr - 1 - j) * p.nc + i], "module of the lattice");
      }
    }
  }
  for (Int r = 0; r < (usesModule(p, 1) ? 2 : 1); ++r) {
    um2MPACTRTMNumCells(model, r, &nx, &ny);
    vx_assert(nx == 2 && ny == 1, "cells of the module");
    for (Int k = 0; k < 2; ++k) {
      um2MPACTRTMGetChild(model, r, k, 0, &id);
      vx_assert(id == cellOf(r, k), "cell of the module");
    }
    double w = 0;
    double h = 0;
    um2MPACTRTMWidth(model, r, &w);
    um2MPACTRTMHeight(model, r, &h);
    vx_near(w, p.wa + p.wb, 1e-9, "width of the module");
    vx_near(h, p.h, 1e-9, "height of the module");
  }
  for (Int c = 0; c < 2; ++c) {
    double w = 0;
    double h = 0;
    um2MPACTCoarseCellWidth(model, c, &w);
    um2MPACTCoarseCellHeight(model, c, &h);
    vx_near(w, c == 0 ? p.wa : p.wb, 1e-9, "width of the cell");
    vx_near(h, p.h, 1e-9, "height of the cell");
    um2MPACTCoarseCellNumFaces(model, c, &n);
    vx_assert(n == facesOf(p, c), "faces of the cell");
    MatID mats[4] = {99, 99, 99, 99};
    um2MPACTCoarseCellMaterialIDs(model, c, mats);
    for (Int f = 0; f < n; ++f) {
      vx_assert(mats[f] == p.mat[c == 0 ? 0 : 1 + f], "materials of the cell");
    }
    vx_assert(mats[n] == 99, "nothing behind the materials");
  }
  um2DeleteMPACTModel(model);
}
// The distinct pairs of id and height, ordered by height and then id
struct Pairs {
  Int n = 0;
  Int id[16] = {};
  double h[16] = {};
};
static bool before(Pairs const & t, Int i, Int j)
{
  return t.h[i] < t.h[j] || (t.h[i] == t.h[j] && t.id[i] < t.id[j]);
}
static void add(Pairs & t, Int id, double h)
{
  for (Int i = 0; i < t.n; ++i) {
    if (t.id[i] == id && t.h[i] == h) {
      return;
    }
  }
  t.id[t.n] = id;
  t.h[t.n] = h;
  ++t.n;
}
static void checkPairs(Pairs & t, Int n, Int * ids, double * heights)
{
  vx_assert(n == t.n, "number of heights");
  Pairs got;
  got.n = n;
  for (Int i = 0; i < n; ++i) {
    got.id[i] = ids[i];
    got.h[i] = heights[i];
    bool found = false;
    for (Int j = 0; j < t.n && !found; ++j) {
      double const d = t.h[j] - heights[i];
      found = t.id[j] == ids[i] && d > -1e-6 && d < 1e-6;
      if (found) {
        got.h[i] = t.h[j];
        // each pair once
        t.id[j] = -1;
      }
    }
    vx_assert(found, "pair of id and height");
  }
  for (Int i = 0; i + 1 < n; ++i) {
    vx_assert(before(got, i, i + 1), "ordered by height and id");
  }
  um2Free(ids);
  um2Free(heights);
}
// @entry h_heights mode=real time=300
extern "C" void h_heights()
{
  quiet(true);
  Plan p;
  p.slices = 2;
  // two equal or different slices next to an assembly of one slice
  p.cc = 1 + vx_choice("assemblies", 2);
  p.asy[1] = 1;
  p.lats[0] = vx_choice("l0", 2);
  p.lats[1] = vx_choice("l1", 2);
  if (p.lats[0] == 1 && p.lats[1] == 1) {
    p.lats[0] = 0;
  }
  p.nc = 1 + vx_choice("modules", 2);
  p.lat[0][0] = vx_choice("r0", 2);
  p.lat[1][0] = 1 - p.lat[0][0];
  double const d0 = vx_real("d0", 0.5, 5);
  // equal, equal up to rounding, or different
  Int const same = vx_choice("same", 3);
  double const d1 = same == 0 ? vx_real("d1", 0.5, 5) : d0;
  double const e = same == 2 ? vx_real("rounding", -1e-9, 1e-9) : 0;
  vx_assume(d0 == d1 || d0 - d1 > 0.01 || d1 - d0 > 0.01);
  p.z[1] = d0;
  p.z[2] = d0 + d1 + e;
  Model m;
  addMaterials(m);
  addParts(m, p);
  vx_assert(!logged(), "model accepted");
  double const dz[2][2] = {{d0, d1}, {d0 + d1, 0}};
  Int const what = vx_choice("what", 3);
  Pairs t;
  for (Int a = 0; a < p.cc; ++a) {
    for (Int k = 0; k < slicesOf(p, a); ++k) {
      Int const l = latticeOf(p, a, k);
      if (what == 2) {
        add(t, l, dz[a][k]);
      }
      for (Int i = 0; i < p.nc; ++i) {
        Int const r = p.lat[l][i];
        if (what == 1) {
          add(t, r, dz[a][k]);
        }
        for (Int c = 0; c < 2 && what == 0; ++c) {
          add(t, cellOf(r, c), dz[a][k]);
        }
      }
    }
  }
  Int n = -1;
  Int * ids = nullptr;
  double * heights = nullptr;
  if (what == 0) {
    um2MPACTCoarseCellHeights(&m, &n, &ids, &heights);
  } else if (what == 1) {
    um2MPACTRTMHeights(&m, &n, &ids, &heights);
  } else {
    um2MPACTLatticeHeights(&m, &n, &ids, &heights);
  }
  checkPairs(t, n, ids, heights);
}
static Int const NV[4] = {4, 6, 9, 8};
static Int const NPF[4] = {3, 4, 6, 8};
template <Int P, Int N>
static void sameFaces(um2::FaceVertexMesh<P, N> const & mesh, Int kind, Int nv, Int nf, double const * v, Int const * fv)
{
  vx_assert(nv == NV[kind] && nf == KIND_FACES[kind], "size of the mesh");
  for (Int i = 0; i < nv; ++i) {
    vx_near(v[2 * i], mesh.vertices()[i][0], 0, "coordinates");
    vx_near(v[2 * i + 1], mesh.vertices()[i][1], 0, "coordinates");
  }
  for (Int f = 0; f < nf; ++f) {
    for (Int k = 0; k < N; ++k) {
      vx_assert(fv[N * f + k] == mesh.faceVertexConn()[f][k], "connectivity");
    }
  }
}
static void checkFaces(Int kind, double w, double h)
{
  Model m;
  addMaterials(m);
  Plan p;
  p.wb = w;
  p.h = h;
  p.kind = kind;
  addParts(m, p);
  vx_assert(!logged(), "model accepted");
  Int type = -1;
  Int nv = -1;
  Int nf = -1;
  double * v = nullptr;
  Int * fv = nullptr;
  um2MPACTCoarseCellFaceData(&m, 1, &type, &nv, &nf, &v, &fv);
  vx_assert(type == static_cast<Int>(KIND_TYPE[kind]), "kind of mesh");
  Int const id = m.getCoarseCell(1).mesh_id;
  if (kind == 0) {
    sameFaces(m.getTriMesh(id), kind, nv, nf, v, fv);
  } else if (kind == 1) {
    sameFaces(m.getQuadMesh(id), kind, nv, nf, v, fv);
  } else if (kind == 2) {
    sameFaces(m.getTri6Mesh(id), kind, nv, nf, v, fv);
  } else {
    sameFaces(m.getQuad8Mesh(id), kind, nv, nf, v, fv);
  }
  double areas[3] = {GUARD, GUARD, GUARD};
  um2MPACTCoarseCellFaceAreas(&m, 1, areas);
  for (Int f = 0; f < nf; ++f) {
    vx_near(areas[f], w * h / nf, 1e-9, "area");
    // the centroid of a straight-sided face is the mean of its corners
    Int const corners = kind == 0 || kind == 2 ? 3 : 4;
    double x = 0;
    double y = 0;
    for (Int k = 0; k < corners; ++k) {
      x += v[2 * fv[NPF[kind] * f + k]];
      y += v[2 * fv[NPF[kind] * f + k] + 1];
    }
    double cx = GUARD;
    double cy = GUARD;
    um2MPACTCoarseCellFaceCentroid(&m, 1, f, &cx, &cy);
    vx_near(cx, x / corners, 1e-9, "centroid");
    vx_near(cy, y / corners, 1e-9, "centroid");
  }
  vx_assert(areas[nf] == GUARD, "nothing behind the areas");
  um2Free(v);
  um2Free(fv);
}
// @entry h_faces mode=real time=300
extern "C" void h_faces()
{
  quiet(true);
  Int const kind = vx_choice("kind", 4);
  double const w = kind < 2 ? vx_real("w", 0.5, 5) : 2;
  double const h = kind < 2 ? vx_real("h", 0.5, 5) : 1.5;
  checkFaces(kind, w, h);
}
// Faces with a curved edge between them: what one of them gains the other one loses
// @entry h_curved mode=real time=300
extern "C" void h_curved()
{
  quiet(true);
  double const bx = vx_real("bx", -0.25, 0.25);
  double const by = vx_real("by", -0.25, 0.25);
  double const w = 2;
  double const h = 1.5;
  bool const quad = vx_choice("quad", 2) == 1;
  Model m;
  addMaterials(m);
  if (quad) {
    um2::Quad8FVM q;
    double const xs[13] = {0, 1, 2, 2, 1, 0, 0.5, 1.5, 2, 1.5, 0.5, 0, 1 + bx};
    double const ys[13] = {0, 0, 0, 1.5, 1.5, 1.5, 0, 0, 0.75, 1.5, 1.5, 0.75, 0.75 + by};
    for (Int i = 0; i < 13; ++i) {
      q.addVertex({xs[i], ys[i]});
    }
    um2::Vec<8, Int> f;
    Int const a[8] = {0, 1, 4, 5, 6, 12, 10, 11};
    Int const b[8] = {1, 2, 3, 4, 7, 8, 9, 12};
    for (Int i = 0; i < 8; ++i) {
      f[i] = a[i];
    }
    q.addFace(f);
    for (Int i = 0; i < 8; ++i) {
      f[i] = b[i];
    }
    q.addFace(f);
    m.addQuad8Mesh(q);
  } else {
    um2::Tri6FVM t;
    double const xs[9] = {0, 2, 2, 0, 1, 2, 1, 0, 1 + bx};
    double const ys[9] = {0, 0, 1.5, 1.5, 0, 0.75, 1.5, 0.75, 0.75 + by};
    for (Int i = 0; i < 9; ++i) {
      t.addVertex({xs[i], ys[i]});
    }
    um2::Vec<6, Int> f;
    Int const a[6] = {0, 1, 2, 4, 5, 8};
    Int const b[6] = {2, 3, 0, 6, 7, 8};
    for (Int i = 0; i < 6; ++i) {
      f[i] = a[i];
    }
    t.addFace(f);
    for (Int i = 0; i < 6; ++i) {
      f[i] = b[i];
    }
    t.addFace(f);
    m.addTri6Mesh(t);
  }
  Vector<MatID> mats(2, static_cast<MatID>(0));
  m.addCoarseCell(ext(w, h), quad ? MeshType::QuadraticQuad : MeshType::QuadraticTri, 0, mats);
  vx_assert(!logged(), "cell accepted");
  double areas[3] = {GUARD, GUARD, GUARD};
  um2MPACTCoarseCellFaceAreas(&m, 0, areas);
  // twice the area under a bulge is 4/3 of the triangle it is drawn with
  double const gain = quad ? 2 * bx * 1.5 / 3 : 2 * (by * 2 - bx * 1.5) / 3;
  vx_near(areas[0], 1.5 + gain, 1e-9, "area next to a curved edge");
  vx_near(areas[1], 1.5 - gain, 1e-9, "area next to a curved edge");
  vx_assert(areas[2] == GUARD, "nothing behind the areas");
  double c[2][2];
  for (Int f = 0; f < 2; ++f) {
    um2MPACTCoarseCellFaceCentroid(&m, 0, f, &c[f][0], &c[f][1]);
  }
  vx_near(areas[0] * c[0][0] + areas[1] * c[1][0], 3, 1e-6, "centroid next to a curved edge");
  vx_near(areas[0] * c[0][1] + areas[1] * c[1][1], 2.25, 1e-6, "centroid next to a curved edge");
}
// @entry h_containing mode=real time=300
extern "C" void h_containing()
{
  quiet(true);
  Int const kind = vx_choice("kind", 4);
  Model m;
  addMaterials(m);
  Plan p;
  p.wb = 3;
  p.h = 2;
  p.kind = kind;
  addParts(m, p);
  double const x = vx_real("x", -1, 4);
  double const y = vx_real("y", -1, 3);
  // strictly inside a face or strictly outside the cell
  double const e = 0.001;
  bool const inside = x > e && x < 3 - e && y > e && y < 2 - e;
  bool const outside = x < -e || x > 3 + e || y < -e || y > 2 + e;
  double const cut = kind == 1 ? 2 * y - 2 : 3 * y - 2 * x;
  vx_assume(inside || outside);
  vx_assume(kind == 3 || cut > e || cut < -e);
  Int face = -2;
  um2MPACTCoarseCellFaceContaining(&m, 1, x, y, &face);
  if (outside) {
    vx_assert(face == -1, "no face");
  } else {
    vx_assert(face == (kind == 3 ? 0 : (cut > 0 ? 1 : 0)), "face that holds the point");
  }
}
// @entry h_ray mode=real time=300
extern "C" void h_ray()
{
  quiet(true);
  Int const kind = vx_choice("kind", 4);
  Model m;
  addMaterials(m);
  Plan p;
  p.wb = 3;
  p.h = 2;
  p.kind = kind;
  addParts(m, p);
  // from the left through the cell
  double const dirs[3][2] = {{1, 0}, {0.6, 0.8}, {0.8, -0.6}};
  Int const k = vx_choice("direction", 3);
  double const y0 = kind < 2 ? vx_real("y", 0.1, 1.9) : 0.7;
  double coords[32];
  double plain[32];
  for (Int i = 0; i < 32; ++i) {
    coords[i] = GUARD;
    plain[i] = GUARD;
  }
  Int n = -1;
  um2MPACTIntersectCoarseCell(&m, 1, -1, y0, dirs[k][0], dirs[k][1], coords, &n);
  um2::Point2F o;
  o[0] = -1;
  o[1] = y0;
  um2::Vec2F d;
  d[0] = dirs[k][0];
  d[1] = dirs[k][1];
  um2::Ray2F const ray(o, d);
  Int const id = m.getCoarseCell(1).mesh_id;
  Int want = 0;
  if (kind == 0) {
    want = m.getTriMesh(id).intersect(ray, plain);
  } else if (kind == 1) {
    want = m.getQuadMesh(id).intersect(ray, plain);
  } else if (kind == 2) {
    want = m.getTri6Mesh(id).intersect(ray, plain);
  } else {
    want = m.getQuad8Mesh(id).intersect(ray, plain);
  }
  vx_assert(n == want && n < 16, "number of crossings");
  vx_reach("crossings");
  for (Int i = 0; i < n; ++i) {
    if (i > 0) {
      vx_le(coords[i - 1], coords[i], 0, "ascending");
    }
    bool found = false;
    for (Int j = 0; j < n && !found; ++j) {
      found = plain[j] == coords[i];
      if (found) {
        plain[j] = GUARD - 1;
      }
    }
    vx_assert(found, "crossing of the mesh");
  }
}
// @entry h_sizes time=60
extern "C" void h_sizes()
{
  int a = 0;
  int b = 0;
  um2SizeOfInt(&a);
  um2SizeOfFloat(&b);
  vx_assert(a == static_cast<int>(sizeof(Int)) && b == static_cast<int>(sizeof(Float)), "sizes");
  Int const n = 1 + vx_choice("n", 64);
  void * p = nullptr;
  um2Malloc(&p, n);
  vx_assert(p != nullptr, "memory");
  char * const c = static_cast<char *>(p);
  for (Int i = 0; i < n; ++i) {
    c[i] = static_cast<char>(i);
  }
  vx_assert(c[n - 1] == static_cast<char>(n - 1), "memory of that size");
  um2Free(p);
}
// @entry h_read time=120
extern "C" void h_read()
{
  quiet(true);
  Plan p;
  choosePlan(p);
  p.wa = 1.5;
  p.wb = 2;
  p.h = 1.25;
  p.z[1] = 1.5;
  p.z[2] = 4;
  // each kind with some of the arrangements
  p.kind = (p.nr + 2 * p.cr + p.lat[0][1] + 3 * p.lats[1] + p.slices) % 4;
  p.mat[1] = 1;
  // both modules, lattices and assemblies used are placed
  vx_assume(usesAssembly(p, 0) && usesLattice(p, 0) && usesModule(p, 0));
  Model m;
  addMaterials(m);
  addParts(m, p);
  vx_assert(!logged(), "model accepted");
  m.write("model.xdmf");
  void * model = nullptr;
  um2ReadMPACTModel("model.xdmf", &model);
  vx_assert(model != nullptr && !logged(), "model read");
  Int n = -1;
  Int nx = -1;
  Int ny = -1;
  um2MPACTNumCoarseCells(model, &n);
  vx_assert(n == 2, "cells read");
  um2MPACTNumAssemblies(model, &n);
  vx_assert(n == (usesAssembly(p, 1) ? 2 : 1), "assemblies read");
  um2MPACTCoreNumCells(model, &nx, &ny);
  vx_assert(nx == p.cc && ny == p.cr, "core read");
  um2MPACTCoarseCellNumFaces(model, 1, &n);
  vx_assert(n == facesOf(p, 1), "faces read");
  um2DeleteMPACTModel(model);
}
