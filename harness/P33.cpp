// A model flattened to a soup
#include "modelsrc.inc"
// @bounds one or two modules per lattice, one or two slices, one or two assemblies, every id, both cells with faces of all four kinds, every width and height from 0.5 to 5, every plane, every pair of materials, every total cross section of two groups
// @outside larger hierarchies; cells without a mesh
#include "vrt.hpp"
#include "quiet.inc"
#include "model.inc"
#define HIER_CORNER 0.5
#include "hier.inc"

static void writeName(char * s, char const * what, Int a, Int b)
{
  Int n = 0;
  for (; what[n] != 0; ++n) {
    s[n] = what[n];
  }
  Int const v[2] = {a, b};
  for (Int k = 0; k < 2; ++k) {
    s[n++] = '_';
    for (Int d = 0; d < 4; ++d) {
      s[n++] = '0';
    }
    s[n++] = static_cast<char>('0' + v[k]);
  }
  s[n] = 0;
}
static double absd(double x) { return x < 0 ? -x : x; }
static Material makeMat(Int i, double a0, double a1, double s)
{
  Material m;
  m.setName(i == 0 ? "A" : "B");
  um2::XSec xs(2);
  xs.isMacro() = true;
  xs.a()[0] = a0;
  xs.a()[1] = a1;
  for (Int g = 0; g < 2; ++g) {
    xs.s()[g] = s;
    xs.tr()[g] = xs.a()[g] + s;
    xs.ss()(g, g) = s;
  }
  m.xsec() = xs;
  return m;
}

static void checkSoup(Model const & m, Plan const & p, double const * xs)
{
  um2::PolytopeSoup const s(m);
  Int const cap = 64;
  Int used[cap] = {};
  Int rtmAt[cap] = {};
  Int latAt[cap] = {};
  Int asyAt[cap] = {};
  Int seen[4][2] = {};
  Int names = 0;
  Int elements = 0;
  Int nrtm = 0;
  Int nlat = 0;
  Int nasy = 0;
  char setName[4][64];
  Vector<Int> ids;
  Vector<double> data;
  Vector<Int> conn;
  Vector<double> xsecs;
  Vector<double> chords;
  Vector<double> knudsen;
  Vector<double> mats;
  Vector<Int> all;
  s.getElset("Material_ID", all, mats);
  s.getElset("One_Group_XS", ids, xsecs);
  s.getElset("Mean_Chord_Length", ids, chords);
  s.getElset("Knudsen_Number", ids, knudsen);
  Int const n = s.numElements();
  vx_assert(all.size() == n && mats.size() == n && xsecs.size() == n && chords.size() == n && knudsen.size() == n,
            "data for every element");
  for (Int e = 0; e < n; ++e) {
    vx_assert(all[e] == e, "data for every element");
  }
  for (Int iy = 0; iy < p.cr; ++iy) {
    for (Int ix = 0; ix < p.cc; ++ix) {
      Int const a = p.asy[(p.cr - 1 - iy) * p.cc + ix];
      writeName(setName[3], "Assembly", a, seen[3][a]++);
      ++names;
      ++nasy;
      Int inAsy = 0;
      for (Int k = 0; k < slicesOf(p, a); ++k) {
        Int const l = latticeOf(p, a, k);
        writeName(setName[2], "Lattice", l, seen[2][l]++);
        ++names;
        ++nlat;
        Int inLat = 0;
        for (Int jy = 0; jy < p.nr; ++jy) {
          for (Int jx = 0; jx < p.nc; ++jx) {
            Int const r = p.lat[l][(p.nr - 1 - jy) * p.nc + jx];
            writeName(setName[1], "RTM", r, seen[1][r]++);
            ++names;
            ++nrtm;
            Int inRtm = 0;
            for (Int c = 0; c < 2; ++c) {
              Int const cell = cellOf(r, c);
              writeName(setName[0], "Coarse_Cell", cell, seen[0][cell]++);
              ++names;
              s.getElset(setName[0], ids, data);
              Int const faces = facesOf(p, cell);
              vx_assert(ids.size() == faces && data.empty(), "faces of the cell");
              double const x0 =
                  (ix * p.nc + jx) * (p.wa + p.wb) + (c == 0 ? 0 : cellOf(r, 0) == 0 ? p.wa : p.wb);
              double const y0 = (iy * p.nr + jy) * p.h;
              double const z0 = (lowOf(p, a, k) + highOf(p, a, k)) * 0.5;
              auto const & cc = m.getCoarseCell(cell);
              um2::PolytopeSoup mesh;
              if (cc.mesh_type == MeshType::Tri) {
                mesh = m.getTriMesh(cc.mesh_id);
              } else if (cc.mesh_type == MeshType::Quad) {
                mesh = m.getQuadMesh(cc.mesh_id);
              } else if (cc.mesh_type == MeshType::QuadraticTri) {
                mesh = m.getTri6Mesh(cc.mesh_id);
              } else {
                mesh = m.getQuad8Mesh(cc.mesh_id);
              }
              for (Int f = 0; f < faces; ++f) {
                Int const e = ids[f];
                vx_assert(e >= 0 && e < n && used[e] == 0, "an element belongs to one cell");
                used[e] = 1;
                rtmAt[e] = nrtm;
                latAt[e] = nlat;
                asyAt[e] = nasy;
                ++inRtm;
                um2::VTKElemType type = um2::VTKElemType::Invalid;
                um2::VTKElemType type0 = um2::VTKElemType::Invalid;
                Vector<Int> conn0;
                s.getElement(e, type, conn);
                mesh.getElement(f, type0, conn0);
                vx_assert(type == type0 && conn.size() == conn0.size(), "kind of the element");
                for (Int q = 0; q < conn.size(); ++q) {
                  auto const & v = s.getVertex(conn[q]);
                  auto const & v0 = mesh.getVertex(conn0[q]);
                  vx_near(v[0], x0 + v0[0], 1e-3, "position");
                  vx_near(v[1], y0 + v0[1], 1e-3, "position");
                  vx_near(v[2], z0, 1e-9, "middle of the slice");
                }
                Int const mat = p.mat[cell == 0 ? 0 : 1 + f];
                vx_near(mats[e], mat, 0, "material");
                vx_near(xsecs[e], xs[mat], 1e-6, "average cross section");
                vx_near(knudsen[e] * (xsecs[e] * chords[e]), 1, 1e-6, "mean free path per chord length");
                double chord = 0;
                if (cc.mesh_type == MeshType::Tri) {
                  chord = m.getTriMesh(cc.mesh_id).getFace(f).meanChordLength();
                } else if (cc.mesh_type == MeshType::Quad) {
                  chord = m.getQuadMesh(cc.mesh_id).getFace(f).meanChordLength();
                } else if (cc.mesh_type == MeshType::QuadraticTri) {
                  chord = m.getTri6Mesh(cc.mesh_id).getFace(f).meanChordLength();
                } else {
                  chord = m.getQuad8Mesh(cc.mesh_id).getFace(f).meanChordLength();
                }
                vx_near(chords[e], chord, 1e-9, "chord length of the face");
              }
            }
            inLat += inRtm;
            s.getElset(setName[1], ids, data);
            vx_assert(ids.size() == inRtm && data.empty(), "elements of the module");
            for (Int i = 0; i < inRtm; ++i) {
              vx_assert(rtmAt[ids[i]] == nrtm && (i == 0 || ids[i - 1] < ids[i]), "elements of the module");
            }
          }
        }
        inAsy += inLat;
        s.getElset(setName[2], ids, data);
        vx_assert(ids.size() == inLat && data.empty(), "elements of the slice");
        for (Int i = 0; i < inLat; ++i) {
          vx_assert(latAt[ids[i]] == nlat && (i == 0 || ids[i - 1] < ids[i]), "elements of the slice");
        }
      }
      elements += inAsy;
      s.getElset(setName[3], ids, data);
      vx_assert(ids.size() == inAsy && data.empty(), "elements of the assembly");
      for (Int i = 0; i < inAsy; ++i) {
        vx_assert(asyAt[ids[i]] == nasy && (i == 0 || ids[i - 1] < ids[i]), "elements of the assembly");
      }
    }
  }
  vx_assert(n == elements && s.numElsets() == names + 4, "nothing else");
}

// All kinds of faces and materials
// @entry h_kinds mode=real time=200
extern "C" void h_kinds()
{
  quiet(true);
  Plan p;
  p.kind = vx_choice("kind", 4);
  if (p.kind < 2) {
    p.wa = vx_real("wa", 0.5, 5);
    p.wb = vx_real("wb", 0.5, 5);
    p.h = vx_real("h", 0.5, 5);
  } else {
    p.wb = 1.5;
    p.h = 2;
  }
  double const a = vx_real("a", 0.1, 2);
  double const b = vx_real("b", 0.1, 2);
  double const sc = vx_real("s", 0.1, 2);
  for (Int i = 0; i < 3; ++i) {
    p.mat[i] = vx_choice("mat", 2);
  }
  p.z[1] = vx_real("z1", 0.1, 5);
  
  Model m;
  m.addMaterial(makeMat(0, a, b, sc), false);
  m.addMaterial(makeMat(1, b, 3 * a, sc), false);
  double const xs[2] = {(a + b) * 0.5 + sc, (b + 3 * a) * 0.5 + sc};
  addParts(m, p);
  checkSoup(m, p, xs);
}
// One part placed three times
// @entry h_three mode=real time=200
extern "C" void h_three()
{
  quiet(true);
  Plan p;
  p.h = vx_real("h", 0.5, 5);
  p.mat[1] = 1;
  if (vx_choice("rows", 2) == 1) {
    p.cr = 3;
  } else {
    p.cc = 3;
  }
  p.asy[1] = vx_choice("assembly", 2);
  p.asy[2] = vx_choice("assembly", 2);
  p.slices = 1 + vx_choice("slices", 2);
  p.lats[1] = vx_choice("slice", 2);
  Model m;
  m.addMaterial(makeMat(0, 1, 2, 1), false);
  m.addMaterial(makeMat(1, 3, 5, 1), false);
  double const xs[2] = {2.5, 5};
  addParts(m, p);
  checkSoup(m, p, xs);
}
// All placements
// @entry h_places mode=real time=200
extern "C" void h_places()
{
  quiet(true);
  Plan p;
  p.kind = 0;
  p.wa = vx_real("wa", 0.5, 5);
  p.wb = vx_real("wb", 0.5, 5);
  p.h = vx_real("h", 0.5, 5);
  p.mat[1] = 1;
  shape2(vx_choice("lattice", 3), p.nr, p.nc);
  p.lat[0][0] = vx_choice("module", 2);
  p.lat[0][1] = p.nr + p.nc == 2 ? 0 : vx_choice("module", 2);
  p.lat[1][0] = 1 - p.lat[0][0];
  p.lat[1][1] = p.lat[0][1];
  p.slices = 1 + vx_choice("slices", 2);
  p.lats[0] = p.slices == 1 ? 0 : vx_choice("slice", 2);
  p.lats[1] = p.slices == 1 ? 0 : vx_choice("slice", 2);
  p.z[1] = vx_real("z1", 0.1, 5);
  p.z[2] = vx_real("z2", 0.1, 10);
  vx_assume(p.z[1] + 0.1 <= p.z[2]);
  shape2(vx_choice("core", 3), p.cr, p.cc);
  p.asy[0] = vx_choice("assembly", 2);
  p.asy[1] = p.cr + p.cc == 2 ? 0 : vx_choice("assembly", 2);
  Model m;
  m.addMaterial(makeMat(0, 1, 2, 1), false);
  m.addMaterial(makeMat(1, 3, 5, 1), false);
  double const xs[2] = {2.5, 5};
  addParts(m, p);
  checkSoup(m, p, xs);
}
