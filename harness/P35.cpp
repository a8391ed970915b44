// Homogenised cross sections, chord lengths and volumes
#include "modelsrc.inc"
// @bounds cells of one to three faces of all four kinds with every width, height and dividing line, every assignment of three materials with every value of two groups; hierarchies of one or two children per level
// @outside more faces or groups; curved faces for a range of sizes
#include "vrt.hpp"
#include "quiet.inc"
#include "model.inc"
#define HIER_CORNER 0.5
#include "hier.inc"
#include <fstream>

// Fissile in the groups of the mask
static Material makeMat(Int i, double const * v, unsigned fissile)
{
  char const * const names[3] = {"A", "B", "C"};
  Material m;
  m.setName(names[i]);
  um2::XSec xs(2);
  xs.isMacro() = true;
  xs.isFissile() = fissile != 0;
  for (Int g = 0; g < 2; ++g) {
    xs.a()[g] = v[4 * g];
    bool const f = (fissile >> g & 1U) != 0;
    xs.f()[g] = f ? v[4 * g + 1] : 0;
    xs.nuf()[g] = f ? v[4 * g + 1] * 2.5 : 0;
    xs.s()[g] = v[4 * g + 2] + v[4 * g + 3];
    xs.tr()[g] = v[4 * g] + v[4 * g + 2];
    xs.ss()(g, g) = v[4 * g + 2];
    xs.ss()(1 - g, g) = v[4 * g + 3];
  }
  m.xsec() = xs;
  return m;
}
static void check(Model const & m, Int cell, double const * area, Int const * mat, Int n)
{
  um2::XSec const x = m.getCoarseCellHomogenizedXSec(cell);
  vx_assert(x.numGroups() == 2 && x.isMacro(), "macroscopic, all groups");
  double total = 0;
  for (Int i = 0; i < n; ++i) {
    total += area[i];
  }
  bool fissile = false;
  for (Int g = 0; g < 2; ++g) {
    double a = 0;
    double f = 0;
    double nuf = 0;
    double tr = 0;
    double s = 0;
    double ss[2] = {0, 0};
    for (Int i = 0; i < n; ++i) {
      auto const & q = m.materials()[mat[i]].xsec();
      a += area[i] * q.a()[g];
      f += area[i] * q.f()[g];
      nuf += area[i] * q.nuf()[g];
      tr += area[i] * q.tr()[g];
      s += area[i] * q.s()[g];
      for (Int k = 0; k < 2; ++k) {
        ss[k] += area[i] * q.ss()(k, g);
      }
      fissile = fissile || q.isFissile();
    }
    vx_near(x.a()[g] * total, a, 1e-6, "absorption");
    vx_near(x.f()[g] * total, f, 1e-6, "fission");
    vx_near(x.nuf()[g] * total, nuf, 1e-6, "production");
    vx_near(x.tr()[g] * total, tr, 1e-6, "transport");
    vx_near(x.s()[g] * total, s, 1e-6, "scattering");
    for (Int k = 0; k < 2; ++k) {
      vx_near(x.ss()(k, g) * total, ss[k], 1e-6, "scattering matrix");
    }
  }
  vx_assert(x.isFissile() == fissile, "fissile with a fissile part");
}
static void fill(double * v, char const * name)
{
  for (Int k = 0; k < 8; ++k) {
    v[k] = vx_real(name, 0.01, 2);
  }
}
// Three quadrilaterals divided at any lines
// @entry h_quads mode=real time=200
extern "C" void h_quads()
{
  quiet(true);
  double const x1 = vx_real("x1", 0.001, 2);
  double const x2 = vx_real("x2", 0.5, 4);
  double const x3 = vx_real("x3", 0.5, 6);
  double const h = 2;
  vx_assume(x1 + 0.001 <= x2 && x2 + 0.001 <= x3);
  double const x[4] = {0, x1, x2, x3};
  um2::QuadFVM q;
  q.vertices().resize(8);
  for (Int i = 0; i < 4; ++i) {
    setVertex(q.vertices(), i, x[i], 0);
    setVertex(q.vertices(), 4 + i, x[i], h);
  }
  q.faceVertexConn().resize(3);
  for (Int i = 0; i < 3; ++i) {
    Int const c[4] = {i, i + 1, i + 5, i + 4};
    for (Int k = 0; k < 4; ++k) {
      q.faceVertexConn()[i][k] = c[k];
    }
  }
  double v[3][8];
  Model m;
  for (Int i = 0; i < 3; ++i) {
    if (i == 0) {
      fill(v[i], "v");
    } else {
      for (Int k = 0; k < 8; ++k) {
        v[i][k] = i + 0.25 * k;
      }
    }
    m.addMaterial(makeMat(i, v[i], i == 0 ? 3 : i == 1 ? 2 : 0), false);
  }
  Int mat[3];
  double area[3];
  Vector<MatID> ids(3);
  for (Int i = 0; i < 3; ++i) {
    mat[i] = vx_choice("mat", 3);
    ids[i] = static_cast<MatID>(mat[i]);
    area[i] = (x[i + 1] - x[i]) * h;
  }
  m.addQuadMesh(q);
  m.addCoarseCell(ext(x3, h), MeshType::Quad, 0, ids);
  check(m, 0, area, mat, 3);
}
// Faces of every kind, and the cross section of a single material
// @entry h_kinds mode=real time=200
extern "C" void h_kinds()
{
  quiet(true);
  Int const kind = vx_choice("kind", 4);
  double w = 1.5;
  double h = 2;
  if (kind < 2) {
    w = vx_real("w", 0.5, 5);
    h = vx_real("h", 0.5, 5);
  }
  Model m;
  double v[2][8];
  for (Int i = 0; i < 2; ++i) {
    fill(v[i], "v");
    m.addMaterial(makeMat(i, v[i], i == 1 ? 1 : 0), false);
  }
  addKind(m, kind, w, h);
  Int const n = KIND_FACES[kind];
  Int mat[2] = {0, 0};
  double area[2];
  Vector<MatID> ids(n);
  for (Int i = 0; i < n; ++i) {
    mat[i] = vx_choice("mat", 2);
    ids[i] = static_cast<MatID>(mat[i]);
    area[i] = kindArea(kind, i, w, h);
  }
  m.addCoarseCell(ext(w, h), KIND_TYPE[kind], 0, ids);
  check(m, 0, area, mat, n);
  if (n == 1 || mat[0] == mat[1]) {
    um2::XSec const x = m.getCoarseCellHomogenizedXSec(0);
    auto const & q = m.materials()[mat[0]].xsec();
    for (Int g = 0; g < 2; ++g) {
      vx_near(x.a()[g], q.a()[g], 1e-6, "one material stays as it is");
      vx_near(x.f()[g], q.f()[g], 1e-6, "one material stays as it is");
      vx_near(x.tr()[g], q.tr()[g], 1e-6, "one material stays as it is");
    }
  }
}
static double root(double x) { return um2::sqrt(x); }
// Mean chord lengths and volumes of materials of a model
// @entry h_model mode=real time=200
extern "C" void h_model()
{
  quiet(true);
  Plan p;
  p.kind = vx_choice("kind", 4);
  if (p.kind < 2) {
    p.wa = vx_real("wa", 0.5, 5);
    p.wb = 1.5;
    p.h = 2;
  } else {
    p.wb = 1.5;
    p.h = 2;
  }
  for (Int i = 0; i < 3; ++i) {
    p.mat[i] = vx_choice("mat", 2);
  }
  shape2(vx_choice("lattice", 2), p.nr, p.nc);
  p.lat[0][1] = vx_choice("module", 2);
  p.lat[1][1] = p.lat[0][1];
  p.slices = 1 + vx_choice("slices", 2);
  // the planes start at zero, or enclose it at one half
  if (p.nc == 1 && vx_choice("plane", 2) == 1) {
    p.z[0] = -0.5;
    p.z[1] = p.slices == 1 ? 0.5 : vx_real("z1", -0.4, 0.4);
    p.z[2] = 0.5;
  } else {
    p.z[1] = vx_real("z1", 0.1, 5);
    p.z[2] = 10;
  }
  shape2(p.z[0] < 0 ? 0 : vx_choice("core", 2), p.cr, p.cc);
  p.asy[1] = p.cc == 1 ? 0 : vx_choice("assembly", 2);
  Model m;
  m.addMaterial(makeMaterial("A", 1), false);
  m.addMaterial(makeMaterial("B", 2), false);
  addParts(m, p);
  Vector<double> const got = m.getMeanChordLengths();
  double const pi = 3.14159265358979323846;
  double const diag = root(p.wb * p.wb + p.h * p.h);
  double const w = p.wb;
  double const h = p.h;
  // perimeter and area of the faces of cell 1
  double const first = p.kind == 1 ? 2 * w + h : p.kind == 3 ? 2 * w + 2 * h : w + h + diag;
  double const second = p.kind == 1 ? first : root(w * w + h * h * 0.25) + h * 0.5 + diag;
  Int at = 0;
  double volume[2] = {0, 0};
  for (Int iy = 0; iy < p.cr; ++iy) {
    for (Int ix = 0; ix < p.cc; ++ix) {
      Int const a = p.asy[(p.cr - 1 - iy) * p.cc + ix];
      for (Int k = 0; k < slicesOf(p, a); ++k) {
        Int const l = latticeOf(p, a, k);
        double const dz = highOf(p, a, k) - lowOf(p, a, k);
        for (Int jy = 0; jy < p.nr; ++jy) {
          for (Int jx = 0; jx < p.nc; ++jx) {
            Int const r = p.lat[l][(p.nr - 1 - jy) * p.nc + jx];
            for (Int c = 0; c < 2; ++c) {
              Int const cell = cellOf(r, c);
              for (Int f = 0; f < facesOf(p, cell); ++f, ++at) {
                vx_assert(at < got.size(), "one length per placed face");
                if (cell == 0) {
                  vx_near(got[at] * (2 * (p.wa + h)), pi * p.wa * h, 1e-3, "pi times area per perimeter");
                  volume[p.mat[0]] += p.wa * h * dz;
                } else {
                  double const area = kindArea(p.kind, f, w, h);
                  vx_near(got[at] * (f == 0 ? first : second), pi * area, 1e-3, "pi times area per perimeter");
                  volume[p.mat[1 + f]] += area * dz;
                }
              }
            }
          }
        }
      }
    }
  }
  vx_assert(at == got.size(), "one length per placed face");
  m.write("model.xdmf");
  std::ifstream in("model.volumes");
  for (Int i = 0; i < 2; ++i) {
    char name = 0;
    double v = -1;
    in >> name;
    in >> v;
    vx_assert(name == (i == 0 ? 'A' : 'B'), "a line for each material");
    vx_near(v, volume[i], 1e-6, "volume of the material");
  }
}
