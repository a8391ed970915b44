// Generated pin meshes
#include "modelsrc.inc"
// @bounds rectangular: every extent from 0.1 to 10, up to three by three faces; cylindrical: every pitch from 1 to 2 and every radius that leaves room, one to three rings in one or two regions, eight and sixteen divisions; quadratic faces: pitches 1, 1.26, 2 and three shares of the pitch as radius, one or two rings, eight or sixteen divisions; materials: one or two regions of one or two rings, any of three materials, both orders
// @outside more rings and divisions; radii closer to each other, the centre or the side of the pin than stated
#include "vrt.hpp"
#include "quiet.inc"
#include "model.inc"

// @entry h_rect mode=real time=120
extern "C" void h_rect()
{
  quiet(true);
  double const w = vx_real("w", 0.1, 10);
  double const h = vx_real("h", 0.1, 10);
  Int const nx = 1 + vx_choice("nx", 3);
  Int const ny = 1 + vx_choice("ny", 3);
  Model m;
  vx_assert(m.addRectangularPinMesh(ext(w, h), nx, ny) == 0, "first mesh");
  auto const & q = m.getQuadMesh(0);
  vx_assert(q.numFaces() == nx * ny && q.numVertices() == (nx + 1) * (ny + 1), "faces and vertices");
  for (Int j = 0; j < ny; ++j) {
    for (Int i = 0; i < nx; ++i) {
      auto const f = q.getFace(j * nx + i);
      for (Int k = 0; k < 4; ++k) {
        double const x = i + (k == 1 || k == 2 ? 1 : 0);
        double const y = j + (k > 1 ? 1 : 0);
        vx_near(f[k][0] * nx, w * x, 1e-9, "corner at its place");
        vx_near(f[k][1] * ny, h * y, 1e-9, "corner at its place");
      }
    }
  }
}

static double const PI = 3.14159265358979323846;

// Every side of a face belongs to one other face, run through the other way, or to the side of the pin
template <class M>
static void checkSides(M const & q, Int corners, double pitch)
{
  Int const n = q.numFaces();
  for (Int f = 0; f < n; ++f) {
    for (Int k = 0; k < corners; ++k) {
      auto const & c = q.faceVertexConn()[f];
      Int const a = c[k];
      Int const b = c[(k + 1) % corners];
      Int same = 0;
      Int other = 0;
      for (Int g = 0; g < n; ++g) {
        auto const & d = q.faceVertexConn()[g];
        for (Int l = 0; l < corners; ++l) {
          Int const e = d[l];
          Int const h = d[(l + 1) % corners];
          same += e == a && h == b ? 1 : 0;
          other += e == b && h == a ? 1 : 0;
        }
      }
      vx_assert(same == 1 && other <= 1, "sides shared by two faces");
      if (other == 0) {
        auto const & p = q.vertices()[a];
        auto const & r = q.vertices()[b];
        vx_assert((p[0] == 0 && r[0] == 0) || (p[1] == 0 && r[1] == 0) ||
                      (p[0] - pitch < 1e-9 && pitch - p[0] < 1e-9 && r[0] - pitch < 1e-9 && pitch - r[0] < 1e-9) ||
                      (p[1] - pitch < 1e-9 && pitch - p[1] < 1e-9 && r[1] - pitch < 1e-9 && pitch - r[1] < 1e-9),
                  "open sides lie on the side of the pin");
      }
    }
  }
}
// Area of each ring, bounding box, counts; rings: number of divisions of each region
template <class M>
static void checkPin(M const & q, Int points, double pitch, double const * radii, Int const * rings, Int regions, Int na)
{
  Int total = 0;
  for (Int i = 0; i < regions; ++i) {
    total += rings[i];
  }
  vx_assert(q.numFaces() == na * (total + 1), "number of faces");
  vx_assert(q.numVertices() == points, "number of vertices");
  auto const b = q.boundingBox();
  vx_near(b.minima(0), 0, 1e-9, "from the origin");
  vx_near(b.minima(1), 0, 1e-9, "from the origin");
  vx_near(b.maxima(0), pitch, 1e-9, "to the pitch");
  vx_near(b.maxima(1), pitch, 1e-9, "to the pitch");
  double sum = 0;
  Int f = 0;
  double in = 0;
  for (Int i = 0; i <= regions; ++i) {
    double const area = i == regions ? pitch * pitch - in : PI * radii[i] * radii[i] - in;
    Int const n = i == regions ? 1 : rings[i];
    for (Int r = 0; r < n; ++r) {
      double a = 0;
      for (Int k = 0; k < na; ++k, ++f) {
        double const af = q.getFace(f).area();
        vx_assert(af > 0, "counter-clockwise");
        a += af;
      }
      vx_near(a * n, area, 1e-5, "area of the ring");
      sum += a;
    }
    in += area;
  }
  vx_near(sum, pitch * pitch, 1e-5, "faces fill the pin");
}
static void request(Model & m, double pitch, double const * radii, Int const * rings, Int regions, Int na, Int order)
{
  Vector<double> r;
  Vector<Int> n;
  for (Int i = 0; i < regions; ++i) {
    r.push_back(radii[i]);
    n.push_back(rings[i]);
  }
  vx_assert(m.addCylindricalPinMesh(pitch, r, n, na, order) == 0, "first mesh");
}

// One region of one ring
// @entry h_one mode=real time=300
extern "C" void h_one()
{
  quiet(true);
  double const pitch = vx_real("pitch", 1, 2);
  double const r[1] = {vx_real("r", 0.1, 0.9)};
  vx_assume(r[0] <= 0.45 * pitch);
  Int const n[1] = {1};
  Model m;
  request(m, pitch, r, n, 1, 8, 1);
  checkPin(m.getQuadMesh(0), 1 + 2 * 8 + 4, pitch, r, n, 1, 8);
  checkSides(m.getQuadMesh(0), 4, pitch);
}
// @entry h_one16 mode=real time=300
extern "C" void h_one16()
{
  quiet(true);
  double const pitch = vx_real("pitch", 1, 2);
  double const r[1] = {vx_real("r", 0.1, 0.9)};
  vx_assume(r[0] <= 0.45 * pitch);
  Int const n[1] = {1};
  Model m;
  request(m, pitch, r, n, 1, 16, 1);
  checkPin(m.getQuadMesh(0), 1 + 2 * 16 + 8, pitch, r, n, 1, 16);
  checkSides(m.getQuadMesh(0), 4, pitch);
}
// One region of two rings
// @entry h_two mode=real time=300
extern "C" void h_two()
{
  quiet(true);
  double const pitch = vx_real("pitch", 1, 2);
  double const r[1] = {vx_real("r", 0.1, 0.9)};
  vx_assume(r[0] <= 0.45 * pitch);
  Int const n[1] = {2};
  Model m;
  request(m, pitch, r, n, 1, 8, 1);
  checkPin(m.getQuadMesh(0), 1 + 3 * 8 + 4, pitch, r, n, 1, 8);
  checkSides(m.getQuadMesh(0), 4, pitch);
}
// Two regions, the outer of one or two rings
// @entry h_regions mode=real time=300
extern "C" void h_regions()
{
  quiet(true);
  double const pitch = 2;
  double const r[2] = {vx_real("r0", 0.1, 0.9), vx_real("r1", 0.2, 0.9)};
  vx_assume(r[0] + 0.1 <= r[1]);
  Int const n[2] = {1, 1 + vx_choice("rings", 2)};
  Model m;
  request(m, pitch, r, n, 2, 8, 1);
  checkPin(m.getQuadMesh(0), 1 + (2 + n[1]) * 8 + 4, pitch, r, n, 2, 8);
}
// Quadratic faces, for sizes picked from a list: their curved sides are beyond the solver for a range of sizes
// @entry h_one8 time=200
extern "C" void h_one8()
{
  quiet(true);
  double const pitches[3] = {1, 1.26, 2};
  double const shares[3] = {0.1, 0.3253968253968254, 0.45};
  double const pitch = pitches[vx_choice("pitch", 3)];
  double const r[1] = {pitch * shares[vx_choice("r", 3)]};
  Int const n[1] = {1 + vx_choice("rings", 2)};
  Int const na = vx_choice("na", 2) == 0 ? 8 : 16;
  Model m;
  request(m, pitch, r, n, 1, na, 2);
  auto const & q = m.getQuad8Mesh(0);
  checkPin(q, q.numVertices(), pitch, r, n, 1, na);
  checkSides(q, 4, pitch);
}
static Material material(Int i)
{
  char const * const names[3] = {"Fuel", "Fuel_2", "Fue"};
  return makeMaterial(names[i], 1 + i);
}
// Materials of a cylindrical pin, from the centre outwards
// @entry h_materials time=200
extern "C" void h_materials()
{
  quiet(true);
  Model m;
  for (Int i = 0; i < 3; ++i) {
    m.addMaterial(material(i), /*validate=*/false);
  }
  Vector<double> r;
  Vector<Int> n;
  Vector<Material> mats;
  Int const regions = 1 + vx_choice("regions", 2);
  Int id[3];
  for (Int i = 0; i <= regions; ++i) {
    id[i] = vx_choice("material", 3);
    mats.push_back(material(id[i]));
    if (i < regions) {
      r.push_back(0.3 + 0.25 * i);
      n.push_back(1 + vx_choice("rings", 2));
    }
  }
  Int const order = 1 + vx_choice("order", 2);
  vx_assert(m.addCylindricalPinCell(1.25, r, mats, n, 8, order) == 0, "first cell");
  auto const & c = m.getCoarseCell(0);
  Int f = 0;
  for (Int i = 0; i <= regions; ++i) {
    for (Int k = 0; k < (i == regions ? 1 : n[i]) * 8; ++k, ++f) {
      vx_assert(c.material_ids[f] == id[i], "material of the ring");
    }
  }
  vx_assert(c.material_ids.size() == f && f == c.numFaces(), "a material for every face");
  vx_assert(c.xy_extents[0] == 1.25 && c.xy_extents[1] == 1.25 && c.mesh_id == 0, "extent and mesh of the cell");
}
