// Requests the model must refuse, and those it must accept
#include "modelsrc.inc"
// @bounds every id of the full integer range; every extent from -1 to 3; every material id of its type; lists of up to three materials and slices; maps of up to two by two; meshes of every kind
// @outside larger maps and lists; radii that are not in ascending order
#include "vrt.hpp"
#include "quiet.inc"
#include "model.inc"

static void oneMeshOfEach(Model & m)
{
  um2::PolytopeSoup s;
  s.addVertex(0, 0);
  s.addVertex(1, 0);
  s.addVertex(1, 1);
  s.addVertex(0, 1);
  s.addVertex(0.5, 0);
  s.addVertex(1, 0.5);
  s.addVertex(0.5, 0.5);
  s.addVertex(0.5, 1);
  s.addVertex(0, 0.5);
  um2::PolytopeSoup t = s;
  Vector<Int> c(3);
  c[0] = 0;
  c[1] = 1;
  c[2] = 2;
  t.addElement(um2::VTKElemType::Triangle, c);
  c[1] = 2;
  c[2] = 3;
  t.addElement(um2::VTKElemType::Triangle, c);
  m.addTriMesh(um2::TriFVM(t));
  t = s;
  c.resize(6);
  Int const q[12] = {0, 1, 2, 4, 5, 6, 0, 2, 3, 6, 7, 8};
  for (Int e = 0; e < 2; ++e) {
    for (Int i = 0; i < 6; ++i) {
      c[i] = q[6 * e + i];
    }
    t.addElement(um2::VTKElemType::QuadraticTriangle, c);
  }
  m.addTri6Mesh(um2::Tri6FVM(t));
  t = s;
  c.resize(8);
  Int const q8[8] = {0, 1, 2, 3, 4, 5, 7, 8};
  for (Int i = 0; i < 8; ++i) {
    c[i] = q8[i];
  }
  t.addElement(um2::VTKElemType::QuadraticQuad, c);
  m.addQuad8Mesh(um2::Quad8FVM(t));
  m.addRectangularPinMesh(ext(1, 1), 2, 1);
  m.addRectangularPinMesh(ext(1, 1), 1, 1);
}
// Cells with any extents, kind of mesh, mesh id and material ids
// @entry h_cell mode=real time=120
extern "C" void h_cell()
{
  quiet(false);
  Model m;
  oneMeshOfEach(m);
  m.addMaterial(makeMaterial("A", 1));
  m.addMaterial(makeMaterial("B", 2));
  vx_assert(!logged(), "the meshes are fine");
  double const x = vx_real("x", -1, 3);
  double const y = vx_real("y", -1, 3);
  Int const kind = vx_choice("kind", 8);
  MeshType const kinds[8] = {MeshType::Invalid, MeshType::Tri,          MeshType::Quad,
                             MeshType::TriQuad, MeshType::QuadraticTri, MeshType::QuadraticQuad,
                             MeshType::QuadraticTriQuad, MeshType::Tri};
  Int const id = vx_int("id", INT32_MIN, INT32_MAX);
  Int const n = vx_choice("n", 4);
  Vector<MatID> mats;
  bool known = true;
  for (Int i = 0; i < n; ++i) {
    Int const k = vx_int("material", -128, 127);
    mats.push_back(static_cast<MatID>(k));
    known = known && k >= 0 && k < 2;
  }
  Int faces = -1;
  switch (kinds[kind]) {
  case MeshType::Tri:
  case MeshType::QuadraticTri:
    faces = id == 0 ? 2 : -1;
    break;
  case MeshType::Quad:
    faces = id == 0 ? 2 : id == 1 ? 1 : -1;
    break;
  case MeshType::QuadraticQuad:
    faces = id == 0 ? 1 : -1;
    break;
  default:
    break;
  }
  bool const ok = x > 0 && y > 0 && (id == -1 || (faces == n && known));
  Int const r = m.addCoarseCell(ext(x, y), kinds[kind], id, mats);
  if (ok) {
    vx_reach("accepted cell");
    vx_assert(r == 0 && m.numCoarseCells() == 1 && !logged(), "consistent cell accepted");
    vx_assert(m.getCoarseCell(0).mesh_type == kinds[kind] && m.getCoarseCell(0).mesh_id == id &&
                  m.getCoarseCell(0).numFaces() == n,
              "as requested");
  } else {
    vx_reach("rejected cell");
    vx_assert(r == -1 && m.numCoarseCells() == 0 && logged(), "inconsistent cell rejected");
  }
  vx_assert(m.addCoarseCell(ext(1, 1)) == m.numCoarseCells() - 1, "usable afterwards");
}
// A module named by any ids
// @entry h_module_ids mode=real time=120
extern "C" void h_module_ids()
{
  quiet(false);
  Model m;
  m.addCoarseCell(ext(1, 1));
  m.addCoarseCell(ext(1, 1));
  Int const shape = vx_choice("shape", 3);
  Int const nr = shape == 0 ? 1 : 2;
  Int const nc = shape == 1 ? 1 : 2;
  Int id[4];
  bool ok = true;
  for (Int i = 0; i < nr * nc; ++i) {
    id[i] = vx_int("id", INT32_MIN, INT32_MAX);
    ok = ok && id[i] >= 0 && id[i] < 2;
  }
  Int const r = m.addRTM(makeMap(nr, nc, id));
  if (ok) {
    vx_reach("accepted module");
    vx_assert(r == 0 && m.numRTMs() == 1 && !logged(), "known cells accepted");
  } else {
    vx_reach("rejected module");
    vx_assert(r == -1 && m.numRTMs() == 0 && logged(), "unknown cell rejected");
  }
}
// Cells of any extents put in a row or column; a second module of any extents
// @entry h_module_sizes mode=real time=120
extern "C" void h_module_sizes()
{
  quiet(false);
  Model m;
  double const wa = vx_real("wa", 0.5, 3);
  double const ha = vx_real("ha", 0.5, 3);
  double const wb = vx_real("wb", 0.5, 3);
  double const hb = vx_real("hb", 0.5, 3);
  m.addCoarseCell(ext(wa, ha));
  m.addCoarseCell(ext(wb, hb));
  Int const shape = vx_choice("shape", 4);
  Int const ab[2] = {0, 1};
  if (shape < 2) {
    // a b, or a over b: the common side must agree
    double const d = shape == 0 ? ha - hb : wa - wb;
    bool const ok = d == 0;
    vx_assume(ok || d > 1e-3 || d < -1e-3);
    if (!ok) {
      vx_reach("sides differ");
      vx_allow_exit(true);
    }
    Int const r = shape == 0 ? m.addRTM(makeMap(1, 2, ab)) : m.addRTM(makeMap(2, 1, ab));
    vx_allow_exit(false);
    if (ok) {
      vx_reach("sides agree");
      vx_assert(r == 0 && m.numRTMs() == 1 && !logged(), "cells of one size accepted");
    } else if (r != -1 || m.numRTMs() != 0) {
      vx_never("cells of different sizes rejected");
    }
  } else if (shape == 2) {
    // two rows: the upper row of a, the lower row with one b
    double const d = ha - hb;
    double const e = wa - wb;
    bool const ok = d == 0 && e == 0;
    vx_assume(ok || d > 1e-3 || d < -1e-3 || e > 1e-3 || e < -1e-3);
    vx_assume(d == 0 || d > 1e-3 || d < -1e-3);
    vx_assume(e == 0 || e > 1e-3 || e < -1e-3);
    Int const where = vx_choice("where", 4);
    Int id[4] = {0, 0, 0, 0};
    id[where] = 1;
    if (!ok) {
      vx_reach("one cell differs");
      vx_allow_exit(true);
    }
    Int const r = m.addRTM(makeMap(2, 2, id));
    vx_allow_exit(false);
    if (ok) {
      vx_reach("four equal cells");
      vx_assert(r == 0 && !logged(), "equal cells accepted");
    } else if (r != -1 || m.numRTMs() != 0) {
      vx_never("a different cell rejected");
    }
  } else {
    bool const ok = wa == wb && ha == hb;
    vx_assume(ok || wa - wb > 1e-3 || wb - wa > 1e-3 || ha - hb > 1e-3 || hb - ha > 1e-3);
    vx_assert(m.addRTM(makeMap(1, 1, ab)) == 0, "first module");
    Int const r = m.addRTM(makeMap(1, 1, ab + 1));
    if (ok) {
      vx_reach("second module accepted");
      vx_assert(r == 1 && m.numRTMs() == 2 && !logged(), "module of the same extents accepted");
    } else {
      vx_reach("second module rejected");
      vx_assert(r == -1 && m.numRTMs() == 1 && logged(), "module of other extents rejected");
    }
  }
}
// Maps whose rows have different lengths
// @entry h_ragged mode=real time=60
extern "C" void h_ragged()
{
  quiet(false);
  Model m;
  double const w = vx_real("w", 0.5, 3);
  m.addCoarseCell(ext(w, w));
  Map rag(2);
  Int const a = 1 + vx_choice("first", 3);
  Int const b = 1 + vx_choice("second", 3);
  rag[0].resize(a);
  rag[1].resize(b);
  for (Int i = 0; i < a; ++i) {
    rag[0][i] = 0;
  }
  for (Int i = 0; i < b; ++i) {
    rag[1][i] = 0;
  }
  Int const id[1] = {0};
  Int const level = vx_choice("level", 3);
  vx_allow_exit(a != b);
  Int r = 0;
  if (level == 0) {
    r = m.addRTM(rag);
  } else {
    m.addRTM(makeMap(1, 1, id));
    if (level == 1) {
      r = m.addLattice(rag);
      vx_assert(m.numLattices() == (a == b ? 1 : 0), "ragged lattice not added");
    } else {
      m.addLattice(makeMap(1, 1, id));
      Vector<Int> l(1);
      l[0] = 0;
      m.addAssembly(l);
      r = m.addCore(rag);
    }
  }
  if (a == b) {
    vx_reach("even rows");
    vx_assert(r == 0 && !logged(), "even rows accepted");
  } else {
    vx_assert(r == -1, "uneven rows rejected");
  }
}
// Lattices, assemblies and cores named by any ids
// @entry h_ids mode=real time=120
extern "C" void h_ids()
{
  quiet(false);
  Model m;
  m.addCoarseCell(ext(1, 1));
  Int const zero[2] = {0, 0};
  m.addRTM(makeMap(1, 1, zero));
  m.addRTM(makeMap(1, 1, zero));
  Int const level = vx_choice("level", 3);
  Int const nr = 1 + vx_choice("rows", 2);
  Int const nc = 1 + vx_choice("columns", 2);
  Int id[4];
  bool ok = true;
  for (Int i = 0; i < nr * nc; ++i) {
    id[i] = vx_int("id", INT32_MIN, INT32_MAX);
    ok = ok && id[i] >= 0 && id[i] < 2;
  }
  if (level == 0) {
    Int const r = m.addLattice(makeMap(nr, nc, id));
    vx_assert(r == (ok ? 0 : -1) && m.numLattices() == (ok ? 1 : 0) && logged() == !ok, "lattice of known modules only");
    return;
  }
  m.addLattice(makeMap(1, 1, zero));
  m.addLattice(makeMap(1, 1, zero));
  if (level == 1) {
    Vector<Int> l;
    Vector<double> z;
    z.push_back(0);
    for (Int i = 0; i < nr * nc; ++i) {
      l.push_back(id[i]);
      z.push_back(i + 1);
    }
    Int const r = m.addAssembly(l, z);
    vx_assert(r == (ok ? 0 : -1) && m.numAssemblies() == (ok ? 1 : 0) && logged() == !ok,
              "assembly of known lattices only");
    return;
  }
  Vector<Int> l(1);
  l[0] = 0;
  m.addAssembly(l);
  m.addAssembly(l);
  Int const r = m.addCore(makeMap(nr, nc, id));
  vx_assert(r == (ok ? 0 : -1) && logged() == !ok, "core of known assemblies only");
  vx_assert(m.core().children().size() == (ok ? nr * nc : 0), "core made or not");
  if (ok) {
    vx_reach("second core");
    vx_assert(m.addCore(makeMap(1, 1, zero)) == -1 && logged(), "one core only");
    vx_assert(m.core().children().size() == nr * nc, "first core kept");
  }
}
// Slices: any heights and numbers; a second assembly; lattices of different shapes
// @entry h_slices mode=real time=120
extern "C" void h_slices()
{
  quiet(false);
  Model m;
  m.addCoarseCell(ext(1, 1));
  Int const zero[2] = {0, 0};
  m.addRTM(makeMap(1, 1, zero));
  m.addLattice(makeMap(1, 1, zero));
  m.addLattice(makeMap(1, 2, zero));
  m.addLattice(makeMap(2, 1, zero));
  double const eps = 1e-3;
  bool const second = vx_choice("second", 2) == 1;
  double const top0 = vx_real("top0", 0.5, 3);
  if (second) {
    Vector<Int> l(1);
    l[0] = 0;
    Vector<double> z(2);
    z[0] = 0;
    z[1] = top0;
    vx_assert(m.addAssembly(l, z) == 0, "first assembly");
  }
  Int const n = 1 + vx_choice("slices", 3);
  Int const nz = n + vx_choice("planes", 3);
  Vector<Int> l;
  Vector<double> z;
  bool same = true;
  for (Int i = 0; i < n; ++i) {
    l.push_back(vx_choice("lattice", 3));
    same = same && l[i] == l[0];
  }
  bool up = true;
  for (Int i = 0; i < nz; ++i) {
    double const v = vx_real("z", -1, 4);
    if (i > 0) {
      // differences and ends are clear of the tolerance
      vx_assume(v > z[i - 1] + eps || v < z[i - 1] - eps);
      up = up && v > z[i - 1];
    }
    z.push_back(v);
  }
  double const lo = z[0];
  double const hi = z[nz - 1];
  bool const at0 = lo == 0;
  bool const flat = lo == -0.5 && hi == 0.5;
  vx_assume(at0 || lo > eps || lo < -eps);
  vx_assume(lo == -0.5 || lo > -0.5 + eps || lo < -0.5 - eps);
  vx_assume(hi == 0.5 || hi > 0.5 + eps || hi < 0.5 - eps);
  bool ok = nz == n + 1 && up && (at0 || flat) && same;
  if (second) {
    vx_assume(hi == top0 || hi > top0 + eps || hi < top0 - eps);
    ok = ok && at0 && hi == top0;
  }
  Int const before = second ? 1 : 0;
  Int const r = m.addAssembly(l, z);
  if (ok) {
    vx_reach("accepted slices");
    vx_assert(r == before && m.numAssemblies() == before + 1 && !logged(), "ascending slices accepted");
  } else {
    vx_reach("rejected slices");
    vx_assert(r == -1 && m.numAssemblies() == before && logged(), "inconsistent slices rejected");
  }
}
// Pin meshes and pin cells
// @entry h_pin time=120
extern "C" void h_pin()
{
  quiet(false);
  Model m;
  m.addMaterial(makeMaterial("A", 1));
  m.addMaterial(makeMaterial("B", 2));
  // the accepted values one by one, all others together
  Int order = 1 + vx_choice("orders", 3);
  if (order == 3) {
    order = vx_int("order", INT32_MIN, INT32_MAX);
    vx_assume(order != 1 && order != 2);
  }
  Int na = 8;
  if (vx_choice("eight", 2) == 0) {
    na = vx_int("na", INT32_MIN, INT32_MAX);
    vx_assume(na < 8 || (na & (na - 1)) != 0);
  }
  bool const power = na > 0 && (na & (na - 1)) == 0;
  bool const fits = vx_choice("fits", 2) == 1;
  double const rad = fits ? 0.5 : 1.25;
  Int const nradii = 1 + vx_choice("radii", 2);
  Int const nmat = 1 + vx_choice("materials", 3);
  bool const missing = vx_choice("missing", 2) == 1;
  Vector<double> radii;
  radii.push_back(nradii == 1 ? rad : 0.25);
  if (nradii == 2) {
    radii.push_back(rad);
  }
  Vector<Int> rings(1);
  rings[0] = 1;
  Vector<Material> mats;
  for (Int i = 0; i < nmat; ++i) {
    mats.push_back(makeMaterial(missing && i + 1 == nmat ? "C" : i == 0 ? "B" : "A", 1));
  }
  bool const mesh = (order == 1 || order == 2) && na >= 8 && power && nradii == 1 && fits;
  bool const ok = mesh && nmat == 2 && !missing;
  Int const r = m.addCylindricalPinCell(2, radii, mats, rings, na, order);
  if (ok) {
    vx_reach("accepted pin");
    vx_assert(r == 0 && m.numCoarseCells() == 1 && !logged(), "consistent pin accepted");
  } else {
    vx_reach("rejected pin");
    vx_assert(r == -1 && m.numCoarseCells() == 0 && logged(), "inconsistent pin rejected");
  }
  if (!mesh) {
    vx_assert(m.quadMeshes().empty() && m.quad8Meshes().empty(), "no mesh made");
  }
}
// @entry h_rect mode=real time=60
extern "C" void h_rect()
{
  quiet(false);
  Model m;
  double const x = vx_real("x", -1, 3);
  double const y = vx_real("y", -1, 3);
  vx_assume(x <= 0 || x > 0.1);
  vx_assume(y <= 0 || y > 0.1);
  Int const nx = vx_int("nx", INT32_MIN, 2);
  Int const ny = vx_int("ny", INT32_MIN, 2);
  bool const ok = x > 0 && y > 0 && nx > 0 && ny > 0;
  Int const r = m.addRectangularPinMesh(ext(x, y), nx, ny);
  if (ok) {
    vx_reach("accepted mesh");
    vx_assert(r == 0 && m.quadMeshes().size() == 1 && !logged(), "consistent mesh accepted");
  } else {
    vx_reach("rejected mesh");
    vx_assert(r == -1 && logged(), "inconsistent mesh rejected");
  }
}
// @entry h_coarsegrid mode=real time=60
extern "C" void h_coarsegrid()
{
  quiet(false);
  Model m;
  double const x = vx_real("x", -1, 3);
  double const y = vx_real("y", -1, 3);
  vx_assume(x <= 0 || x > 0.1);
  vx_assume(y <= 0 || y > 0.1);
  um2::Vec2I n;
  n[0] = vx_choice("nx", 4) - 1;
  n[1] = vx_choice("ny", 4) - 1;
  bool const ok = x > 0 && y > 0 && n[0] > 0 && n[1] > 0;
  m.addCoarseGrid(ext(x, y), n);
  vx_assert(logged() == !ok, "reported exactly when inconsistent");
  vx_assert(m.core().children().empty() == !ok && (m.numCoarseCells() == 0) == !ok, "made exactly when consistent");
}
