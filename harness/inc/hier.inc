// A small model whose parts are known: cells 0 (width wa, one quadrilateral) and 1 (width wb, faces of any kind), modules
// {0,1} and {1,0}, lattices, assemblies of one or two slices and a core
static void setVertex(um2::Vector<um2::Point2F> & v, Int i, double x, double y)
{
  v[i][0] = x;
  v[i][1] = y;
}
// Height of the left corner of the second triangle: less than one leaves a part of the cell empty
#ifndef HIER_CORNER
#define HIER_CORNER 1.0
#endif
static Int const KIND_FACES[4] = {2, 2, 2, 1};
static MeshType const KIND_TYPE[4] = {MeshType::Tri, MeshType::Quad, MeshType::QuadraticTri, MeshType::QuadraticQuad};
// kind 0: two triangles, 1: two quadrilaterals, 2: two quadratic triangles like kind 0, 3: one quadratic quadrilateral
static Int addKind(Model & m, Int kind, double w, double h)
{
  if (kind == 0) {
    um2::TriFVM t;
    t.vertices().resize(4);
    setVertex(t.vertices(), 0, 0, 0);
    setVertex(t.vertices(), 1, w, 0);
    setVertex(t.vertices(), 2, w, h);
    setVertex(t.vertices(), 3, 0, h * HIER_CORNER);
    t.faceVertexConn().resize(2);
    Int const c[2][3] = {{0, 1, 2}, {2, 3, 0}};
    for (Int f = 0; f < 2; ++f) {
      for (Int k = 0; k < 3; ++k) {
        t.faceVertexConn()[f][k] = c[f][k];
      }
    }
    return m.addTriMesh(t);
  }
  if (kind == 1) {
    return m.addRectangularPinMesh(ext(w, h), 1, 2);
  }
  if (kind == 2) {
    um2::Tri6FVM t;
    t.vertices().resize(9);
    setVertex(t.vertices(), 0, 0, 0);
    setVertex(t.vertices(), 1, w, 0);
    setVertex(t.vertices(), 2, w, h);
    setVertex(t.vertices(), 3, 0, h * HIER_CORNER);
    setVertex(t.vertices(), 4, w * 0.5, 0);
    setVertex(t.vertices(), 5, w, h * 0.5);
    setVertex(t.vertices(), 6, w * 0.5, h * (0.5 + 0.5 * HIER_CORNER));
    setVertex(t.vertices(), 7, 0, h * (0.5 * HIER_CORNER));
    setVertex(t.vertices(), 8, w * 0.5, h * 0.5);
    t.faceVertexConn().resize(2);
    Int const c[2][6] = {{0, 1, 2, 4, 5, 8}, {2, 3, 0, 6, 7, 8}};
    for (Int f = 0; f < 2; ++f) {
      for (Int k = 0; k < 6; ++k) {
        t.faceVertexConn()[f][k] = c[f][k];
      }
    }
    return m.addTri6Mesh(t);
  }
  um2::Quad8FVM q;
  q.vertices().resize(8);
  setVertex(q.vertices(), 0, 0, 0);
  setVertex(q.vertices(), 1, w, 0);
  setVertex(q.vertices(), 2, w, h);
  setVertex(q.vertices(), 3, 0, h);
  setVertex(q.vertices(), 4, w * 0.5, 0);
  setVertex(q.vertices(), 5, w, h * 0.5);
  setVertex(q.vertices(), 6, w * 0.5, h);
  setVertex(q.vertices(), 7, 0, h * 0.5);
  q.faceVertexConn().resize(1);
  for (Int k = 0; k < 8; ++k) {
    q.faceVertexConn()[0][k] = k;
  }
  return m.addQuad8Mesh(q);
}
// Area of face f
static double kindArea(Int kind, Int f, double w, double h)
{
  return kind == 3 ? w * h : kind == 1 || f == 0 ? w * h * 0.5 : w * h * (0.5 * HIER_CORNER);
}
struct Plan {
  double wa = 1;
  double wb = 1;
  double h = 1;
  Int kind = 0;
  // faces of cell 0, then of cell 1
  Int mat[3] = {0, 0, 0};
  // rows and columns of both lattices, ids written from the top
  Int nr = 1;
  Int nc = 1;
  Int lat[2][2] = {{0, 0}, {1, 1}};
  // slices of assembly 0: lattices and planes
  Int slices = 1;
  Int lats[2] = {0, 1};
  double z[3] = {0, 1, 2};
  // rows and columns of the core
  Int cr = 1;
  Int cc = 1;
  Int asy[3] = {0, 0, 0};
};
// Assembly 1 has one slice of lattice 1 with the full height
static Int slicesOf(Plan const & p, Int a) { return a == 0 ? p.slices : 1; }
static Int latticeOf(Plan const & p, Int a, Int k) { return a == 0 ? p.lats[k] : 1; }
static double lowOf(Plan const & p, Int a, Int k) { return a == 0 ? p.z[k] : p.z[0]; }
static double highOf(Plan const & p, Int a, Int k) { return a == 0 ? p.z[k + 1] : p.z[p.slices]; }
static Int cellOf(Int module, Int k) { return module == 0 ? k : 1 - k; }
static Int facesOf(Plan const & p, Int c) { return c == 0 ? 1 : KIND_FACES[p.kind]; }
// Parts 1 are only added when used
static bool usesAssembly(Plan const & p, Int a)
{
  for (Int i = 0; i < p.cr * p.cc; ++i) {
    if (p.asy[i] == a) {
      return true;
    }
  }
  return false;
}
static bool usesLattice(Plan const & p, Int l)
{
  bool used = l == 1 && usesAssembly(p, 1);
  // assembly 0 refers to its lattices even when it is not placed
  for (Int k = 0; k < p.slices; ++k) {
    used = used || p.lats[k] == l;
  }
  return used;
}
static bool usesModule(Plan const & p, Int r)
{
  bool used = false;
  for (Int l = 0; l < 2; ++l) {
    if (l == 0 || usesLattice(p, 1)) {
      used = used || p.lat[l][0] == r || (p.nr * p.nc > 1 && p.lat[l][1] == r);
    }
  }
  return used;
}
static void addParts(Model & m, Plan const & p)
{
  m.addRectangularPinMesh(ext(p.wa, p.h), 1, 1);
  Int const id = addKind(m, p.kind, p.wb, p.h);
  Vector<MatID> a(1);
  a[0] = static_cast<MatID>(p.mat[0]);
  m.addCoarseCell(ext(p.wa, p.h), MeshType::Quad, 0, a);
  Vector<MatID> b(KIND_FACES[p.kind]);
  for (Int i = 0; i < KIND_FACES[p.kind]; ++i) {
    b[i] = static_cast<MatID>(p.mat[1 + i]);
  }
  m.addCoarseCell(ext(p.wb, p.h), KIND_TYPE[p.kind], id, b);
  Int const r0[2] = {0, 1};
  Int const r1[2] = {1, 0};
  m.addRTM(makeMap(1, 2, r0));
  if (usesModule(p, 1)) {
    m.addRTM(makeMap(1, 2, r1));
  }
  m.addLattice(makeMap(p.nr, p.nc, p.lat[0]));
  if (usesLattice(p, 1)) {
    m.addLattice(makeMap(p.nr, p.nc, p.lat[1]));
  }
  Vector<Int> ids;
  Vector<double> z;
  z.push_back(p.z[0]);
  for (Int k = 0; k < p.slices; ++k) {
    ids.push_back(p.lats[k]);
    z.push_back(p.z[k + 1]);
  }
  m.addAssembly(ids, z);
  if (usesAssembly(p, 1)) {
    ids.clear();
    ids.push_back(1);
    z.clear();
    z.push_back(p.z[0]);
    z.push_back(p.z[p.slices]);
    m.addAssembly(ids, z);
  }
  m.addCore(makeMap(p.cr, p.cc, p.asy));
}
// A shape of one or two children: 0 one, 1 side by side, 2 on top of each other
static void shape2(Int k, Int & nr, Int & nc)
{
  nr = k == 2 ? 2 : 1;
  nc = k == 1 ? 2 : 1;
}
