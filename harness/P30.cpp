// Placement and counting in the model hierarchy
#include "modelsrc.inc"
// @bounds id maps of up to two by two (or one by three) children with every id of up to three kinds, every extent from 0.5 to 5, one to three slices with every height; coarse grids of up to three by three
// @outside larger maps
#include "vrt.hpp"
#include "quiet.inc"
#include "model.inc"

// One module: maps of three kinds of cells with any extents that fit together
// @entry h_module mode=real time=120
extern "C" void h_module()
{
  quiet(true);
  Int const shape = vx_choice("shape", 6);
  Int const nr = shape == 0 ? 1 : shape == 1 ? 1 : shape == 2 ? 2 : shape == 3 ? 2 : shape == 4 ? 1 : 3;
  Int const nc = shape == 0 ? 1 : shape == 1 ? 2 : shape == 2 ? 1 : shape == 3 ? 2 : shape == 4 ? 3 : 1;
  Model m;
  double w[3];
  double h[3];
  for (Int k = 0; k < 3; ++k) {
    w[k] = vx_real("w", 0.5, 5);
    h[k] = vx_real("h", 0.5, 5);
    vx_assert(m.addCoarseCell(ext(w[k], h[k])) == k, "ids in order");
    vx_near(m.getCoarseCell(k).xy_extents[0], w[k], 0, "extents of the cell");
    vx_near(m.getCoarseCell(k).xy_extents[1], h[k], 0, "extents of the cell");
  }
  Int id[4];
  for (Int i = 0; i < nr * nc; ++i) {
    id[i] = vx_choice("id", 3);
    // cells in a row are of one height, cells in a column of one width
    vx_assume(h[id[i]] == h[id[i / nc * nc]]);
    vx_assume(w[id[i]] == w[id[i % nc]]);
  }
  vx_assert(m.addRTM(makeMap(nr, nc, id)) == 0, "module accepted");
  vx_assert(m.numRTMs() == 1 && m.numCoarseCells() == 3, "counts");
  auto const & r = m.getRTM(0);
  vx_assert(r.grid().numCells(0) == nc && r.grid().numCells(1) == nr, "shape");
  double y = 0;
  for (Int i = 0; i < nr; ++i) {
    double x = 0;
    for (Int j = 0; j < nc; ++j) {
      Int const c = id[(nr - 1 - i) * nc + j];
      vx_assert(r.getChild(j, i) == c && r.children()[i * nc + j] == c, "child at its place");
      auto const b = r.grid().getBox(j, i);
      vx_near(b.minima(0), x, 1e-4, "left side");
      vx_near(b.minima(1), y, 1e-4, "lower side");
      x += w[c];
      vx_near(b.maxima(0), x, 1e-4, "right side");
      vx_near(b.maxima(1), y + h[c], 1e-4, "upper side");
    }
    y += h[id[(nr - 1 - i) * nc]];
  }
}
static void shapeOf(Int k, Int & nr, Int & nc)
{
  nr = k == 1 ? 2 : 1;
  nc = k == 0 ? 2 : 1;
  if (k == 2) {
    nr = 2;
    nc = 2;
  }
}
// The levels above: lattices of modules, assemblies of slices, the core
// @entry h_levels mode=real time=120
extern "C" void h_levels()
{
  quiet(true);
  Model m;
  double const wa = vx_real("wa", 0.5, 5);
  double const wb = vx_real("wb", 0.5, 5);
  double const h = vx_real("h", 0.5, 5);
  m.addMaterial(makeMaterial("A", 1));
  Vector<MatID> one(1, static_cast<MatID>(0));
  Vector<MatID> two(2, static_cast<MatID>(0));
  vx_assert(m.addRectangularPinMesh(ext(wa, h), 1, 1) == 0, "mesh ids in order");
  vx_assert(m.addRectangularPinMesh(ext(wb, h), 2, 1) == 1, "mesh ids in order");
  m.addCoarseCell(ext(wa, h), MeshType::Quad, 0, one);
  m.addCoarseCell(ext(wb, h), MeshType::Quad, 1, two);
  m.addCoarseCell(ext(wa + wb, h), MeshType::Invalid, -1);
  // three modules of the same extents
  Int const r0[2] = {0, 1};
  Int const r1[2] = {1, 0};
  Int const r2[1] = {2};
  vx_assert(m.addRTM(makeMap(1, 2, r0)) == 0, "module ids in order");
  vx_assert(m.addRTM(makeMap(1, 2, r1)) == 1, "module ids in order");
  vx_assert(m.addRTM(makeMap(1, 1, r2)) == 2, "module ids in order");
  Int const cells[3] = {2, 2, 1};
  Int const faces[3] = {3, 3, 0};
  // two lattices of the same shape
  Int nr = 0;
  Int nc = 0;
  shapeOf(vx_choice("lattice", 3), nr, nc);
  Int lat[2][4];
  for (Int l = 0; l < 2; ++l) {
    for (Int i = 0; i < nr * nc; ++i) {
      lat[l][i] = l == 0 || i == 0 ? vx_choice("module", i < 2 ? 3 : 2) : (l + i) % 3;
    }
    vx_assert(m.addLattice(makeMap(nr, nc, lat[l])) == l, "lattice ids in order");
    auto const & g = m.getLattice(l);
    vx_assert(g.grid().numCells(0) == nc && g.grid().numCells(1) == nr, "shape of the lattice");
    for (Int i = 0; i < nr; ++i) {
      for (Int j = 0; j < nc; ++j) {
        vx_assert(g.getChild(j, i) == lat[l][(nr - 1 - i) * nc + j], "module at its place");
        auto const b = g.grid().getBox(j, i);
        vx_near(b.minima(0), j * (wa + wb), 1e-4, "left side of the module");
        vx_near(b.minima(1), i * h, 1e-4, "lower side of the module");
        vx_near(b.maxima(0), (j + 1) * (wa + wb), 1e-4, "right side of the module");
        vx_near(b.maxima(1), (i + 1) * h, 1e-4, "upper side of the module");
      }
    }
  }
  // two assemblies of the same height with different slices
  double const top = vx_real("top", 1, 10);
  double const mid = vx_real("mid", 0.5, 9.5);
  vx_assume(mid < top);
  Int const s = vx_choice("slices", 2);
  Vector<Int> ids;
  Vector<double> z;
  z.push_back(0);
  ids.push_back(s);
  if (s == 1) {
    z.push_back(mid);
    ids.push_back(0);
  }
  z.push_back(top);
  vx_assert(m.addAssembly(ids, z) == 0, "assembly ids in order");
  ids.clear();
  ids.push_back(1);
  z.clear();
  z.push_back(0);
  z.push_back(top);
  vx_assert(m.addAssembly(ids, z) == 1, "assembly ids in order");
  auto const & a = m.getAssembly(0);
  vx_assert(a.grid().numCells(0) == s + 1 && a.getChild(0) == s, "slices of the assembly");
  vx_near(a.grid().divs(0)[0], 0, 0, "lowest slice");
  if (s == 1) {
    vx_assert(a.getChild(1) == 0, "slices from the bottom");
    vx_near(a.grid().divs(0)[1], mid, 0, "height of the slice");
  }
  vx_near(a.grid().divs(0)[s + 1], top, 0, "height of the assembly");
  // core
  Int cr = 0;
  Int cc = 0;
  shapeOf(vx_choice("core", 3), cr, cc);
  Int core[4];
  for (Int i = 0; i < cr * cc; ++i) {
    core[i] = i < 3 ? vx_choice("assembly", 2) : 0;
  }
  vx_assert(m.addCore(makeMap(cr, cc, core)) == 0, "core accepted");
  Int lats = 0;
  Int mods = 0;
  Int ncell = 0;
  Int nface = 0;
  for (Int i = 0; i < cr; ++i) {
    for (Int j = 0; j < cc; ++j) {
      Int const c = core[(cr - 1 - i) * cc + j];
      vx_assert(m.getCore().getChild(j, i) == c, "assembly at its place");
      auto const b = m.getCore().grid().getBox(j, i);
      vx_near(b.minima(0), j * nc * (wa + wb), 1e-4, "left side of the assembly");
      vx_near(b.minima(1), i * nr * h, 1e-4, "lower side of the assembly");
      vx_near(b.maxima(0), (j + 1) * nc * (wa + wb), 1e-4, "right side of the assembly");
      vx_near(b.maxima(1), (i + 1) * nr * h, 1e-4, "upper side of the assembly");
      for (Int k = 0; k < (c == 0 ? s + 1 : 1); ++k) {
        Int const l = c == 1 ? 1 : k == 0 ? s : 0;
        ++lats;
        for (Int q = 0; q < nr * nc; ++q) {
          ++mods;
          ncell += cells[lat[l][q]];
          nface += faces[lat[l][q]];
        }
      }
    }
  }
  vx_assert(m.numAssembliesTotal() == cr * cc && m.numLatticesTotal() == lats, "placed assemblies and slices");
  vx_assert(m.numRTMsTotal() == mods && m.numCoarseCellsTotal() == ncell, "placed modules and cells");
  vx_assert(m.numFineCellsTotal() == nface, "placed faces");
  vx_assert(m.numAssemblies() == 2 && m.numLattices() == 2 && m.numRTMs() == 3 && m.numCoarseCells() == 3,
            "distinct parts");
  m.clear();
  vx_assert(m.numAssemblies() == 0 && m.numLattices() == 0 && m.numRTMs() == 0 && m.numCoarseCells() == 0 &&
                m.numAssembliesTotal() == 0 && m.materials().empty() && m.quadMeshes().empty(),
            "nothing left");
}
// Two assemblies of different width or height in a row or column
// @entry h_uneven mode=real time=120
extern "C" void h_uneven()
{
  quiet(true);
  Model m;
  double const w = vx_real("w", 0.5, 5);
  double const h = vx_real("h", 0.5, 5);
  m.addCoarseCell(ext(w, h));
  Int const id[2] = {0, 0};
  m.addRTM(makeMap(1, 1, id));
  m.addLattice(makeMap(1, 1, id));
  bool const row = vx_choice("row", 2) == 1;
  m.addLattice(row ? makeMap(1, 2, id) : makeMap(2, 1, id));
  Vector<Int> l;
  l.push_back(1);
  m.addAssembly(l);
  l[0] = 0;
  m.addAssembly(l);
  vx_near(m.getAssembly(0).grid().minima(0), -0.5, 0, "slice of unit height");
  vx_near(m.getAssembly(0).grid().maxima(0), 0.5, 0, "slice of unit height");
  Int const p = vx_choice("first", 2);
  Int const ids[2] = {p, 1 - p};
  m.addCore(row ? makeMap(1, 2, ids) : makeMap(2, 1, ids));
  // from the left, or from the top
  double at = 0;
  for (Int i = 0; i < 2; ++i) {
    auto const b = row ? m.getCore().grid().getBox(i, 0) : m.getCore().grid().getBox(0, 1 - i);
    double const size = (ids[i] == 0 ? 2 : 1) * (row ? w : h);
    if (row) {
      vx_near(b.minima(0), at, 1e-4, "left side");
      vx_near(b.maxima(0), at + size, 1e-4, "right side");
      vx_near(b.maxima(1), h, 1e-4, "upper side");
    } else {
      vx_near(b.maxima(1), 3 * h - at, 1e-4, "upper side");
      vx_near(b.minima(1), 3 * h - at - size, 1e-4, "lower side");
      vx_near(b.maxima(0), w, 1e-4, "right side");
    }
    at += size;
  }
  vx_assert(m.numRTMsTotal() == 3 && m.numCoarseCellsTotal() == 3, "placed modules");
}
// @entry h_grid mode=real time=120
extern "C" void h_grid()
{
  quiet(true);
  Int const nx = 1 + vx_choice("nx", 3);
  Int const ny = 1 + vx_choice("ny", 3);
  double const w = vx_real("w", 1, 10);
  double const h = vx_real("h", 1, 10);
  Model m;
  um2::Vec2I n;
  n[0] = nx;
  n[1] = ny;
  m.addCoarseGrid(ext(w, h), n);
  vx_assert(m.numCoarseCells() == nx * ny && m.numRTMs() == nx * ny && m.numLattices() == 1 && m.numAssemblies() == 1,
            "counts");
  vx_assert(m.numAssembliesTotal() == 1 && m.numCoarseCellsTotal() == nx * ny, "placed parts");
  vx_assert(m.getAssembly(0).getChild(0) == 0 && m.getCore().getChild(0, 0) == 0, "one slice");
  auto const c = m.getCore().grid().getBox(0, 0);
  vx_near(c.minima(0), 0, 0, "core");
  vx_near(c.maxima(0), w, 1e-4, "core");
  vx_near(c.maxima(1), h, 1e-4, "core");
  auto const & l = m.getLattice(0);
  for (Int j = 0; j < ny; ++j) {
    for (Int i = 0; i < nx; ++i) {
      Int const id = l.getChild(i, j);
      vx_assert(id == j * nx + i, "numbered from the lower left");
      vx_assert(m.getRTM(id).children().size() == 1 && m.getRTM(id).getChild(0, 0) == id, "one cell per module");
      auto const b = l.grid().getBox(i, j);
      vx_near(b.minima(0) * nx, i * w, 1e-4, "left side");
      vx_near(b.maxima(1) * ny, (j + 1) * h, 1e-4, "upper side");
      vx_near(m.getCoarseCell(id).xy_extents[0] * nx, w, 1e-4, "width");
      vx_near(m.getCoarseCell(id).xy_extents[1] * ny, h, 1e-4, "height");
    }
  }
}
