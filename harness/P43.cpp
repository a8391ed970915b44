// Meshes of coarse cells read from one mesh file
#include "modelsrc.inc"
// @bounds grids of 1, 2 by 1, 1 by 2 and 2 by 2 cells of every size at every place, each meshed with two triangles, two quadrilaterals, two quadratic triangles or a quadratic quadrilateral, cells listed in two orders, every assignment of two materials to the faces, sets listed in both orders
// @outside more cells and faces; meshes which do not fill their cell; faces in several materials; files in the other formats; floating-point rounding
#include "vrt.hpp"
#include "quiet.inc"
#include "model.inc"
#include <cstdio>
#include <fstream>
#include <iomanip>
// places on a lattice of four steps per cell
struct Node {
  int x;
  int y;
};
struct Elem {
  int cell;
  int kind;
  int conn[8];
  int mat;
};
static Node nodes[64];
static int num_nodes = 0;
static Elem elems[8];
static int num_elems = 0;
static int const SIZES[4] = {3, 4, 6, 8};
static char const * const KINDS[4] = {"CPS3", "CPS4", "CPS6", "CPS8"};
static char const * const NAMES[3] = {"A", "AB", "C"};
static int node(int x, int y)
{
  for (int i = 0; i < num_nodes; ++i) {
    if (nodes[i].x == x && nodes[i].y == y) {
      return i;
    }
  }
  nodes[num_nodes].x = x;
  nodes[num_nodes].y = y;
  return num_nodes++;
}
// corners counter-clockwise
static void elem(int cell, int kind, int const (*c)[2], int x, int y)
{
  Elem & e = elems[num_elems++];
  e.cell = cell;
  e.kind = kind;
  int const n = kind % 2 == 0 ? 3 : 4;
  for (int i = 0; i < n; ++i) {
    e.conn[i] = node(x + c[i][0], y + c[i][1]);
  }
  for (int i = 0; i < n && kind >= 2; ++i) {
    int const j = (i + 1) % n;
    e.conn[n + i] = node(x + (c[i][0] + c[j][0]) / 2, y + (c[i][1] + c[j][1]) / 2);
  }
  e.mat = 0;
}
static int const LOW[3][2] = {{0, 0}, {4, 0}, {0, 4}};
static int const HIGH[3][2] = {{4, 0}, {4, 4}, {0, 4}};
static int const LEFT[4][2] = {{0, 0}, {1, 0}, {1, 4}, {0, 4}};
static int const RIGHT[4][2] = {{1, 0}, {4, 0}, {4, 4}, {1, 4}};
static int const WHOLE[4][2] = {{0, 0}, {4, 0}, {4, 4}, {0, 4}};
static void meshCell(int cell, int kind, int x, int y)
{
  if (kind % 2 == 0) {
    elem(cell, kind, LOW, x, y);
    elem(cell, kind, HIGH, x, y);
  } else if (kind == 1) {
    elem(cell, kind, LEFT, x, y);
    elem(cell, kind, RIGHT, x, y);
  } else {
    elem(cell, kind, WHOLE, x, y);
  }
}
static void digits(std::ofstream & f, int n)
{
  char b[16];
  snprintf(b, sizeof(b), "%d", n);
  f << b;
}
static double ox;
static double oy;
static double dx;
static double dy;
static void set(std::ofstream & f, char const * name, int cell, int mat)
{
  int count = 0;
  for (int e = 0; e < num_elems; ++e) {
    if ((cell < 0 || elems[e].cell == cell) && (mat < 0 || elems[e].mat == mat)) {
      if (count == 0) {
        f << "*ELSET,ELSET=" << name << "\n";
      }
      ++count;
      digits(f, e + 1);
      f << ", ";
    }
  }
  if (count > 0) {
    f << "\n";
  }
}
static void writeFile(int ncells, bool cells_first)
{
  std::ofstream f("cells.inp");
  f << std::setprecision(17);
  f << "*Heading\n mesh\n*NODE\n";
  for (int i = 0; i < num_nodes; ++i) {
    digits(f, i + 1);
    f << ", " << ox + 0.25 * nodes[i].x * dx << ", " << oy + 0.25 * nodes[i].y * dy << ", 0\n";
  }
  f << "******* E L E M E N T S *************\n";
  for (int e = 0; e < num_elems; ++e) {
    if (e == 0 || elems[e].kind != elems[e - 1].kind) {
      f << "*ELEMENT, type=" << KINDS[elems[e].kind] << ", ELSET=Surface1\n";
    }
    digits(f, e + 1);
    for (int k = 0; k < SIZES[elems[e].kind]; ++k) {
      f << ", ";
      digits(f, elems[e].conn[k] + 1);
    }
    f << "\n";
  }
  for (int pass = 0; pass < 2; ++pass) {
    if ((pass == 0) == cells_first) {
      for (int c = 0; c < ncells; ++c) {
        char name[] = "Coarse_Cell_00000";
        name[16] = static_cast<char>('0' + c);
        set(f, name, c, -1);
      }
      set(f, "Other", 0, -1);
    } else {
      for (int m = 2; m >= 0; --m) {
        char name[16] = "Material_";
        int k = 9;
        for (int i = 0; NAMES[m][i] != 0; ++i) {
          name[k++] = NAMES[m][i];
        }
        set(f, name, -1, m);
      }
    }
  }
}
template <class M>
static void isMesh(M const & m, int cell, int x, int y)
{
  int f = 0;
  for (int e = 0; e < num_elems; ++e) {
    if (elems[e].cell != cell) {
      continue;
    }
    auto const & conn = m.getFaceConn(f);
    for (int k = 0; k < SIZES[elems[e].kind]; ++k) {
      auto const v = m.getVertex(conn[k]);
      vx_near(v[0], 0.25 * (nodes[elems[e].conn[k]].x - x) * dx, 1e-9, "measured from the left side of the cell");
      vx_near(v[1], 0.25 * (nodes[elems[e].conn[k]].y - y) * dy, 1e-9, "measured from the lower side of the cell");
    }
    ++f;
  }
  vx_assert(m.numFaces() == f, "as many faces as in the file");
}
static void place()
{
  ox = vx_real("x", -100, 100);
  oy = vx_real("y", -100, 100);
  dx = vx_real("width", 0.5, 20);
  dy = vx_real("height", 0.5, 20);
}
static MeshType const TYPES[4] = {MeshType::Tri, MeshType::Quad, MeshType::QuadraticTri, MeshType::QuadraticQuad};
static void check(int nx, int ny, int const * kinds, bool backwards)
{
  int const n = nx * ny;
  for (int k = 0; k < n; ++k) {
    int const c = backwards ? n - 1 - k : k;
    meshCell(c, kinds[c], 4 * (c % nx), 4 * (c / nx));
  }
  // fewer combinations with more cells
  bool const swap = n == 4 ? backwards : vx_choice("swap", 2) == 1;
  int used[3] = {0, 0, 0};
  for (int e = 0; e < num_elems; ++e) {
    elems[e].mat = vx_choice("material", 2);
    used[elems[e].mat]++;
  }
  writeFile(n, n == 1 ? vx_choice("cells first", 2) == 1 : swap);
  Model m;
  m.addMaterial(makeMaterial(NAMES[swap ? 1 : 0], 1));
  m.addMaterial(makeMaterial(NAMES[2], 1));
  m.addMaterial(makeMaterial(NAMES[swap ? 0 : 1], 1));
  um2::Vec2I num;
  num[0] = nx;
  num[1] = ny;
  m.addCoarseGrid(ext(dx * nx, dy * ny), num);
  m.importCoarseCellMeshes("cells.inp");
  vx_assert(m.numCoarseCells() == n, "as many cells as before");
  for (int c = 0; c < n; ++c) {
    auto const & cell = m.getCoarseCell(c);
    vx_assert(cell.mesh_type == TYPES[kinds[c]], "kind of mesh");
    vx_near(cell.xy_extents[0], dx, 1e-9, "the cell keeps its width");
    vx_near(cell.xy_extents[1], dy, 1e-9, "the cell keeps its height");
    int f = 0;
    for (int e = 0; e < num_elems; ++e) {
      if (elems[e].cell == c) {
        vx_assert(f < cell.numFaces(), "a material for every face");
        int const want = (elems[e].mat == 1) == swap ? 0 : 2;
        vx_assert(cell.material_ids[f] == want, "material of the face");
        ++f;
      }
    }
    vx_assert(cell.numFaces() == f, "no other faces");
    int const x = 4 * (c % nx);
    int const y = 4 * (c / nx);
    switch (kinds[c]) {
    case 0:
      isMesh(m.getTriMesh(cell.mesh_id), c, x, y);
      break;
    case 1:
      isMesh(m.getQuadMesh(cell.mesh_id), c, x, y);
      break;
    case 2:
      isMesh(m.getTri6Mesh(cell.mesh_id), c, x, y);
      break;
    default:
      isMesh(m.getQuad8Mesh(cell.mesh_id), c, x, y);
      break;
    }
  }
}
// @entry h_one mode=real time=120
extern "C" void h_one()
{
  quiet(true);
  place();
  int const kind = vx_choice("kind", 4);
  check(1, 1, &kind, false);
}
// @entry h_two mode=real time=240
extern "C" void h_two()
{
  quiet(true);
  place();
  bool const upright = vx_choice("upright", 2) == 1;
  bool const backwards = vx_choice("backwards", 2) == 1;
  int kinds[2];
  kinds[0] = vx_choice("kind", 4);
  kinds[1] = vx_choice("other kind", 4);
  check(upright ? 1 : 2, upright ? 2 : 1, kinds, backwards);
}
// @entry h_four mode=real time=240
extern "C" void h_four()
{
  quiet(true);
  place();
  bool const backwards = vx_choice("backwards", 2) == 1;
  int const first = vx_choice("kind", 4);
  int const kinds[4] = {first, 3, first, 3};
  check(2, 2, kinds, backwards);
}
// Faces without a material and materials that are not in the model
// @entry h_refuse mode=real time=60
extern "C" void h_refuse()
{
  quiet(true);
  place();
  meshCell(0, vx_choice("kind", 3), 0, 0);
  int const wrong = vx_choice("wrong", 3);
  elems[0].mat = 1;
  elems[1].mat = wrong == 0 ? 3 : 1;
  elems[wrong == 1 ? 1 : 0].mat = wrong == 0 ? 1 : 2;
  if (wrong == 2) {
    // names of sets that begin or end alike do not count
    elems[0].mat = elems[1].mat = 0;
  }
  writeFile(1, vx_choice("cells first", 2) == 1);
  Model m;
  m.addMaterial(makeMaterial(NAMES[1], 1));
  um2::Vec2I num;
  num[0] = num[1] = 1;
  m.addCoarseGrid(ext(dx, dy), num);
  vx_allow_exit(true);
  m.importCoarseCellMeshes("cells.inp");
  vx_never("refused");
}
