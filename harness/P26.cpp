// Writing and reading soups
#include "soupio.inc"
// @bounds one to three elements of every kind, alone and mixed, every vertex position (in the plane and in space), every valid connectivity, up to two sets with every membership and every data value; file names with and without a directory
// @outside larger soups; soups of only points or only straight lines (refused when writing); sets without members; set names that collide with those of the file layout; heights below the distance tolerance are dropped
#include "vrt.hpp"
#include <um2/mesh/polytope_soup.hpp>
#include "quiet.inc"
#include <um2/stdlib/vector.hpp>
using um2::PolytopeSoup;
using um2::String;
using um2::Vector;
using um2::VTKElemType;

static VTKElemType const kinds[7] = {VTKElemType::Triangle,          VTKElemType::Quad,  VTKElemType::QuadraticTriangle,
                                     VTKElemType::QuadraticQuad,     VTKElemType::QuadraticEdge, VTKElemType::Line,
                                     VTKElemType::Vertex};
static Int const sizes[7] = {3, 4, 6, 8, 3, 2, 1};

static void same(PolytopeSoup const & a, PolytopeSoup const & b)
{
  vx_assert(a.numVertices() == b.numVertices() && a.numElements() == b.numElements(), "size");
  vx_assert(a.numElsets() == b.numElsets(), "number of sets");
  for (Int i = 0; i < a.numVertices(); ++i) {
    for (Int k = 0; k < 3; ++k) {
      vx_near(b.getVertex(i)[k], a.getVertex(i)[k], k == 2 ? 1e-5 : 0, "vertices");
    }
  }
  for (Int i = 0; i < a.numElements(); ++i) {
    VTKElemType t = VTKElemType::Invalid;
    VTKElemType u = VTKElemType::Invalid;
    Vector<Int> c;
    Vector<Int> d;
    a.getElement(i, t, c);
    b.getElement(i, u, d);
    vx_assert(t == u && c.size() == d.size(), "kinds of elements");
    for (Int k = 0; k < c.size(); ++k) {
      vx_assert(c[k] == d[k], "connectivity");
    }
  }
  for (Int i = 0; i < a.numElsets(); ++i) {
    String name;
    Vector<Int> c;
    Vector<Int> d;
    Vector<double> x;
    Vector<double> y;
    a.getElset(i, name, c, x);
    b.getElset(name, d, y);
    vx_assert(c.size() == d.size() && x.size() == y.size(), "size of the set");
    for (Int k = 0; k < c.size(); ++k) {
      vx_assert(c[k] == d[k], "members of the set");
    }
    for (Int k = 0; k < x.size(); ++k) {
      vx_near(y[k], x[k], 0, "data of the set");
    }
  }
}
static void addVertices(PolytopeSoup & s, Int n, Int dim)
{
  for (Int i = 0; i < n; ++i) {
    double const x = vx_real("x", -10, 10);
    double const y = vx_real("y", -10, 10);
    // in space: all at a height, or one of them
    double const z = dim == 0 || (dim == 1 && i != n - 1) ? 0 : vx_real("z", -10, 10);
    s.addVertex(x, y, z);
  }
}
static void addElement(PolytopeSoup & s, Int kind, Int nv)
{
  Vector<Int> c;
  for (Int k = 0; k < sizes[kind]; ++k) {
    c.push_back(vx_int("v", 0, nv - 1));
  }
  s.addElement(kinds[kind], c);
}
// The members given by the bits of mask
static void addSet(PolytopeSoup & s, char const * name, Int mask, bool data)
{
  Vector<Int> ids;
  Vector<double> d;
  for (Int e = 0; e < s.numElements(); ++e) {
    if (((mask >> e) & 1) != 0) {
      ids.push_back(e);
      if (data) {
        d.push_back(vx_real("d", -1e6, 1e6));
      }
    }
  }
  s.addElset(name, ids, d);
}
static void roundTrip(PolytopeSoup const & s, char const * file)
{
  s.write(file);
  PolytopeSoup r;
  r.read(file);
  same(s, r);
}
// Elements of one kind
// @entry h_alike mode=real time=200
extern "C" void h_alike()
{
  quiet(true);
  PolytopeSoup s;
  Int const kind = vx_choice("kind", 5);
  Int const n = 1 + vx_choice("n", 3);
  addVertices(s, 4, vx_choice("dim", 3));
  for (Int i = 0; i < n; ++i) {
    addElement(s, kind, 4);
  }
  if (vx_choice("set", 2) == 1) {
    addSet(s, "Only", 1 + vx_choice("members", (1 << n) - 1), vx_choice("data", 2) == 1);
  }
  roundTrip(s, "soup.xdmf");
}
// Two or three elements of two or three kinds
// @entry h_mixed mode=real time=200
extern "C" void h_mixed()
{
  quiet(true);
  PolytopeSoup s;
  Int const n = 2 + vx_choice("n", 2);
  addVertices(s, 5, vx_choice("dim", 2));
  Int const first = vx_choice("kind", 7);
  addElement(s, first, 5);
  Int const second = vx_choice("kind", 7);
  addElement(s, second, 5);
  Int third = second;
  if (n == 3) {
    third = vx_choice("kind", 7);
    addElement(s, third, 5);
  }
  vx_assume(first != second || first != third);
  roundTrip(s, "soup.xdmf");
}
// Two sets with and without data
// @entry h_sets mode=real time=200
extern "C" void h_sets()
{
  quiet(true);
  PolytopeSoup s;
  addVertices(s, 3, 0);
  addElement(s, 0, 3);
  addElement(s, 0, 3);
  addElement(s, vx_choice("kind", 2) == 0 ? 0 : 5, 3);
  addSet(s, "Fuel", 1 + vx_choice("members", 7), vx_choice("data", 2) == 1);
  addSet(s, "A_b", 1 + vx_choice("members", 7), vx_choice("data", 2) == 1);
  if (vx_choice("directory", 2) == 0) {
    roundTrip(s, "soup.xdmf");
  } else {
    roundTrip(s, "./my.soup.xdmf");
  }
}
