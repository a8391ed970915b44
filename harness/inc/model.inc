#include <um2/mpact/model.hpp>
using um2::Material;

using um2::MeshType;
using um2::Vector;
using um2::mpact::Model;
using Map = Vector<Vector<Int>>;
static bool logged() { return um2::logger::buffer[0] != 0; }
static um2::Vec2F ext(double x, double y)
{
  um2::Vec2F e;
  e[0] = x;
  e[1] = y;
  return e;
}
// A map of nr rows (first row on top) and nc columns
static Map makeMap(Int nr, Int nc, Int const * ids)
{
  Map m(nr);
  for (Int i = 0; i < nr; ++i) {
    m[i].resize(nc);
    for (Int j = 0; j < nc; ++j) {
      m[i][j] = ids[i * nc + j];
    }
  }
  return m;
}
// A material with one group of simple cross sections
static Material makeMaterial(char const * name, double a)
{
  Material m;
  m.setName(name);
  um2::XSec xs(1);
  xs.isMacro() = true;
  xs.a()[0] = a;
  xs.s()[0] = 1;
  xs.tr()[0] = a + 1;
  xs.ss()(0, 0) = 1;
  m.xsec() = xs;
  return m;
}
