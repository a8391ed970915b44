// Mesh sizes and kinds of mesh requested from the meshing library
// @src src/gmsh/mesh.cpp src/physics/material.cpp src/physics/cross_section.cpp src/physics/nuclide.cpp src/physics/cross_section_library.cpp src/common/logger.cpp src/common/settings.cpp src/math/matrix.cpp
// @config UM2_USE_GMSH=1 UM2_USE_BLAS_LAPACK=0
// @models io
// @bounds two or three materials with one-group cross sections of every value between 0.05 and 20 in every order of groups, target numbers between 0.1 and 20, thresholds between 0 and 10, scales between 1 and 4, every distance up to 50; curves and surfaces; all pairs of kinds of mesh one after another
// @outside the meshing library (a stand-in evaluates the size fields it was given); six printed decimals of the coefficients; distances in three dimensions; materials that are fuel and absorber at once; floating-point rounding
#include "vrt.hpp"
#include "quiet.inc"
#include "fakegmsh.inc"
#include "fakemesh.inc"
#include <um2/gmsh/mesh.hpp>
namespace um2mesh = um2::gmsh::model::mesh;
using um2::Material;
using um2::Vector;
using um2::XSec;
static char const * const NAMES[4] = {"Material_A", "Material_B", "Material_C", "Part"};
struct Case {
  int dim;
  int n;
  double kn;
  double fuel[2];
  double abs[2];
  int kind[3]; // 0 neither, 1 fuel, 2 absorber
  double total[3];
  int group[4]; // group of each place in the library's list
  Vector<Material> mats;
};
static std::vector<int> tagsOf(int i)
{
  if (i == 0) {
    return {5, 9};
  }
  if (i == 1) {
    return {2};
  }
  return {7, 8};
}
static Material material(int i, int & kind, double & total)
{
  Material m;
  char name[2] = {static_cast<char>('A' + i), 0};
  m.setName(name);
  XSec & x = m.xsec();
  x = XSec(1);
  x.isMacro() = true;
  double const t = kind == 2 ? vx_real("total", 0.95, 20) : vx_real("total", 0.05, 20);
  // scattering is the smaller part in absorbers only
  double s = kind == 2 ? 0.1 * t : 0.5 * t;
  if (kind == 3) {
    // any: an absorber scatters less than a fifth and stops neutrons within about a centimetre
    double const ratio = vx_real("ratio", 0, 0.9);
    vx_assume(ratio < 0.199 || ratio > 0.201);
    vx_assume(t < 0.899 || t > 0.901);
    s = ratio * t;
    kind = ratio < 0.2 && t > 0.9 ? 2 : 0;
  }
  x.a()[0] = t - s;
  x.s()[0] = s;
  x.ss()(0) = s;
  x.tr()[0] = t;
  if (kind == 1) {
    x.isFissile() = true;
    x.f()[0] = 0.1;
    x.nuf()[0] = 0.2;
  }
  total = t;
  return m;
}
static void makeCase(Case & c, int n)
{
  c.n = n;
  int const turn = vx_choice("order", n == 2 ? 2 : 3);
  for (int k = 0; k < n; ++k) {
    c.mats.push_back(material(k, c.kind[k], c.total[k]));
  }
  // groups of another kind and of another dimension come first or last
  for (int k = 0; k < n; ++k) {
    int const g = (k + turn) % n;
    fake::Group x;
    x.dim = c.dim;
    x.tag = k + 1 + (k >= turn ? 1 : 0);
    x.name = NAMES[g];
    x.tags = tagsOf(g);
    if (k == turn) {
      fake::Group p;
      p.dim = c.dim;
      p.tag = k + 1;
      p.name = NAMES[3];
      p.tags = {2, 5};
      fake::groups.push_back(p);
    }
    fake::groups.push_back(x);
  }
}
// distances of the point looked at
static double to_fuel;
static double to_edge;
static std::vector<int> fuel_tags;
static std::vector<int> edge_tags;
static int place_dim;
static int place_tag;
static bool sameTags(std::vector<double> const & a, std::vector<int> const & b)
{
  bool ok = a.size() == b.size();
  for (std::size_t i = 0; i < b.size() && ok; ++i) {
    bool found = false;
    for (std::size_t j = 0; j < a.size(); ++j) {
      found = found | (a[j] == b[i]);
    }
    ok = found;
  }
  return ok;
}
static double sizeBy(int tag);
static double sum(char const *& p);
static double factor(char const *& p)
{
  while (*p == ' ') {
    ++p;
  }
  if (*p == '(') {
    ++p;
    double const r = sum(p);
    vx_assert(*p == ')', "well-formed expression");
    ++p;
    return r;
  }
  if (*p == '-') {
    ++p;
    return -factor(p);
  }
  int len = 0;
  if (*p == 'F') {
    ++p;
    int k = 0;
    while (*p >= '0' && *p <= '9') {
      k = 10 * k + (*p - '0');
      ++p;
    }
    return sizeBy(k);
  }
  double const r = vx_printed(p, &len);
  vx_assert(len > 0, "well-formed expression");
  p += len;
  return r;
}
static double product(char const *& p)
{
  double r = factor(p);
  while (true) {
    while (*p == ' ') {
      ++p;
    }
    if (*p != '*') {
      return r;
    }
    ++p;
    r = r * factor(p);
  }
}
static double sum(char const *& p)
{
  double r = product(p);
  while (*p == '+' || *p == '-') {
    bool const minus = *p == '-';
    ++p;
    double const t = product(p);
    r = minus ? r - t : r + t;
  }
  return r;
}
// Size which a field asks for at the point looked at; 1e22: none
static double sizeBy(int tag)
{
  fake::Field const & f = fake::field(tag);
  if (f.type == "Constant") {
    bool in = false;
    for (std::size_t i = 0; i < f.list.size(); ++i) {
      in = in | (f.list[i] == place_tag);
    }
    return in && f.dim == place_dim ? f.inside : 1e22;
  }
  if (f.type == "Distance") {
    if (f.dim == place_dim && sameTags(f.list, fuel_tags)) {
      return to_fuel;
    }
    vx_assert(f.dim == place_dim - 1, "distance to the fuel or to an edge");
    // to the edge of another material: no matter here
    return sameTags(f.list, edge_tags) ? to_edge : 1e6;
  }
  if (f.type == "MathEval") {
    char const * p = f.expr.c_str();
    double const r = sum(p);
    vx_assert(*p == 0, "well-formed expression");
    return r;
  }
  bool const least = f.type == "Min";
  double r = 0;
  for (std::size_t i = 0; i < f.list.size(); ++i) {
    double const s = sizeBy(static_cast<int>(f.list[i]));
    if (i == 0 || (least ? s < r : s > r)) {
      r = s;
    }
  }
  return r;
}
static void run(Case & c)
{
  int const r = um2mesh::setMeshFieldFromKnudsenNumber(c.dim, c.mats, c.kn, c.fuel[0], c.fuel[1], c.abs[0], c.abs[1]);
  vx_assert(r == 0, "accepted");
  vx_assert(fake::background > 0, "the sizes are used");
  fuel_tags.clear();
  for (int k = 0; k < c.n; ++k) {
    if (c.kind[k] == 1) {
      std::vector<int> const t = tagsOf(k);
      fuel_tags.insert(fuel_tags.end(), t.begin(), t.end());
    }
  }
  int const look = vx_choice("look at", c.n);
  std::vector<int> const t = tagsOf(look);
  place_dim = c.dim;
  place_tag = t[static_cast<std::size_t>(vx_choice("shape", static_cast<int>(t.size())))];
  edge_tags.clear();
  for (std::size_t i = 0; i < t.size(); ++i) {
    std::vector<int> const f = fake::facesOf(t[i]);
    for (std::size_t j = 0; j < f.size(); ++j) {
      if (!fake::inList(edge_tags, f[j])) {
        edge_tags.push_back(f[j]);
      }
    }
  }
  to_fuel = vx_real("distance to fuel", 0, 50);
  to_edge = vx_real("distance to edge", 0, 50);
  double const got = sizeBy(fake::background);
  // 12 / (pi sqrt(3))
  double const k12 = 2.2053155816871686;
  double const base = k12 / (c.kn * c.total[look]);
  double want = base;
  if (c.kind[look] == 0 && c.fuel[0] >= 0) {
    double const far = base * (1 - c.fuel[0] * c.fuel[1]) + base * c.total[look] * c.fuel[1] * to_fuel;
    want = far > want ? far : want;
  }
  if (c.kind[look] == 2 && c.abs[0] >= 0) {
    double const far = base * (1 - c.abs[0] * c.abs[1]) + base * c.total[look] * c.abs[1] * to_edge;
    want = far > want ? far : want;
  }
  vx_near(got, want, 1e-4, "size by material and distance");
}
// @entry h_constant mode=real time=120
extern "C" void h_constant()
{
  quiet(true);
  Case c;
  c.dim = 1 + vx_choice("dim", 3);
  c.kn = vx_real("kn", 0.1, 20);
  c.fuel[0] = c.abs[0] = -1;
  c.fuel[1] = c.abs[1] = -1;
  c.kind[0] = vx_choice("kind", 3);
  c.kind[1] = 1;
  c.kind[2] = 2;
  makeCase(c, 2 + vx_choice("n", 2));
  run(c);
}
static void scaled(Case & c, bool fuel, bool abs)
{
  c.dim = 1 + vx_choice("dim", 2);
  c.kn = vx_choice("kn", 2) == 1 ? 4 : 0.5;
  c.fuel[0] = fuel ? vx_real("threshold", 0, 10) : -1;
  c.fuel[1] = fuel ? vx_real("scale", 1, 4) : -1;
  c.abs[0] = abs ? vx_real("absorber threshold", 0, 10) : -1;
  c.abs[1] = abs ? vx_real("absorber scale", 1, 4) : -1;
}
// @entry h_fuel mode=real time=180
extern "C" void h_fuel()
{
  quiet(true);
  Case c;
  scaled(c, true, false);
  c.kind[0] = 0;
  c.kind[1] = 1;
  c.kind[2] = vx_choice("kind", 3);
  makeCase(c, 3);
  run(c);
}
// @entry h_absorber mode=real time=180
extern "C" void h_absorber()
{
  quiet(true);
  Case c;
  scaled(c, false, true);
  c.kind[0] = 2;
  c.kind[1] = vx_choice("kind", 2);
  c.kind[2] = vx_choice("other kind", 3);
  makeCase(c, 2 + vx_choice("n", 2));
  run(c);
}
// @entry h_both mode=real time=180
extern "C" void h_both()
{
  quiet(true);
  Case c;
  scaled(c, true, true);
  c.kind[0] = 0;
  c.kind[1] = 1;
  c.kind[2] = 2;
  makeCase(c, 3);
  run(c);
}
// What counts as an absorber
// @entry h_classify mode=real time=180
extern "C" void h_classify()
{
  quiet(true);
  Case c;
  c.dim = 2;
  c.kn = 1;
  c.fuel[0] = vx_choice("fuel", 2) == 1 ? 1.5 : -1;
  c.abs[0] = vx_choice("absorbers", 2) == 1 ? 0.5 : -1;
  c.fuel[1] = c.abs[1] = 2;
  c.kind[0] = 3;
  c.kind[1] = 1;
  c.kind[2] = 2;
  makeCase(c, 3);
  run(c);
}
// Requests that cannot be met end with an error
// @entry h_refuse mode=real
extern "C" void h_refuse()
{
  // errors end the program, or show in what is returned
  bool const ends = vx_choice("ends", 2) == 1;
  quiet(ends);
  Case c;
  c.dim = 2;
  c.kn = 1;
  c.fuel[0] = c.abs[0] = -1;
  c.fuel[1] = c.abs[1] = 1;
  c.kind[0] = 0;
  c.kind[1] = 0;
  c.kind[2] = 0;
  makeCase(c, 2);
  switch (vx_choice("wrong", 7)) {
  case 0: // a group too many
    fake::groups.push_back({2, 7, "Material_C", {3}});
    break;
  case 1: // a group too few
    fake::groups.erase(fake::groups.begin() + (fake::groups[0].name == NAMES[3] ? 1 : 0));
    break;
  case 2:
    c.mats[1].setName("D");
    break;
  case 3:
    c.kn = vx_real("kn", -5, 0);
    break;
  case 4:
    c.mats[0].xsec() = XSec();
    break;
  case 5: // no fuel
    c.fuel[0] = 1;
    break;
  default: // no absorber
    c.abs[0] = 1;
    break;
  }
  vx_allow_exit(true);
  int const rc = um2mesh::setMeshFieldFromKnudsenNumber(c.dim, c.mats, c.kn, c.fuel[0], c.fuel[1], c.abs[0], c.abs[1]);
  if (ends) {
    vx_never("refused");
  }
  vx_assert(rc != 0, "the refusal shows in the result");
}
static um2::MeshType const TYPES[4] = {um2::MeshType::Tri, um2::MeshType::Quad, um2::MeshType::QuadraticTri, um2::MeshType::QuadraticQuad};
static void isMesh(int type, int smooth)
{
  vx_assert(fake::generated_dim == 2, "meshes of surfaces");
  bool const quad = type == 1 || type == 3;
  vx_assert((fake::recombined | fake::subdivided) == quad, "triangles or quadrilaterals as requested");
  vx_assert(fake::order == (type >= 2 ? 2 : 1), "straight or curved as requested");
  vx_assert(type < 2 || fake::option("Mesh.SecondOrderIncomplete", 0) == 1, "no nodes in the middle of faces");
  vx_assert(fake::option("Mesh.Smoothing", 1) == smooth, "as many rounds of smoothing as requested");
}
// @entry h_generate
extern "C" void h_generate()
{
  quiet(true);
  int const first = vx_choice("first", 4);
  int const second = vx_choice("second", 4);
  int const smooth = vx_int("smoothing", 0, 1000);
  um2mesh::generateMesh(TYPES[first], smooth);
  vx_assert(fake::generated == 1, "one mesh");
  isMesh(first, smooth);
  um2mesh::generateMesh(TYPES[second]);
  vx_assert(fake::generated == 2, "one more mesh");
  isMesh(second, 100);
}
// @entry h_unknown
extern "C" void h_unknown()
{
  quiet(true);
  int const t = vx_int("type", -100, 100);
  vx_assume(t != 3 && t != 4 && t != 6 && t != 8);
  vx_allow_exit(true);
  um2mesh::generateMesh(static_cast<um2::MeshType>(t));
  vx_never("unknown kinds of mesh are refused");
}
// @entry h_global mode=real
extern "C" void h_global()
{
  quiet(true);
  int const n = vx_choice("points", 3);
  for (int d = 0; d < 3; ++d) {
    for (int i = 0; i < (d == 0 ? n : 2); ++i) {
      fake::ents.push_back({d, i + 1});
    }
  }
  double const s = vx_real("size", 1e-3, 100);
  um2mesh::setGlobalMeshSize(s);
  vx_near(fake::size, s, 1e-12, "size as requested");
  vx_assert(fake::sized.size() == static_cast<std::size_t>(n), "at every point");
  for (int i = 0; i < n; ++i) {
    vx_assert(fake::inPairs(fake::sized, 0, i + 1), "at each point");
  }
}
