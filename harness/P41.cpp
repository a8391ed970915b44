// Groups and colours stored beside CAD files
// @src src/common/logger.cpp src/common/settings.cpp src/gmsh/io.cpp
// @config UM2_USE_GMSH=1
// @models io
// @bounds up to two groups of 1, 2, 7, 8, 9, 16 or 17 members out of up to 18 shapes of dimension 1 to 3 with any tags, or of every subset of three shapes; every colour of up to two shapes, or one colour on 1, 7, 8, 9, 16 or 17 shapes; two models beside each other
// @outside the CAD kernel itself (a stand-in keeps the shapes and numbers them afresh in their order); groups of points; names with quotation marks; colours of curves and points
#include "vrt.hpp"
#include "quiet.inc"
#include "fakegmsh.inc"
#include <um2/gmsh/io.hpp>
static void addGroup(int dim, int tag, char const * name, std::vector<int> const & tags)
{
  fake::Group g;
  g.dim = dim;
  g.tag = tag;
  g.name = name;
  g.tags = tags;
  fake::groups.push_back(g);
}
// n shapes with any tags
static std::vector<int> shapes(int dim, int n)
{
  std::vector<int> v(static_cast<std::size_t>(n));
  for (int i = 0; i < n; ++i) {
    v[static_cast<std::size_t>(i)] = vx_int("tag", 1, 100000);
    vx_assume(i == 0 || v[static_cast<std::size_t>(i - 1)] < v[static_cast<std::size_t>(i)]);
    fake::ents.push_back({dim, v[static_cast<std::size_t>(i)]});
  }
  return v;
}
static char const * const NAMES[3] = {"Material_A", "Cell 1", "x"};
static int const SIZES[7] = {1, 2, 7, 8, 9, 16, 17};
static void groupIs(int dim, char const * name, std::vector<int> const & ranks)
{
  fake::Group const * const g = fake::named(dim, name);
  vx_assert(g != nullptr, "every group is restored");
  vx_assert(g->tags.size() == ranks.size(), "as many members as before");
  bool ok = true;
  for (std::size_t i = 0; i < ranks.size(); ++i) {
    ok = ok & (g->tags[i] == ranks[i]);
  }
  vx_assert(ok, "the same members as before");
}
// @entry h_subset time=120
extern "C" void h_subset()
{
  quiet(true);
  int const dim = 1 + vx_choice("dim", 3);
  std::vector<int> const below = shapes(dim - 1, 1);
  std::vector<int> const t = shapes(dim, 3);
  int const mask = 1 + vx_choice("members", 7);
  int const mask1 = vx_choice("more", 8);
  int const nm = vx_choice("name", 3);
  std::vector<int> want;
  std::vector<int> want1;
  std::vector<int> m;
  std::vector<int> m1;
  for (int i = 0; i < 3; ++i) {
    if (mask & (1 << i)) {
      want.push_back(i + 1);
      m.push_back(t[static_cast<std::size_t>(i)]);
    }
    if (mask1 & (1 << i)) {
      want1.push_back(i + 1);
      m1.push_back(t[static_cast<std::size_t>(i)]);
    }
  }
  // a group of the dimension below, if there is one
  if (dim > 1) {
    addGroup(dim - 1, 3, "low", below);
  }
  addGroup(dim, 1, NAMES[nm], m);
  if (mask1 != 0) {
    addGroup(dim, 5, NAMES[(nm + 1) % 3], m1);
  }
  um2::gmsh::write("a.b.brep", true);
  um2::gmsh::open("a.b.brep", true);
  vx_assert(fake::groups.size() == std::size_t(1 + (mask1 != 0) + (dim > 1)), "no other groups");
  groupIs(dim, NAMES[nm], want);
  if (mask1 != 0) {
    groupIs(dim, NAMES[(nm + 1) % 3], want1);
  }
  if (dim > 1) {
    groupIs(dim - 1, "low", {1});
  }
  vx_assert(fake::paints.empty(), "no colours appear");
}
// @entry h_many time=120
extern "C" void h_many()
{
  quiet(true);
  int const dim = 1 + vx_choice("dim", 3);
  int const n = SIZES[vx_choice("size", 7)];
  int const n1 = SIZES[vx_choice("size of the other", 7)];
  std::vector<int> const t = shapes(dim, 18);
  // leaves out the first shapes
  std::vector<int> m;
  std::vector<int> want;
  for (int i = 18 - n; i < 18; ++i) {
    m.push_back(t[static_cast<std::size_t>(i)]);
    want.push_back(i + 1);
  }
  // leaves out the last shapes
  std::vector<int> m1;
  std::vector<int> want1;
  for (int i = 0; i < n1; ++i) {
    m1.push_back(t[static_cast<std::size_t>(i)]);
    want1.push_back(i + 1);
  }
  addGroup(dim, 1, "A", m);
  addGroup(dim, 2, "B", m1);
  um2::gmsh::write("ab.step", true);
  um2::gmsh::open("ab.step", true);
  vx_assert(fake::groups.size() == 2, "no other groups");
  groupIs(dim, "A", want);
  groupIs(dim, "B", want1);
}
static void paint(int dim, int tag, int const * c)
{
  fake::Paint p;
  p.on.push_back({dim, tag});
  for (int i = 0; i < 4; ++i) {
    p.c[i] = c[i];
  }
  p.deep = false;
  fake::paints.push_back(p);
}
static void anyColour(int * c)
{
  for (int i = 0; i < 4; ++i) {
    c[i] = vx_int("colour", 0, 255);
  }
}
static void colourIs(int dim, int rank, int const * c)
{
  int r = 0;
  int g = 0;
  int b = 0;
  int a = 0;
  ::gmsh::model::getColor(dim, rank, r, g, b, a);
  vx_assert((r == c[0]) & (g == c[1]) & (b == c[2]) & (a == c[3]), "the colour is restored");
}
static int const PLAIN[4] = {0, 0, 255, 0};
// @entry h_colours time=120
extern "C" void h_colours()
{
  quiet(true);
  int const d0 = 2 + vx_choice("dim", 2);
  int const d1 = 2 + vx_choice("other dim", 2);
  bool const swap = d1 < d0;
  std::vector<int> const first = shapes(swap ? d1 : d0, d0 == d1 ? 3 : 2);
  std::vector<int> second = first;
  if (d0 != d1) {
    second = shapes(swap ? d0 : d1, 2);
  }
  std::vector<int> const & t0 = swap ? second : first;
  std::vector<int> const & t1 = swap ? first : second;
  int c0[4];
  int c1[4];
  anyColour(c0);
  anyColour(c1);
  paint(d0, t0[0], c0);
  paint(d1, t1[1], c1);
  um2::gmsh::write("ab.step", true);
  um2::gmsh::open("ab.step", true);
  vx_assert(fake::groups.empty(), "no groups appear");
  colourIs(d0, 1, c0);
  colourIs(d1, 2, c1);
  if (d0 == d1) {
    colourIs(d0, 3, PLAIN);
  } else {
    colourIs(d0, 2, PLAIN);
    colourIs(d1, 1, PLAIN);
  }
}
// @entry h_same time=120
extern "C" void h_same()
{
  quiet(true);
  int const n = SIZES[vx_choice("size", 7)];
  int const low = vx_choice("of them surfaces", 2) == 1 ? n / 2 : n;
  std::vector<int> const t = shapes(2, low);
  std::vector<int> const u = shapes(3, n - low + 1);
  int c[4];
  anyColour(c);
  for (int i = 0; i < low; ++i) {
    paint(2, t[static_cast<std::size_t>(i)], c);
  }
  for (int i = 0; i < n - low; ++i) {
    paint(3, u[static_cast<std::size_t>(i)], c);
  }
  int c1[4];
  anyColour(c1);
  paint(3, u[static_cast<std::size_t>(n - low)], c1);
  um2::gmsh::write("ab.step", true);
  um2::gmsh::open("ab.step", true);
  for (int i = 0; i < low; ++i) {
    colourIs(2, i + 1, c);
  }
  for (int i = 0; i < n - low; ++i) {
    colourIs(3, i + 1, c);
  }
  colourIs(3, n - low + 1, c1);
}
// Two models beside each other keep their own groups
// @entry h_apart
extern "C" void h_apart()
{
  quiet(true);
  char const * const files[3][2] = {{"a.b.step", "a.c.step"}, {"./a.step", "./b.step"}, {"ab.step", "b.step"}};
  int const which = vx_choice("names", 3);
  std::vector<int> const t = shapes(2, 2);
  addGroup(2, 1, "A", {t[0]});
  um2::gmsh::write(files[which][0], true);
  fake::groups.clear();
  addGroup(2, 1, "B", t);
  um2::gmsh::write(files[which][1], true);
  um2::gmsh::open(files[which][0], true);
  vx_assert(fake::groups.size() == 1, "no other groups");
  groupIs(2, "A", {1});
}
// @entry h_plain
extern "C" void h_plain()
{
  quiet(true);
  std::vector<int> const t = shapes(2, 2);
  addGroup(2, 1, "A", t);
  um2::gmsh::write("ab.step");
  um2::gmsh::open("ab.step");
  vx_assert(fake::groups.empty(), "groups are kept on request only");
}
// @entry h_missing
extern "C" void h_missing()
{
  quiet(true);
  bool const shapes_there = vx_choice("shapes", 2) == 1;
  std::vector<int> const t = shapes(2, 2);
  addGroup(2, 1, "A", t);
  if (shapes_there) {
    um2::gmsh::write("ab.step");
  }
  vx_allow_exit(true);
  um2::gmsh::open("ab.step", true);
  vx_never("missing files are reported");
}
