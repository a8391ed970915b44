// Material and cell groups of CAD models
#include "modelsrc.inc"
// @src src/gmsh/model.cpp
// @config UM2_USE_GMSH=1
// @bounds one or two objects and tools with any tags, up to two members in each of up to two groups, up to two pieces per object and tool with any tags, every order of two and of three materials, also with an absent one among them; pins of one to three rings of any size at any place; lattices of up to two by two pins of two kinds with up to four rings; cores of two by two assemblies, lattices and modules with three slices
// @outside the CAD kernel itself (a stand-in of its documented interface decides what the pieces are); entities that are object and tool at once; objects or tools kept after the operation; equal radii
#include "vrt.hpp"
#include "quiet.inc"
#include "model.inc"
#include "hier.inc"
#include "fakegmsh.inc"
#include <um2/gmsh/model.hpp>
namespace um2gm = um2::gmsh::model;
static char const * const NAMES[4] = {"Material_A", "Material_B", "Part", "Material_AB"};
// n ascending tags
static std::vector<int> anyTags(int n, int lo, int hi)
{
  std::vector<int> v(static_cast<std::size_t>(n));
  for (int i = 0; i < n; ++i) {
    v[static_cast<std::size_t>(i)] = vx_int("tag", lo, hi);
    vx_assume(i == 0 || v[static_cast<std::size_t>(i - 1)] < v[static_cast<std::size_t>(i)]);
  }
  return v;
}
static void addGroup(int dim, int tag, char const * name, std::vector<int> const & tags)
{
  fake::Group g;
  g.dim = dim;
  g.tag = tag;
  g.name = name;
  g.tags = tags;
  fake::groups.push_back(g);
}
static Material coloured(char const * name, int r)
{
  Material m;
  m.setName(name);
  m.setColor(um2::Color(r, r + 1, r + 2, r + 3));
  return m;
}
static void colourIs(int dim, int tag, int r, bool when)
{
  bool ok = true;
  for (int c = 0; c < 4; ++c) {
    ok = ok & (fake::colour(dim, tag, c) == r + c);
  }
  vx_assert(!when | ok, "colour of the material");
}
// @entry h_add time=180
extern "C" void h_add()
{
  quiet(true);
  int const dim = 1 + vx_choice("dim", 3);
  int const other = vx_choice("other dim", 2) == 1 ? 1 + dim % 3 : dim;
  int const n0 = vx_choice("n0", 3);
  int const n1 = vx_choice("n1", 2);
  std::vector<int> const t0 = anyTags(n0, 1, 1000);
  std::vector<int> const t1 = anyTags(n1, 1, 1000);
  int const name0 = vx_choice("name0", 2);
  bool const swap = other < dim;
  if (swap && n1 > 0) {
    addGroup(other, 9, NAMES[3], t1);
  }
  if (n0 > 0) {
    addGroup(dim, 7, NAMES[name0], t0);
  }
  if (!swap && n1 > 0) {
    addGroup(other, 9, NAMES[3], t1);
  }
  std::vector<int> const add = anyTags(1 + vx_choice("n", 2), 1, 1000);
  int const tag = vx_choice("tag given", 2) == 1 ? 20 : -1;
  int const name = vx_choice("name", 2);
  um2gm::addToPhysicalGroup(dim, add, tag, NAMES[name]);
  int const e = vx_int("e", 1, 1000);
  bool const existed = n0 > 0 && name == name0;
  vx_assert(fake::member(dim, NAMES[name], e) == (fake::inList(add, e) | (existed & fake::inList(t0, e))), "members of the group");
  vx_assert(fake::member(other, NAMES[3], e) == (n1 > 0 && fake::inList(t1, e)), "other groups stay");
  if (!existed) {
    vx_assert(fake::member(dim, NAMES[1 - name], e) == (n0 > 0 && fake::inList(t0, e)), "other groups stay");
  }
  vx_assert(fake::groups.size() == static_cast<std::size_t>((n0 > 0 ? 1 : 0) + (n1 > 0 ? 1 : 0) + (existed ? 0 : 1)), "number of groups");
  int const got = fake::named(dim, NAMES[name])->tag;
  vx_assert(existed ? got == 7 : (tag == -1 || got == 20), "tag of the group");
}
// @entry h_materials time=120
extern "C" void h_materials()
{
  quiet(true);
  int const n = vx_choice("groups", 4);
  int const shift = vx_choice("order", 3);
  int const col = vx_int("colour", 0, 200);
  static char const * const names[3] = {"Material_UO2_3.1", "Part", "Material_H2O"};
  bool want[3] = {false, false, false};
  std::vector<int> first;
  for (int i = 0; i < n; ++i) {
    int const k = (i + shift) % 3;
    want[k] = true;
    std::vector<int> tags;
    tags.push_back(10 * (k + 1));
    tags.push_back(10 * (k + 1) + 1);
    addGroup(2, i + 1, names[k], tags);
    fake::Paint p;
    p.on.push_back({2, tags[0]});
    for (int c = 0; c < 4; ++c) {
      p.c[c] = col + k + c;
    }
    fake::paints.push_back(p);
  }
  std::vector<Material> mats;
  bool const known = vx_choice("known", 2) == 1;
  if (known) {
    mats.push_back(coloured("H2O", 7));
  }
  um2gm::getMaterials(mats);
  std::size_t const num = (want[0] ? 1 : 0) + (want[2] || known ? 1 : 0);
  vx_assert(mats.size() == num, "one material per material group");
  for (std::size_t i = 0; i < mats.size(); ++i) {
    bool const fuel = mats[i].getName() == "UO2_3.1";
    vx_assert(fuel || mats[i].getName() == "H2O", "names of the materials");
    int const r = fuel ? col : (known ? 7 : col + 2);
    vx_assert(mats[i].getColor() == um2::Color(r, r + 1, r + 2, r + 3), "colours of the materials");
    for (std::size_t j = 0; j < i; ++j) {
      vx_assert(mats[i].getName() != mats[j].getName(), "one material per material group");
    }
  }
}
// Objects, tools, two groups and what becomes of them
struct Case {
  std::vector<int> obj;
  std::vector<int> tool;
  std::vector<int> group[2];
  int name[2] = {0, 1};
};
static fake::Pairs withDim(int dim, std::vector<int> const & v)
{
  fake::Pairs p;
  for (std::size_t i = 0; i < v.size(); ++i) {
    p.push_back({dim, v[i]});
  }
  return p;
}
static void makeCase(Case & c, int dim, int shape)
{
  // objects, tools, members of the groups, pieces of each object and of each tool
  static int const shapes[8][6] = {{1, 1, 1, 1, 1, 1}, {2, 1, 1, 1, 1, 1}, {1, 2, 1, 1, 1, 1}, {1, 1, 2, 1, 1, 1},
                                   {1, 1, 1, 0, 2, 1}, {1, 1, 1, 1, 2, 0}, {2, 1, 2, 0, 1, 1}, {1, 1, 2, 0, 1, 2}};
  int const * const s = shapes[shape];
  c.obj = anyTags(s[0], 1, 50);
  c.tool = anyTags(s[1], 1, 50);
  for (std::size_t i = 0; i < c.tool.size(); ++i) {
    vx_assume(!fake::inList(c.obj, c.tool[i]));
  }
  for (int g = 0; g < 2; ++g) {
    c.group[g] = anyTags(s[2 + g], 1, 60);
    if (s[2 + g] > 0) {
      addGroup(dim, 5 + g, NAMES[c.name[g]], c.group[g]);
    }
  }
  fake::pieces.clear();
  for (int i = 0; i < s[0] + s[1]; ++i) {
    fake::pieces.push_back(withDim(dim, anyTags(i < s[0] ? s[4] : s[5], 1, 70)));
  }
}
// Does the group hold the entity once its members are replaced by their pieces?
static bool holds(Case const & c, int g, int e, int dim)
{
  bool r = false;
  for (std::size_t i = 0; i < c.group[g].size(); ++i) {
    int const m = c.group[g][i];
    bool part = false;
    bool in = false;
    for (std::size_t k = 0; k < c.obj.size() + c.tool.size(); ++k) {
      int const t = k < c.obj.size() ? c.obj[k] : c.tool[k - c.obj.size()];
      part = part | (t == m);
      in = in | ((t == m) & fake::inPairs(fake::pieces[k], dim, e));
    }
    r = r | in | (!part & (m == e));
  }
  return r;
}
static void operate(bool hierarchy)
{
  quiet(true);
  Case c;
  fake::track = false;
  int const what = vx_choice("operation", hierarchy ? 2 : 3);
  int const shape = hierarchy ? vx_choice("shape", 4) : vx_choice("shape", 8);
  int const dim = 2 + (shape + what) % 2;
  // listed materials: none, A B, B A, Z B
  int const list = hierarchy ? 1 + vx_choice("materials", 3) : 0;
  int const naming = hierarchy ? (list + shape) % 3 : what;
  c.name[0] = naming == 1 ? 1 : 0;
  c.name[1] = naming == 1 ? 0 : (naming == 2 && list == 3 ? 2 : 1);
  makeCase(c, dim, shape);
  // groups of entities of other dimensions do not survive, and do not mix with those that do
  if (shape % 3 != 0) {
    addGroup(shape % 3 == 1 ? 5 - dim : 1, 8, shape < 3 ? "Material_A" : "Other", {1, 2});
  }
  fake::Pairs const obj = withDim(dim, c.obj);
  fake::Pairs const tool = withDim(dim, c.tool);
  fake::Pairs out;
  std::vector<fake::Pairs> map;
  std::vector<Material> mats;
  if (list == 1 || list == 2) {
    mats.push_back(coloured(list == 1 ? "A" : "B", 10));
    mats.push_back(coloured(list == 1 ? "B" : "A", 20));
  } else if (list == 3) {
    mats.push_back(coloured("Z", 30));
    mats.push_back(coloured("B", 40));
  }
  if (what == 0) {
    um2gm::occ::groupPreservingFragment(obj, tool, out, map, mats);
  } else if (what == 1) {
    um2gm::occ::groupPreservingIntersect(obj, tool, out, map, mats);
  } else {
    um2gm::occ::groupPreservingCut(obj, tool, out, map);
  }
  vx_assert(fake::op == what && fake::op_tag == -1 && fake::op_remove[0] && fake::op_remove[1], "the operation asked for");
  vx_assert(fake::op_objects == obj && fake::op_tools == tool && map == fake::pieces && fake::synchronized, "the operation asked for");
  int const e = vx_int("e", 1, 70);
  bool is[2];
  bool in[2];
  for (int g = 0; g < 2; ++g) {
    is[g] = holds(c, g, e, dim);
    in[g] = !c.group[g].empty() && fake::member(dim, NAMES[c.name[g]], e);
  }
  // the group of the material listed first keeps what both could hold
  for (int g = 0; g < 2; ++g) {
    bool const loses = (list == 1 && c.name[g] == 1 && c.name[1 - g] == 0) || (list == 2 && c.name[g] == 0 && c.name[1 - g] == 1);
    vx_assert(in[g] == (is[g] & !(loses & is[1 - g])), "members after the operation");
    fake::Group const * const p = fake::find(dim, 5 + g);
    vx_assert(c.group[g].empty() || (p != nullptr && p->name == NAMES[c.name[g]]), "groups keep their tags and names");
    if (list != 0 && c.name[g] < 2) {
      int const first = list == 1 ? 0 : 1;
      if (list != 3) {
        colourIs(dim, e, c.name[g] == first ? 10 : 20, in[g]);
      } else if (c.name[g] == 1) {
        colourIs(dim, e, 40, in[g]);
      }
    }
  }
  vx_assert(fake::groups.size() == static_cast<std::size_t>((c.group[0].empty() ? 0 : 1) + (c.group[1].empty() ? 0 : 1)), "no other groups");
}
// @entry h_operate time=300
extern "C" void h_operate() { operate(false); }
// @entry h_hierarchy time=300
extern "C" void h_hierarchy() { operate(true); }
// Longer lists: three material groups that share entities, in any order of preference, with a material the model does not
// have somewhere in the list. Every entity stays with the first listed material that could hold it, and only with that one.
// @entry h_ranked time=300
extern "C" void h_ranked()
{
  quiet(true);
  fake::track = false;
  static int const orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  static int const held[4][3] = {{3, 3, 3}, {1, 3, 2}, {2, 1, 3}, {3, 1, 1}};
  static char const * const names[3] = {"Material_A", "Material_AB", "Material_B"};
  static char const * const short_names[3] = {"A", "AB", "B"};
  int const what = vx_choice("operation", 2);
  int const * const order = orders[vx_choice("order", 6)];
  int const absent = vx_choice("place of the material that is absent", 4);
  int const * const h = held[vx_choice("members", 4)];
  for (int g = 0; g < 3; ++g) {
    std::vector<int> m;
    for (int i = 0; i < 2; ++i) {
      if (((h[g] >> i) & 1) != 0) {
        m.push_back(1 + i);
      }
    }
    addGroup(2, 5 + g, names[g], m);
  }
  fake::pieces.clear();
  fake::pieces.push_back(withDim(2, anyTags(2, 1, 70)));
  fake::pieces.push_back(withDim(2, anyTags(1, 1, 70)));
  std::vector<Material> mats;
  for (int i = 0; i < 4; ++i) {
    if (i == absent) {
      mats.push_back(coloured("Z", 90));
    }
    if (i < 3) {
      mats.push_back(coloured(short_names[order[i]], 10 + 20 * order[i]));
    }
  }
  fake::Pairs out;
  std::vector<fake::Pairs> map;
  if (what == 0) {
    um2gm::occ::groupPreservingFragment({{2, 1}}, {{2, 2}}, out, map, mats);
  } else {
    um2gm::occ::groupPreservingIntersect({{2, 1}}, {{2, 2}}, out, map, mats);
  }
  int const e = vx_int("e", 1, 70);
  bool const in_obj = fake::inPairs(fake::pieces[0], 2, e);
  bool const in_tool = fake::inPairs(fake::pieces[1], 2, e);
  bool taken = false;
  for (int i = 0; i < 3; ++i) {
    int const g = order[i];
    bool const could = (((h[g] & 1) != 0) & in_obj) | (((h[g] & 2) != 0) & in_tool);
    bool const in = could & !taken;
    vx_assert(fake::member(2, names[g], e) == in, "members after the operation");
    colourIs(2, e, 10 + 20 * g, in);
    taken = taken | could;
  }
}
// @entry h_colourless time=60
extern "C" void h_colourless()
{
  quiet(true);
  // nothing to colour
  std::vector<Material> mats;
  mats.push_back(coloured("A", 10));
  um2gm::occ::colorMaterialPhysicalGroupEntities(mats);
  vx_assert(fake::paints.empty(), "nothing to colour");
}
// Entities take the colour of the first listed material they belong to; only the groups of the highest dimension matter, and
// what bounds the entities is coloured with them.
// @entry h_colours time=180
extern "C" void h_colours()
{
  quiet(true);
  static int const lists[4][3] = {{0, 1, -1}, {1, 0, -1}, {1, -1, -1}, {3, 1, 0}};
  int const dim = 2 + vx_choice("dim", 2);
  int const lower = vx_choice("lower groups", dim);
  if (lower > 0) {
    addGroup(lower, 4, NAMES[vx_choice("name", 2)], anyTags(1, 1, 1000));
  }
  std::vector<int> t[2];
  bool const swap = vx_choice("order", 2) == 1;
  for (int i = 0; i < 2; ++i) {
    int const g = swap ? 1 - i : i;
    t[g] = anyTags(1 + vx_choice("members", 2), 1, 1000);
    addGroup(dim, 5 + i, NAMES[g], t[g]);
  }
  addGroup(dim, 9, "Part", anyTags(1, 1, 1000));
  int const * const list = lists[vx_choice("list", 4)];
  std::vector<Material> mats;
  for (int i = 0; i < 3; ++i) {
    if (list[i] >= 0) {
      mats.push_back(coloured(NAMES[list[i]] + 9, 10 + 50 * list[i]));
    }
  }
  um2gm::occ::colorMaterialPhysicalGroupEntities(mats);
  int const e = vx_int("e", 1, 1000);
  bool taken = false;
  for (int i = 0; i < 3; ++i) {
    if (list[i] == 0 || list[i] == 1) {
      bool const in = fake::inList(t[list[i]], e);
      colourIs(dim, e, 10 + 50 * list[i], in & !taken);
      taken = taken | in;
    }
  }
  vx_assert(taken | (fake::colour(dim, e, 0) == -1), "other entities keep their colour");
  for (std::size_t i = 0; i < fake::paints.size(); ++i) {
    vx_assert(fake::paints[i].deep, "boundaries are coloured as well");
  }
}
// @entry h_refuse time=120
extern "C" void h_refuse()
{
  quiet(true);
  int const what = vx_choice("what", 8);
  bool const objects = vx_choice("objects", 2) == 1;
  fake::Pairs good;
  good.push_back({2, 50});
  fake::Pairs bad;
  int const t = vx_int("tag", 1, 40);
  if (what == 1) { // twice
    bad.push_back({2, t});
    bad.push_back({2, t});
  } else if (what == 2) { // mixed
    bad.push_back({2, t});
    bad.push_back({3, t});
  } else if (what == 3) { // unsorted
    bad.push_back({2, t + 1});
    bad.push_back({2, t});
  } else if (what == 4) { // other dimension
    bad.push_back({3, t});
  } else if (what == 5) {
    bad.push_back({1, t});
    good[0].first = 1;
  } else if (what == 6) {
    bad.push_back({0, t});
    good[0].first = 0;
  } else if (what == 7) { // unsorted
    bad.push_back({3, t});
    bad.push_back({2, t});
  }
  fake::Pairs out;
  std::vector<fake::Pairs> map;
  fake::pieces.resize(4);
  vx_allow_exit(true);
  int const op = vx_choice("operation", 3);
  fake::Pairs const & o = objects ? bad : good;
  fake::Pairs const & u = objects ? good : bad;
  if (op == 0) {
    um2gm::occ::groupPreservingFragment(o, u, out, map);
  } else if (op == 1) {
    um2gm::occ::groupPreservingIntersect(o, u, out, map);
  } else {
    um2gm::occ::groupPreservingCut(o, u, out, map);
  }
  vx_never("refused");
}
// The surface is the ring between two circles
static void isRing(int tag, double x, double y, double r, double hole)
{
  fake::Shape const & s = fake::shapeOf(2, tag);
  vx_assert(s.parts.size() == (hole > 0 ? 2 : 1), "rings and discs");
  for (std::size_t k = 0; k < s.parts.size(); ++k) {
    fake::Shape const & l = fake::shapeOf(1, s.parts[k]);
    vx_assert(l.parts.size() == 1, "rings and discs");
    fake::Shape const & c = fake::shapeOf(0, l.parts[0]);
    vx_near(c.v[0], x, 1e-9, "centre");
    vx_near(c.v[1], y, 1e-9, "centre");
    vx_near(c.v[2], 0, 1e-9, "centre");
    vx_near(c.v[3], k == 0 ? r : hole, 1e-9, "radius");
  }
}
// @entry h_pin mode=real time=180
extern "C" void h_pin()
{
  quiet(true);
  um2::Vec2F p;
  p[0] = vx_real("x", -100, 100);
  p[1] = vx_real("y", -100, 100);
  Int const n = 1 + vx_choice("rings", 3);
  Vector<Float> radii(n);
  Vector<Material> mats(n);
  static char const * const names[2] = {"A", "B"};
  int name[3] = {0, 0, 0};
  double at = 0;
  for (Int i = 0; i < n; ++i) {
    radii[i] = vx_real("r", 0.01, 10);
    vx_assume(radii[i] > at);
    at = radii[i];
    name[i] = vx_choice("material", 2);
    mats[i] = coloured(names[name[i]], 10 + 50 * name[i]);
  }
  if (vx_choice("present", 2) == 1) {
    std::vector<int> tags;
    tags.push_back(3);
    addGroup(2, 1, "Material_B", tags);
  }
  bool const present = !fake::groups.empty();
  Vector<Int> const tags = um2gm::occ::addCylindricalPin2D(p, radii, mats);
  vx_assert(tags.size() == n && fake::synchronized, "one surface per ring");
  for (Int i = 0; i < n; ++i) {
    isRing(tags[i], p[0], p[1], radii[i], i == 0 ? 0 : radii[i - 1]);
    colourIs(2, tags[i], 10 + 50 * name[i], true);
    vx_assert(fake::member(2, "Material_A", tags[i]) == (name[i] == 0) && fake::member(2, "Material_B", tags[i]) == (name[i] == 1), "material of the ring");
  }
  vx_assert(fake::member(2, "Material_B", 3) == present, "material of other entities");
}
// @entry h_badpin mode=real time=60
extern "C" void h_badpin()
{
  quiet(true);
  um2::Vec2F p;
  p[0] = 0;
  p[1] = 0;
  int const what = vx_choice("what", 5);
  Vector<Float> radii;
  Vector<Material> mats;
  for (Int i = 0; i < (what == 0 ? 0 : (what == 1 ? 1 : (what == 2 ? 3 : 2))); ++i) {
    mats.push_back(coloured("A", 10));
  }
  if (what != 0) {
    radii.push_back(vx_real("r0", -10, 10));
    radii.push_back(vx_real("r1", -10, 10));
    vx_assume(what == 3 ? radii[0] <= 0 : radii[0] > 0);
    vx_assume(what == 4 ? radii[1] < radii[0] : radii[1] > radii[0]);
  }
  vx_allow_exit(true);
  um2gm::occ::addCylindricalPin2D(p, radii, mats);
  vx_never("refused");
}
// @entry h_lattice mode=real time=240
extern "C" void h_lattice()
{
  quiet(true);
  Int const nr = 1 + vx_choice("rows", 2);
  Int const nc = 1 + vx_choice("columns", 2);
  double const w = vx_real("w", 0.5, 5);
  double const h = vx_real("h", 0.5, 5);
  static Int const counts[6][2] = {{1, 0}, {1, 1}, {1, 2}, {0, 2}, {0, 4}, {1, 3}};
  Int const * const rings = counts[vx_choice("rings", 6)];
  double const r0 = vx_real("r0", 0.01, 0.2);
  double const r1 = vx_real("r1", 0.01, 0.2);
  vx_assume(r0 < r1);
  double const rs[4] = {r0, r1, r1 + 0.02, r1 + 0.04};
  Vector<um2::Vec2F> xy(2, ext(w, h));
  Vector<Vector<Float>> radii(2);
  Vector<Vector<Material>> mats(2);
  if (rings[0] == 1) {
    radii[0].push_back(r1);
    mats[0].push_back(coloured("A", 10));
  }
  for (Int k = 0; k < rings[1]; ++k) {
    radii[1].push_back(rs[k]);
    mats[1].push_back(coloured(k == 0 ? "B" : "A", k == 0 ? 60 : 10));
  }
  Int ids[4] = {0, 0, 0, 0};
  Int num = 0;
  for (Int i = 0; i < nr * nc; ++i) {
    ids[i] = vx_choice("pin", 2);
    num += rings[ids[i]];
  }
  um2::Vec2F off;
  off[0] = vx_real("ox", -10, 10);
  off[1] = vx_real("oy", -10, 10);
  Vector<Int> const tags = um2gm::occ::addCylindricalPinLattice2D(makeMap(nr, nc, ids), xy, radii, mats, off);
  vx_assert(tags.size() == num && fake::synchronized, "one surface per ring");
  // surfaces come by kind of pin, from the lowest row up
  Int at = 0;
  for (Int kind = 0; kind < 2; ++kind) {
    for (Int j = 0; j < nr; ++j) {
      for (Int i = 0; i < nc; ++i) {
        if (ids[(nr - 1 - j) * nc + i] != kind) {
          continue;
        }
        double const x = (i + 0.5) * w + off[0];
        double const y = (j + 0.5) * h + off[1];
        for (Int k = 0; k < rings[kind]; ++k) {
          Int const t = tags[at++];
          double const r = kind == 0 ? r1 : rs[k];
          isRing(t, x, y, r, k == 0 ? 0 : rs[k - 1]);
          bool const b = kind == 1 && k == 0;
          colourIs(2, t, b ? 60 : 10, true);
          vx_assert(fake::member(2, "Material_A", t) == !b && fake::member(2, "Material_B", t) == b, "material of the ring");
        }
      }
    }
  }
}
// @entry h_badlattice time=60
extern "C" void h_badlattice()
{
  quiet(true);
  int const what = vx_choice("what", 6);
  Vector<um2::Vec2F> xy(what == 2 ? 1 : 2, ext(1, 1));
  Vector<Vector<Float>> radii(2);
  Vector<Vector<Material>> mats(what == 1 ? 1 : 2);
  if (what == 0) {
    radii.clear();
  }
  for (Int i = 0; i < radii.size(); ++i) {
    radii[i].push_back(0.25);
  }
  for (Int i = 0; i < mats.size(); ++i) {
    mats[i].push_back(coloured("A", 10));
  }
  Vector<Vector<Int>> ids(2, Vector<Int>(2, 0));
  Int const at = vx_choice("place", 4);
  if (what == 3) {
    ids[at % 2].push_back(0);
  } else if (what == 4) {
    ids[at / 2][at % 2] = vx_int("id", -100, -1);
  } else if (what == 5) {
    ids[at / 2][at % 2] = vx_int("id", 2, 100);
  }
  um2::Vec2F off;
  off[0] = 0;
  off[1] = 0;
  vx_allow_exit(true);
  um2gm::occ::addCylindricalPinLattice2D(ids, xy, radii, mats, off);
  vx_never("refused");
}

// Rectangles of coarse cells over a model of two entities: entity 0 and 1, then the rectangles of cell 0 and 1
static bool nearly(double a, double b) { return (a - b < 1e-6) & (b - a < 1e-6); }
// Is the shape put where the cell occurs in the model?
static bool placed(Plan const & p, Int cell, double const * v, bool box)
{
  double const w = p.wa + p.wb;
  bool found = false;
  for (Int iy = 0; iy < p.cr; ++iy) {
    for (Int ix = 0; ix < p.cc; ++ix) {
      Int const a = p.asy[(p.cr - 1 - iy) * p.cc + ix];
      for (Int k = 0; k < slicesOf(p, a); ++k) {
        Int const l = latticeOf(p, a, k);
        double const z = (lowOf(p, a, k) + highOf(p, a, k)) / 2;
        double const dz = (highOf(p, a, k) - lowOf(p, a, k)) / 2;
        for (Int j = 0; j < p.nr; ++j) {
          for (Int i = 0; i < p.nc; ++i) {
            Int const r = p.lat[l][(p.nr - 1 - j) * p.nc + i];
            for (Int m = 0; m < 2; ++m) {
              if (cellOf(r, m) == cell) {
                double const x = (ix * p.nc + i) * w + (m == 0 ? 0 : (cell == 0 ? p.wb : p.wa));
                double const y = (iy * p.nr + j) * p.h;
                found = found | (nearly(v[0], x) & nearly(v[1], y) & nearly(v[2], z) & nearly(v[3], cell == 0 ? p.wa : p.wb) & nearly(v[4], p.h) &
                                 (!box || nearly(v[5], dz)));
              }
            }
          }
        }
      }
    }
  }
  return found;
}
static void overlayModel(Model & m, Plan & p)
{
  shape2(vx_choice("lattice shape", 3), p.nr, p.nc);
  shape2(vx_choice("core shape", 3), p.cr, p.cc);
  Int const part = vx_choice("part", 3);
  p.slices = 1 + part % 2;
  p.lat[0][0] = part == 0 ? 1 : 0;
  p.lats[0] = part == 2 ? 1 : 0;
  p.asy[1] = part == 1 ? 1 : 0;
  m.addMaterial(makeMaterial("A", 1), false);
  m.addMaterial(makeMaterial("B", 2), false);
  addParts(m, p);
}
static void modelEntities(int dim, bool fill_known)
{
  for (int i = 0; i < 2; ++i) {
    fake::addEnt(dim, 1 + i);
    std::vector<int> tags;
    tags.push_back(1 + i);
    addGroup(dim, 3 + i, i == 0 && fill_known ? "Material_Fill" : NAMES[i], tags);
    fake::Paint q;
    q.on.push_back({dim, 1 + i});
    for (int c = 0; c < 4; ++c) {
      q.c[c] = (i == 0 && fill_known ? 90 : 10 + 20 * i) + c;
    }
    fake::paints.push_back(q);
  }
}
static char const * const CELLS[2] = {"Coarse_Cell_00000", "Coarse_Cell_00001"};
// @entry h_overlay mode=real time=240
extern "C" void h_overlay()
{
  quiet(true);
  Model m;
  Plan p;
  p.wa = vx_real("wa", 0.5, 5);
  p.wb = vx_real("wb", 0.5, 5);
  p.h = vx_real("h", 0.5, 5);
  p.z[1] = vx_real("z1", 1, 5);
  p.z[2] = p.z[1] + 2;
  overlayModel(m, p);
  modelEntities(2, false);
  fake::pieces.resize(4);
  for (int i = 0; i < 4; ++i) {
    fake::pieces[static_cast<std::size_t>(i)].push_back({2, 200 + i});
  }
  um2gm::occ::overlayCoarseGrid(m, coloured("Fill", 90));
  vx_assert(fake::op == 0 && fake::op_objects.size() == 2 && fake::op_tools.size() == 2, "entities cut by the cells");
  int n = 0;
  for (std::size_t i = 0; i < fake::shapes.size(); ++i) {
    fake::Shape const & s = fake::shapes[i];
    vx_assert(s.kind == 3 && n < 2 && placed(p, n, s.v, false), "rectangles where the cells are");
    vx_assert(fake::member(2, CELLS[n], 202 + n) && !fake::member(2, CELLS[1 - n], 202 + n), "pieces of the cell");
    ++n;
  }
  vx_assert(n == 2, "one rectangle per cell");
}
// The second cell occurs once in the whole core: at one place of one module, of one lattice, of one slice, of one assembly
// @entry h_far mode=real time=240
extern "C" void h_far()
{
  quiet(true);
  Model m;
  double const w = vx_real("w", 0.5, 5);
  double const h = vx_real("h", 0.5, 5);
  double const z1 = vx_real("z1", 1, 5);
  double const z2 = z1 + vx_real("dz", 1, 5);
  m.addMaterial(makeMaterial("A", 1), false);
  m.addMaterial(makeMaterial("B", 2), false);
  m.addRectangularPinMesh(ext(w, h), 1, 1);
  for (int i = 0; i < 2; ++i) {
    m.addCoarseCell(ext(w, h), MeshType::Quad, 0, Vector<MatID>(1, static_cast<MatID>(i)));
  }
  // rows are written from the top
  Int const shape = vx_choice("shape", 2);
  Int const nr = 2;
  Int const nc = 1 + shape;
  Int at[3]; // in the module, the lattice, the core
  for (int k = 0; k < 3; ++k) {
    at[k] = vx_choice("place", 2 * nc);
    Int ids[2][4] = {{0, 0, 0, 0}, {0, 0, 0, 0}};
    ids[1][at[k]] = 1;
    if (k == 0) {
      m.addRTM(makeMap(nr, nc, ids[0]));
      m.addRTM(makeMap(nr, nc, ids[1]));
    } else if (k == 1) {
      m.addLattice(makeMap(nr, nc, ids[0]));
      m.addLattice(makeMap(nr, nc, ids[1]));
    } else {
      Vector<double> z(2);
      z[0] = 0;
      z[1] = z2 + 1;
      // either assembly comes first
      bool const swap = vx_choice("swap", 2) == 1;
      if (!swap) {
        m.addAssembly(Vector<Int>(1, 0), z);
      }
      Vector<double> const whole = z;
      z.clear();
      double const planes[4] = {0, z1, z2, z2 + 1};
      Int const slice = vx_choice("slice", 3);
      Vector<Int> lats(3, 0);
      lats[slice] = 1;
      for (int i = 0; i < 4; ++i) {
        z.push_back(planes[i]);
      }
      m.addAssembly(lats, z);
      if (swap) {
        m.addAssembly(Vector<Int>(1, 0), whole);
        for (int i = 0; i < 4; ++i) {
          ids[1][i] = 1 - ids[1][i];
        }
      }
      m.addCore(makeMap(nr, nc, ids[1]));
      modelEntities(2, false);
      fake::pieces.resize(4);
      for (int i = 0; i < 4; ++i) {
        fake::pieces[static_cast<std::size_t>(i)].push_back({2, 200 + i});
      }
      um2gm::occ::overlayCoarseGrid(m, coloured("Fill", 90));
      double x = 0;
      double y = 0;
      double scale = 1;
      for (int l = 0; l < 3; ++l) {
        x += scale * (at[l] % nc);
        y += scale * (nr - 1 - at[l] / nc);
        scale *= 2;
      }
      // one column has the width of one cell
      x = nc == 1 ? 0 : x;
      vx_assert(fake::shapes.size() == 2, "one rectangle per cell");
      double const * const v = fake::shapes[1].v;
      vx_near(v[0], x * w, 1e-6, "rectangle where the cell is");
      vx_near(v[1], y * h, 1e-6, "rectangle where the cell is");
      vx_near(v[2], (planes[slice] + planes[slice + 1]) / 2, 1e-6, "rectangle where the cell is");
      vx_assert(nearly(v[3], w) && nearly(v[4], h), "rectangle where the cell is");
    }
  }
}
// What is left belongs to a cell and to the material of the entity, or else to the filling one
// @entry h_pieces time=240
extern "C" void h_pieces()
{
  quiet(true);
  Model m;
  Plan p;
  m.addMaterial(makeMaterial("A", 1), false);
  m.addMaterial(makeMaterial("B", 2), false);
  addParts(m, p);
  bool const known = vx_choice("fill known", 2) == 1;
  modelEntities(2, known);
  fake::pieces.resize(4);
  int mask[3];
  mask[0] = 1 + vx_choice("first", 15);
  mask[1] = 1 + vx_choice("second", 15);
  mask[2] = 4;
  for (int k = 0; k < 3; ++k) {
    for (std::size_t i = 0; i < 4; ++i) {
      if ((mask[k] >> i & 1) != 0) {
        fake::pieces[i].push_back({2, 203 - k});
      }
    }
  }
  um2gm::occ::overlayCoarseGrid(m, coloured("Fill", 90));
  char const * const first = known ? "Material_Fill" : "Material_A";
  for (int k = 0; k < 3; ++k) {
    int const e = 203 - k;
    bool const cell = (mask[k] & 12) != 0;
    vx_assert(fake::inPairs(fake::ents, 2, e) == cell, "only cells are left");
    if (!cell) {
      continue;
    }
    vx_assert(fake::member(2, CELLS[0], e) == ((mask[k] & 4) != 0) && fake::member(2, CELLS[1], e) == ((mask[k] & 8) != 0), "pieces of the cell");
    bool const a = (mask[k] & 1) != 0;
    bool const b = (mask[k] & 2) != 0;
    // a material of the model comes before the filling one
    bool const inb = b && (known || !a);
    vx_assert(fake::member(2, "Material_B", e) == inb, "material of the entity");
    vx_assert(fake::member(2, first, e) == (known ? !inb : a), "material of the entity");
    if (!known) {
      vx_assert(fake::member(2, "Material_Fill", e) == (!a && !b), "filling material elsewhere");
    }
    colourIs(2, e, inb ? 30 : (a && !known ? 10 : 90), true);
  }
}
// The same for a model of volumes, which ends as faces
// @entry h_volumes mode=real time=240
extern "C" void h_volumes()
{
  quiet(true);
  Model m;
  Plan p;
  p.wa = vx_real("wa", 0.5, 5);
  p.wb = vx_real("wb", 0.5, 5);
  p.h = vx_real("h", 0.5, 5);
  p.z[1] = vx_real("z1", 1, 5);
  p.z[2] = p.z[1] + 2;
  overlayModel(m, p);
  modelEntities(3, false);
  // volumes: 21 of the first entity in cell 0, 22 of the second in cell 1, 23 of the second outside, 24 of cell 1 alone
  fake::pieces.resize(4);
  fake::pieces[0].push_back({3, 21});
  fake::pieces[1].push_back({3, 22});
  fake::pieces[1].push_back({3, 23});
  fake::pieces[2].push_back({3, 21});
  fake::pieces[3].push_back({3, 22});
  fake::pieces[3].push_back({3, 24});
  // faces 7 42 43 44 45 48 49 and the two rectangles
  fake::later.resize(9);
  int const hit = vx_choice("face in the plane", 7);
  int const rect = vx_choice("rectangle", 2);
  fake::later[static_cast<std::size_t>(hit)].push_back({2, 301});
  fake::later[static_cast<std::size_t>(7 + rect)].push_back({2, 301});
  fake::later[static_cast<std::size_t>((hit + 1) % 7)].push_back({2, 302});
  um2gm::occ::overlayCoarseGrid(m, coloured("Fill", 90));
  static int const faces[7] = {7, 42, 43, 44, 45, 48, 49};
  vx_assert(fake::op == 1 && fake::op_objects.size() == 7 && fake::op_tools.size() == 2, "faces cut by the cells");
  for (std::size_t i = 0; i < 7; ++i) {
    vx_assert(fake::op_objects[i].first == 2 && fake::op_objects[i].second == faces[i], "faces cut by the cells");
  }
  int n = 0;
  for (std::size_t i = 0; i < fake::shapes.size(); ++i) {
    fake::Shape const & s = fake::shapes[i];
    vx_assert(s.kind == (n < 2 ? 4 : 3) && n < 4 && placed(p, n % 2, s.v, n < 2), "boxes and rectangles where the cells are");
    ++n;
  }
  vx_assert(n == 4, "one box and one rectangle per cell");
  vx_assert(fake::ents.size() == 1 && fake::inPairs(fake::ents, 2, 301), "only faces of cells are left");
  int const f = faces[hit];
  bool const all = f == 7;
  vx_assert(fake::member(2, CELLS[0], 301) == (all || f / 2 == 21), "faces of the cell");
  vx_assert(fake::member(2, CELLS[1], 301) == (all || f / 2 == 22 || f / 2 == 24), "faces of the cell");
  bool const a = all || f / 2 == 21;
  vx_assert(fake::member(2, "Material_A", 301) == a, "material of the volume");
  vx_assert(fake::member(2, "Material_B", 301) == (!a && f / 2 == 22), "material of the volume");
  vx_assert(fake::member(2, "Material_Fill", 301) == (!a && f / 2 == 24), "filling material elsewhere");
}
