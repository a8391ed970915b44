#pragma once
// @src src/gmsh/base_gmsh_api.cpp
// @native -Wl,--unresolved-symbols=ignore-all -Wl,-z,lazy -lpugixml -lhdf5_serial -lhdf5_serial_cpp
#include <fstream>
#include <gmsh.h>
#include <string>
#include <utility>
#include <vector>
// A stand-in for the meshing library which keeps entities, physical groups, colours and shapes, as documented for the
// library: entities are listed by dimension and tag, groups without entities do not exist, a group lists its entities by tag.
namespace fake
{
// holds whenever the stand-in is asked
static void need(bool c, char const * what) { vx_assert(c, what); }
using Pairs = std::vector<std::pair<int, int>>;
struct Group {
  int dim;
  int tag;
  std::string name;
  std::vector<int> tags;
};
struct Paint {
  Pairs on;
  int c[4];
  bool deep;
};
struct Shape {
  int kind; // 0 circle, 1 loop, 2 surface, 3 rectangle, 4 box
  int tag;
  double v[6];
  std::vector<int> parts;
};
static std::vector<Group> groups;
static Pairs ents;
static std::vector<Paint> paints;
static std::vector<Shape> shapes;
static int next_tag = 100;
// what the next operation on shapes makes of its objects and tools
static std::vector<Pairs> pieces;
// and the one after that
static std::vector<Pairs> later;
static int ops = 0;
// entities are followed
static bool track = true;
static Pairs op_objects;
static Pairs op_tools;
static int op = -1; // 0 fragment, 1 intersect, 2 cut
static int op_tag = 0;
static bool op_remove[2] = {false, false};
static bool synchronized = true;
static Pairs removed;
static bool before(std::pair<int, int> const & a, std::pair<int, int> const & b)
{
  return a.first < b.first || (a.first == b.first && a.second < b.second);
}
static void addEnt(int dim, int tag)
{
  std::pair<int, int> const e(dim, tag);
  std::size_t i = 0;
  while (i < ents.size() && before(ents[i], e)) {
    ++i;
  }
  if (i == ents.size() || before(e, ents[i])) {
    ents.insert(ents.begin() + static_cast<long>(i), e);
  }
}
static void delEnt(int dim, int tag)
{
  for (std::size_t i = 0; i < ents.size(); ++i) {
    if (ents[i].first == dim && ents[i].second == tag) {
      ents.erase(ents.begin() + static_cast<long>(i));
      return;
    }
  }
}
// Faces of a volume: two of its own and one that all volumes share
static std::vector<int> facesOf(int volume) { return {7, 2 * volume, 2 * volume + 1}; }
static bool inList(std::vector<int> const & v, int tag)
{
  bool r = false;
  for (std::size_t i = 0; i < v.size(); ++i) {
    r = r | (v[i] == tag);
  }
  return r;
}
static bool inPairs(Pairs const & v, int dim, int tag)
{
  bool r = false;
  for (std::size_t i = 0; i < v.size(); ++i) {
    r = r | ((v[i].first == dim) & (v[i].second == tag));
  }
  return r;
}
static Group * find(int dim, int tag)
{
  for (std::size_t i = 0; i < groups.size(); ++i) {
    if (groups[i].dim == dim && groups[i].tag == tag) {
      return &groups[i];
    }
  }
  return nullptr;
}
static Group * named(int dim, char const * name)
{
  for (std::size_t i = 0; i < groups.size(); ++i) {
    if (groups[i].dim == dim && groups[i].name == name) {
      return &groups[i];
    }
  }
  return nullptr;
}
static bool member(int dim, char const * name, int tag)
{
  Group const * const g = named(dim, name);
  return g != nullptr && inList(g->tags, tag);
}
// Colour painted last, or -1
static int colour(int dim, int tag, int channel)
{
  int r = -1;
  for (std::size_t i = 0; i < paints.size(); ++i) {
    r = inPairs(paints[i].on, dim, tag) ? paints[i].c[channel] : r;
  }
  return r;
}
static int shape(int kind, std::vector<int> const & parts, double a = 0, double b = 0, double c = 0, double d = 0, double e = 0, double f = 0)
{
  Shape s;
  s.kind = kind;
  s.tag = next_tag++;
  s.v[0] = a;
  s.v[1] = b;
  s.v[2] = c;
  s.v[3] = d;
  s.v[4] = e;
  s.v[5] = f;
  s.parts = parts;
  shapes.push_back(s);
  synchronized = false;
  if (kind >= 2) {
    addEnt(kind == 4 ? 3 : 2, s.tag);
  }
  return s.tag;
}
static Shape const & shapeOf(int kind, int tag)
{
  for (std::size_t i = 0; i < shapes.size(); ++i) {
    if (shapes[i].kind == kind && shapes[i].tag == tag) {
      return shapes[i];
    }
  }
  vx_never("shapes are made of known shapes");
  return shapes[0];
}
static void operate(int what, Pairs const & objects, Pairs const & tools, Pairs & out, std::vector<Pairs> & map, int tag, bool ro, bool rt)
{
  op = what;
  op_objects = objects;
  op_tools = tools;
  op_tag = tag;
  op_remove[0] = ro;
  op_remove[1] = rt;
  ++ops;
  if (ops == 2 && !later.empty()) {
    pieces = later;
  }
  map = pieces;
  out.clear();
  synchronized = false;
  if (!track) {
    return;
  }
  for (std::size_t i = 0; i < objects.size() && ro; ++i) {
    delEnt(objects[i].first, objects[i].second);
  }
  for (std::size_t i = 0; i < tools.size() && rt; ++i) {
    delEnt(tools[i].first, tools[i].second);
  }
  for (std::size_t i = 0; i < pieces.size(); ++i) {
    for (std::size_t j = 0; j < pieces[i].size(); ++j) {
      addEnt(pieces[i][j].first, pieces[i][j].second);
      if (pieces[i][j].first == 3) {
        std::vector<int> const f = facesOf(pieces[i][j].second);
        for (std::size_t k = 0; k < f.size(); ++k) {
          addEnt(2, f[k]);
        }
      }
      out.push_back(pieces[i][j]);
    }
  }
}
} // namespace fake
namespace gmsh
{
// Files keep the shapes and nothing else; shapes read are numbered afresh in their order
void write(const std::string & fileName)
{
  std::ofstream f(fileName);
  f << "shapes";
}
void open(const std::string & fileName)
{
  fake::groups.clear();
  fake::paints.clear();
  int next[4] = {1, 1, 1, 1};
  for (std::size_t i = 0; i < fake::ents.size(); ++i) {
    fake::ents[i].second = next[fake::ents[i].first]++;
  }
}
namespace model
{
void getPhysicalGroups(vectorpair & dimTags, const int dim)
{
  dimTags.clear();
  for (std::size_t i = 0; i < fake::groups.size(); ++i) {
    fake::Group const & g = fake::groups[i];
    if ((dim < 0 || g.dim == dim) && !g.tags.empty()) {
      dimTags.push_back({g.dim, g.tag});
    }
  }
}
void getPhysicalName(const int dim, const int tag, std::string & name)
{
  fake::Group const * const g = fake::find(dim, tag);
  name = g == nullptr ? std::string() : g->name;
}
void getEntitiesForPhysicalGroup(const int dim, const int tag, std::vector<int> & tags)
{
  fake::Group const * const g = fake::find(dim, tag);
  fake::need(g != nullptr, "groups asked for exist");
  tags = g->tags;
}
int addPhysicalGroup(const int dim, const std::vector<int> & tags, const int tag, const std::string & name)
{
  int t = tag;
  if (t < 0) {
    t = 1;
    for (std::size_t i = 0; i < fake::groups.size(); ++i) {
      if (fake::groups[i].dim == dim && fake::groups[i].tag >= t) {
        t = fake::groups[i].tag + 1;
      }
    }
  }
  fake::need(fake::find(dim, t) == nullptr, "groups are made once");
  fake::need(fake::synchronized, "groups are made of known entities");
  fake::Group g;
  g.dim = dim;
  g.tag = t;
  g.name = name;
  for (std::size_t i = 0; i < tags.size(); ++i) {
    std::size_t j = 0;
    while (j < g.tags.size() && g.tags[j] < tags[i]) {
      ++j;
    }
    if (j == g.tags.size() || g.tags[j] != tags[i]) {
      g.tags.insert(g.tags.begin() + static_cast<long>(j), tags[i]);
    }
  }
  std::size_t k = 0;
  while (k < fake::groups.size() && fake::before({fake::groups[k].dim, fake::groups[k].tag}, {dim, t})) {
    ++k;
  }
  fake::groups.insert(fake::groups.begin() + static_cast<long>(k), g);
  return t;
}
void removePhysicalGroups(const vectorpair & dimTags)
{
  if (dimTags.empty()) {
    fake::groups.clear();
  }
  for (std::size_t i = 0; i < dimTags.size(); ++i) {
    for (std::size_t j = 0; j < fake::groups.size(); ++j) {
      if (fake::groups[j].dim == dimTags[i].first && fake::groups[j].tag == dimTags[i].second) {
        fake::groups.erase(fake::groups.begin() + static_cast<long>(j));
        break;
      }
    }
  }
}
void getEntities(vectorpair & dimTags, const int dim)
{
  dimTags.clear();
  for (std::size_t i = 0; i < fake::ents.size(); ++i) {
    if (dim < 0 || fake::ents[i].first == dim) {
      dimTags.push_back(fake::ents[i]);
    }
  }
}
void removeEntities(const vectorpair & dimTags, const bool recursive)
{
  for (std::size_t i = 0; i < dimTags.size(); ++i) {
    fake::delEnt(dimTags[i].first, dimTags[i].second);
    if (recursive && dimTags[i].first == 3) {
      fake::delEnt(2, 2 * dimTags[i].second);
      fake::delEnt(2, 2 * dimTags[i].second + 1);
    }
    fake::removed.push_back(dimTags[i]);
    for (std::size_t j = 0; j < fake::groups.size(); ++j) {
      std::vector<int> & t = fake::groups[j].tags;
      for (std::size_t k = 0; k < t.size(); ++k) {
        if (fake::groups[j].dim == dimTags[i].first && t[k] == dimTags[i].second) {
          t.erase(t.begin() + static_cast<long>(k));
          break;
        }
      }
    }
  }
}
void getAdjacencies(const int dim, const int tag, std::vector<int> & upward, std::vector<int> & downward)
{
  fake::need(dim >= 1, "faces of shapes");
  upward.clear();
  downward = fake::facesOf(tag);
}
void setColor(const vectorpair & dimTags, const int r, const int g, const int b, const int a, const bool recursive)
{
  fake::Paint p;
  p.on = dimTags;
  p.c[0] = r;
  p.c[1] = g;
  p.c[2] = b;
  p.c[3] = a;
  p.deep = recursive;
  fake::paints.push_back(p);
}
void getColor(const int dim, const int tag, int & r, int & g, int & b, int & a)
{
  r = fake::colour(dim, tag, 0);
  g = fake::colour(dim, tag, 1);
  b = fake::colour(dim, tag, 2);
  a = fake::colour(dim, tag, 3);
  // the library's default
  if (r < 0) {
    r = 0;
    g = 0;
    b = 255;
    a = 0;
  }
}
namespace occ
{
int addCircle(const double x, const double y, const double z, const double r, const int tag, const double angle1, const double angle2, const std::vector<double> & zAxis, const std::vector<double> & xAxis)
{
  fake::need(tag == -1 && zAxis.empty() && xAxis.empty() && angle1 == 0 && angle2 > 6.28 && angle2 < 6.29, "whole circles in the plane");
  return fake::shape(0, {}, x, y, z, r);
}
int addCurveLoop(const std::vector<int> & curveTags, const int tag)
{
  fake::need(tag == -1, "tags are given by the library");
  return fake::shape(1, curveTags);
}
int addPlaneSurface(const std::vector<int> & wireTags, const int tag)
{
  fake::need(tag == -1, "tags are given by the library");
  return fake::shape(2, wireTags);
}
int addRectangle(const double x, const double y, const double z, const double dx, const double dy, const int tag, const double roundedRadius)
{
  fake::need(tag == -1 && roundedRadius == 0, "sharp rectangles");
  return fake::shape(3, {}, x, y, z, dx, dy);
}
int addBox(const double x, const double y, const double z, const double dx, const double dy, const double dz, const int tag)
{
  fake::need(tag == -1, "tags are given by the library");
  return fake::shape(4, {}, x, y, z, dx, dy, dz);
}
void synchronize() { fake::synchronized = true; }
void fragment(const vectorpair & objectDimTags, const vectorpair & toolDimTags, vectorpair & outDimTags, std::vector<vectorpair> & outDimTagsMap, const int tag, const bool removeObject, const bool removeTool)
{
  fake::operate(0, objectDimTags, toolDimTags, outDimTags, outDimTagsMap, tag, removeObject, removeTool);
}
void intersect(const vectorpair & objectDimTags, const vectorpair & toolDimTags, vectorpair & outDimTags, std::vector<vectorpair> & outDimTagsMap, const int tag, const bool removeObject, const bool removeTool)
{
  fake::operate(1, objectDimTags, toolDimTags, outDimTags, outDimTagsMap, tag, removeObject, removeTool);
}
void cut(const vectorpair & objectDimTags, const vectorpair & toolDimTags, vectorpair & outDimTags, std::vector<vectorpair> & outDimTagsMap, const int tag, const bool removeObject, const bool removeTool)
{
  fake::operate(2, objectDimTags, toolDimTags, outDimTags, outDimTagsMap, tag, removeObject, removeTool);
}
void remove(const vectorpair & dimTags, const bool recursive) { fake::synchronized = false; }
} // namespace occ
} // namespace model
} // namespace gmsh
