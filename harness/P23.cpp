// Polytope soup edits
// @src src/mesh/polytope_soup.cpp src/common/logger.cpp src/common/settings.cpp
// @config UM2_USE_HDF5=0 UM2_USE_PUGIXML=0
// @bounds soups of 1 to 3 elements of every supported kind over up to 12 vertices, every vertex position and data value, every set membership, up to 3 sets (with or without data), two soups appended (either may lack elements or sets)
// @outside larger soups; appending a soup to itself; appending same-named sets of which only one carries data; element lists whose length disagrees with their kind
#include "vrt.hpp"
#include <um2/mesh/polytope_soup.hpp>
#include "quiet.inc"
#include <um2/stdlib/vector.hpp>
using um2::PolytopeSoup;
using um2::String;
using um2::Vector;
using um2::VTKElemType;

static VTKElemType const kinds[7] = {VTKElemType::Triangle,          VTKElemType::Quad,  VTKElemType::QuadraticTriangle,
                                     VTKElemType::QuadraticQuad,     VTKElemType::Line,  VTKElemType::QuadraticEdge,
                                     VTKElemType::Vertex};
static Int const sizes[7] = {3, 4, 6, 8, 2, 3, 1};

// What a soup should hold, kept apart from it
struct Ref {
  Int nv = 0;
  double x[24];
  double y[24];
  double z[24];
  Int ne = 0;
  Int kind[6];
  Int conn[6][8];
  Int ns = 0;
  char name[6];
  unsigned mask[6]; // members by element number
  bool has[6];
  double data[6][6]; // by element number
};
static String nameOf(char c)
{
  char s[6] = {'s', 'e', 't', '_', c, 0};
  return String(&s[0]);
}
static void addElement(PolytopeSoup & s, Ref & r, Int kind, Int start, Int step)
{
  Vector<Int> c;
  for (Int j = 0; j < sizes[kind]; ++j) {
    r.conn[r.ne][j] = (start + j * step) % r.nv;
    c.push_back(r.conn[r.ne][j]);
  }
  r.kind[r.ne] = kind;
  vx_assert(s.addElement(kinds[kind], c) == r.ne, "elements are numbered in order");
  ++r.ne;
}
static void addVertices(PolytopeSoup & s, Ref & r, Int n)
{
  for (Int i = 0; i < n; ++i) {
    double const x = vx_real("x", -10, 10);
    r.x[r.nv] = x;
    r.y[r.nv] = x + i;
    r.z[r.nv] = -x;
    Int const id = (i & 1) != 0 ? s.addVertex(x, x + i, -x) : s.addVertex(um2::Point3F(x, x + i, -x));
    vx_assert(id == r.nv, "vertices are numbered in order");
    ++r.nv;
  }
}
static void addSet(PolytopeSoup & s, Ref & r, char c, unsigned mask, bool has)
{
  Vector<Int> ids;
  Vector<Float> data;
  for (Int e = 0; e < r.ne; ++e) {
    if ((mask >> e & 1U) != 0) {
      ids.push_back(e);
      if (has) {
        r.data[r.ns][e] = vx_real("data", -10, 10);
        data.push_back(r.data[r.ns][e]);
      }
    }
  }
  r.name[r.ns] = c;
  r.mask[r.ns] = mask;
  r.has[r.ns] = has;
  vx_assert(s.addElset(nameOf(c), ids, data) == r.ns, "sets are numbered in order");
  ++r.ns;
}
// The soup holds what it should: elements by position, sets by name
static void holds(PolytopeSoup const & s, Ref const & r, bool by_number)
{
  vx_assert(s.numVertices() == r.nv && s.numElements() == r.ne && s.numElsets() == r.ns, "counts");
  if (by_number) {
    for (Int i = 0; i < r.nv; ++i) {
      vx_near(s.getVertex(i)[0], r.x[i], 0, "vertex positions");
      vx_near(s.getVertex(i)[1], r.y[i], 0, "vertex positions");
      vx_near(s.getVertex(i)[2], r.z[i], 0, "vertex positions");
    }
  }
  Vector<Int> conn;
  VTKElemType type = VTKElemType::Invalid;
  for (Int e = 0; e < r.ne; ++e) {
    s.getElement(e, type, conn);
    vx_assert(type == kinds[r.kind[e]] && s.elementTypes()[e] == type, "kind of an element");
    vx_assert(conn.size() == sizes[r.kind[e]], "number of vertices of an element");
    vx_assert(s.elementOffsets()[e + 1] - s.elementOffsets()[e] == conn.size(), "offsets delimit elements");
    for (Int j = 0; j < conn.size(); ++j) {
      Int const v = r.conn[e][j];
      vx_assert(s.elementConnectivity()[s.elementOffsets()[e] + j] == conn[j], "offsets delimit elements");
      if (by_number) {
        vx_assert(conn[j] == v, "vertices of an element by number");
      }
      vx_near(s.getVertex(conn[j])[0], r.x[v], 0, "vertices of an element by position");
      vx_near(s.getVertex(conn[j])[1], r.y[v], 0, "vertices of an element by position");
      vx_near(s.getVertex(conn[j])[2], r.z[v], 0, "vertices of an element by position");
    }
  }
  for (Int k = 0; k < r.ns; ++k) {
    Vector<Int> ids;
    Vector<Float> data;
    data.push_back(77); // from an earlier question
    s.getElset(nameOf(r.name[k]), ids, data);
    Int n = 0;
    for (Int e = 0; e < r.ne; ++e) {
      if ((r.mask[k] >> e & 1U) != 0) {
        vx_assert(n < ids.size() && ids[n] == e, "members of a set, in order");
        if (r.has[k]) {
          vx_assert(n < data.size(), "one data value per member");
          vx_near(data[n], r.data[k][e], 0, "data of a member");
        }
        ++n;
      }
    }
    vx_assert(ids.size() == n, "members of a set, no others");
    vx_assert(data.size() == (r.has[k] ? n : 0), "data of a set, or none");
    for (Int i = 0; i < r.ns; ++i) {
      String name;
      Vector<Int> ids2;
      Vector<Float> data2;
      data2.push_back(77);
      s.getElset(i, name, ids2, data2);
      vx_assert(name == s.elsetNames()[i], "name of a set by number");
      if (name == nameOf(r.name[k])) {
        vx_assert(ids2 == ids, "set by number is the set by name");
        vx_assert(data2.size() == data.size(), "set by number is the set by name");
      }
    }
  }
}
static void build(PolytopeSoup & s, Ref & r, Int ne)
{
  addVertices(s, r, 9);
  for (Int e = 0; e < ne; ++e) {
    Int const k = e == 0 ? vx_choice("kind", vx_tier() > 0 ? 7 : 4) : (r.kind[e - 1] * 3 + 1) % 7;
    addElement(s, r, k, 2 * e, e == 1 ? 2 : 1);
  }
}
// @entry h_build mode=real
extern "C" void h_build()
{
  quiet(false);
  PolytopeSoup s;
  Ref r;
  Int const ne = 1 + vx_choice("elements", 3);
  if (vx_choice("reserve", 2) == 1) {
    s.reserveMoreVertices(4);
    s.reserveMoreElements(VTKElemType::Triangle, 1);
  }
  build(s, r, ne);
  Int const ns = vx_choice("sets", 3);
  for (Int k = 0; k < ns; ++k) {
    addSet(s, r, static_cast<char>('b' - k), 1 + vx_choice("members", (1 << ne) - 1), vx_choice("data", 2) == 1);
  }
  holds(s, r, true);
  // Refused: a name in use, an empty set, data of another length
  Vector<Int> ids;
  Vector<Float> data;
  if (ns > 0 && vx_choice("refuse", 3) == 0) {
    ids.push_back(0);
    vx_assert(s.addElset(nameOf('b'), ids, data) == -1, "a name in use is refused");
  } else {
    vx_assert(s.addElset(nameOf('x'), ids, data) == -1, "an empty set is refused");
    ids.push_back(0);
    data.push_back(1);
    data.push_back(2);
    vx_assert(s.addElset(nameOf('x'), ids, data) == -1, "data of another length is refused");
  }
  holds(s, r, true);
  // Moving everything
  double const t = vx_real("t", -10, 10);
  s.translate(um2::Point3F(t, -t, 2 * t));
  for (Int i = 0; i < r.nv; ++i) {
    r.x[i] += t;
    r.y[i] -= t;
    r.z[i] += 2 * t;
  }
  holds(s, r, true);
}
// Kinds present, each once
// @entry h_kinds mode=real
extern "C" void h_kinds()
{
  quiet(true);
  PolytopeSoup s;
  Ref r;
  addVertices(s, r, 9);
  Int const ne = vx_choice("elements", 4);
  for (Int e = 0; e < ne; ++e) {
    addElement(s, r, vx_choice("kind", 7), e, 1);
  }
  auto const t = s.getElemTypes();
  Int distinct = 0;
  for (Int e = 0; e < ne; ++e) {
    bool first = true;
    for (Int k = 0; k < e; ++k) {
      first = first && r.kind[k] != r.kind[e];
    }
    if (first) {
      vx_assert(distinct < t.size() && t[distinct] == kinds[r.kind[e]], "kinds in order of appearance");
      ++distinct;
    }
  }
  vx_assert(t.size() == distinct, "each kind once");
}
// @entry h_subset mode=real time=60
extern "C" void h_subset()
{
  quiet(true);
  PolytopeSoup s;
  Ref r;
  build(s, r, 3);
  unsigned const pick = 1 + vx_choice("pick", 7);
  Int const before = vx_choice("before", 2);
  if (before == 1) {
    addSet(s, r, 'c', 1 + vx_choice("members", 7), vx_choice("data", 2) == 1);
  }
  addSet(s, r, 'b', pick, true);
  addSet(s, r, 'a', 1 + vx_choice("members", 7), vx_choice("data", 2) == 1);
  PolytopeSoup sub;
  s.getSubset(nameOf('b'), sub);
  // The same content, restricted
  Ref w = r;
  w.ne = 0;
  w.ns = 0;
  bool used[24];
  for (Int i = 0; i < r.nv; ++i) {
    used[i] = false;
  }
  Int at[3] = {-1, -1, -1};
  for (Int e = 0; e < 3; ++e) {
    if ((pick >> e & 1U) != 0) {
      at[e] = w.ne;
      w.kind[w.ne] = r.kind[e];
      for (Int j = 0; j < sizes[r.kind[e]]; ++j) {
        w.conn[w.ne][j] = r.conn[e][j];
        used[r.conn[e][j]] = true;
      }
      ++w.ne;
    }
  }
  for (Int k = 0; k < r.ns; ++k) {
    if (r.name[k] == 'b' || (r.mask[k] & pick) == 0) {
      continue;
    }
    w.name[w.ns] = r.name[k];
    w.has[w.ns] = r.has[k];
    w.mask[w.ns] = 0;
    for (Int e = 0; e < 3; ++e) {
      if ((r.mask[k] & pick & (1U << e)) != 0) {
        w.mask[w.ns] |= 1U << at[e];
        w.data[w.ns][at[e]] = r.has[k] ? r.data[k][e] : 0.0;
      }
    }
    ++w.ns;
  }
  Int count = 0;
  for (Int i = 0; i < r.nv; ++i) {
    count += used[i] ? 1 : 0;
  }
  vx_assert(sub.numVertices() == count, "exactly the vertices in use");
  w.nv = count;
  holds(sub, w, false);
  holds(s, r, true);
}
// @entry h_sort mode=real
extern "C" void h_sort()
{
  quiet(true);
  PolytopeSoup s;
  Ref r;
  build(s, r, 3);
  Int const order = vx_choice("order", 6);
  char const names[6][3] = {{'a', 'b', 'c'}, {'a', 'c', 'b'}, {'b', 'a', 'c'},
                            {'b', 'c', 'a'}, {'c', 'a', 'b'}, {'c', 'b', 'a'}};
  Int const ns = 1 + vx_choice("sets", 3);
  for (Int k = 0; k < ns; ++k) {
    addSet(s, r, names[order][k], 1 + (vx_choice("members", 3) * 3 + k) % 7, vx_choice("data", 2) == 1);
  }
  s.sortElsets();
  holds(s, r, true);
  for (Int k = 1; k < ns; ++k) {
    vx_assert(s.elsetNames()[k - 1] < s.elsetNames()[k], "sets in order of their names");
  }
}
// @entry h_append mode=real time=60
extern "C" void h_append()
{
  quiet(true);
  PolytopeSoup s;
  PolytopeSoup t;
  Ref r;
  Ref q;
  Int const shape = vx_choice("shape", 4);
  // each side: none, one or two elements
  Int const ne1 = shape == 1 ? 0 : (shape == 3 ? 1 : 2);
  Int const ne2 = shape == 2 ? 0 : (shape == 3 ? 1 : 2);
  Int const members = shape == 3 ? 1 : 3;
  if (ne1 > 0 || vx_choice("vertices", 2) == 1) {
    addVertices(s, r, 4);
  }
  for (Int e = 0; e < ne1; ++e) {
    addElement(s, r, 2 * e + vx_choice("kind", 2), e, 1);
  }
  if (ne2 > 0 || vx_choice("vertices", 2) == 1) {
    addVertices(t, q, 3);
  }
  for (Int e = 0; e < ne2; ++e) {
    addElement(t, q, e == 0 ? vx_choice("kind", 2) : 4, e, 1);
  }
  bool const data = vx_choice("data", 2) == 1;
  if (ne1 > 0) {
    Int const sets = vx_choice("sets", 3);
    if (sets > 0) {
      addSet(s, r, 'b', 1 + vx_choice("members", members), data);
    }
    if (sets > 1) {
      addSet(s, r, 'd', shape == 3 ? 1 : 2, !data);
    }
  }
  if (ne2 > 0) {
    Int const sets = vx_choice("sets", 4);
    if ((sets & 1) != 0) {
      addSet(t, q, 'a', 1, !data);
    }
    if ((sets & 2) != 0) {
      addSet(t, q, 'b', 1 + vx_choice("members", members), data);
    }
  }
  auto & same = (s += t);
  vx_assert(&same == &s, "appending returns the soup appended to");
  holds(t, q, true);
  Int const nv1 = r.nv;
  for (Int i = 0; i < q.nv; ++i) {
    r.x[r.nv] = q.x[i];
    r.y[r.nv] = q.y[i];
    r.z[r.nv] = q.z[i];
    ++r.nv;
  }
  for (Int e = 0; e < q.ne; ++e) {
    r.kind[r.ne] = q.kind[e];
    for (Int j = 0; j < sizes[q.kind[e]]; ++j) {
      r.conn[r.ne][j] = q.conn[e][j] + nv1;
    }
    ++r.ne;
  }
  for (Int k = 0; k < q.ns; ++k) {
    Int m = -1;
    for (Int i = 0; i < r.ns; ++i) {
      if (r.name[i] == q.name[k]) {
        m = i;
      }
    }
    if (m < 0) {
      m = r.ns++;
      r.name[m] = q.name[k];
      r.mask[m] = 0;
      r.has[m] = q.has[k];
    }
    for (Int e = 0; e < q.ne; ++e) {
      if ((q.mask[k] >> e & 1U) != 0) {
        r.mask[m] |= 1U << (ne1 + e);
        r.data[m][ne1 + e] = q.has[k] ? q.data[k][e] : 0.0;
      }
    }
  }
  holds(s, r, true);
  // and the result can still grow
  if (r.nv > 0) {
    addElement(s, r, 4, 0, 1);
    holds(s, r, true);
  }
}
// Zero for equal soups, something else after any one change
// @entry h_compare mode=real
extern "C" void h_compare()
{
  quiet(true);
  PolytopeSoup s;
  PolytopeSoup t;
  Ref r;
  Int const change = vx_choice("change", 9);
  Int const where = vx_choice("where", 3);
  double const d = vx_real("d", -10, 10);
  addVertices(s, r, 6);
  Int kind[2] = {vx_choice("kind", 4), 0};
  for (Int e = 0; e < 2; ++e) {
    addElement(s, r, kind[e], e, 1);
  }
  addSet(s, r, 'a', 3, true);
  addSet(s, r, 'b', 2, false);
  // the other one, piece by piece
  for (Int i = 0; i < r.nv; ++i) {
    bool const moved = change == 1 && i == 2 * where;
    t.addVertex(r.x[i] + (moved && where == 0 ? d : 0.0), r.y[i] + (moved && where == 1 ? d : 0.0),
                r.z[i] + (moved && where == 2 ? d : 0.0));
  }
  if (change == 2) {
    t.addVertex(0, 0, 0);
  }
  for (Int e = 0; e < 2; ++e) {
    Vector<Int> c;
    bool const other = change == 3 && e == 1;
    Int const k = other ? 1 : kind[e];
    for (Int j = 0; j < sizes[k]; ++j) {
      c.push_back(other && j == 3 ? 0 : r.conn[e][j]);
    }
    if (change == 4 && e == 1) {
      c[where] = c[where] == 0 ? 1 : 0;
    }
    t.addElement(kinds[k], c);
  }
  Vector<Int> ids;
  Vector<Float> data;
  ids.push_back(0);
  ids.push_back(1);
  data.push_back(r.data[0][0]);
  data.push_back(r.data[0][1] + (change == 5 ? d : 0.0));
  if (change == 6) {
    data.clear();
  }
  t.addElset(nameOf(change == 7 ? 'c' : 'a'), ids, data);
  ids.clear();
  ids.push_back(change == 8 ? 0 : 1);
  t.addElset(nameOf('b'), ids);
  int const c = s.compare(t);
  int const c2 = t.compare(s);
  if (change == 0) {
    vx_assert(c == 0 && c2 == 0, "equal soups compare equal");
  } else if (change == 1 || change == 5) {
    if (d > 0.001 || d < -0.001) {
      vx_assert(c != 0 && c2 != 0, "moved vertices and changed data are seen");
    } else if (d < 1e-8 && d > -1e-8) {
      vx_assert(c == 0 && c2 == 0, "rounding is not a difference");
    }
  } else {
    vx_assert(c != 0 && c2 != 0, "every other difference is seen");
  }
  PolytopeSoup const e1;
  PolytopeSoup const e2;
  vx_assert(e1.compare(e2) == 0, "empty soups compare equal");
}
