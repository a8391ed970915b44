// Reading mesh files
#include "soupio.inc"
// @bounds up to eight vertices at every position, one to three elements of the four kinds of face in one or more sections, every connectivity, up to two sets with every membership, layouts with and without blanks, comments anywhere, with and without a final line end; data sets of every real value and every integer
// @outside larger files; lines of 1024 characters and more; several scalar fields under one CELL_DATA line; element numbers that are not consecutive from one
#include "vrt.hpp"
#include <um2/mesh/polytope_soup.hpp>
#include "quiet.inc"
#include <fstream>
#include <cstdio>
#include <iomanip>
#include <um2/stdlib/vector.hpp>
using um2::PolytopeSoup;
using um2::String;
using um2::Vector;
using um2::VTKElemType;

static VTKElemType const kinds[4] = {VTKElemType::Triangle, VTKElemType::Quad, VTKElemType::QuadraticTriangle,
                                     VTKElemType::QuadraticQuad};
static Int const sizes[4] = {3, 4, 6, 8};
struct Want {
  Int nv = 8;
  double v[8][3] = {};
  Int ne = 1;
  Int kind[11] = {};
  Int conn[11][8] = {};
};
static void choose(Want & w)
{
  for (Int i = 0; i < w.nv; ++i) {
    for (Int k = 0; k < 3; ++k) {
      w.v[i][k] = vx_real("v", -1000, 1000);
    }
  }
  for (Int e = 0; e < w.ne; ++e) {
    for (Int k = 0; k < sizes[w.kind[e]]; ++k) {
      w.conn[e][k] = vx_int("c", 0, w.nv - 1);
    }
  }
}
static void check(PolytopeSoup const & s, Want const & w)
{
  vx_assert(s.numVertices() == w.nv && s.numElements() == w.ne, "size");
  for (Int i = 0; i < w.nv; ++i) {
    for (Int k = 0; k < 3; ++k) {
      vx_near(s.getVertex(i)[k], w.v[i][k], 1e-9, "vertices");
    }
  }
  for (Int e = 0; e < w.ne; ++e) {
    VTKElemType t = VTKElemType::Invalid;
    Vector<Int> c;
    s.getElement(e, t, c);
    vx_assert(t == kinds[w.kind[e]] && c.size() == sizes[w.kind[e]], "kinds of elements");
    for (Int k = 0; k < c.size(); ++k) {
      vx_assert(c[k] == w.conn[e][k], "connectivity");
    }
  }
}
// A known number is written in decimal digits, others are for the stream to write
static void digits(std::ofstream & f, Int n)
{
  char b[16];
  snprintf(b, sizeof(b), "%d", n);
  f << b;
}
static void abaqusNodes(std::ofstream & f, Want const & w, char const * sep)
{
  f << "*NODE\n";
  for (Int i = 0; i < w.nv; ++i) {
    digits(f, i + 1);
    f << sep << w.v[i][0] << sep << w.v[i][1] << sep << w.v[i][2] << "\n";
  }
}
static void abaqusElements(std::ofstream & f, Want const & w, char const * sep, bool newline)
{
  char const * const names[4] = {"CPS3", "CPS4", "CPS6", "CPS8"};
  for (Int e = 0; e < w.ne; ++e) {
    if (e == 0 || w.kind[e] != w.kind[e - 1]) {
      f << "*ELEMENT, type=" << names[w.kind[e]] << ", ELSET=Surface1\n";
    }
    digits(f, e + 1);
    for (Int k = 0; k < sizes[w.kind[e]]; ++k) {
      f << sep << w.conn[e][k] + 1;
    }
    if (e + 1 < w.ne || newline) {
      f << "\n";
    }
  }
}
// Elements of one or two kinds
// @entry h_abaqus mode=real time=240
extern "C" void h_abaqus()
{
  quiet(true);
  Want w;
  w.nv = 3 + 5 * vx_choice("many", 2);
  w.ne = 1 + vx_choice("ne", 3);
  w.kind[0] = vx_choice("k0", 4);
  w.kind[1] = vx_choice("change", 2) == 1 ? vx_choice("k1", 4) : w.kind[0];
  w.kind[2] = w.kind[1];
  choose(w);
  Int const layout = vx_choice("layout", 4);
  char const * const sep = layout % 2 == 0 ? ", " : ",";
  {
    std::ofstream f("mesh.inp");
    f << std::setprecision(17);
    f << "*Heading\n mesh\n";
    abaqusNodes(f, w, sep);
    if (layout < 2) {
      f << "******* E L E M E N T S *************\n";
    }
    abaqusElements(f, w, sep, layout != 3);
  }
  PolytopeSoup const s("mesh.inp");
  check(s, w);
  vx_assert(s.numElsets() == 0, "no sets");
}
// @entry h_sets mode=real time=240
extern "C" void h_sets()
{
  quiet(true);
  Want w;
  w.nv = 3;
  // members are the elements 1 to 3 or 9 to 11
  Int const from = vx_choice("far", 2) == 1 ? 8 : 0;
  w.ne = from + 3;
  choose(w);
  Int const num = 1 + vx_choice("num", 2);
  Int member[2];
  member[0] = 1 + vx_choice("first", 7);
  member[1] = 1 + vx_choice("second", 7);
  Int const perline = 1 + vx_choice("per line", 3);
  Int const layout = vx_choice("layout", 4);
  char const * const comma = layout % 2 == 0 ? ", " : ",";
  bool const comment = layout < 2;
  char const * const names[2] = {"Material_Fuel", "A"};
  {
    std::ofstream f("mesh.inp");
    f << std::setprecision(17);
    f << "*Heading\n mesh\n";
    abaqusNodes(f, w, ", ");
    abaqusElements(f, w, ", ", true);
    for (Int i = 0; i < num; ++i) {
      f << "*ELSET,ELSET=" << names[i] << "\n";
      Int count = 0;
      for (Int e = 0; e < 3; ++e) {
        if ((member[i] >> e) % 2 == 1) {
          digits(f, from + e + 1);
          f << comma;
          ++count;
          if (count % perline == 0) {
            f << "\n";
          }
        }
      }
      if (count % perline != 0) {
        f << "\n";
      }
      if (comment) {
        f << "** end of the set\n";
      }
    }
  }
  PolytopeSoup const s("mesh.inp");
  check(s, w);
  vx_assert(s.numElsets() == num, "number of sets");
  for (Int i = 0; i < num; ++i) {
    Vector<Int> ids;
    Vector<double> data;
    s.getElset(names[i], ids, data);
    Int n = 0;
    for (Int e = 0; e < 3; ++e) {
      if ((member[i] >> e) % 2 == 1) {
        vx_assert(n < ids.size() && ids[n] == from + e, "members of the set");
        ++n;
      }
    }
    vx_assert(ids.size() == n && data.empty(), "members of the set");
  }
}
// Comment lines may stand anywhere
// @entry h_comments mode=real time=240
extern "C" void h_comments()
{
  quiet(true);
  Want w;
  w.nv = 3;
  w.ne = 3;
  choose(w);
  Int const place = vx_choice("place", 10);
  Int const num = 1 + vx_choice("comments", 2);
  Int const kind = vx_choice("kind", 3);
  Int here = 0;
  {
    std::ofstream f("mesh.inp");
    f << std::setprecision(17);
    auto comment = [&]() {
      if (here++ == place) {
        for (Int i = 0; i < num; ++i) {
          f << (kind == 0 ? "**\n" : kind == 1 ? "** 1, 2, 3, 4\n" : "**NODE\n");
        }
      }
    };
    f << "*Heading\n mesh\n";
    comment();
    f << "*NODE\n";
    for (Int i = 0; i < w.nv; ++i) {
      comment();
      digits(f, i + 1);
      f << ", " << w.v[i][0] << ", " << w.v[i][1] << ", " << w.v[i][2] << "\n";
    }
    f << "*ELEMENT, type=CPS3, ELSET=Surface1\n";
    for (Int e = 0; e < w.ne; ++e) {
      comment();
      digits(f, e + 1);
      for (Int k = 0; k < 3; ++k) {
        f << ", " << w.conn[e][k] + 1;
      }
      f << "\n";
    }
    f << "*ELSET,ELSET=S\n";
    comment();
    f << "1, 2, \n";
    comment();
    f << "3, \n";
    comment();
  }
  PolytopeSoup const s("mesh.inp");
  check(s, w);
  vx_assert(s.numElsets() == 1, "number of sets");
  Vector<Int> ids;
  Vector<double> data;
  s.getElset("S", ids, data);
  vx_assert(ids.size() == 3 && ids[0] == 0 && ids[1] == 1 && ids[2] == 2 && data.empty(), "members of the set");
}
static void vtkMesh(std::ofstream & f, Want const & w, Int layout)
{
  f << "# vtk DataFile Version 3.0\nheader\nASCII\nDATASET UNSTRUCTURED_GRID\n";
  f << "POINTS ";
  digits(f, w.nv);
  f << (layout % 2 == 0 ? " float\n" : " double\n");
  for (Int i = 0; i < w.nv; ++i) {
    f << w.v[i][0] << " " << w.v[i][1] << " " << w.v[i][2] << "\n";
  }
  if (layout < 2) {
    f << "\n";
  }
  Int len = 0;
  for (Int e = 0; e < w.ne; ++e) {
    len += 1 + sizes[w.kind[e]];
  }
  f << "CELLS ";
  digits(f, w.ne);
  f << " ";
  digits(f, len);
  f << "\n";
  for (Int e = 0; e < w.ne; ++e) {
    digits(f, sizes[w.kind[e]]);
    for (Int k = 0; k < sizes[w.kind[e]]; ++k) {
      f << " " << w.conn[e][k];
    }
    f << "\n";
  }
  f << "\nCELL_TYPES ";
  digits(f, w.ne);
  f << "\n";
  for (Int e = 0; e < w.ne; ++e) {
    digits(f, static_cast<int>(kinds[w.kind[e]]));
    f << (layout < 2 && e + 1 < w.ne ? "\n" : " ");
  }
  f << "\n";
}
// @entry h_vtk mode=real time=240
extern "C" void h_vtk()
{
  quiet(true);
  Want w;
  w.nv = 3 + 5 * vx_choice("many", 2);
  w.ne = 1 + vx_choice("ne", 3);
  w.kind[0] = vx_choice("k0", 4);
  w.kind[1] = vx_choice("change", 2) == 1 ? vx_choice("k1", 4) : w.kind[0];
  w.kind[2] = w.kind[1];
  choose(w);
  Int const layout = vx_choice("layout", 4);
  {
    std::ofstream f("mesh.vtk");
    f << std::setprecision(17);
    vtkMesh(f, w, layout);
  }
  PolytopeSoup const s("mesh.vtk");
  check(s, w);
  vx_assert(s.numElsets() == 0, "no sets");
}
// @entry h_data mode=real time=240
extern "C" void h_data()
{
  quiet(true);
  Want w;
  w.nv = 3;
  w.ne = 1 + vx_choice("ne", 3);
  choose(w);
  Int const num = 1 + vx_choice("num", 2);
  Int const perline = 1 + vx_choice("per line", 3);
  Int const type = vx_choice("type", 2);
  bool const last = vx_choice("blank at the end", 2) == 1;
  char const * const names[2] = {"power", "flux_001"};
  char const * const types[2] = {" float", " double"};
  double x[2][3];
  {
    std::ofstream f("mesh.vtk");
    f << std::setprecision(17);
    vtkMesh(f, w, 0);
    for (Int i = 0; i < num; ++i) {
      f << "\nCELL_DATA ";
      digits(f, w.ne);
      f << "\nSCALARS " << names[i] << types[(type + i) % 2] << " 1\nLOOKUP_TABLE default\n";
      for (Int e = 0; e < w.ne; ++e) {
        x[i][e] = vx_real("x", -1000, 1000);
        bool const end = (e + 1) % perline == 0 || e + 1 == w.ne;
        f << x[i][e] << (end ? "\n" : " ");
      }
    }
    if (last) {
      f << "\n";
    }
  }
  PolytopeSoup const s("mesh.vtk");
  check(s, w);
  vx_assert(s.numElsets() == num, "number of data sets");
  for (Int i = 0; i < num; ++i) {
    Vector<Int> ids;
    Vector<double> data;
    s.getElset(names[i], ids, data);
    vx_assert(ids.size() == w.ne && data.size() == w.ne, "data of every element");
    for (Int e = 0; e < w.ne; ++e) {
      vx_assert(ids[e] == e, "data of every element");
      vx_near(data[e], x[i][e], 1e-9, "data");
    }
  }
}
// Whole numbers are refused when they cannot be stored exactly
// @entry h_whole time=120
extern "C" void h_whole()
{
  quiet(true);
  long const v = vx_i64("v", -9223372036854775807L, 9223372036854775807L);
  {
    std::ofstream f("mesh.vtk");
    f << "# vtk DataFile Version 3.0\nheader\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS 3 float\n0 0 0\n1 0 0\n0 1 0\n\n";
    f << "CELLS 1 4\n3 0 1 2\n\nCELL_TYPES 1\n5\n\nCELL_DATA 1\nSCALARS material int 1\nLOOKUP_TABLE default\n";
    f << v << "\n";
  }
  bool const fits = v <= (1L << 52) && v >= -(1L << 52);
  vx_allow_exit(!fits);
  PolytopeSoup const s("mesh.vtk");
  if (!fits) {
    vx_never("a number that does not fit is refused");
  }
  vx_allow_exit(false);
  Vector<Int> ids;
  Vector<double> data;
  s.getElset("material", ids, data);
  vx_assert(data.size() == 1 && static_cast<long>(data[0]) == v, "whole number");
}
// Files that cannot be read are refused
// @entry h_refuse time=120
extern "C" void h_refuse()
{
  quiet(true);
  Int const what = vx_choice("what", 9);
  char const * const name = what < 4 ? "mesh.inp" : (what == 8 ? "mesh.obj" : "mesh.vtk");
  if (what != 0 && what != 4) {
    std::ofstream f(name);
    if (what < 4) {
      // 5: a kind of element that is not known, 6: not a plane element, 7: vertex number zero
      f << "*Heading\n mesh\n*NODE\n1, 0, 0, 0\n2, 1, 0, 0\n3, 0, 1, 0\n*ELEMENT, type=";
      f << (what == 1 ? "CPS5" : (what == 2 ? "C3D4" : "CPS3")) << ", ELSET=Surface1\n";
      f << (what == 3 ? "1, 0, 2, 3\n" : "1, 1, 2, 3, 1, 2\n");
    } else {
      f << (what == 5 ? "# vtk DataFile Version 2.0\n" : "# vtk DataFile Version 3.0\n") << "header\n";
      f << (what == 6 ? "BINARY\n" : "ASCII\n") << (what == 7 ? "DATASET POLYDATA\n" : "DATASET UNSTRUCTURED_GRID\n");
      f << "POINTS 3 float\n0 0 0\n1 0 0\n0 1 0\n\nCELLS 1 4\n3 0 1 2\n\nCELL_TYPES 1\n5\n";
    }
  }
  vx_allow_exit(true);
  PolytopeSoup const s(name);
  vx_never("a file that cannot be read is refused");
}
