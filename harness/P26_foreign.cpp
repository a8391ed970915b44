// Reading files that other programs wrote: numbers of every width the format allows
#include "soupio.inc"
// @bounds files with two elements (alike or mixed) over four vertices in the plane or in space, coordinates and data of 4 or 8 bytes, indices of 1, 2, 4 or 8 bytes, every such number; two grids at any two places in one file; one wrong entry of the description at a time
// @outside damaged or contradictory files (descriptions that do not match the data)
#include "vrt.hpp"
#include <H5Cpp.h>
#include <pugixml.hpp>
#include <um2/mesh/polytope_soup.hpp>
#include "quiet.inc"
#include <um2/stdlib/vector.hpp>
using um2::PolytopeSoup;
using um2::String;
using um2::Vector;
using um2::VTKElemType;

// What is wrong with the description, if anything
enum { NONE, GEOMETRY_TYPE, GEOMETRY_DATA, GEOMETRY_WIDTH, GEOMETRY_FORMAT, TOPOLOGY_TYPE, TOPOLOGY_DATA, TOPOLOGY_WIDTH,
       TOPOLOGY_FORMAT, SET_TYPE, SET_DATA, SET_WIDTH, SET_FORMAT, VALUE_CENTER, VALUE_DATA, VALUE_WIDTH, VALUE_FORMAT,
       GRID_TYPE, COUNT };
static void describe(pugi::xml_node & x, char const * type, char const * dims, char const * width, char const * format,
                     char const * path)
{
  auto d = x.append_child("DataItem");
  d.append_attribute("DataType") = type;
  d.append_attribute("Dimensions") = dims;
  d.append_attribute("Precision") = width;
  d.append_attribute("Format") = format;
  d.append_child(pugi::node_pcdata).set_value(path);
}
static char const * widthName(Int bytes)
{
  return bytes == 1 ? "1" : (bytes == 2 ? "2" : (bytes == 4 ? "4" : "8"));
}
static void writeNumbers(H5::Group & g, char const * name, Int bytes, Int const * v, Int rank, hsize_t const * dims, Int n)
{
  H5::DataSpace const space(rank, dims);
  if (bytes == 1) {
    int8_t d[16];
    for (Int i = 0; i < n; ++i) {
      d[i] = static_cast<int8_t>(v[i]);
    }
    g.createDataSet(name, H5::PredType::NATIVE_INT8, space).write(d, H5::PredType::NATIVE_INT8, space);
  } else if (bytes == 2) {
    int16_t d[16];
    for (Int i = 0; i < n; ++i) {
      d[i] = static_cast<int16_t>(v[i]);
    }
    g.createDataSet(name, H5::PredType::NATIVE_INT16, space).write(d, H5::PredType::NATIVE_INT16, space);
  } else if (bytes == 4) {
    g.createDataSet(name, H5::PredType::NATIVE_INT32, space).write(v, H5::PredType::NATIVE_INT32, space);
  } else {
    int64_t d[16];
    for (Int i = 0; i < n; ++i) {
      d[i] = v[i];
    }
    g.createDataSet(name, H5::PredType::NATIVE_INT64, space).write(d, H5::PredType::NATIVE_INT64, space);
  }
}
static void writeReals(H5::Group & g, char const * name, Int bytes, double const * v, Int rank, hsize_t const * dims, Int n)
{
  H5::DataSpace const space(rank, dims);
  if (bytes == 4) {
    float d[16];
    for (Int i = 0; i < n; ++i) {
      d[i] = static_cast<float>(v[i]);
    }
    g.createDataSet(name, H5::PredType::NATIVE_FLOAT, space).write(d, H5::PredType::NATIVE_FLOAT, space);
  } else {
    g.createDataSet(name, H5::PredType::NATIVE_DOUBLE, space).write(v, H5::PredType::NATIVE_DOUBLE, space);
  }
}
// A number that both widths hold exactly
static double number(char const * name)
{
  return static_cast<double>(vx_int(name, -1000, 1000)) * 0.125;
}
struct File {
  bool mixed = false;
  Int dim = 2;
  Int wide[4] = {8, 4, 4, 8}; // bytes: coordinates, connectivity, members, data
  double x[12];
  Int conn[9];
  Int member[2] = {0, 1};
  double data[2];
};
static void writeFile(File const & f, Int wrong)
{
  H5::H5File h("foreign.h5", H5F_ACC_TRUNC);
  H5::Group g = h.createGroup("/foreign");
  pugi::xml_document doc;
  auto root = doc.append_child("Xdmf");
  root.append_attribute("Version") = "3.0";
  auto domain = root.append_child("Domain");
  auto grid = domain.append_child("Grid");
  grid.append_attribute("Name") = "foreign";
  grid.append_attribute("GridType") = wrong == GRID_TYPE ? "Tree" : "Uniform";
  auto geo = grid.append_child("Geometry");
  geo.append_attribute("GeometryType") = wrong == GEOMETRY_TYPE ? "VXVYVZ" : (f.dim == 2 ? "XY" : "XYZ");
  describe(geo, wrong == GEOMETRY_DATA ? "Int" : "Float", f.dim == 2 ? "4 2" : "4 3",
           wrong == GEOMETRY_WIDTH ? "2" : widthName(f.wide[0]), wrong == GEOMETRY_FORMAT ? "XML" : "HDF",
           "foreign.h5:/foreign/Geometry");
  hsize_t const gd[2] = {4, static_cast<hsize_t>(f.dim)};
  writeReals(g, "Geometry", f.wide[0], f.x, 2, gd, 4 * f.dim);
  auto top = grid.append_child("Topology");
  top.append_attribute("TopologyType") = wrong == TOPOLOGY_TYPE ? "Wedge" : (f.mixed ? "Mixed" : "Triangle");
  top.append_attribute("NumberOfElements") = "2";
  describe(top, wrong == TOPOLOGY_DATA ? "Float" : "Int", f.mixed ? "9" : "2 3",
           wrong == TOPOLOGY_WIDTH ? "16" : widthName(f.wide[1]), wrong == TOPOLOGY_FORMAT ? "XML" : "HDF",
           "foreign.h5:/foreign/Topology");
  hsize_t const td[2] = {2, 3};
  hsize_t const md[1] = {9};
  writeNumbers(g, "Topology", f.wide[1], f.conn, f.mixed ? 1 : 2, f.mixed ? md : td, f.mixed ? 9 : 6);
  auto set = grid.append_child("Set");
  set.append_attribute("Name") = "Fuel";
  set.append_attribute("SetType") = wrong == SET_TYPE ? "Node" : "Cell";
  describe(set, wrong == SET_DATA ? "Float" : "Int", "2", wrong == SET_WIDTH ? "16" : widthName(f.wide[2]),
           wrong == SET_FORMAT ? "XML" : "HDF", "foreign.h5:/foreign/Fuel");
  hsize_t const sd[1] = {2};
  writeNumbers(g, "Fuel", f.wide[2], f.member, 1, sd, 2);
  auto att = set.append_child("Attribute");
  att.append_attribute("Name") = "Fuel_data";
  att.append_attribute("Center") = wrong == VALUE_CENTER ? "Node" : "Cell";
  describe(att, wrong == VALUE_DATA ? "Int" : "Float", "2", wrong == VALUE_WIDTH ? "2" : widthName(f.wide[3]),
           wrong == VALUE_FORMAT ? "XML" : "HDF", "foreign.h5:/foreign/Fuel_data");
  writeReals(g, "Fuel_data", f.wide[3], f.data, 1, sd, 2);
  doc.save_file("foreign.xdmf", "  ");
  h.close();
}
static void fill(File & f)
{
  for (Int i = 0; i < 4 * f.dim; ++i) {
    f.x[i] = number("x");
  }
  for (Int i = 0; i < 6; ++i) {
    f.conn[i] = vx_int("v", 0, 3);
  }
  if (f.mixed) {
    // a triangle (4) and a quadrilateral (5)
    for (Int i = 3; i > 0; --i) {
      f.conn[i] = f.conn[i - 1];
    }
    f.conn[0] = 4;
    f.conn[4] = 5;
    for (Int i = 5; i < 9; ++i) {
      f.conn[i] = vx_int("v", 0, 3);
    }
  }
  for (Int i = 0; i < 2; ++i) {
    f.data[i] = number("d");
  }
}
static void holds(PolytopeSoup const & s, File const & f)
{
  vx_assert(s.numVertices() == 4 && s.numElements() == 2 && s.numElsets() == 1, "size");
  for (Int i = 0; i < 4; ++i) {
    for (Int k = 0; k < 3; ++k) {
      vx_assert(s.getVertex(i)[k] == (k < f.dim ? f.x[f.dim * i + k] : 0.0), "vertices");
    }
  }
  for (Int e = 0; e < 2; ++e) {
    VTKElemType t = VTKElemType::Invalid;
    Vector<Int> c;
    s.getElement(e, t, c);
    bool const quad = f.mixed && e == 1;
    vx_assert(t == (quad ? VTKElemType::Quad : VTKElemType::Triangle) && c.size() == (quad ? 4 : 3), "kinds of elements");
    Int const at = f.mixed ? 1 + 4 * e : 3 * e;
    for (Int k = 0; k < c.size(); ++k) {
      vx_assert(c[k] == f.conn[at + k], "connectivity");
    }
  }
  Vector<Int> ids;
  Vector<double> d;
  s.getElset("Fuel", ids, d);
  vx_assert(ids.size() == 2 && d.size() == 2, "size of the set");
  for (Int i = 0; i < 2; ++i) {
    vx_assert(ids[i] == f.member[i] && d[i] == f.data[i], "members and data of the set");
  }
}
// @entry h_widths time=120
extern "C" void h_widths()
{
  quiet(true);
  File f;
  f.mixed = vx_choice("mixed", 2) == 1;
  f.dim = 2 + vx_choice("dim", 2);
  for (Int i = 0; i < 4; ++i) {
    f.wide[i] = vx_choice("bytes", 2) == 0 ? 4 : 8;
  }
  fill(f);
  writeFile(f, NONE);
  PolytopeSoup s;
  s.read("foreign.xdmf");
  holds(s, f);
}
// Narrow indices are read or reported, and so is what the reader does not support
// @entry h_refused time=120
extern "C" void h_refused()
{
  quiet(true);
  File f;
  f.mixed = vx_choice("mixed", 2) == 1;
  Int const wrong = vx_choice("wrong", COUNT);
  vx_assume(wrong != TOPOLOGY_TYPE || !f.mixed);
  if (wrong == NONE) {
    f.wide[1 + vx_choice("which", 2)] = 1 + vx_choice("narrow", 2);
  }
  fill(f);
  writeFile(f, wrong);
  PolytopeSoup s;
  vx_reach("file written");
  vx_allow_exit(true);
  s.read("foreign.xdmf");
  vx_allow_exit(false);
  if (wrong == NONE) {
    // a reader may support narrow indices, but then has to read them
    bool const all = s.numVertices() == 4 && s.numElements() == 2 && s.numElsets() == 1;
    if (all) {
      holds(s, f);
      return;
    }
  }
  vx_never("unsupported files are reported");
}
// Several grids in one file, each put at its place
// @entry h_places mode=real time=120
extern "C" void h_places()
{
  quiet(true);
  static char const * const names[2] = {"A", "B"};
  Int const flat = vx_choice("flat", 4);
  double x[2][3][3];
  double o[2][3];
  {
    H5::H5File h("parts.h5", H5F_ACC_TRUNC);
    h.createGroup("/parts");
    pugi::xml_document doc;
    auto domain = doc.append_child("Xdmf").append_child("Domain");
    for (Int p = 0; p < 2; ++p) {
      PolytopeSoup s;
      um2::Point3F origin;
      for (Int k = 0; k < 3; ++k) {
        o[p][k] = k == 2 && flat % 2 == 0 ? 0.0 : vx_real("origin", -10, 10);
        origin[k] = o[p][k];
      }
      for (Int i = 0; i < 3; ++i) {
        for (Int k = 0; k < 3; ++k) {
          x[p][i][k] = k == 2 && flat / 2 == 0 ? 0.0 : vx_real("x", -10, 10);
        }
        s.addVertex(x[p][i][0], x[p][i][1], x[p][i][2]);
      }
      Vector<Int> conn(3);
      for (Int k = 0; k < 3; ++k) {
        conn[k] = (k + p) % 3;
      }
      s.addElement(VTKElemType::Triangle, conn);
      um2::writeXDMFUniformGrid(names[p], domain, h, "parts.h5", "/parts", s, origin);
    }
    doc.save_file("parts.xdmf", "  ");
    h.close();
  }
  H5::H5File const h("parts.h5", H5F_ACC_RDONLY);
  pugi::xml_document doc;
  doc.load_file("parts.xdmf");
  Int p = 0;
  for (auto const & grid : doc.child("Xdmf").child("Domain").children("Grid")) {
    vx_assert(p < 2 && String(grid.attribute("Name").value()) == names[p], "grids in order");
    PolytopeSoup s;
    um2::readXDMFUniformGrid(grid, h, "parts.h5", s);
    vx_assert(s.numVertices() == 3 && s.numElements() == 1, "size");
    VTKElemType t = VTKElemType::Invalid;
    Vector<Int> c;
    s.getElement(0, t, c);
    for (Int i = 0; i < 3; ++i) {
      vx_assert(c[i] == (i + p) % 3, "connectivity");
      for (Int k = 0; k < 3; ++k) {
        vx_near(s.getVertex(i)[k], x[p][i][k] + o[p][k], 1e-6, "vertices at their place");
      }
    }
    ++p;
  }
  vx_assert(p == 2, "number of grids");
}
