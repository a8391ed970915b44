// Element and mesh type tables
// @bounds every 8-bit identifier, every vertex count of 32 bits, every list of up to three element kinds (listed or not)
// @outside names used in files (checked with the readers)
#include "vrt.hpp"
#include <um2/mesh/element_types.hpp>
using um2::MeshType;
using um2::VTKElemType;
using um2::XDMFElemType;

struct Row {
  int vtk;
  int xdmf;
  int points;
};
// The published identifiers of the supported kinds
static Row const rows[7] = {{1, 1, 1}, {3, 2, 2}, {5, 4, 3}, {9, 5, 4}, {21, 34, 3}, {22, 36, 6}, {23, 37, 8}};

// @entry h_from_vtk
extern "C" void h_from_vtk()
{
  int const id = vx_int("id", -128, 127);
  int k = -1;
  for (int i = 0; i < 7; ++i) {
    if (rows[i].vtk == id) {
      k = i;
    }
  }
  auto const t = static_cast<VTKElemType>(id);
  vx_allow_exit(k < 0);
  auto const x = um2::vtkToXDMFElemType(t);
  if (k < 0) {
    if (static_cast<int>(x) != 0) {
      vx_never("unknown VTK identifier is not a known kind");
    }
  } else {
    vx_assert(static_cast<int>(x) == rows[k].xdmf, "XDMF identifier of a VTK kind");
    vx_assert(um2::xdmfToVTKElemType(static_cast<int8_t>(x)) == t, "VTK to XDMF and back");
  }
  Int const n = um2::verticesPerElem(t);
  if (k < 0) {
    if (n >= 0) {
      vx_never("unknown VTK identifier has no vertex count");
    }
  } else {
    vx_assert(n == rows[k].points, "vertices per element");
    if (k != 4) {
      vx_assert(um2::inferVTKElemType(n) == t, "kind inferred from its vertex count");
    }
  }
}
// @entry h_from_xdmf
extern "C" void h_from_xdmf()
{
  int const id = vx_int("id", -128, 127);
  int k = -1;
  for (int i = 0; i < 7; ++i) {
    if (rows[i].xdmf == id) {
      k = i;
    }
  }
  vx_allow_exit(k < 0);
  auto const t = um2::xdmfToVTKElemType(static_cast<int8_t>(id));
  if (k < 0) {
    if (t != VTKElemType::Invalid) {
      vx_never("unknown XDMF identifier is not a known kind");
    }
  } else {
    vx_assert(static_cast<int>(t) == rows[k].vtk, "VTK identifier of an XDMF kind");
    vx_assert(static_cast<int>(um2::vtkToXDMFElemType(t)) == id, "XDMF to VTK and back");
  }
}
// @entry h_infer
extern "C" void h_infer()
{
  Int const n = static_cast<Int>(vx_i64("n", -2147483648LL, 2147483647LL));
  bool const known = n == 1 || n == 2 || n == 3 || n == 4 || n == 6 || n == 8;
  vx_allow_exit(!known);
  auto const t = um2::inferVTKElemType(n);
  if (known) {
    vx_assert(um2::verticesPerElem(t) == n, "inferred kind has that many vertices");
    vx_assert(t != VTKElemType::QuadraticEdge, "three vertices make a triangle");
  } else {
    if (t != VTKElemType::Invalid) {
      vx_never("no kind has that many vertices");
    }
  }
}
static int points(int id)
{
  return id == 5 ? 3 : id == 9 ? 4 : id == 22 ? 6 : id == 23 ? 8 : -1;
}
// Mesh kind from a list of element kinds: their vertex counts add up
// @entry h_mesh
extern "C" void h_mesh()
{
  int const n = vx_choice("n", 4);
  int id[3] = {0, 0, 0};
  um2::Vector<VTKElemType> types;
  for (int i = 0; i < n; ++i) {
    id[i] = vx_int("id", -128, 127);
    types.push_back(static_cast<VTKElemType>(id[i]));
  }
  int const m = static_cast<int>(um2::getMeshType(types));
  int want = 0;
  if (n == 1 && points(id[0]) > 0) {
    want = points(id[0]);
  }
  if (n == 2) {
    int const a = points(id[0]);
    int const b = points(id[1]);
    if ((a == 3 && b == 4) || (a == 4 && b == 3) || (a == 6 && b == 8) || (a == 8 && b == 6)) {
      want = a + b;
    }
  }
  vx_assert(m == want, "mesh kind of a list of element kinds");
}
