// Power regions of a solution file
// @src src/mesh/face_vertex_mesh.cpp src/mesh/polytope_soup.cpp src/mpact/powers.cpp src/common/logger.cpp src/common/settings.cpp
// @config UM2_USE_HDF5=0 UM2_USE_PUGIXML=0 UM2_USE_BLAS_LAPACK=0
// @models io
// @native -lm
// @bounds three square faces on every three cells of a three by three board in every order and five faces in a row and in a ring in several orders, every power, every face with or without power; cells of all four kinds; vertices shared or written once per face
// @outside larger meshes; faces listed clockwise; faces closer than the tolerance that share no vertex
#include "vrt.hpp"
#include <um2/mesh/face_vertex_mesh.hpp>
#include <um2/mpact/powers.hpp>
#include "quiet.inc"
#include <cstdio>
#include <fstream>
#include <iomanip>
static Int const MAXF = 5;
struct Faces {
  Int n = 0;
  // column and row of each face on the board
  Int x[MAXF] = {};
  Int y[MAXF] = {};
  double p[MAXF] = {};
  bool on[MAXF] = {};
  // width and height of a cell
  double w = 1;
  double h = 1;
};
static void digits(std::ofstream & f, Int n)
{
  char b[16];
  snprintf(b, sizeof(b), "%d", n);
  f << b;
}
// kind 0: triangle over the lower left half, 1: quadrilateral, 2 and 3: their quadratic forms
static Int const sizes[4] = {3, 4, 6, 8};
static double const cx[4][8] = {{0, 1, 0}, {0, 1, 1, 0}, {0, 1, 0, 0.5, 0.5, 0}, {0, 1, 1, 0, 0.5, 1, 0.5, 0}};
static double const cy[4][8] = {{0, 0, 1}, {0, 0, 1, 1}, {0, 0, 1, 0, 0.5, 0.5}, {0, 0, 1, 1, 0, 0.5, 1, 0.5}};
static void writeFaces(Faces const & s, Int kind)
{
  std::ofstream f("fsr.vtk");
  f << std::setprecision(17);
  Int const m = sizes[kind];
  f << "# vtk DataFile Version 3.0\nheader\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS ";
  digits(f, s.n * m);
  f << " double\n";
  for (Int i = 0; i < s.n; ++i) {
    for (Int k = 0; k < m; ++k) {
      f << s.w * (s.x[i] + cx[kind][k]) << " " << s.h * (s.y[i] + cy[kind][k]) << " 0.0\n";
    }
  }
  f << "\nCELLS ";
  digits(f, s.n);
  f << " ";
  digits(f, s.n * (m + 1));
  f << "\n";
  for (Int i = 0; i < s.n; ++i) {
    digits(f, m);
    for (Int k = 0; k < m; ++k) {
      f << " ";
      digits(f, i * m + k);
    }
    f << "\n";
  }
  f << "\nCELL_TYPES ";
  digits(f, s.n);
  f << "\n9\n\nCELL_DATA ";
  digits(f, s.n);
  f << "\nSCALARS power double 1\nLOOKUP_TABLE default\n";
  for (Int i = 0; i < s.n; ++i) {
    f << s.p[i] << "\n";
  }
}
// Faces of these kinds share a vertex
static bool touch(Faces const & s, Int kind, Int i, Int j)
{
  Int const corners = kind == 0 || kind == 2 ? 3 : 4;
  for (Int a = 0; a < corners; ++a) {
    for (Int b = 0; b < corners; ++b) {
      if (s.x[i] + cx[kind][a] == s.x[j] + cx[kind][b] && s.y[i] + cy[kind][a] == s.y[j] + cy[kind][b]) {
        return true;
      }
    }
  }
  return false;
}
static void check(Faces const & s, Int kind)
{
  Int set[MAXF];
  for (Int i = 0; i < s.n; ++i) {
    set[i] = i;
  }
  for (Int round = 0; round < s.n; ++round) {
    for (Int i = 0; i < s.n; ++i) {
      for (Int j = 0; j < s.n; ++j) {
        if (s.on[i] && s.on[j] && touch(s, kind, i, j) && set[j] > set[i]) {
          set[j] = set[i];
        }
      }
    }
  }
  double const area = (kind == 0 || kind == 2 ? 0.5 : 1) * s.w * s.h;
  double const mid = kind == 0 || kind == 2 ? 1.0 / 3 : 0.5;
  auto const got = um2::mpact::getPowers("fsr.vtk");
  Int count = 0;
  bool used[MAXF] = {};
  for (Int r = 0; r < s.n; ++r) {
    double power = 0;
    double x = 0;
    double y = 0;
    Int n = 0;
    for (Int i = 0; i < s.n; ++i) {
      if (s.on[i] && set[i] == r) {
        power += s.p[i] * area;
        x += s.w * (s.x[i] + mid);
        y += s.h * (s.y[i] + mid);
        ++n;
      }
    }
    if (n == 0) {
      continue;
    }
    ++count;
    x /= n;
    y /= n;
    Int found = -1;
    for (Int k = 0; k < got.size() && found < 0; ++k) {
      double const dx = got[k].second[0] - x;
      double const dy = got[k].second[1] - y;
      if (!used[k] && dx < 1e-6 && dx > -1e-6 && dy < 1e-6 && dy > -1e-6) {
        found = k;
      }
    }
    vx_assert(found >= 0, "centre of each region");
    used[found] = true;
    vx_near(got[found].first, power, 1e-6, "power of each region");
  }
  vx_assert(got.size() == count, "number of regions");
}
// Three faces anywhere on the board
// @entry h_board mode=real time=300
extern "C" void h_board()
{
  quiet(true);
  Faces s;
  s.n = 3;
  Int at[3];
  for (Int i = 0; i < 3; ++i) {
    at[i] = vx_choice("at", 9);
    for (Int j = 0; j < i; ++j) {
      vx_assume(at[i] != at[j]);
    }
    s.x[i] = at[i] % 3;
    s.y[i] = at[i] / 3;
    s.on[i] = true;
    s.p[i] = vx_real("p", 0.1, 100);
  }
  writeFaces(s, 1);
  check(s, 1);
}
// Chains of faces in different orders, some without power
// @entry h_chain mode=real time=300
extern "C" void h_chain()
{
  quiet(true);
  Int const kind = vx_choice("kind", 4);
  Int const orders[5][5] = {{0, 1, 2, 3, 4}, {0, 2, 4, 1, 3}, {4, 0, 3, 1, 2}, {1, 3, 0, 4, 2}, {0, 4, 2, 1, 3}};
  Int const * const order = orders[vx_choice("order", 5)];
  bool const ring = vx_choice("ring", 2) == 1;
  Int const ringx[5] = {0, 1, 2, 2, 0};
  Int const ringy[5] = {0, 0, 1, 2, 1};
  Faces s;
  s.n = 5;
  bool any = false;
  for (Int i = 0; i < 5; ++i) {
    s.x[i] = ring ? ringx[order[i]] : order[i];
    s.y[i] = ring ? ringy[order[i]] : 0;
    s.on[i] = vx_choice("on", 2) == 1;
    s.p[i] = s.on[i] ? vx_real("p", 0.1, 100) : 0;
    any = any || s.on[i];
  }
  vx_assume(any);
  writeFaces(s, kind);
  check(s, kind);
}
// Cells of any size
// @entry h_size mode=real time=300
extern "C" void h_size()
{
  quiet(true);
  Faces s;
  s.n = 2;
  s.w = vx_real("w", 0.1, 10);
  s.h = vx_real("h", 0.1, 10);
  s.x[1] = vx_choice("dx", 3);
  s.y[1] = vx_choice("dy", 3);
  vx_assume(s.x[1] + s.y[1] > 0);
  for (Int i = 0; i < 2; ++i) {
    s.on[i] = true;
    s.p[i] = vx_real("p", 0.1, 100);
  }
  writeFaces(s, 1);
  check(s, 1);
}
// A file without power, or with the power of only some faces, is refused
// @entry h_refuse mode=real time=60
extern "C" void h_refuse()
{
  quiet(true);
  Faces s;
  s.n = 1 + vx_choice("n", 3);
  for (Int i = 0; i < s.n; ++i) {
    s.x[i] = i;
  }
  writeFaces(s, 1);
  vx_allow_exit(true);
  auto const got = um2::mpact::getPowers("fsr.vtk");
  vx_never("no power");
  vx_obs_i("n", got.size());
}
