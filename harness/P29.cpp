// Cross-section library files
// @src src/physics/cross_section_library.cpp src/physics/cross_section.cpp src/physics/nuclide.cpp src/common/logger.cpp src/common/settings.cpp src/math/matrix.cpp
// @config UM2_USE_BLAS_LAPACK=0
// @models io
// @native -lm
// @bounds one to three groups, one or two nuclides, one or two temperatures, every value within a positive range and each kind of value negative in turn, every band of scattering columns, group data wrapped after every number of values per line with and without blanks at the ends of lines, lines with and without fission and scattering data
// @outside more groups, nuclides or temperatures; lines of 1024 characters and more; blank lines; files that end early
#include "vrt.hpp"
#include <um2/physics/cross_section_library.hpp>
#include "quiet.inc"
#include <cstdio>
#include <fstream>
#include <iomanip>
#include <string>
static void digits(std::ofstream & f, Int n)
{
  char b[16];
  snprintf(b, sizeof(b), "%d", n);
  f << b;
}
struct Want {
  Int ng = 1;
  Int nn = 1;
  Int nt = 1;
  double bounds[3] = {};
  double chi[3] = {};
  Int zaid[2] = {};
  double mass[2] = {};
  double temp[2][2] = {};
  // a, f, nuf, tr, s by nuclide, temperature and group
  double xs[2][2][3][5] = {};
  bool only[2][2][3] = {};
  Int lo[2][2][3] = {};
  Int hi[2][2][3] = {};
  double ss[2][2][3][3] = {};
};
static void values(std::ofstream & f, Int n, double const * v, Int perline, Int blanks)
{
  for (Int i = 0; i < n; ++i) {
    if (i % perline == 0 && blanks % 2 == 1) {
      f << "  ";
    }
    f << v[i];
    bool const end = (i + 1) % perline == 0 || i + 1 == n;
    f << (end ? (blanks >= 2 ? "  \n" : "\n") : "  ");
  }
}
static void writeLibrary(Want const & w, Int perline, Int blanks, Int gap = 1)
{
  std::string const sep(static_cast<std::size_t>(gap), ' ');
  std::ofstream f("lib.fmt");
  f << std::setprecision(17);
  f << "%VER:\n  4 0\n%DIM:\n  ";
  Int const dims[10] = {w.ng, 1, 1, w.ng, w.nn, 0, 0, 0, 0, 0};
  for (Int i = 0; i < 10; ++i) {
    digits(f, dims[i]);
    f << (i == 9 ? "\n" : " ");
  }
  f << "%GRP:\n";
  values(f, w.ng, w.bounds, perline, blanks);
  f << "%CHI:\n";
  values(f, w.ng, w.chi, perline, blanks);
  f << "%DIR:\n 1 ignored\n";
  for (Int n = 0; n < w.nn; ++n) {
    f << "%NUC ";
    digits(f, n + 1);
    f << sep << w.zaid[n] << sep << w.mass[n] << " 1 2 3" << sep << "4 ";
    digits(f, w.nt);
    f << " 9 8\n  TP1+\n";
    values(f, w.nt, w.temp[n], 10, blanks % 2);
    f << " XSD+\n";
    for (Int g = 0; g < w.ng; ++g) {
      for (Int t = 0; t < w.nt; ++t) {
        f << "  ";
        digits(f, g + 1);
        f << " ";
        digits(f, t + 1);
        double const * const x = w.xs[n][t][g];
        f << " " << x[0];
        if (!w.only[n][t][g]) {
          for (Int k = 1; k < 5; ++k) {
            f << sep << x[k];
          }
          f << " ";
          digits(f, w.lo[n][t][g] + 1);
          f << " ";
          digits(f, w.hi[n][t][g] + 1);
          for (Int c = w.lo[n][t][g]; c <= w.hi[n][t][g]; ++c) {
            f << sep << w.ss[n][t][g][c];
          }
        }
        f << (blanks >= 2 ? " \n" : "\n");
      }
    }
    f << " RES+ other data\n  1 2 3\n";
  }
  f << "%END\n";
}
static void check(Want const & w)
{
  um2::XSLibrary const lib("lib.fmt");
  vx_assert(lib.numGroups() == w.ng && lib.groupBounds().size() == w.ng && lib.chi().size() == w.ng, "groups");
  for (Int g = 0; g < w.ng; ++g) {
    vx_near(lib.groupBounds()[g], w.bounds[g], 1e-9, "group bounds");
    vx_near(lib.chi()[g], w.chi[g], 1e-9, "fission spectrum");
  }
  vx_assert(lib.nuclides().size() == w.nn, "nuclides");
  for (Int n = 0; n < w.nn; ++n) {
    um2::Nuclide const & u = lib.nuclides()[n];
    vx_assert(u.zaid() == w.zaid[n], "identifier");
    vx_near(u.mass(), w.mass[n], 1e-9, "mass");
    vx_assert(u.temperatures().size() == w.nt && u.xs().size() == w.nt, "temperatures");
    vx_assert(lib.getNuclide(w.zaid[n]).zaid() == w.zaid[n], "found by identifier");
    bool fissile = false;
    for (Int t = 0; t < w.nt; ++t) {
      vx_near(u.temperatures()[t], w.temp[n][t], 1e-9, "temperatures");
      um2::XSec const & x = u.xs()[t];
      vx_assert(x.numGroups() == w.ng && !x.isMacro(), "microscopic");
      bool f = false;
      for (Int g = 0; g < w.ng; ++g) {
        double const * const y = w.xs[n][t][g];
        bool const only = w.only[n][t][g];
        vx_near(x.a()[g], y[0], 1e-9, "absorption");
        vx_near(x.f()[g], only ? 0 : y[1], 1e-9, "fission");
        vx_near(x.nuf()[g], only ? 0 : y[2], 1e-9, "neutrons from fission");
        vx_near(x.tr()[g], only ? 0 : y[3], 1e-9, "transport");
        vx_near(x.s()[g], only ? 0 : y[4], 1e-9, "scattering");
        for (Int c = 0; c < w.ng; ++c) {
          bool const in = !only && c >= w.lo[n][t][g] && c <= w.hi[n][t][g];
          vx_near(x.ss()(g, c), in ? w.ss[n][t][g][c] : 0, 1e-9, "scattering matrix");
        }
        f = f || (!only && y[1] > 0);
      }
      vx_assert(x.isFissile() == f, "fissile");
      fissile = fissile || f;
    }
    vx_assert(u.isFissile() == fissile, "fissile");
  }
}
// Values of every size; the bounds of the groups descend
static void fill(Want & w, bool fissile)
{
  double above = 100;
  for (Int g = 0; g < w.ng; ++g) {
    w.bounds[g] = vx_real("b", 0, 100);
    vx_assume(w.bounds[g] < above);
    above = w.bounds[g];
    w.chi[g] = vx_real("chi", 0, 1);
  }
  for (Int n = 0; n < w.nn; ++n) {
    w.zaid[n] = vx_int("zaid", 1001, 99999);
    w.mass[n] = vx_real("mass", 1, 300);
    for (Int t = 0; t < w.nt; ++t) {
      w.temp[n][t] = vx_real("T", 1, 3000);
      vx_assume(t == 0 || w.temp[n][t] > w.temp[n][t - 1]);
      for (Int g = 0; g < w.ng; ++g) {
        for (Int k = 0; k < 5; ++k) {
          w.xs[n][t][g][k] = (k == 1 || k == 2) && !fissile ? 0 : vx_real("xs", 0.1, 10);
        }
        w.lo[n][t][g] = 0;
        w.hi[n][t][g] = w.ng - 1;
        for (Int c = 0; c < w.ng; ++c) {
          w.ss[n][t][g][c] = vx_real("ss", 0.1, 10);
        }
      }
    }
  }
  vx_assume(w.nn == 1 || w.zaid[0] != w.zaid[1]);
}
// @entry h_groups mode=real time=240
extern "C" void h_groups()
{
  quiet(true);
  Want w;
  w.ng = 1 + vx_choice("ng", 3);
  fill(w, vx_choice("fissile", 2) == 1);
  writeLibrary(w, 1 + vx_choice("per line", 3), vx_choice("blanks", 4));
  check(w);
}
// @entry h_nuclides mode=real time=240
extern "C" void h_nuclides()
{
  quiet(true);
  Want w;
  w.ng = 1 + vx_choice("ng", 2);
  w.nn = 1 + vx_choice("nn", 2);
  w.nt = 1 + vx_choice("nt", 2);
  fill(w, vx_choice("fissile", 2) == 1);
  // one line with less than the rest
  Int const n = w.nn - 1;
  Int const t = vx_choice("t", w.nt);
  Int const g = vx_choice("g", w.ng);
  Int const what = vx_choice("what", 3);
  if (what == 1) {
    w.only[n][t][g] = true;
  } else if (what == 2) {
    w.xs[n][t][g][1] = 0;
    w.xs[n][t][g][2] = 0;
  }
  writeLibrary(w, 10, vx_choice("blanks", 4));
  check(w);
}
// @entry h_bands mode=real time=240
extern "C" void h_bands()
{
  quiet(true);
  Want w;
  w.ng = 3;
  fill(w, false);
  for (Int g = 0; g < 3; ++g) {
    w.lo[0][0][g] = vx_choice("lo", 3);
    w.hi[0][0][g] = w.lo[0][0][g] + vx_choice("more", 3 - w.lo[0][0][g]);
  }
  writeLibrary(w, 10, 0);
  check(w);
}
// Lines of up to a thousand characters
// @entry h_long mode=real time=240
extern "C" void h_long()
{
  quiet(true);
  Want w;
  w.ng = 3;
  w.nt = 2;
  fill(w, true);
  writeLibrary(w, 10, 0, vx_choice("gap", 2) == 0 ? 40 : 110);
  check(w);
}
// Values below zero are kept
// @entry h_negative mode=real time=240
extern "C" void h_negative()
{
  quiet(true);
  Want w;
  w.ng = 2;
  w.nt = 2;
  fill(w, false);
  Int const g = vx_choice("g", 2);
  Int const t = vx_choice("t", 2);
  Int const k = vx_choice("k", 6);
  double const v = vx_real("v", -10, -0.1);
  if (k == 5) {
    w.ss[0][t][g][1] = v;
  } else {
    w.xs[0][t][g][k] = v;
  }
  writeLibrary(w, 10, 0);
  check(w);
}
// @entry h_refuse time=120
extern "C" void h_refuse()
{
  quiet(true);
  Int const what = vx_choice("what", 9);
  if (what != 0) {
    std::ofstream f("lib.fmt");
    f << (what == 1 ? "%VER\n4\n" : (what == 2 ? "%VER:\n  3 4\n" : "%VER:\n  4 0\n"));
    f << (what == 3 ? "%DIMS:\n" : "%DIM:\n") << "1 1 1 1 1 0 0 0 0 0\n";
    f << (what == 4 ? "%GROUPS:\n" : "%GRP:\n") << "1.0\n" << (what == 5 ? "%SPECTRUM:\n" : "%CHI:\n") << "1.0\n";
    f << (what == 6 ? "%NUC:\n" : "%DIR:\n") << "%NUC " << (what == 7 ? "2" : "1") << " 92235 235.0 1 1 1 1 1\n";
    f << "TP1+\n" << (what == 8 ? "0" : "300") << "\nXSD+\n1 1 1.0\n%END\n";
  }
  vx_allow_exit(true);
  um2::XSLibrary const lib("lib.fmt");
  vx_never("refused");
}
// @entry h_unknown mode=real time=120
extern "C" void h_unknown()
{
  quiet(true);
  Want w;
  w.nn = 2;
  fill(w, false);
  writeLibrary(w, 10, 0);
  um2::XSLibrary const lib("lib.fmt");
  Int const z = vx_int("z", 1, 200000);
  bool const known = z == w.zaid[0] || z == w.zaid[1];
  vx_allow_exit(!known);
  Int const got = lib.getNuclide(z).zaid();
  if (!known) {
    vx_never("an unknown nuclide is an error");
  }
  vx_assert(got == z, "found by identifier");
}
