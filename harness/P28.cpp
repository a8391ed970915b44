// Materials
// @src src/physics/material.cpp src/physics/cross_section.cpp src/physics/nuclide.cpp src/physics/cross_section_library.cpp src/common/logger.cpp src/common/settings.cpp src/math/matrix.cpp
// @config UM2_USE_BLAS_LAPACK=0
// @bounds every density, fraction, enrichment (0.1 to 98 percent) and gadolinia fraction (0 to 99 percent); every nuclide number from 1 to 99999; every element symbol with every mass number of one to three digits; one to three nuclides; one or two groups, one or two temperatures and every cross section value
// @outside more nuclides or groups in one material; pure gadolinia and fuel without any U235, which are refused
#include "vrt.hpp"
#include <um2/physics/material.hpp>
#include <um2/stdlib/math/roots.hpp>
#include "quiet.inc"
using um2::Material;
using um2::String;
using um2::Vector;
using um2::XSec;

static double const navo = 0.602214076;
static bool logged() { return um2::logger::buffer[0] != 0; }
static void listen()
{
  quiet(false);
  um2::logger::buffer[0] = 0;
}
// Nuclides by number density: kept in order, bad or repeated ones reported
// @entry h_density mode=real
extern "C" void h_density()
{
  listen();
  Material m;
  Int const n = 1 + vx_choice("nuclides", 3);
  Int z[3];
  double d[3];
  bool bad = false;
  for (Int i = 0; i < n; ++i) {
    z[i] = vx_int("zaid", -5, 100000);
    d[i] = vx_real("density", -1, 10);
    for (Int j = 0; j < i; ++j) {
      bad = bad || z[j] == z[i];
    }
    bad = bad || z[i] <= 0 || d[i] <= 0;
    m.addNuclide(z[i], d[i]);
    vx_assert(logged() == bad, "bad nuclides reported, good ones accepted");
    if (bad) {
      return;
    }
  }
  vx_assert(m.numNuclides() == n, "number of nuclides");
  for (Int i = 0; i < n; ++i) {
    vx_assert(m.zaid(i) == z[i] && m.zaids()[i] == z[i], "nuclides in order");
    vx_near(m.numDensity(i), d[i], 0, "number density");
  }
}
struct Elem {
  Int z;
  double mass;
};
// Standard atomic weights
static Elem const natural[] = {{5, 10.81},   {6, 12.011},  {12, 24.305}, {14, 28.085}, {16, 32.06},
                               {17, 35.45},  {19, 39.098}, {20, 40.078}, {22, 47.867}, {23, 50.942},
                               {24, 51.996}, {26, 55.845}, {28, 58.693}, {40, 91.224}, {42, 95.95},
                               {48, 112.414}, {49, 114.818}, {50, 118.71}, {51, 121.76}, {74, 183.84}};
// Mass number meant by the last three digits of a nuclide number; 0: the natural element;
// negative: other library conventions (bound hydrogen, graphite, metastable states, ...)
static Int massNumber(Int zaid)
{
  Int const a = zaid % 1000;
  if (zaid == 1006 || zaid == 1040) {
    return 1;
  }
  if (zaid == 8001) {
    return 16;
  }
  if (zaid == 6001 || zaid == 40001) {
    return 0;
  }
  if (zaid == 95342) {
    return 242;
  }
  if (zaid == 47710 || zaid == 52727 || zaid == 52729 || zaid == 61748) {
    return a - 600;
  }
  return a > 500 ? a - 500 : a;
}
// By weight: N = w rho Navo / M, with M the mass of the nuclide asked for
// @entry h_weight mode=real time=120
extern "C" void h_weight()
{
  listen();
  Int const zaid = vx_int("zaid", 1, 99999);
  double const rho = vx_real("rho", 0.01, 25);
  double const w = vx_real("w", 0.001, 1);
  Material m;
  m.setDensity(rho);
  m.addNuclideWt(zaid, w);
  if (logged()) {
    vx_assert(m.numNuclides() == 0, "unknown nuclide is not added");
    vx_assert(zaid != 1001 && zaid != 8016 && zaid != 92235 && zaid != 92238 && zaid != 94239, "common nuclides known");
    return;
  }
  vx_assert(m.numNuclides() == 1 && m.zaid(0) == zaid, "nuclide added");
  Int const z = vx_concrete(zaid);
  Int const a = massNumber(z);
  double mass = a;
  double tol = 0.15;
  if (a == 0) {
    for (auto const & e : natural) {
      if (e.z == z / 1000) {
        mass = e.mass;
      }
    }
    tol = mass * 0.001;
  }
  // |M - mass| <= tol with M = w rho Navo / N
  vx_le(w * rho * navo, (mass + tol) * m.numDensity(0), 1e-12, "atomic mass too large");
  vx_le((mass - tol) * m.numDensity(0), w * rho * navo, 1e-12, "atomic mass too small");
}
// By weight and by symbol
// @entry h_symbol mode=real
extern "C" void h_symbol()
{
  quiet(true);
  double const rho = vx_real("rho", 0.01, 25);
  double const w = vx_real("w", 0.001, 1);
  Material a;
  a.setDensity(rho);
  a.addNuclideWt(92235, w);
  a.addNuclide(1001, w);
  Material b;
  b.setDensity(rho);
  b.addNuclideWt("U235", w);
  b.addNuclide("H1", w);
  vx_assert(b.zaid(0) == 92235 && b.zaid(1) == 1001, "symbols");
  vx_near(a.numDensity(0), b.numDensity(0), 0, "by symbol or by number");
  vx_near(b.numDensity(1), w, 0, "by symbol or by number");
}
// The symbol of an element and its mass number name the nuclide
// @entry h_elements
extern "C" void h_elements()
{
  quiet(true);
  static char const * const ALL =
      "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo "
      "Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl "
      "Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og ";
  Int const z = vx_choice("element", 118);
  char const * p = ALL;
  for (Int i = 0; i < z; ++i) {
    while (*p != ' ') {
      ++p;
    }
    ++p;
  }
  char text[8];
  Int n = 0;
  while (*p != ' ') {
    text[n++] = *p++;
  }
  if (vx_choice("dash", 2) == 1) {
    text[n++] = '-';
  }
  Int const digits = z % 5 == 0 ? 1 + vx_choice("digits", 3) : 3;
  Int mass = 0;
  for (Int i = 0; i < digits; ++i) {
    Int const d = vx_int("digit", i == 0 ? 1 : 0, 9);
    text[n++] = static_cast<char>('0' + d);
    mass = 10 * mass + d;
  }
  text[n] = 0;
  vx_assert(um2::toZAID(String(&text[0])) == 1000 * (z + 1) + mass, "atomic and mass number");
}
// Other words name none
// @entry h_no_element
extern "C" void h_no_element()
{
  quiet(true);
  static char const * const words[5] = {"Xx12", "u235", "Uo2", "h1", "HE4"};
  Int const k = vx_choice("word", 5);
  vx_allow_exit(true);
  Int const z = um2::toZAID(String(words[k]));
  vx_never("word that is no element accepted");
  vx_obs_i("z", z);
}
// By atom fraction: densities in the proportion of the fractions, and they make up the mass
// @entry h_atoms mode=real time=120
extern "C" void h_atoms()
{
  quiet(true);
  double const rho = vx_real("rho", 0.01, 25);
  double const p = vx_real("p", 0.001, 0.999);
  bool const three = vx_choice("three", 2) == 1;
  double const q = three ? vx_real("q", 0.001, 0.999) : 1 - p;
  vx_assume(p + q <= 1 && (!three || p + q <= 0.999));
  Vector<String> s;
  Vector<double> f;
  s.push_back("H1");
  f.push_back(p);
  s.push_back("O16");
  f.push_back(q);
  if (three) {
    s.push_back("B10");
    f.push_back(1 - p - q);
  }
  Material m;
  m.setDensity(rho);
  m.addNuclidesAtomPercent(s, f);
  Int const n = three ? 3 : 2;
  Int const z[3] = {1001, 8016, 5010};
  double const mass[3] = {1.00783, 15.9949, 10.0129};
  vx_assert(m.numNuclides() == n, "number of nuclides");
  double total = 0;
  double count = 0;
  for (Int i = 0; i < n; ++i) {
    vx_assert(m.zaid(i) == z[i], "nuclides in order");
    total += m.numDensity(i) * mass[i];
    count += m.numDensity(i);
  }
  for (Int i = 0; i < n; ++i) {
    vx_near(m.numDensity(i), f[i] * count, 1e-9, "atom fraction");
  }
  vx_near(total, rho * navo, 1e-4, "mass");
}
// Enriched fuel with or without gadolinia
// @entry h_fuel mode=real time=120
extern "C" void h_fuel()
{
  quiet(true);
  double const rho = vx_real("rho", 0.01, 25);
  double const e = vx_real("enrichment", 0.001, 0.98);
  bool const gad = vx_choice("gadolinia", 2) == 1;
  double const wg = gad ? vx_real("wg", 0.001, 0.99) : 0.0;
  Material m;
  m.setDensity(rho);
  m.setUO2(e, wg);
  Int const nn = gad ? 12 : 5;
  vx_assert(m.numNuclides() == nn, "number of nuclides");
  double n[12];
  Int const z[12] = {92234, 92235, 92236, 92238, 8016, 64152, 64154, 64155, 64156, 64157, 64158, 64160};
  double const mass[12] = {234.040946, 235.043923, 236.045562, 238.050783, 15.9949146, 151.919786,
                           153.920861, 154.922618, 155.922118, 156.923956, 157.924019, 159.927049};
  double const abundance[7] = {0.0020, 0.0218, 0.1480, 0.2047, 0.1565, 0.2484, 0.2186};
  for (Int i = 0; i < 12; ++i) {
    n[i] = 0;
    bool found = false;
    for (Int j = 0; j < nn; ++j) {
      if (m.zaid(j) == z[i]) {
        n[i] = m.numDensity(j);
        found = true;
      }
    }
    vx_assert(found == (i < nn), "expected nuclides");
  }
  double wu = 0;
  double nu = 0;
  for (Int i = 0; i < 4; ++i) {
    wu += n[i] * mass[i];
    nu += n[i];
  }
  vx_near(n[1] * mass[1], e * wu, 1e-6, "enrichment");
  vx_near(n[0] * mass[0], 0.0089 * e * wu, 1e-6, "share of U234");
  vx_near(n[2] * mass[2], 0.0046 * e * wu, 1e-6, "share of U236");
  double wgd = 0;
  double ngd = 0;
  for (Int i = 5; i < 12; ++i) {
    wgd += n[i] * mass[i];
    ngd += n[i];
  }
  for (Int i = 5; i < 12; ++i) {
    vx_near(n[i], abundance[i - 5] * ngd, 1e-6, "abundance");
  }
  vx_near(n[4], 2 * nu + 1.5 * ngd, 1e-6, "oxygen");
  double const total = rho * navo;
  vx_near(wu + 2 * nu * mass[4], (1 - wg) * total, 1e-5, "mass of UO2");
  vx_near(wgd + 1.5 * ngd * mass[4], wg * total, 1e-5, "mass of Gd2O3");
}
// Properties needed before cross sections can be looked up
// @entry h_properties mode=real
extern "C" void h_properties()
{
  listen();
  Material m;
  bool bad = false;
  if (vx_choice("named", 2) == 1) {
    m.setName("fuel");
  } else {
    bad = true;
  }
  double const t = vx_real("temperature", -10, 1000);
  double const rho = vx_real("rho", -10, 20);
  m.setTemperature(t);
  m.setDensity(rho);
  vx_near(m.getTemperature(), t, 0, "temperature");
  vx_near(m.getDensity(), rho, 0, "density");
  bad = bad || t <= 0 || rho <= 0;
  Int const nz = vx_choice("numbers", 3);
  Int const nd = vx_choice("densities", 3);
  bad = bad || nz != nd || nz == 0;
  for (Int i = 0; i < nz; ++i) {
    Int const z = vx_int("zaid", -3, 99999);
    m.zaids().push_back(z);
    bad = bad || z <= 0;
  }
  for (Int i = 0; i < nd; ++i) {
    double const d = vx_real("density", -1, 1);
    m.numDensities().push_back(d);
    bad = bad || d < 0;
  }
  m.validateProperties();
  vx_assert(logged() == bad, "bad materials reported, good ones accepted");
}
// Macroscopic data: sum over the nuclides of density times interpolated data
// @entry h_populate mode=real time=120
extern "C" void h_populate()
{
  quiet(true);
  Int const ng = 1 + vx_choice("groups", 2);
  um2::XSLibrary lib;
  double bound = 100;
  for (Int g = 0; g < ng; ++g) {
    lib.groupBounds().push_back(bound /= 10);
    lib.chi().push_back(1);
  }
  Int const z[3] = {92235, 1001, 8016};
  Int const nt = 1 + vx_choice("temps", 2);
  bool fissile[3];
  for (Int k = 0; k < 3; ++k) {
    um2::Nuclide n;
    n.zaid() = z[k];
    n.mass() = 1;
    fissile[k] = n.isFissile() = k == 0;
    for (Int t = 0; t < nt; ++t) {
      n.temperatures().push_back(400 + 500 * t);
      XSec xs(ng);
      xs.isFissile() = fissile[k];
      for (Int g = 0; g < ng; ++g) {
        xs.a()[g] = vx_real("a", 0, 10);
        xs.f()[g] = fissile[k] ? vx_real("f", 0, 10) : 0.0;
        xs.nuf()[g] = fissile[k] ? vx_real("nuf", 0, 10) : 0.0;
        xs.tr()[g] = vx_real("tr", 0, 10);
        xs.s()[g] = vx_real("s", 0, 10);
        for (Int h = 0; h < ng; ++h) {
          xs.ss()(h, g) = vx_real("ss", 0, 10);
        }
      }
      n.xs().push_back(xs);
    }
    lib.nuclides().push_back(n);
  }
  Int const nn = 1 + vx_choice("nuclides", 2);
  Material m;
  m.setName("m");
  m.setDensity(10);
  double const temp[3] = {300, 625, 1000};
  double const weight[3] = {0, 0.5, 1}; // sqrt(625) is half way between sqrt(400) and sqrt(900)
  Int const ti = vx_choice("temperature", 3);
  m.setTemperature(temp[ti]);
  Int id[2];
  double d[2];
  bool fis = false;
  for (Int i = 0; i < nn; ++i) {
    // not in the order of the library
    id[i] = i == 0 ? vx_choice("nuclide", 3) : (id[0] + 2) % 3;
    d[i] = vx_real("density", 0.001, 1);
    fis = fis || fissile[id[i]];
    m.addNuclide(z[id[i]], d[i]);
  }
  // what the material held before does not matter
  Int const before = vx_choice("before", 3);
  if (before == 1) {
    m.setTemperature(temp[(ti + 1) % 3]);
    m.populateXSec(lib);
    m.setTemperature(temp[ti]);
  } else if (before == 2) {
    m.xsec() = XSec(ng);
    m.xsec().isFissile() = true;
    for (Int g = 0; g < ng; ++g) {
      m.xsec().a()[g] = vx_real("earlier", 0, 10);
      m.xsec().ss()(0, g) = vx_real("earlier", 0, 10);
    }
  }
  m.populateXSec(lib);
  XSec const & x = m.xsec();
  vx_assert(x.numGroups() == ng && x.isMacro() && m.hasXSec(), "kind of the result");
  vx_assert(x.isFissile() == fis, "fissile when a nuclide is");
  double const w = nt == 1 ? 0 : weight[ti];
  for (Int g = 0; g < ng; ++g) {
    for (Int k = 0; k < 5 + ng; ++k) {
      double want = 0;
      auto part = [&](XSec const & y) {
        return k == 0   ? y.a()[g]
               : k == 1 ? y.f()[g]
               : k == 2 ? y.nuf()[g]
               : k == 3 ? y.tr()[g]
               : k == 4 ? y.s()[g]
                        : y.ss()(k - 5, g);
      };
      for (Int i = 0; i < nn; ++i) {
        um2::Nuclide const & n = lib.nuclides()[id[i]];
        double const lo = part(n.xs()[0]);
        double const hi = part(n.xs()[nt - 1]);
        want += d[i] * (lo + w * (hi - lo));
      }
      vx_near(part(x), want, 1e-8, "density weighted sum");
    }
  }
}
// A nuclide that is not in the library is an error
// @entry h_lookup mode=real
extern "C" void h_lookup()
{
  listen();
  um2::XSLibrary lib;
  Int z[2];
  for (Int i = 0; i < 2; ++i) {
    um2::Nuclide n;
    z[i] = n.zaid() = vx_int("zaid", 1, 99999);
    n.mass() = i + 1;
    lib.nuclides().push_back(n);
  }
  vx_assume(z[0] != z[1]);
  Int const w = vx_int("wanted", 1, 99999);
  um2::Nuclide const & n = lib.getNuclide(w);
  bool const known = w == z[0] || w == z[1];
  vx_assert(logged() == !known, "absence reported");
  if (known) {
    vx_assert(n.zaid() == w && &n == &lib.nuclides()[w == z[0] ? 0 : 1], "the nuclide asked for");
  }
}
// @entry h_benchmark mode=real
extern "C" void h_benchmark()
{
  quiet(true);
  auto const m = um2::getC5G7Materials();
  auto const x = um2::getC5G7XSecs();
  vx_assert(m.size() == 7, "seven materials");
  Int const i = vx_choice("material", 7);
  Int const g = vx_choice("group", 7);
  m[i].validateXSec();
  vx_assert(m[i].hasXSec() && !m[i].getName().empty(), "name and data");
  vx_near(m[i].xsec().a()[g], x[i].a()[g], 0, "data of the material");
  vx_near(m[i].xsec().nuf()[g], x[i].nuf()[g], 0, "data of the material");
  for (Int j = 0; j < i; ++j) {
    vx_assert(m[j].getName() != m[i].getName() && m[j].getColor() != m[i].getColor(), "names and colours differ");
  }
}
