// Files written for the transport code beside a model: input deck and cross sections
#include "modelsrc.inc"
// @bounds one to three materials with zero to three isotopes of every number density, three densities and temperatures, one cell of every width and rows of up to 25 cells of two widths; two groups of cross sections of every value; four file names
// @outside more materials, isotopes or groups; digits of printed numbers beyond the sixth; the fixed solver options
#include "vrt.hpp"
#include "quiet.inc"
#include "model.inc"
#include <cstdlib>
#include <cstring>
#include <fstream>

static char line[512];
// the part of the line that counts: no leading blanks, no comment
static char * at = &line[0];
static bool next(std::ifstream & in)
{
  while (in.good()) {
    in.getline(line, sizeof(line));
    for (char * c = &line[0]; *c != 0; ++c) {
      if (*c == '!') {
        *c = 0;
        break;
      }
    }
    at = &line[0];
    while (*at == ' ') {
      ++at;
    }
    if (*at != 0) {
      return true;
    }
  }
  return false;
}
static bool word(char const * w)
{
  size_t const n = strlen(w);
  for (size_t i = 0; i < n; ++i) {
    if (at[i] != w[i]) {
      return false;
    }
  }
  if (at[n] != 0 && at[n] != ' ') {
    return false;
  }
  at += n;
  while (*at == ' ') {
    ++at;
  }
  return true;
}
static double number()
{
  char * end = at;
  double const v = strtod(at, &end);
  vx_assert(end != at, "a number where one belongs");
  at = end;
  while (*at == ' ') {
    ++at;
  }
  return v;
}
static bool heading(char const * w) { return at == &line[0] && word(w); }

static Int const ZAIDS[3] = {92235, 8016, 1001};
static double const DENSITY[3] = {10.42, 0.743, 6.56};
static double const KELVIN[3] = {300, 565.5, 1200};
static char const * const NAMES[3] = {"Fuel", "Water", "Clad"};
static char const * const FILES[4] = {"model.xdmf", "./model.xdmf", "a.b.xdmf", "./a.b.xdmf"};
static char const * const DECKS[4] = {"model.input", "./model.input", "a.b.input", "./a.b.input"};
static char const * const CASES[4] = {"MPACT_model", "MPACT_model", "MPACT_a.b", "MPACT_a.b"};
static void oneCell(Model & m, double w)
{
  um2::Vector<MatID> mats(1, 0);
  Int const mesh = m.addRectangularPinMesh(ext(w, 2), 1, 1);
  Int const c = m.addCoarseCell(ext(w, 2), MeshType::Quad, mesh, mats);
  Int const ids[1] = {c};
  Int const r = m.addRTM(makeMap(1, 1, ids));
  Int const ir[1] = {r};
  Int const l = m.addLattice(makeMap(1, 1, ir));
  um2::Vector<Int> lats(1, l);
  um2::Vector<double> z(2);
  z[0] = 0;
  z[1] = 1;
  Int const a = m.addAssembly(lats, z);
  Int const ia[1] = {a};
  m.addCore(makeMap(1, 1, ia));
}
// @entry h_deck mode=real time=200
extern "C" void h_deck()
{
  quiet(true);
  Model m;
  Int const nm = 1 + vx_choice("materials", 3);
  Int const file = vx_choice("file", nm == 2 ? 4 : 1);
  Int ni[3];
  double nd[3][3];
  for (Int i = 0; i < nm; ++i) {
    Material t = makeMaterial(NAMES[i], 1);
    ni[i] = vx_choice("isotopes", i == 0 ? 4 : 3);
    t.setDensity(DENSITY[i]);
    t.setTemperature(KELVIN[i]);
    for (Int k = 0; k < ni[i]; ++k) {
      nd[i][k] = vx_real("number density", 0.01, 1);
      t.addNuclide(ZAIDS[k], nd[i][k]);
    }
    m.addMaterial(t, false);
  }
  double const w = vx_real("w", 0.5, 5);
  oneCell(m, w);
  m.write(FILES[file]);
  std::ifstream in(DECKS[file]);
  vx_assert(in.is_open(), "the deck is written beside the model");
  vx_assert(next(in) && heading("CASEID") && word(CASES[file]), "case named after the model");
  bool more = next(in);
  while (more && !heading("MATERIAL")) {
    more = next(in);
  }
  vx_assert(more, "materials announced");
  next(in);
  for (Int i = 0; i < nm; ++i) {
    vx_assert(word("mat"), "a card for each material");
    vx_near(number(), i + 1, 0, "materials numbered from one");
    vx_assert(word("<type>"), "place for the kind of material");
    vx_near(number(), DENSITY[i], 1e-5, "density");
    vx_assert(word("g/cc"), "unit of the density");
    vx_near(number(), KELVIN[i], 1e-3, "temperature");
    vx_assert(word("K"), "unit of the temperature");
    vx_assert(word("\\"), "end of the general part");
    for (Int k = 0; k < ni[i]; ++k) {
      vx_near(number(), ZAIDS[k], 0, "isotopes in order");
      vx_near(number(), nd[i][k], 1e-5, "number density of the isotope");
      vx_assert(*at == 0, "one isotope per line");
      next(in);
    }
    if (ni[i] == 0) {
      vx_assert(*at == 0, "nothing else on the card of a material without isotopes");
      next(in);
    }
  }
  vx_assert(heading("GEOM"), "geometry after the last material, on a line of its own");
  vx_assert(next(in) && word("um2_core") && *at == 0, "kind of geometry");
  vx_assert(next(in) && word(FILES[file]) && *at == 0, "the geometry is the model file");
  more = next(in);
  while (more && !heading("OPTION")) {
    more = next(in);
  }
  vx_assert(more, "options announced");
  more = next(in);
  while (more && !word("ray")) {
    more = next(in);
  }
  vx_assert(more, "ray spacing stated");
  // a quarter of the mean chord length, which is pi times area per perimeter
  vx_near(number() * 4 * (2 * w + 4), 3.14159265358979323846 * 2 * w, 1e-3, "ray spacing is a quarter of the mean chord length");
}
// The smallest tenth of the faces does not count for the ray spacing, wherever they are
// @entry h_ray mode=real time=200
extern "C" void h_ray()
{
  quiet(true);
  Model m;
  m.addMaterial(makeMaterial("Fuel", 1), false);
  double const w[2] = {vx_real("w0", 0.5, 2), vx_real("w1", 2.5, 5)};
  for (Int i = 0; i < 2; ++i) {
    Int const mesh = m.addRectangularPinMesh(ext(w[i], 2), 1, 1);
    m.addCoarseCell(ext(w[i], 2), MeshType::Quad, mesh, um2::Vector<MatID>(1, 0));
  }
  static Int const sizes[3] = {2, 11, 25};
  Int const n = sizes[vx_choice("cells", 3)];
  Int const small = 1 + vx_choice("small cells", n == 2 ? 2 : 3);
  bool const front = vx_choice("in front", 2) == 1;
  Int ids[25];
  for (Int i = 0; i < n; ++i) {
    ids[i] = (front ? i < small : i >= n - small) ? 0 : 1;
  }
  Int const zero[1] = {0};
  m.addRTM(makeMap(1, n, ids));
  m.addLattice(makeMap(1, 1, zero));
  um2::Vector<double> z(2);
  z[0] = 0;
  z[1] = 1;
  m.addAssembly(um2::Vector<Int>(1, 0), z);
  m.addCore(makeMap(1, 1, zero));
  m.write("model.xdmf");
  std::ifstream in("model.input");
  bool more = next(in);
  while (more && !word("ray")) {
    more = next(in);
  }
  vx_assert(more, "ray spacing stated");
  double const v = w[small > n / 10 ? 0 : 1];
  vx_near(number() * 4 * (2 * v + 4), 3.14159265358979323846 * 2 * v, 1e-3, "ray spacing is a quarter of the mean chord length");
}
// @entry h_xs mode=real time=200
extern "C" void h_xs()
{
  quiet(true);
  Model m;
  Int const nm = 1 + vx_choice("materials", 3);
  double v[3][2][5];
  for (Int i = 0; i < nm; ++i) {
    Material t;
    t.setName(NAMES[i]);
    um2::XSec xs(2);
    xs.isMacro() = true;
    xs.isFissile() = true;
    for (Int g = 0; g < 2; ++g) {
      for (Int k = 0; k < 5; ++k) {
        v[i][g][k] = vx_real("v", 0.01, 10);
      }
      xs.a()[g] = v[i][g][0];
      xs.f()[g] = v[i][g][1];
      xs.nuf()[g] = v[i][g][2];
      xs.tr()[g] = v[i][g][3];
      xs.s()[g] = v[i][g][4];
    }
    t.xsec() = xs;
    m.addMaterial(t, false);
  }
  oneCell(m, 1.5);
  m.write("model.xdmf");
  std::ifstream in("model.xs");
  vx_assert(next(in), "the cross sections are written beside the model");
  vx_near(number(), nm, 0, "number of materials");
  vx_near(number(), 2, 0, "number of groups");
  for (Int i = 0; i < nm; ++i) {
    vx_assert(next(in) && word(NAMES[i]) && *at == 0, "name of the material");
    for (Int g = 0; g < 2; ++g) {
      vx_assert(next(in), "a line for each group");
      for (Int k = 0; k < 5; ++k) {
        vx_near(number(), v[i][g][k], 1e-9, "absorption, fission, production, transport, scattering");
      }
      vx_assert(*at == 0, "five numbers for each group");
    }
  }
  vx_assert(!next(in), "nothing after the last material");
}
