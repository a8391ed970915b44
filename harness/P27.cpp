// Multigroup cross sections, nuclides and isotope names
// @src src/physics/cross_section.cpp src/physics/nuclide.cpp src/common/logger.cpp src/common/settings.cpp src/math/matrix.cpp
// @config UM2_USE_BLAS_LAPACK=0
// @bounds up to three groups (two for validation), up to three temperatures, every value, temperature, flag and array length (0..3); names of up to two letters, an optional dash and up to three digits with every character
// @outside more groups or temperatures; names with more than two letters
#include "vrt.hpp"
#include <um2/physics/nuclide.hpp>
#include <um2/stdlib/math/abs.hpp>
#include <um2/stdlib/math/roots.hpp>
#include "quiet.inc"
using um2::Nuclide;
using um2::Vector;
using um2::XSec;

static bool logged() { return um2::logger::buffer[0] != 0; }
static void listen(int32_t level)
{
  quiet(false);
  um2::settings::logger::level = level;
  um2::logger::buffer[0] = 0;
}
// Wrongly sized data is an error
// @entry h_sizes mode=real
extern "C" void h_sizes()
{
  listen(um2::logger::levels::error);
  Int const ng = 1 + vx_choice("groups", 2);
  XSec xs(ng);
  xs.isMacro() = vx_choice("macro", 2) == 1;
  Int const which = vx_choice("which", 7);
  Int const n = vx_choice("size", 4);
  bool bad = n != ng;
  switch (which) {
  case 0:
    xs.a().resize(n);
    break;
  case 1:
    xs.f().resize(n);
    break;
  case 2:
    xs.nuf().resize(n);
    break;
  case 3:
    xs.tr().resize(n);
    break;
  case 4:
    xs.s().resize(n);
    break;
  case 5:
    xs.ss() = um2::Matrix<double>(n == 0 ? 1 : n, ng, 0.0);
    bad = (n == 0 ? 1 : n) != ng;
    break;
  default:
    xs.ss() = um2::Matrix<double>(ng, n == 0 ? 1 : n, 0.0);
    bad = (n == 0 ? 1 : n) != ng;
  }
  if (bad) {
    // the lengths are reported before (or instead of) looking at the values
    vx_reach("wrong size");
    quiet(true);
    vx_allow_exit(true);
    xs.validate();
    vx_never("wrongly sized data accepted");
  } else {
    xs.validate();
    vx_assert(!logged(), "rightly sized data accepted");
  }
}
// @entry h_empty mode=real
extern "C" void h_empty()
{
  listen(um2::logger::levels::error);
  XSec const xs{};
  xs.validate();
  vx_assert(logged(), "no groups");
}
// Values: negative macroscopic data is reported, fission data of something not fissile too
// @entry h_values mode=real
extern "C" void h_values()
{
  listen(um2::logger::levels::warn);
  Int const ng = 1 + vx_choice("groups", 2);
  XSec xs(ng);
  bool const macro = vx_choice("macro", 2) == 1;
  bool const fissile = vx_choice("fissile", 2) == 1;
  xs.isMacro() = macro;
  xs.isFissile() = fissile;
  Int const which = vx_choice("which", 6);
  bool neg = false;
  bool pos = false;
  Int const n = which == 5 ? ng * ng : ng;
  for (Int i = 0; i < n; ++i) {
    double const v = vx_real("value", -10, 10);
    neg = neg || v < 0;
    pos = pos || v > 0;
    switch (which) {
    case 0:
      xs.a()[i] = v;
      break;
    case 1:
      xs.f()[i] = v;
      break;
    case 2:
      xs.nuf()[i] = v;
      break;
    case 3:
      xs.tr()[i] = v;
      break;
    case 4:
      xs.s()[i] = v;
      break;
    default:
      xs.ss()(i) = v;
    }
  }
  bool const fission = which == 1 || which == 2;
  bool const bad = (macro && neg) || (fission && pos && !fissile);
  xs.validate();
  vx_assert(logged() == bad, "bad values reported, good ones accepted");
}
// Fresh data is zero, not fissile, and knows its groups
// @entry h_fresh mode=real
extern "C" void h_fresh()
{
  quiet(true);
  Int const ng = 1 + vx_choice("groups", 3);
  XSec const xs(ng);
  vx_assert(xs.numGroups() == ng && !xs.isMacro() && !xs.isFissile(), "fresh data");
  vx_assert(xs.a().size() == ng && xs.f().size() == ng && xs.nuf().size() == ng && xs.tr().size() == ng && xs.s().size() == ng && xs.ss().rows() == ng && xs.ss().cols() == ng, "fresh data has a value for each group");
  for (Int g = 0; g < ng; ++g) {
    vx_near(um2::abs(xs.a()[g]) + um2::abs(xs.f()[g]) + um2::abs(xs.nuf()[g]) + um2::abs(xs.tr()[g]) + um2::abs(xs.s()[g]), 0, 0, "fresh data is zero");
    for (Int h = 0; h < ng; ++h) {
      vx_near(xs.ss()(h, g), 0, 0, "fresh data is zero");
    }
  }
}
// @entry h_total mode=real
extern "C" void h_total()
{
  quiet(true);
  XSec xs(2);
  for (Int g = 0; g < 2; ++g) {
    double const a = xs.a()[g] = vx_real("a", -10, 10);
    double const s = xs.s()[g] = vx_real("s", -10, 10);
    vx_near(xs.t(g), a + s, 0, "total");
  }
}
// Averages over the groups; the scattering matrix keeps its column sums
// @entry h_collapse mode=real
extern "C" void h_collapse()
{
  quiet(true);
  Int const ng = 1 + vx_choice("groups", 3);
  XSec xs(ng);
  xs.isMacro() = vx_choice("macro", 2) == 1;
  xs.isFissile() = true;
  double m[6] = {0, 0, 0, 0, 0, 0};
  for (Int g = 0; g < ng; ++g) {
    m[0] += xs.a()[g] = vx_real("a", 0, 10);
    m[1] += xs.f()[g] = vx_real("f", 0, 10);
    m[2] += xs.nuf()[g] = vx_real("nuf", 0, 10);
    m[3] += xs.tr()[g] = vx_real("tr", 0, 10);
    for (Int h = 0; h < ng; ++h) {
      double const v = vx_real("ss", 0, 10);
      xs.ss()(h, g) = v;
      xs.s()[g] += v;
    }
    m[4] += xs.s()[g];
  }
  XSec const c = xs.collapseTo1GroupAvg();
  vx_assert(c.numGroups() == 1 && c.isMacro() == xs.isMacro() && c.isFissile(), "kind of the average");
  vx_assert(c.ss().rows() == 1 && c.ss().cols() == 1, "size of the average");
  vx_near(c.a()[0] * ng, m[0], 1e-9, "average absorption");
  vx_near(c.f()[0] * ng, m[1], 1e-9, "average fission");
  vx_near(c.nuf()[0] * ng, m[2], 1e-9, "average nu-fission");
  vx_near(c.tr()[0] * ng, m[3], 1e-9, "average transport");
  vx_near(c.s()[0] * ng, m[4], 1e-9, "average scattering");
  vx_near(c.ss()(0, 0), c.s()[0], 1e-9, "scattering matrix and total agree");
  vx_assert(xs.numGroups() == ng, "source unchanged");
}
static XSec anyXS(Int ng)
{
  XSec xs(ng);
  xs.isFissile() = true;
  for (Int g = 0; g < ng; ++g) {
    xs.a()[g] = vx_real("a", -10, 10);
    xs.f()[g] = vx_real("f", -10, 10);
    xs.nuf()[g] = vx_real("nuf", -10, 10);
    xs.tr()[g] = vx_real("tr", -10, 10);
    xs.s()[g] = vx_real("s", -10, 10);
    for (Int h = 0; h < ng; ++h) {
      xs.ss()(h, g) = vx_real("ss", -10, 10);
    }
  }
  return xs;
}
static double part(XSec const & x, Int k, Int ng)
{
  Int const g = k % ng;
  switch (k / ng) {
  case 0:
    return x.a()[g];
  case 1:
    return x.f()[g];
  case 2:
    return x.nuf()[g];
  case 3:
    return x.tr()[g];
  case 4:
    return x.s()[g];
  default:
    return x.ss()(k / ng - 5, g);
  }
}
// Interpolation over the square root of the temperature
// @entry h_interp mode=real time=120
extern "C" void h_interp()
{
  quiet(true);
  Int const ng = 1 + vx_choice("groups", 2);
  Int const nt = 1 + vx_choice("temps", 3);
  Nuclide n;
  n.isFissile() = true;
  double t[3];
  for (Int i = 0; i < nt; ++i) {
    t[i] = vx_real("t", 1, 5000);
    vx_assume(i == 0 || t[i] >= t[i - 1] + 1);
    n.temperatures().push_back(t[i]);
    n.xs().push_back(anyXS(ng));
  }
  double const x = vx_real("temperature", 0.1, 6000);
  XSec const r = n.interpXS(x);
  vx_assert(r.numGroups() == ng && !r.isMacro() && r.isFissile(), "kind of the result");
  Int lo = 0;
  double d = 0;
  if (x > t[0]) {
    lo = nt - 1;
    for (Int i = 0; i + 1 < nt; ++i) {
      if (x < t[i + 1]) {
        lo = i;
        d = (um2::sqrt(x) - um2::sqrt(t[i])) / (um2::sqrt(t[i + 1]) - um2::sqrt(t[i]));
        break;
      }
    }
  }
  Int const hi = lo + 1 < nt ? lo + 1 : lo;
  for (Int k = 0; k < (5 + ng) * ng; ++k) {
    double const a = part(n.xs()[lo], k, ng);
    double const b = part(n.xs()[hi], k, ng);
    vx_near(part(r, k, ng), a + d * (b - a), 1e-9, "interpolated value");
  }
}
// Nuclide data that is not usable is an error
// @entry h_nuclide mode=real
extern "C" void h_nuclide()
{
  listen(um2::logger::levels::error);
  Nuclide n;
  Int const zaid = n.zaid() = vx_int("zaid", -3, 100000);
  double const mass = n.mass() = vx_real("mass", -10, 300);
  bool const fissile = n.isFissile() = vx_choice("fissile", 2) == 1;
  Int const nt = 1 + vx_choice("temps", 2);
  Int const nx = vx_choice("sets", 3);
  bool bad = zaid <= 0 || mass <= 0 || nt != nx;
  double last = 0;
  for (Int i = 0; i < nt; ++i) {
    double const t = vx_real("t", -100, 3000);
    n.temperatures().push_back(t);
    bad = bad || t <= 0 || (i > 0 && t < last);
    last = t;
  }
  bool any = false;
  for (Int i = 0; i < nx; ++i) {
    XSec xs(1);
    xs.isFissile() = vx_choice("fissile set", 2) == 1;
    xs.isMacro() = vx_choice("macro set", 2) == 1;
    any = any || xs.isFissile();
    bad = bad || xs.isMacro();
    n.xs().push_back(xs);
  }
  bad = bad || any != fissile;
  n.validate();
  vx_assert(logged() == bad, "bad nuclides reported, good ones accepted");
}
// A cleared nuclide is as good as new
// @entry h_clear mode=real
extern "C" void h_clear()
{
  quiet(true);
  Nuclide n;
  n.zaid() = vx_int("zaid", 1, 100000);
  n.mass() = vx_real("mass", 1, 300);
  n.isFissile() = vx_choice("fissile", 2) == 1;
  n.temperatures().push_back(300);
  n.xs().push_back(XSec(1));
  n.clear();
  Nuclide const f{};
  vx_assert(n.zaid() == f.zaid() && n.isFissile() == f.isFissile() && n.temperatures().empty() && n.xs().empty(),
            "nothing left");
  vx_near(n.mass(), 0, 0, "nothing left");
}

// Symbols in the order of the atomic number, two characters each
static char const table[] = "H HeLiBeB C N O F NeNaMgAlSiP S ClArK CaScTiV CrMnFeCoNiCuZnGaGeAsSeBrKrRbSrY ZrNbMoTcRuRhPdAgCdIn"
                            "SnSbTeI XeCsBaLaCePrNdPmSmEuGdTbDyHoErTmYbLuHfTaW ReOsIrPtAuHgTlPbBiPoAtRnFrRaAcThPaU NpPuAmCmBkCf"
                            "EsFmMdNoLrRfDbSgBhHsMtDsRgCnNhFlMcLvTsOg";
// @entry h_zaid mode=int time=120
extern "C" void h_zaid()
{
  listen(um2::logger::levels::error);
  Int const letters = 1 + vx_choice("letters", 2);
  bool const dash = vx_choice("dash", 2) == 1;
  Int const digits = 1 + vx_choice("digits", 3);
  char s[8];
  Int n = 0;
  for (Int i = 0; i < letters; ++i) {
    s[n] = static_cast<char>(vx_int("letter", 'A', 'z'));
    vx_assume(s[n] <= 'Z' || s[n] >= 'a');
    ++n;
  }
  if (dash) {
    s[n++] = '-';
  }
  Int a = 0;
  for (Int i = 0; i < digits; ++i) {
    s[n] = static_cast<char>(vx_int("digit", '0', '9'));
    a = 10 * a + (s[n] - '0');
    ++n;
  }
  s[n] = 0;
  if (n > 6) {
    return;
  }
  Int const z = um2::toZAID(um2::String(s));
  char const second = letters == 2 ? s[1] : ' ';
  if (z < 0) {
    vx_assert(logged(), "unknown symbol reported");
    bool known = false;
    for (Int i = 0; i < 118; ++i) {
      known = known | ((s[0] == table[2 * i]) & (second == table[2 * i + 1]));
    }
    vx_assert(!known, "known symbol refused");
  } else {
    Int const k = vx_concrete(z / 1000);
    vx_assert(k >= 1 && k <= 118, "atomic number");
    vx_assert(s[0] == table[2 * k - 2] && second == table[2 * k - 1], "atomic number of the symbol");
    vx_assert(z == 1000 * k + a, "mass number");
    vx_assert(!logged(), "known symbol accepted");
  }
}
// The built-in benchmark data is complete and balanced
// @entry h_benchmark mode=real
extern "C" void h_benchmark()
{
  quiet(true);
  auto const all = um2::getC5G7XSecs();
  vx_assert(all.size() == 7, "seven materials");
  Int const m = vx_choice("material", 7);
  Int const g = vx_choice("group", 7);
  XSec const & x = all[m];
  x.validate();
  vx_assert(x.numGroups() == 7 && x.isMacro() && x.isFissile() == (m < 5), "kind of the data");
  double out = 0;
  for (Int h = 0; h < 7; ++h) {
    out += x.ss()(h, g);
    vx_le(0, x.ss()(h, g), 0, "no negative scattering");
  }
  vx_near(x.s()[g], out, 1e-12, "scattering out of the group");
  vx_near(x.a()[g] + x.s()[g], x.tr()[g], 3e-5, "absorption and scattering make up the transport value");
  vx_le(x.f()[g], x.a()[g], 0, "fission is part of absorption");
  // neutrons per fission: the mixed oxides (1 to 3) and the uranium ones (0 and 4)
  bool const mixed = m >= 1 && m <= 3;
  vx_le(x.f()[g] * (mixed ? 2.85 : 2.43), x.nuf()[g], 1e-9, "neutrons per fission");
  vx_le(x.nuf()[g], x.f()[g] * (mixed ? 2.92 : 2.79), 1e-9, "neutrons per fission");
}
