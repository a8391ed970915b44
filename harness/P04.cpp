// Text to numbers, lattice text, ASCII counters
// @bounds integer text: every sign and digit string of up to 10 digits (int32) / 18 digits (int64); the C library's strtol/strtoul/strtod are interpreted from the model in models/libc.c
// @bounds lattice text: 1..3 rows by 1..3 columns, one- and two-digit symbolic entries, one or two blanks between entries, optional leading/trailing blanks and newlines
// @bounds ASCII counters: every number 0..99998, widths 1..5; every starting digit string
// @outside floating-point digit strings (the library's strtod decides them); overflow of the counter width (documented by assertion); tabs in lattice text
// @src src/common/logger.cpp src/common/settings.cpp
#include "vrt.hpp"
#include <cstdlib>
#include <um2/common/string_to_lattice.hpp>
#include <um2/common/strto.hpp>
#include <um2/mpact/model.hpp>

static char digit(char const * n) { return static_cast<char>(vx_int(n, '0', '9')); }

template <class T>
static void parseInt(int maxd, bool sgn)
{
  char buf[40];
  int k = 0;
  int const lead = vx_choice("lead", 2);
  for (int i = 0; i < lead; ++i) {
    buf[k++] = ' ';
  }
  int const sign = sgn ? vx_choice("sign", 3) : 0;
  if (sign == 1) {
    buf[k++] = '-';
  } else if (sign == 2) {
    buf[k++] = '+';
  }
  int const n = 1 + vx_choice("n", maxd);
  uint64_t mag = 0;
  for (int i = 0; i < n; ++i) {
    buf[k] = digit("d");
    mag = mag * 10 + static_cast<uint64_t>(buf[k] - '0');
    ++k;
  }
  int const stop = k;
  char const term = static_cast<char>(vx_int("term", 0, 127));
  vx_assume(term < '0' || term > '9');
  buf[k++] = term;
  buf[k] = '\0';
  if (sizeof(T) == 4) {
    vx_assume(mag <= (sgn ? 0x7fffffffULL + (sign == 1 ? 1 : 0) : 0xffffffffULL));
  }
  char * end = nullptr;
  T const v = um2::strto<T>(buf, &end);
  vx_assert(end == buf + stop, "parsing consumes exactly the number");
  // the digits are the C library's contract; up to three digits are also checked by hand
  char * lend = nullptr;
  T const want = sgn ? static_cast<T>(strtol(buf, &lend, 10)) : static_cast<T>(strtoul(buf, &lend, 10));
  vx_assert(v == want && lend == end, "parsing returns the library's number");
  if (n <= 3) {
    vx_assert(v == static_cast<T>(sign == 1 ? 0 - mag : mag), "parsing returns the number");
  }
  vx_obs_i("v", static_cast<int64_t>(v));
}
// @entry h_int32
extern "C" void h_int32() { parseInt<int32_t>(10, true); }
// @entry h_uint32
extern "C" void h_uint32() { parseInt<uint32_t>(10, false); }
// @entry h_int64
extern "C" void h_int64() { parseInt<int64_t>(18, true); }
// @entry h_uint64
extern "C" void h_uint64() { parseInt<uint64_t>(18, false); }

// Text that is no number consumes nothing
// @entry h_nonumber
extern "C" void h_nonumber()
{
  char buf[3];
  buf[0] = static_cast<char>(vx_int("c", 33, 127));
  buf[1] = static_cast<char>(vx_int("c", 33, 127));
  buf[2] = '\0';
  vx_assume(!(buf[0] >= '0' && buf[0] <= '9'));
  vx_assume(!((buf[0] == '-' || buf[0] == '+') && buf[1] >= '0' && buf[1] <= '9'));
  char * end = nullptr;
  int32_t const v = um2::strto<int32_t>(buf, &end);
  vx_assert(v == 0 && end == buf, "no number: nothing is consumed");
}
// Decimal text of the form a.b and exponents, concrete shapes
// @entry h_double
extern "C" void h_double()
{
  static char const * const txt[8] = {"0.5", "-1.25e2", "3", "  7.75", "1e-3", "+12.5E+1", "2.5abc", "0.1"};
  static double const val[8] = {0.5, -125.0, 3.0, 7.75, 1e-3, 125.0, 2.5, 0.1};
  static int const len[8] = {3, 7, 1, 6, 4, 8, 3, 3};
  int const k = vx_choice("k", 8);
  char * end = nullptr;
  double const v = um2::strto<double>(txt[k], &end);
  vx_assert(v == val[k] && end == txt[k] + len[k], "floating-point text");
  char * end2 = nullptr;
  float const f = um2::strto<float>(txt[k], &end2);
  vx_assert(f == static_cast<float>(val[k]) && end2 == txt[k] + len[k], "single-precision text");
}

// Lattice text
// @entry h_lattice
extern "C" void h_lattice()
{
  int const rows = 1 + vx_choice("rows", 3);
  int const cols = 1 + vx_choice("cols", 3);
  int const lead = vx_choice("lead", 3);  // leading newline + indentation as in a raw string
  int const gap = 1 + vx_choice("gap", 2);
  int const trail = vx_choice("trail", 3); // nothing, newline, newline + blanks
  bool const comma = vx_choice("comma", 2) == 1;
  int want[3][3];
  char buf[160];
  int k = 0;
  if (lead > 0) {
    buf[k++] = '\n';
  }
  for (int i = 0; i < rows; ++i) {
    if (lead == 2) {
      buf[k++] = ' ';
      buf[k++] = ' ';
    }
    for (int j = 0; j < cols; ++j) {
      want[i][j] = 0;
      int const nd = 1 + (i + j) % 2;
      for (int d = 0; d < nd; ++d) {
        char const c = digit("d");
        buf[k++] = c;
        want[i][j] = want[i][j] * 10 + (c - '0');
      }
      if (j + 1 < cols) {
        if (comma) {
          buf[k++] = ',';
        }
        for (int g = 0; g < gap - (comma ? 1 : 0); ++g) {
          buf[k++] = ' ';
        }
      }
    }
    if (i + 1 < rows) {
      buf[k++] = '\n';
    }
  }
  if (trail > 0) {
    buf[k++] = '\n';
  }
  if (trail > 1) {
    buf[k++] = ' ';
    buf[k++] = ' ';
  }
  buf[k] = '\0';
  auto const lat = um2::stringToLattice<Int>(um2::String(static_cast<char const *>(buf)), comma ? ',' : ' ');
  vx_assert(lat.size() == rows, "one row per line of text");
  for (int i = 0; i < rows; ++i) {
    vx_assert(lat[i].size() == cols, "one column per number in the line");
    for (int j = 0; j < cols; ++j) {
      vx_assert(lat[i][j] == want[i][j], "entries are the numbers written");
      vx_obs_i("e", lat[i][j]);
    }
  }
}
// Rows keep their own lengths (so that ragged maps can be rejected by the caller)
// @entry h_ragged
extern "C" void h_ragged()
{
  int const n0 = 1 + vx_choice("n0", 3);
  int const n1 = 1 + vx_choice("n1", 3);
  char buf[40];
  int k = 0;
  for (int i = 0; i < n0; ++i) {
    buf[k++] = digit("d");
    buf[k++] = ' ';
  }
  buf[k - 1] = '\n';
  for (int i = 0; i < n1; ++i) {
    buf[k++] = digit("d");
    buf[k++] = ' ';
  }
  buf[k - 1] = '\0';
  auto const lat = um2::stringToLattice<Int>(um2::String(static_cast<char const *>(buf)));
  vx_assert(lat.size() == 2 && lat[0].size() == n0 && lat[1].size() == n1, "each row keeps its own length");
}

// Rows after an empty line are not lost silently
// @entry h_blank
extern "C" void h_blank()
{
  int const n0 = 1 + vx_choice("n0", 2);
  int const gap = vx_choice("gap", 2);
  char buf[40];
  int k = 0;
  for (int i = 0; i < n0; ++i) {
    buf[k++] = digit("d");
    buf[k++] = i + 1 < n0 ? ' ' : '\n';
  }
  if (gap == 1) {
    buf[k++] = ' ';
  }
  buf[k++] = '\n';
  buf[k++] = digit("e");
  buf[k] = '\0';
  vx_allow_exit(true);
  auto const lat = um2::stringToLattice<Int>(um2::String(static_cast<char const *>(buf)));
  vx_assume(lat.size() == 1);
  vx_never("a row after an empty line is dropped");
}
// ASCII counters
// @entry h_ascii
extern "C" void h_ascii()
{
  Int const num = vx_int("num", 0, 99999);
  um2::String const s = um2::mpact::getASCIINumber(num);
  vx_assert(s.size() == 5, "five characters");
  Int v = num;
  for (int i = 4; i >= 0; --i) {
    vx_assert(s.data()[i] == static_cast<char>('0' + v % 10), "zero-padded decimal text");
    v /= 10;
  }
}
// @entry h_increment
extern "C" void h_increment()
{
  int const w = 1 + vx_choice("w", 5);
  char buf[16];
  int k = 0;
  bool const prefix = vx_choice("prefix", 2) == 1;
  if (prefix) {
    buf[k++] = 'C';
    buf[k++] = '_';
  }
  int const first = k;
  bool nines = true;
  for (int i = 0; i < w; ++i) {
    buf[k] = digit("d");
    nines = nines && buf[k] == '9';
    ++k;
  }
  buf[k] = '\0';
  vx_assume(!nines);
  int32_t before = 0;
  for (int i = first; i < k; ++i) {
    before = before * 10 + (buf[i] - '0');
  }
  um2::String s(static_cast<char const *>(buf));
  um2::mpact::incrementASCIINumber(s);
  vx_assert(s.size() == k, "width is kept");
  int32_t after = 0;
  for (int i = first; i < k; ++i) {
    char const c = s.data()[i];
    vx_assert(c >= '0' && c <= '9', "digits stay digits");
    after = after * 10 + (c - '0');
  }
  vx_assert(after == before + 1, "the counter advances by one with carries");
  if (prefix) {
    vx_assert(s.data()[0] == 'C' && s.data()[1] == '_', "the prefix is kept");
  }
}
