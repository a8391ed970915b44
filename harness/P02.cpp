// Owning strings: operation histories against an ideal text
// @bounds histories of 2 operations (quick) / 3 (thorough); operand lengths 0, 1, 21, 22, 23, 24, 47 (both sides of the inline limit); all 7-bit characters except NUL are symbolic
// @bounds number conversion: every int32, every int64, every finite double and float (decimal digits are the C library's contract: the code must store the library's text whole)
// @outside characters above 127 (their ordering is implementation defined by the signedness of char); strings longer than 300 characters; assigning a string from a view into itself (documented as forbidden)
#include "vrt.hpp"
#include <cfloat>
#include <cstdio>
#include <um2/stdlib/string.hpp>

using um2::String;
using um2::StringView;

struct Text {
  int n = 0;
  char c[512];
  void add(char x) { c[n++] = x; }
};
static int const kLen[7] = {0, 1, 21, 22, 23, 24, 47};

static void check(String const & s, Text const & t)
{
  vx_assert(s.size() == t.n, "length");
  vx_assert(s.empty() == (t.n == 0), "empty exactly when the length is zero");
  vx_assert(s.data()[t.n] == '\0', "zero terminated");
  vx_assert(s.capacity() >= s.size(), "capacity covers the length");
  for (int i = 0; i < t.n; ++i) {
    vx_assert(s.data()[i] == t.c[i], "characters in order");
  }
  vx_assert(s.begin() == s.data() && s.end() == s.data() + t.n && s.cend() - s.cbegin() == t.n, "iterators span the text");
  if (t.n > 0) {
    vx_assert(s.front() == t.c[0] && s.back() == t.c[t.n - 1], "front and back");
  }
}
static char anyChar() { return static_cast<char>(vx_int("c", 1, 127)); }

// A zero-terminated buffer of a chosen length with symbolic text; the first, the last and one
// middle character are symbolic, the rest distinguish their position
static void fresh(char * buf, Text & t, int ilen)
{
  int const n = kLen[ilen];
  t.n = 0;
  for (int i = 0; i < n; ++i) {
    char const x = (i == 0 || i == n - 1 || i == n / 2) ? anyChar() : static_cast<char>('A' + i % 26);
    buf[i] = x;
    t.add(x);
  }
  buf[n] = '\0';
}

static void history(int nops)
{
  int64_t const live0 = vx_live();
  {
    char buf[64];
    Text ta;
    Text tb;
    fresh(buf, ta, vx_choice("la", 7));
    String a(static_cast<char const *>(buf));
    check(a, ta);
    String b;
    check(b, tb);
    for (int k = 0; k < nops; ++k) {
      switch (vx_choice("op", 14)) {
      case 0: { // append a C string
        Text t;
        fresh(buf, t, vx_choice("n", 7));
        a += buf;
        for (int i = 0; i < t.n; ++i) {
          ta.add(t.c[i]);
        }
        break;
      }
      case 1: { // append another string
        a += b;
        for (int i = 0; i < tb.n; ++i) {
          ta.add(tb.c[i]);
        }
        break;
      }
      case 2: { // append to itself
        a += a;
        int const n = ta.n;
        for (int i = 0; i < n; ++i) {
          ta.add(ta.c[i]);
        }
        break;
      }
      case 3: // append a part of itself
        if (ta.n >= 2) {
          int const h = ta.n / 2;
          a.append(a.data() + h - 1, h);
          int const n = ta.n;
          for (int i = 0; i < h; ++i) {
            ta.add(ta.c[h - 1 + i]);
          }
          vx_assert(ta.n == n + h, "length");
        }
        break;
      case 4: // copy assignment, then the source changes
        b = a;
        tb = ta;
        if (ta.n > 0) {
          char const x = anyChar();
          a.data()[0] = x;
          ta.c[0] = x;
        }
        break;
      case 5: // move assignment
        b = um2::move(a);
        tb = ta;
        ta.n = 0;
        break;
      case 6: { // copy construction is independent
        String c(a);
        check(c, ta);
        if (ta.n > 0) {
          c.data()[0] = 'x';
        }
        break;
      }
      case 7: { // move construction leaves an empty usable string
        String c(um2::move(a));
        check(c, ta);
        Text none;
        check(a, none);
        a = um2::move(c);
        break;
      }
      case 8: { // assignment of a shorter or longer view
        Text t;
        fresh(buf, t, 1 + vx_choice("n", 6));
        a.assign(StringView(buf, static_cast<uint64_t>(t.n)));
        ta = t;
        break;
      }
      case 9: { // construct from a view, swap roles
        Text t;
        fresh(buf, t, 1 + vx_choice("n", 6));
        String c(StringView(buf, buf + t.n));
        check(c, t);
        a = c;
        ta = t;
        break;
      }
      case 10: { // slicing
        int const pos = ta.n / 3;
        int const cnt = vx_choice("all", 2) == 0 ? ta.n / 2 : String::npos;
        String const c = a.substr(pos, cnt);
        Text t;
        for (int i = pos; i < ta.n && (cnt == String::npos || i < pos + cnt); ++i) {
          t.add(ta.c[i]);
        }
        check(c, t);
        a = c;
        ta = t;
        break;
      }
      case 11: { // concatenation
        String const c = a + b;
        Text t = ta;
        for (int i = 0; i < tb.n; ++i) {
          t.add(tb.c[i]);
        }
        check(c, t);
        fresh(buf, t, 3);
        String const d = c + static_cast<char const *>(buf);
        vx_assert(d.size() == c.size() + kLen[3], "concatenation adds the lengths");
        break;
      }
      case 12: { // self assignment and copy back
        String & r = a;
        a = r;
        a = b;
        ta = tb;
        break;
      }
      case 13: { // comparison of a string with its own prefix and itself
        vx_assert(a == a && !(a != a) && a <= a && a >= a && !(a < a) && !(a > a), "a string equals itself");
        String c(a);
        c += "z";
        vx_assert(a < c && c > a && a != c && !(a == c), "a prefix orders before the longer text");
        break;
      }
      }
      if (ta.n > 200) {
        return;
      }
      check(a, ta);
      check(b, tb);
    }
    vx_obs_i("size", a.size());
    if (ta.n > 0) {
      vx_obs_i("front", a.front());
      vx_obs_i("back", a.back());
    }
  }
  vx_assert(vx_live() == live0, "all storage is released");
}
// @entry h_history
extern "C" void h_history() { history(vx_tier() ? 3 : 2); }

// Ordering against the textual definition
// @entry h_compare
extern "C" void h_compare()
{
  char ba[8];
  char bb[8];
  int const na = vx_choice("na", 4);
  int const nb = vx_choice("nb", 4);
  for (int i = 0; i < na; ++i) {
    ba[i] = anyChar();
  }
  ba[na] = '\0';
  for (int i = 0; i < nb; ++i) {
    bb[i] = anyChar();
  }
  bb[nb] = '\0';
  String const a(static_cast<char const *>(ba));
  String const b(static_cast<char const *>(bb));
  int ord = na < nb ? -1 : (na > nb ? 1 : 0);
  for (int i = (na < nb ? na : nb) - 1; i >= 0; --i) {
    if (ba[i] != bb[i]) {
      ord = ba[i] < bb[i] ? -1 : 1;
    }
  }
  vx_assert((a == b) == (ord == 0) && (a != b) == (ord != 0), "equality of texts");
  vx_assert((a < b) == (ord < 0) && (a <= b) == (ord <= 0), "less than is lexicographic");
  vx_assert((a > b) == (ord > 0) && (a >= b) == (ord >= 0), "greater than is lexicographic");
  if (nb > 0) {
    bool pre = nb <= na;
    bool suf = nb <= na;
    for (int i = 0; i < nb && nb <= na; ++i) {
      pre = pre && ba[i] == bb[i];
      suf = suf && ba[na - nb + i] == bb[i];
    }
    vx_assert(a.starts_with(static_cast<char const *>(bb)) == pre, "prefix test");
    vx_assert(a.ends_with(static_cast<char const *>(bb)) == suf, "suffix test");
    vx_assert(a.starts_with(bb[0]) == (na > 0 && ba[0] == bb[0]), "first character test");
    vx_assert(a.ends_with(bb[0]) == (na > 0 && ba[na - 1] == bb[0]), "last character test");
  }
  char const x = anyChar();
  int const pos = vx_choice("pos", 5);
  int last = String::npos;
  for (int i = 0; i < na && i <= pos; ++i) {
    if (ba[i] == x) {
      last = i;
    }
  }
  vx_assert(a.find_last_of(x, pos) == last, "last occurrence");
}

// Numbers to text
// The decimal digits themselves are the C library's contract; the harness asks the same library
static void checkText(String const & s, char const * ref)
{
  int n = 0;
  while (ref[n] != '\0') {
    ++n;
  }
  vx_assert(s.size() == n, "number text has the library's length");
  vx_assert(s.data()[n] == '\0', "number text is zero terminated");
  for (int i = 0; i < n; ++i) {
    vx_assert(s.data()[i] == ref[i], "number text is the library's decimal text");
  }
}
// @entry h_int32
extern "C" void h_int32()
{
  int32_t const v = vx_int("v", INT32_MIN, INT32_MAX);
  String const s(v);
  char ref[32];
  snprintf(ref, sizeof(ref), "%d", v);
  checkText(s, ref);
  vx_obs_i("n", s.size());
}
// @entry h_int64
extern "C" void h_int64()
{
  int64_t const v = vx_i64("v", INT64_MIN, INT64_MAX);
  String const s(v);
  char ref[32];
  snprintf(ref, sizeof(ref), "%ld", v);
  checkText(s, ref);
  vx_obs_i("n", s.size());
}
// Doubles of every magnitude: the text is stored whole
// @entry h_double mode=fp
extern "C" void h_double()
{
  double const v = vx_fp("v");
  vx_assume(v == v && v <= DBL_MAX && v >= -DBL_MAX);
  vx_assume(v != 0);
  String const s(v);
  int const n = s.size();
  vx_assert(n >= 8 && s.data()[n - 7] == '.', "six decimals");
  vx_assert(s.data()[n] == '\0', "number text is zero terminated");
  vx_assert((s.data()[0] == '-') == (v < 0), "sign of the number text");
  vx_assert((n - 7 - (v < 0 ? 1 : 0) >= 26) == (v >= 1e25 || v <= -1e25), "length follows the magnitude");
}
// @entry h_float mode=fp
extern "C" void h_float()
{
  float const v = vx_fp32("v");
  vx_assume(v == v && v <= FLT_MAX && v >= -FLT_MAX);
  vx_assume(v != 0);
  String const s(v);
  int const n = s.size();
  vx_assert(n >= 8 && s.data()[n - 7] == '.', "six decimals");
  vx_assert(s.data()[n] == '\0', "number text is zero terminated");
  vx_assert((s.data()[0] == '-') == (v < 0), "sign of the number text");
}
