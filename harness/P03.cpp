// String views: searching, slicing, trimming, tokenising, ordering
// @bounds texts of 0..5 characters (quick) / 0..6 (thorough), patterns of 1..3 characters; all 7-bit characters symbolic
// @bounds every start position 0..7
// @outside characters above 127 (ordering depends on the signedness of char); empty literal patterns (the constructor from a literal requires a non-empty literal)
#include "vrt.hpp"
#include <um2/stdlib/string_view.hpp>

using um2::StringView;

static char anyChar(char const * n) { return static_cast<char>(vx_int(n, 1, 127)); }
// The text lives in an exact-size heap block, so that reading past it is caught
static char * text(char const * nm, int n)
{
  char * p = new char[static_cast<size_t>(n)];
  for (int i = 0; i < n; ++i) {
    p[i] = anyChar(nm);
  }
  return p;
}
static int maxLen() { return vx_tier() ? 6 : 5; }

// @entry h_find_char
extern "C" void h_find_char()
{
  int const n = vx_choice("n", maxLen() + 1);
  char * const t = text("t", n);
  StringView const v(t, static_cast<uint64_t>(n));
  char const c = anyChar("c");
  auto const pos = static_cast<uint64_t>(vx_choice("pos", n + 2));
  uint64_t f = StringView::npos;
  uint64_t nf = StringView::npos;
  uint64_t l = StringView::npos;
  for (int i = n - 1; i >= static_cast<int>(pos); --i) {
    if (t[i] == c) {
      f = static_cast<uint64_t>(i);
    } else {
      nf = static_cast<uint64_t>(i);
    }
  }
  for (int i = 0; i < n && i <= static_cast<int>(pos); ++i) {
    if (t[i] == c) {
      l = static_cast<uint64_t>(i);
    }
  }
  vx_assert(v.find_first_of(c, pos) == f, "first occurrence of a character");
  vx_assert(v.find_first_not_of(c, pos) == nf, "first other character");
  vx_assert(v.find_last_of(c, pos) == l, "last occurrence of a character up to a position");
  uint64_t la = StringView::npos;
  for (int i = 0; i < n; ++i) {
    if (t[i] == c) {
      la = static_cast<uint64_t>(i);
    }
  }
  vx_assert(v.find_last_of(c) == la, "last occurrence of a character");
  vx_assert(v.size() == static_cast<uint64_t>(n) && v.empty() == (n == 0), "length of the view");
  vx_assert(v.begin() == t && v.end() == t + n && v.data() == t, "view denotes the given characters");
  if (n > 0) {
    vx_assert(v.front() == t[0] && v.back() == t[n - 1] && v[n / 2] == t[n / 2], "element access");
  }
  vx_obs_i("f", static_cast<int64_t>(f));
  delete[] t;
}
// @entry h_find_text
extern "C" void h_find_text()
{
  int const n = vx_choice("n", maxLen() + 1);
  int const m = 1 + vx_choice("m", 3);
  char * const t = text("t", n);
  char * const p = text("p", m);
  char z[4];
  for (int i = 0; i < m; ++i) {
    z[i] = p[i];
  }
  z[m] = '\0';
  StringView const v(t, static_cast<uint64_t>(n));
  StringView const pat(p, static_cast<uint64_t>(m));
  auto const pos = static_cast<uint64_t>(vx_choice("pos", n + 2));
  uint64_t f = StringView::npos;
  for (int i = n - m; i >= static_cast<int>(pos); --i) {
    bool all = true;
    for (int k = 0; k < m; ++k) {
      all = all && t[i + k] == p[k];
    }
    if (all) {
      f = static_cast<uint64_t>(i);
    }
  }
  vx_assert(v.find_first_of(pat, pos) == f, "first occurrence of a text");
  vx_assert(v.find_first_of(static_cast<char const *>(z), pos) == f, "first occurrence of a literal");
  vx_assert(v.find_first_of(p, pos, static_cast<uint64_t>(m)) == f, "first occurrence of a counted text");
  bool pre = m <= n;
  bool suf = m <= n;
  for (int k = 0; k < m && m <= n; ++k) {
    pre = pre && t[k] == p[k];
    suf = suf && t[n - m + k] == p[k];
  }
  vx_assert(v.starts_with(pat) == pre && v.starts_with(static_cast<char const *>(z)) == pre, "prefix test");
  vx_assert(v.ends_with(pat) == suf && v.ends_with(static_cast<char const *>(z)) == suf, "suffix test");
  delete[] t;
  delete[] p;
}
// @entry h_order
extern "C" void h_order()
{
  int const n = vx_choice("n", 5);
  int const m = vx_choice("m", 5);
  char * const t = text("t", n);
  char * const p = text("p", m);
  StringView const a(t, static_cast<uint64_t>(n));
  StringView const b(p, static_cast<uint64_t>(m));
  int ord = n < m ? -1 : (n > m ? 1 : 0);
  for (int i = (n < m ? n : m) - 1; i >= 0; --i) {
    if (t[i] != p[i]) {
      ord = t[i] < p[i] ? -1 : 1;
    }
  }
  int const c = a.compare(b);
  vx_assert((c < 0) == (ord < 0) && (c > 0) == (ord > 0), "three-way comparison");
  vx_assert((a == b) == (ord == 0) && (a != b) == (ord != 0), "equality");
  vx_assert((a < b) == (ord < 0) && (a <= b) == (ord <= 0), "less than");
  vx_assert((a > b) == (ord > 0) && (a >= b) == (ord >= 0), "greater than");
  delete[] t;
  delete[] p;
}
// @entry h_slice
extern "C" void h_slice()
{
  int const n = 1 + vx_choice("n", maxLen());
  char * const t = text("t", n);
  StringView const v(t, static_cast<uint64_t>(n));
  int const pos = vx_choice("pos", n + 1);
  int const cnt = vx_choice("cnt", n - pos + 1);
  StringView const s = v.substr(static_cast<uint64_t>(pos), static_cast<uint64_t>(cnt));
  vx_assert(s.data() == t + pos && s.size() == static_cast<uint64_t>(cnt), "slice denotes the requested characters");
  StringView r = v;
  r.remove_prefix(static_cast<uint64_t>(pos));
  vx_assert(r.end() == t + n && r.size() == static_cast<uint64_t>(n - pos), "removing a prefix keeps the rest");
  if (cnt > 0) {
    char q[8];
    for (int i = 0; i < cnt; ++i) {
      q[i] = anyChar("q");
    }
    bool same = true;
    for (int i = 0; i < cnt; ++i) {
      same = same && q[i] == t[pos + i];
    }
    vx_assert((v.compare(static_cast<uint64_t>(pos), static_cast<uint64_t>(cnt), StringView(q, static_cast<uint64_t>(cnt))) == 0) == same, "comparison of a slice");
  }
  // trimming
  StringView w = v;
  w.removeLeadingSpaces();
  int k = 0;
  while (k < n && t[k] == ' ') {
    ++k;
  }
  vx_assert(w.size() == static_cast<uint64_t>(n - k), "trimming removes exactly the leading blanks");
  if (k < n) {
    vx_assert(w.data() == t + k, "trimming keeps the rest");
  }
  delete[] t;
}
// Taking tokens yields every run of non-delimiters once, in order
// @entry h_token
extern "C" void h_token()
{
  int const n = 1 + vx_choice("n", vx_tier() ? 7 : 6);
  char * const t = text("t", n);
  char const d = anyChar("d");
  StringView v(t, static_cast<uint64_t>(n));
  int i = 0;
  int ntok = 0;
  while (true) {
    while (i < n && t[i] == d) {
      ++i;
    }
    if (i == n) {
      break;
    }
    int j = i;
    while (j < n && t[j] != d) {
      ++j;
    }
    StringView const tok = v.getTokenAndShrink(d);
    vx_assert(tok.data() == t + i && tok.size() == static_cast<uint64_t>(j - i), "next token is the next run of non-delimiters");
    ++ntok;
    i = j;
  }
  StringView const last = v.getTokenAndShrink(d);
  vx_assert(last.empty(), "no token after the last run");
  vx_obs_i("ntok", ntok);
  delete[] t;
}
