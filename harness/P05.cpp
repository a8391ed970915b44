// Sorting, permutations and range algorithms
// @bounds sort3/sort4: all 32-bit element values; insertionSort: all values, lengths 0..5 (quick) / 0..6 (thorough), int and double (no NaN)
// @bounds sortPermutation/applyPermutation/invertPermutation: all values, lengths 0..5; applyPermutation additionally on all permutations of length 5
// @bounds range algorithms: all values, lengths 0..4; copies between element types: three elements, each one of four values
// @outside std::sort is executed as compiled (libstdc++ introsort); its insertion-sort regime (n <= 16) is what the lengths reach
#include "vrt.hpp"
#include <um2/common/branchless_sort.hpp>
#include <um2/common/insertion_sort.hpp>
#include <um2/common/permutation.hpp>
#include <um2/stdlib/algorithm/clamp.hpp>
#include <um2/stdlib/algorithm/copy.hpp>
#include <um2/stdlib/algorithm/equal.hpp>
#include <um2/stdlib/algorithm/fill.hpp>
#include <um2/stdlib/algorithm/is_sorted.hpp>
#include <um2/stdlib/algorithm/lexicographical_compare.hpp>
#include <um2/stdlib/algorithm/max.hpp>
#include <um2/stdlib/algorithm/max_element.hpp>
#include <um2/stdlib/algorithm/min.hpp>
#include <um2/stdlib/numeric/iota.hpp>
#include <um2/stdlib/utility/swap.hpp>

static int32_t anyInt(char const * n) { return vx_int(n, INT32_MIN, INT32_MAX); }

template <class T>
static int count(T const * a, int n, T v)
{
  int c = 0;
  for (int i = 0; i < n; ++i) {
    c += static_cast<int>(a[i] == v);
  }
  return c;
}
template <class T>
static void checkSorted(T const * in, T const * out, int n)
{
  for (int i = 0; i + 1 < n; ++i) {
    vx_assert(!(out[i + 1] < out[i]), "sorted output is ordered");
  }
  for (int i = 0; i < n; ++i) {
    vx_assert(count(in, n, in[i]) == count(out, n, in[i]), "sorted output is a rearrangement");
  }
}

// @entry h_sort3
extern "C" void h_sort3()
{
  int32_t a[3];
  int32_t b[3];
  for (int i = 0; i < 3; ++i) {
    a[i] = b[i] = anyInt("a");
  }
  um2::sort3(&b[0], &b[1], &b[2]);
  for (int i = 0; i < 3; ++i) {
    vx_obs_i("b", b[i]);
  }
  checkSorted(a, b, 3);
}
// @entry h_sort4
extern "C" void h_sort4()
{
  int32_t a[4];
  int32_t b[4];
  for (int i = 0; i < 4; ++i) {
    a[i] = b[i] = anyInt("a");
  }
  um2::sort4(&b[0], &b[1], &b[2], &b[3]);
  for (int i = 0; i < 4; ++i) {
    vx_obs_i("b", b[i]);
  }
  checkSorted(a, b, 4);
}
// @entry h_insertion
extern "C" void h_insertion()
{
  int const n = vx_choice("n", vx_tier() ? 7 : 6);
  int32_t a[8];
  int32_t b[8];
  for (int i = 0; i < n; ++i) {
    a[i] = b[i] = anyInt("a");
  }
  b[n] = 77;
  um2::insertionSort(b, b + n);
  vx_assert(b[n] == 77, "insertion sort stays inside its range");
  for (int i = 0; i < n; ++i) {
    vx_obs_i("b", b[i]);
  }
  checkSorted(a, b, n);
}
// @entry h_insertion_double mode=fp
extern "C" void h_insertion_double()
{
  int const n = vx_choice("n", 5);
  double a[5];
  double b[5];
  for (int i = 0; i < n; ++i) {
    a[i] = b[i] = vx_fp("a");
    vx_assume(a[i] == a[i]);
  }
  um2::insertionSort(b, b + n);
  for (int i = 0; i < n; ++i) {
    vx_obs_f("b", b[i]);
  }
  checkSorted(a, b, n);
}
// @entry h_sortperm
extern "C" void h_sortperm()
{
  int const n = vx_choice("n", vx_tier() ? 7 : 6);
  int32_t a[8];
  int32_t orig[8];
  Int perm[8] = {-9, -9, -9, -9, -9, -9, -9, -9};
  for (int i = 0; i < n; ++i) {
    a[i] = orig[i] = anyInt("a");
  }
  um2::sortPermutation(a, a + n, perm);
  vx_assert(perm[n] == -9, "sort permutation stays inside its range");
  for (int i = 0; i < n; ++i) {
    vx_assert(a[i] == orig[i], "sort permutation leaves its input alone");
    vx_assert(0 <= perm[i] && perm[i] < n, "sort permutation entries are indices");
    vx_assert(count(perm, n, i) == 1, "sort permutation lists each index once");
    vx_obs_i("perm", perm[i]);
  }
  for (int i = 0; i + 1 < n; ++i) {
    vx_assert(!(orig[perm[i + 1]] < orig[perm[i]]), "sort permutation orders the values");
  }
  um2::applyPermutation(a, a + n, perm);
  for (int i = 0; i < n; ++i) {
    vx_assert(a[i] == orig[perm[i]], "applying the permutation sorts the values");
  }
  Int inv[8];
  um2::invertPermutation(perm, perm + n, inv);
  for (int i = 0; i < n; ++i) {
    vx_assert(inv[perm[i]] == i && perm[inv[i]] == i, "inverse permutation undoes the permutation");
  }
  um2::applyPermutation(a, a + n, inv);
  for (int i = 0; i < n; ++i) {
    vx_assert(a[i] == orig[i], "applying the inverse restores the input");
  }
}
// every permutation, arbitrary distinct payload
// @entry h_applyperm
extern "C" void h_applyperm()
{
  int const n = vx_choice("n", vx_tier() ? 7 : 6);
  Int perm[8];
  int32_t a[8];
  int32_t orig[8];
  for (int i = 0; i < n; ++i) {
    perm[i] = vx_int("p", 0, n - 1);
    a[i] = orig[i] = anyInt("a");
    for (int j = 0; j < i; ++j) {
      vx_assume(perm[i] != perm[j]);
    }
  }
  for (int i = 0; i < n; ++i) {
    perm[i] = vx_concrete(perm[i]);
  }
  Int inv[8];
  um2::invertPermutation(perm, perm + n, inv);
  um2::applyPermutation(a, a + n, perm);
  for (int i = 0; i < n; ++i) {
    vx_assert(a[i] == orig[perm[i]], "apply moves each element to its stated place");
    vx_assert(inv[perm[i]] == i, "invert is the inverse");
    vx_obs_i("a", a[i]);
  }
}
// @entry h_ranges
extern "C" void h_ranges()
{
  int const n = vx_choice("n", 5);
  int const m = vx_choice("m", 4);
  int32_t a[6];
  int32_t b[6];
  int32_t c[6];
  for (int i = 0; i < n; ++i) {
    a[i] = anyInt("a");
  }
  for (int i = 0; i < m; ++i) {
    b[i] = anyInt("b");
  }
  // is_sorted
  bool srt = true;
  for (int i = 0; i + 1 < n; ++i) {
    srt &= !(a[i + 1] < a[i]);
  }
  vx_assert(um2::is_sorted(a, a + n) == srt, "is_sorted is true exactly for ordered ranges");
  // max_element: first maximal element
  int32_t * const mx = um2::max_element(a, a + n);
  vx_assert(mx >= a && mx <= a + n && (n == 0) == (mx == a + n), "max_element points into the range");
  if (n > 0) {
    for (int i = 0; i < n; ++i) {
      vx_assert(!(*mx < a[i]), "max_element is maximal");
    }
    for (int32_t * q = a; q != mx; ++q) {
      vx_assert(*q < *mx, "max_element is the first maximum");
    }
    vx_obs_i("mx", mx - a);
  }
  // lexicographical_compare
  bool lt = false;
  bool decided = false;
  for (int i = 0; i < (n < m ? n : m); ++i) {
    lt = decided ? lt : (a[i] < b[i]);
    decided = decided | (a[i] != b[i]);
  }
  lt = decided ? lt : n < m;
  bool const lc = um2::lexicographical_compare(a, a + n, b, b + m);
  vx_assert(lc == lt, "lexicographical_compare is the dictionary order");
  vx_obs_i("lc", lc);
  // equal over the common length
  int const k = n < m ? n : m;
  bool eq = true;
  for (int i = 0; i < k; ++i) {
    eq &= a[i] == b[i];
  }
  vx_assert(um2::equal(a, a + k, b) == eq, "equal compares element by element");
  // copy
  c[n] = 1234;
  int32_t * const e = um2::copy(a, a + n, c);
  vx_assert(e == c + n && c[n] == 1234, "copy returns the end and stops there");
  for (int i = 0; i < n; ++i) {
    vx_assert(c[i] == a[i], "copy copies every element");
  }
  // copy between neighbouring halves of one array
  int32_t h[8];
  for (int i = 0; i < n; ++i) {
    h[n + i] = a[i];
  }
  um2::copy(h + n, h + 2 * n, h);
  for (int i = 0; i < n; ++i) {
    vx_assert(h[i] == a[i] && h[n + i] == a[i], "copy to the range just before the source");
  }
  for (int i = 0; i < n; ++i) {
    h[n + i] = 0;
  }
  um2::copy(h, h + n, h + n);
  for (int i = 0; i < n; ++i) {
    vx_assert(h[i] == a[i] && h[n + i] == a[i], "copy to the range just after the source");
  }
  // fill
  int32_t const v = anyInt("v");
  um2::fill(c, c + n, v);
  vx_assert(c[n] == 1234, "fill stops at the end");
  for (int i = 0; i < n; ++i) {
    vx_assert(c[i] == v, "fill writes every element");
  }
  int32_t const v0 = vx_int("v0", -1000, 1000);
  um2::iota(c, c + n, v0);
  for (int i = 0; i < n; ++i) {
    vx_assert(c[i] == v0 + i, "iota counts up");
  }
}
// @entry h_minmax
extern "C" void h_minmax()
{
  int32_t const a = anyInt("a");
  int32_t const b = anyInt("b");
  int32_t const c = anyInt("c");
  vx_assert(um2::min(a, b) == (a < b ? a : b), "min");
  vx_assert(um2::max(a, b) == (a > b ? a : b), "max");
  vx_assume(b <= c);
  vx_assert(um2::clamp(a, b, c) == (a < b ? b : (a > c ? c : a)), "clamp");
  int32_t x[2] = {a, b};
  int32_t y[2] = {c, a};
  um2::swap(x, y);
  vx_assert(x[0] == c && x[1] == a && y[0] == a && y[1] == b, "array swap exchanges every element");
  int32_t p = a;
  int32_t q = b;
  um2::swap(p, q);
  vx_assert(p == b && q == a, "swap exchanges the values");
  vx_obs_i("p", p);
}
// Copies between element types convert each value
// @entry h_copy_mixed mode=real
extern "C" void h_copy_mixed()
{
  int32_t a[3];
  int64_t l[3];
  for (int i = 0; i < 3; ++i) {
    static int32_t const values[4] = {-7, 0, 2, 1000};
    a[i] = values[vx_choice("a", 4)];
    l[i] = a[i];
  }
  double d[4] = {7, 7, 7, 7};
  vx_assert(um2::copy(&l[0], &l[3], &d[0]) == &d[3], "copy between types returns the end");
  float f[3];
  um2::copy(&a[0], &a[3], &f[0]);
  int64_t back[3];
  um2::copy(&d[0], &d[3], &back[0]);
  int16_t h[3];
  um2::copy(&a[0], &a[3], &h[0]);
  int8_t c[3];
  bool b[3];
  for (int i = 0; i < 3; ++i) {
    c[i] = static_cast<int8_t>(a[i]);
  }
  um2::copy(&c[0], &c[3], &b[0]);
  for (int i = 0; i < 3; ++i) {
    vx_near(d[i], a[i], 0, "copied integers become equal reals");
    vx_near(static_cast<double>(f[i]), a[i], 0, "copied integers become equal reals");
    vx_assert(back[i] == a[i], "copied reals become equal integers");
    vx_assert(h[i] == a[i], "copied integers are converted");
    vx_assert(b[i] == (c[i] != 0), "copied integers become truth values");
  }
  vx_near(d[3], 7, 0, "copy between types stays inside its range");
}
