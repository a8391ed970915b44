// Summary statistics
// @bounds lengths 1..9, 127..131, 255..258, 300 for sums and means (thorough: also 513); lengths 2..7 for variance; 1..9 for medians; each element any real in [-1000, 1000]; int32 sums with all values in +-1000000
// @outside rounding (entries in mode=real); longer sequences
#include "vrt.hpp"
#include <um2/math/stats.hpp>
#include <um2/stdlib/vector.hpp>

static Int const lens[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 127, 128, 129, 130, 131, 255, 256, 257, 258, 300, 513};

template <class T>
static void sums()
{
  Int const n = lens[vx_choice("n", vx_tier() > 0 ? 20 : 19)];
  um2::Vector<T> v(n + 2);
  T s = 0;
  for (Int i = 0; i < n + 2; ++i) {
    v[i] = static_cast<T>(vx_real("v", -1000, 1000));
  }
  for (Int i = 1; i <= n; ++i) {
    s += v[i];
  }
  double const got = static_cast<double>(um2::sum(v.data() + 1, v.data() + 1 + n));
  vx_near(got, static_cast<double>(s), 0, "sum counts every element once");
  double const m = static_cast<double>(um2::mean(v.data() + 1, v.data() + 1 + n));
  vx_near(m * n, static_cast<double>(s), 0, "mean is the sum over the count");
}
// @entry h_sum_d mode=real
extern "C" void h_sum_d() { sums<double>(); }
// @entry h_sum_f mode=real
extern "C" void h_sum_f() { sums<float>(); }
// @entry h_sum_i
extern "C" void h_sum_i()
{
  Int const n = lens[vx_choice("n", 14)];
  um2::Vector<int32_t> v(n);
  int32_t s = 0;
  for (Int i = 0; i < n; ++i) {
    v[i] = vx_int("v", -1000000, 1000000);
    s += v[i];
  }
  vx_assert(um2::sum(v.data(), v.data() + n) == s, "integer sum counts every element once");
}
// @entry h_median mode=real
extern "C" void h_median()
{
  Int const n = 1 + vx_choice("n", 9);
  um2::Vector<double> v(n);
  for (Int i = 0; i < n; ++i) {
    v[i] = vx_real("v", -1000, 1000);
    if (i > 0) {
      vx_assume(v[i - 1] <= v[i]);
    }
  }
  double const m = um2::median(v.cbegin(), v.cend());
  if (n % 2 == 1) {
    vx_near(m, v[n / 2], 0, "odd median is the middle element");
  } else {
    vx_near(2 * m, v[n / 2 - 1] + v[n / 2], 0, "even median is the average of the middle elements");
  }
  vx_le(v[0], m, 0, "median is not below the smallest");
  vx_le(m, v[n - 1], 0, "median is not above the largest");
}
template <class T>
static void spread()
{
  Int const n = 2 + vx_choice("n", 6);
  um2::Vector<T> v(n);
  double s = 0;
  for (Int i = 0; i < n; ++i) {
    v[i] = static_cast<T>(vx_real("v", -1000, 1000));
    s += static_cast<double>(v[i]);
  }
  double q = 0;
  for (Int i = 0; i < n; ++i) {
    double const d = static_cast<double>(v[i]) - s / n;
    q += d * d;
  }
  double const var = static_cast<double>(um2::variance(v.cbegin(), v.cend()));
  vx_near(var * (n - 1), q, 0, "unbiased sample variance");
  // the square root is taken of a value that the encoding must know to be non-negative
  vx_assume(var > 0.001);
  double const sd = static_cast<double>(um2::stdDev(v.cbegin(), v.cend()));
  vx_near(sd * sd, var, 0, "standard deviation squared is the variance");
  vx_le(0, sd, 0, "standard deviation is not negative");
}
// @entry h_var_d mode=real
extern "C" void h_var_d() { spread<double>(); }
// @entry h_var_f mode=real
extern "C" void h_var_f() { spread<float>(); }
