// Colours and numeric helpers
// @bounds every channel value, every pair of colours, every named colour; every double and float (with signed zeros, infinities and, where stated, NaN) and every 32-bit integer for the numeric helpers
// @bounds wrappers of the C mathematics library: every argument in [0.3, 0.6], the library functions themselves uninterpreted
// @outside the values of the C mathematics library
#include "vrt.hpp"
#include <cmath>
#include <um2/common/cast_if_not.hpp>
#include <um2/common/color.hpp>
#include <um2/stdlib/algorithm/clamp.hpp>
#include <um2/stdlib/algorithm/max.hpp>
#include <um2/stdlib/algorithm/min.hpp>
#include <um2/stdlib/math/abs.hpp>
#include <um2/stdlib/math/copysign.hpp>
#include <um2/stdlib/math/exponential_functions.hpp>
#include <um2/stdlib/math/fma.hpp>
#include <um2/stdlib/math/hyperbolic_functions.hpp>
#include <um2/stdlib/math/inverse_hyperbolic_functions.hpp>
#include <um2/stdlib/math/inverse_trigonometric_functions.hpp>
#include <um2/stdlib/math/logarithms.hpp>
#include <um2/stdlib/math/trigonometric_functions.hpp>
#include <um2/stdlib/math/rounding_functions.hpp>
#include <um2/stdlib/math/roots.hpp>
#include <um2/stdlib/numeric/iota.hpp>
#include <um2/stdlib/utility/pair.hpp>
#include <um2/stdlib/utility/swap.hpp>
using um2::Color;
// @entry h_colour time=60
extern "C" void h_colour()
{
  int const r = vx_int("r", 0, 255);
  int const g = vx_int("g", 0, 255);
  int const b = vx_int("b", 0, 255);
  int const a = vx_int("a", 0, 255);
  Color const c(r, g, b, a);
  vx_assert(c.r() == r && c.g() == g && c.b() == b && c.a() == a, "channels");
  Color const o(r, g, b);
  vx_assert(o.r() == r && o.g() == g && o.b() == b && o.a() == 255, "opaque unless stated");
  Color const d;
  vx_assert(d.r() == 0 && d.g() == 0 && d.b() == 0 && d.a() == 255, "black unless stated");
  int const r2 = vx_int("r2", 0, 255);
  int const g2 = vx_int("g2", 0, 255);
  int const b2 = vx_int("b2", 0, 255);
  int const a2 = vx_int("a2", 0, 255);
  Color const e(r2, g2, b2, a2);
  bool const same = r == r2 && g == g2 && b == b2 && a == a2;
  vx_assert((c == e) == same, "equal channels");
  vx_assert((c != e) == !same, "unequal channels");
  vx_obs_i("r", c.r());
}
// Fractions of full intensity
// @entry h_fraction mode=fp time=60
extern "C" void h_fraction()
{
  bool const single = vx_choice("single", 2) == 1;
  double const x = single ? static_cast<double>(vx_fp32("f")) : vx_fp("x");
  vx_assume(x >= 0 && x <= 1);
  int const place = vx_choice("place", 4);
  Color c;
  if (single) {
    float const v = static_cast<float>(x);
    c = Color(place == 0 ? v : 0.0F, place == 1 ? v : 0.0F, place == 2 ? v : 0.0F, place == 3 ? v : 0.0F);
  } else {
    c = Color(place == 0 ? x : 0.0, place == 1 ? x : 0.0, place == 2 ? x : 0.0, place == 3 ? x : 0.0);
  }
  int const ch[4] = {c.r(), c.g(), c.b(), c.a()};
  for (int k = 0; k < 4; ++k) {
    if (k != place) {
      vx_assert(ch[k] == 0, "no intensity");
    }
  }
  double const full = x * 255;
  vx_assert(ch[place] >= full - 1.0001 && ch[place] <= full + 1.0001, "intensity to within one step");
  if (x == 1) {
    vx_assert(ch[place] == 255, "full intensity");
  }
  if (place == 0 && !single) {
    vx_assert(Color(x, x, x).a() == 255, "opaque unless stated");
  }
}
struct Named {
  Color const * colour;
  int rgb;
};
// The colour names of the SVG recommendation, and one of X11
static Named const named[148] = {
    {&um2::aliceblue, 0xf0f8ff},
    {&um2::antiquewhite, 0xfaebd7},
    {&um2::aqua, 0x00ffff},
    {&um2::aquamarine, 0x7fffd4},
    {&um2::azure, 0xf0ffff},
    {&um2::beige, 0xf5f5dc},
    {&um2::bisque, 0xffe4c4},
    {&um2::black, 0x000000},
    {&um2::blanchedalmond, 0xffebcd},
    {&um2::blue, 0x0000ff},
    {&um2::blueviolet, 0x8a2be2},
    {&um2::brown, 0xa52a2a},
    {&um2::burlywood, 0xdeb887},
    {&um2::cadetblue, 0x5f9ea0},
    {&um2::chartreuse, 0x7fff00},
    {&um2::chocolate, 0xd2691e},
    {&um2::coral, 0xff7f50},
    {&um2::cornflowerblue, 0x6495ed},
    {&um2::cornsilk, 0xfff8dc},
    {&um2::crimson, 0xdc143c},
    {&um2::cyan, 0x00ffff},
    {&um2::darkblue, 0x00008b},
    {&um2::darkcyan, 0x008b8b},
    {&um2::darkgoldenrod, 0xb8860b},
    {&um2::darkgray, 0xa9a9a9},
    {&um2::darkgreen, 0x006400},
    {&um2::darkgrey, 0xa9a9a9},
    {&um2::darkkhaki, 0xbdb76b},
    {&um2::darkmagenta, 0x8b008b},
    {&um2::darkolivegreen, 0x556b2f},
    {&um2::darkorange, 0xff8c00},
    {&um2::darkorchid, 0x9932cc},
    {&um2::darkred, 0x8b0000},
    {&um2::darksalmon, 0xe9967a},
    {&um2::darkseagreen, 0x8fbc8f},
    {&um2::darkslateblue, 0x483d8b},
    {&um2::darkslategray, 0x2f4f4f},
    {&um2::darkslategrey, 0x2f4f4f},
    {&um2::darkturquoise, 0x00ced1},
    {&um2::darkviolet, 0x9400d3},
    {&um2::deeppink, 0xff1493},
    {&um2::deepskyblue, 0x00bfff},
    {&um2::dimgray, 0x696969},
    {&um2::dimgrey, 0x696969},
    {&um2::dodgerblue, 0x1e90ff},
    {&um2::firebrick, 0xb22222},
    {&um2::floralwhite, 0xfffaf0},
    {&um2::forestgreen, 0x228b22},
    {&um2::fuchsia, 0xff00ff},
    {&um2::gainsboro, 0xdcdcdc},
    {&um2::ghostwhite, 0xf8f8ff},
    {&um2::gold, 0xffd700},
    {&um2::goldenrod, 0xdaa520},
    {&um2::gray, 0x808080},
    {&um2::green, 0x008000},
    {&um2::greenyellow, 0xadff2f},
    {&um2::grey, 0x808080},
    {&um2::honeydew, 0xf0fff0},
    {&um2::hotpink, 0xff69b4},
    {&um2::indianred, 0xcd5c5c},
    {&um2::indigo, 0x4b0082},
    {&um2::ivory, 0xfffff0},
    {&um2::khaki, 0xf0e68c},
    {&um2::lavender, 0xe6e6fa},
    {&um2::lavenderblush, 0xfff0f5},
    {&um2::lawngreen, 0x7cfc00},
    {&um2::lemonchiffon, 0xfffacd},
    {&um2::lightblue, 0xadd8e6},
    {&um2::lightcoral, 0xf08080},
    {&um2::lightcyan, 0xe0ffff},
    {&um2::lightgoldenrodyellow, 0xfafad2},
    {&um2::lightgray, 0xd3d3d3},
    {&um2::lightgreen, 0x90ee90},
    {&um2::lightgrey, 0xd3d3d3},
    {&um2::lightpink, 0xffb6c1},
    {&um2::lightsalmon, 0xffa07a},
    {&um2::lightseagreen, 0x20b2aa},
    {&um2::lightskyblue, 0x87cefa},
    {&um2::lightslateblue, 0x8470ff},
    {&um2::lightslategray, 0x778899},
    {&um2::lightslategrey, 0x778899},
    {&um2::lightsteelblue, 0xb0c4de},
    {&um2::lightyellow, 0xffffe0},
    {&um2::lime, 0x00ff00},
    {&um2::limegreen, 0x32cd32},
    {&um2::linen, 0xfaf0e6},
    {&um2::magenta, 0xff00ff},
    {&um2::maroon, 0x800000},
    {&um2::mediumaquamarine, 0x66cdaa},
    {&um2::mediumblue, 0x0000cd},
    {&um2::mediumorchid, 0xba55d3},
    {&um2::mediumpurple, 0x9370db},
    {&um2::mediumseagreen, 0x3cb371},
    {&um2::mediumslateblue, 0x7b68ee},
    {&um2::mediumspringgreen, 0x00fa9a},
    {&um2::mediumturquoise, 0x48d1cc},
    {&um2::mediumvioletred, 0xc71585},
    {&um2::midnightblue, 0x191970},
    {&um2::mintcream, 0xf5fffa},
    {&um2::mistyrose, 0xffe4e1},
    {&um2::moccasin, 0xffe4b5},
    {&um2::navajowhite, 0xffdead},
    {&um2::navy, 0x000080},
    {&um2::oldlace, 0xfdf5e6},
    {&um2::olive, 0x808000},
    {&um2::olivedrab, 0x6b8e23},
    {&um2::orange, 0xffa500},
    {&um2::orangered, 0xff4500},
    {&um2::orchid, 0xda70d6},
    {&um2::palegoldenrod, 0xeee8aa},
    {&um2::palegreen, 0x98fb98},
    {&um2::paleturquoise, 0xafeeee},
    {&um2::palevioletred, 0xdb7093},
    {&um2::papayawhip, 0xffefd5},
    {&um2::peachpuff, 0xffdab9},
    {&um2::peru, 0xcd853f},
    {&um2::pink, 0xffc0cb},
    {&um2::plum, 0xdda0dd},
    {&um2::powderblue, 0xb0e0e6},
    {&um2::purple, 0x800080},
    {&um2::red, 0xff0000},
    {&um2::rosybrown, 0xbc8f8f},
    {&um2::royalblue, 0x4169e1},
    {&um2::saddlebrown, 0x8b4513},
    {&um2::salmon, 0xfa8072},
    {&um2::sandybrown, 0xf4a460},
    {&um2::seagreen, 0x2e8b57},
    {&um2::seashell, 0xfff5ee},
    {&um2::sienna, 0xa0522d},
    {&um2::silver, 0xc0c0c0},
    {&um2::skyblue, 0x87ceeb},
    {&um2::slateblue, 0x6a5acd},
    {&um2::slategray, 0x708090},
    {&um2::slategrey, 0x708090},
    {&um2::snow, 0xfffafa},
    {&um2::springgreen, 0x00ff7f},
    {&um2::steelblue, 0x4682b4},
    {&um2::tan, 0xd2b48c},
    {&um2::teal, 0x008080},
    {&um2::thistle, 0xd8bfd8},
    {&um2::tomato, 0xff6347},
    {&um2::turquoise, 0x40e0d0},
    {&um2::violet, 0xee82ee},
    {&um2::wheat, 0xf5deb3},
    {&um2::white, 0xffffff},
    {&um2::whitesmoke, 0xf5f5f5},
    {&um2::yellow, 0xffff00},
    {&um2::yellowgreen, 0x9acd32},
};
// @entry h_names time=60
extern "C" void h_names()
{
  int const i = vx_choice("i", 148);
  Color const c = *named[i].colour;
  int const rgb = named[i].rgb;
  vx_assert(c.r() == rgb / 65536 && c.g() == rgb / 256 % 256 && c.b() == rgb % 256 && c.a() == 255, "named colour");
}
// @entry h_order mode=fp time=60
extern "C" void h_order()
{
  double const a = vx_fp("a");
  double const b = vx_fp("b");
  double const c = vx_fp("c");
  vx_assume(a == a && b == b && c == c);
  double const lo = um2::min(a, b);
  double const hi = um2::max(a, b);
  vx_assert((lo == a || lo == b) && lo <= a && lo <= b, "smaller of two");
  vx_assert((hi == a || hi == b) && hi >= a && hi >= b, "greater of two");
  double const v = um2::clamp(c, lo, hi);
  vx_assert(v >= lo && v <= hi, "clamped into the range");
  vx_assert(v == c || (c < lo && v == lo) || (c > hi && v == hi), "nearest of the range");
  double x = a;
  double y = b;
  um2::swap(x, y);
  vx_assert(x == b && y == a, "swapped");
}
// @entry h_iorder time=60
extern "C" void h_iorder()
{
  Int const a = vx_int("a", -2147483647 - 1, 2147483647);
  Int const b = vx_int("b", -2147483647 - 1, 2147483647);
  Int const c = vx_int("c", -2147483647 - 1, 2147483647);
  Int const lo = um2::min(a, b);
  Int const hi = um2::max(a, b);
  vx_assert((lo == a || lo == b) && lo <= a && lo <= b, "smaller of two");
  vx_assert((hi == a || hi == b) && hi >= a && hi >= b, "greater of two");
  Int const v = um2::clamp(c, lo, hi);
  vx_assert(v >= lo && v <= hi, "clamped into the range");
  vx_assert(v == c || (c < lo && v == lo) || (c > hi && v == hi), "nearest of the range");
  vx_assume(a != -2147483647 - 1);
  vx_assert(um2::abs(a) >= 0 && (um2::abs(a) == a || um2::abs(a) == -a), "absolute value");
  // unsigned values, too
  uint32_t const u = vx_u32("u", 0, 4294967295U);
  uint32_t const w = vx_u32("w", 0, 4294967295U);
  vx_assert(um2::min(u, w) <= u && um2::min(u, w) <= w && um2::max(u, w) >= u && um2::max(u, w) >= w, "unsigned order");
  vx_obs_i("v", v);
}
// @entry h_sign mode=fp time=60
extern "C" void h_sign()
{
  double const a = vx_fp("a");
  double const b = vx_fp("b");
  vx_assume(a == a && b == b);
  double const m = um2::abs(a);
  vx_assert(m >= 0 && (m == a || m == -a), "absolute value");
  double const s = um2::copysign(a, b);
  vx_assert(s == a || s == -a, "magnitude of the first");
  vx_assert(std::signbit(s) == std::signbit(b), "sign of the second");
  float const f = vx_fp32("f");
  float const g = vx_fp32("g");
  vx_assume(f == f && g == g);
  float const t = um2::copysign(f, g);
  vx_assert((t == f || t == -f) && std::signbit(t) == std::signbit(g), "sign in single precision");
  vx_assert(um2::abs(f) >= 0 && (um2::abs(f) == f || um2::abs(f) == -f), "absolute value");
}
// @entry h_round mode=fp time=60
extern "C" void h_round()
{
  double const x = vx_fp("x");
  vx_assume(x >= -2e9 && x <= 2e9);
  double const f = um2::floor(x);
  double const c = um2::ceil(x);
  long const i = static_cast<long>(f);
  long const j = static_cast<long>(c);
  vx_assert(static_cast<double>(i) == f && f <= x && static_cast<double>(i + 1) > x, "greatest integer not above");
  vx_assert(static_cast<double>(j) == c && c >= x && static_cast<double>(j - 1) < x, "smallest integer not below");
}
// @entry h_cast mode=fp time=60
extern "C" void h_cast()
{
  double const x = vx_fp("x");
  vx_assume(x >= -2147483648.0 && x <= 2147483647.0);
  int const i = castIfNot<int>(x);
  double const d = static_cast<double>(i);
  vx_assert(x >= 0 ? d <= x && x - d < 1 : d >= x && d - x < 1, "towards zero");
  vx_assert(castIfNot<double>(x) == x, "same type");
  int const k = vx_int("k", -2147483647 - 1, 2147483647);
  vx_assert(castIfNot<int>(k) == k && castIfNot<double>(k) == static_cast<double>(k), "integers");
  vx_assert(castIfNot<int>(castIfNot<double>(k)) == k, "there and back");
}
// @entry h_range time=60
extern "C" void h_range()
{
  Int const n = vx_choice("n", 9);
  Int const first = vx_int("first", -2147483647 - 1, 2147483647 - 9);
  Int a[10];
  for (Int i = 0; i < 10; ++i) {
    a[i] = 7;
  }
  um2::iota(a + 1, a + 1 + n, first);
  for (Int i = 0; i < n; ++i) {
    vx_assert(a[i + 1] == first + i, "successive numbers");
  }
  vx_assert(a[0] == 7 && a[n + 1] == 7, "nothing else written");
  Int const b = vx_int("b", -100, 100);
  Int const c = vx_int("c", -100, 100);
  um2::Pair<Int, Int> const p(b, c);
  um2::Pair<Int, Int> const q(c, b);
  vx_assert(p.first == b && p.second == c, "pair");
  vx_assert((p == q) == (b == c), "equal pairs");
  vx_assert((p < q) == (b < c), "order of pairs");
}
// Wrappers compute the function of their name
template <class T>
static void wrappers()
{
  T const x = static_cast<T>(vx_real("x", 0.3, 0.6));
  vx_near(um2::sin(x), std::sin(x), 0, "sine");
  vx_near(um2::cos(x), std::cos(x), 0, "cosine");
  vx_near(um2::asin(x), std::asin(x), 0, "arcsine");
  vx_near(um2::acos(x), std::acos(x), 0, "arccosine");
  vx_near(um2::atan(x), std::atan(x), 0, "arctangent");
  vx_near(um2::exp(x), std::exp(x), 0, "exponential");
  vx_near(um2::log(x), std::log(x), 0, "logarithm");
  vx_near(um2::tanh(x), std::tanh(x), 0, "hyperbolic tangent");
  vx_near(um2::atanh(x), std::atanh(x), 0, "inverse hyperbolic tangent");
  T const c = um2::cbrt(x);
  vx_near(c * c * c, x, sizeof(T) == 4 ? 1e-5 : 1e-12, "cube root");
  T const r = um2::sqrt(x);
  vx_near(r * r, x, sizeof(T) == 4 ? 1e-5 : 1e-12, "square root");
  vx_le(0, r, 0, "square roots are not negative");
}
// @entry h_wrappers mode=real
extern "C" void h_wrappers()
{
  wrappers<double>();
}
// @entry h_wrappers_float mode=real
extern "C" void h_wrappers_float()
{
  wrappers<float>();
}
// @entry h_fma mode=real
extern "C" void h_fma()
{
  double const x = vx_real("x", -10, 10);
  double const y = vx_real("y", -10, 10);
  double const z = vx_real("z", -10, 10);
  vx_near(um2::fma(x, y, z), x * y + z, 1e-9, "product plus term");
  double const a = um2::abs(Complex<double>(x, y));
  vx_near(a * a, x * x + y * y, 1e-9, "magnitude of a complex number");
  vx_le(0, a, 0, "magnitudes are not negative");
}
// Pairs are ordered by their first parts, then by their second
// @entry h_pairs
extern "C" void h_pairs()
{
  Int const a = vx_int("a", INT32_MIN, INT32_MAX);
  Int const b = vx_int("b", INT32_MIN, INT32_MAX);
  Int const c = vx_int("c", INT32_MIN, INT32_MAX);
  Int const d = vx_int("d", INT32_MIN, INT32_MAX);
  um2::Pair<Int, Int> const p(a, b);
  um2::Pair<Int, Int> q;
  q = um2::Pair<Int, Int>(c, d);
  bool const less = a < c || (a == c && b < d);
  bool const same = a == c && b == d;
  vx_assert((p == q) == same && (p != q) == !same, "pairs are equal when both parts are");
  vx_assert((p < q) == less && (p >= q) == !less, "pairs are ordered part by part");
  vx_assert((p <= q) == (less || same) && (p > q) == !(less || same), "pairs are ordered part by part");
  Int u[2] = {a, b};
  Int v[2] = {c, d};
  um2::swap(u, v);
  vx_assert(u[0] == c && u[1] == d && v[0] == a && v[1] == b, "arrays swapped element by element");
}
