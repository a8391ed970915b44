#pragma once
// Contract of solveCubic used when the nearest point of a curve is decided: the returned numbers
// include every real root; places without a root hold a number far outside [0, 1].
#include <um2/math/quadratic_equation.hpp>
#include <um2/math/vec.hpp>
extern "C" double vx_real(char const *, double, double);
extern "C" int vx_choice(char const *, int);
extern "C" void vx_assume(bool);
namespace um2
{
// The last equation and its answer, so that asking again for a multiple of it repeats the answer.
inline double last_cubic[4];
inline double last_roots[3];
inline bool have_cubic = false;
template <class T>
auto
solveCubic(T const a, T const b, T const c, T const d) noexcept -> Vec3<T>
{
  if (have_cubic && a * last_cubic[1] == b * last_cubic[0] && a * last_cubic[2] == c * last_cubic[0] &&
      a * last_cubic[3] == d * last_cubic[0]) {
    return {last_roots[0], last_roots[1], last_roots[2]};
  }
  last_cubic[0] = a;
  last_cubic[1] = b;
  last_cubic[2] = c;
  last_cubic[3] = d;
  have_cubic = true;
  last_roots[1] = last_roots[2] = 1e16;
  T const r0 = last_roots[0] = vx_real("root", -1000, 1000);
  if (vx_choice("roots", 2) == 0) {
    // a x^3 + b x^2 + c x + d = (x - r0)(a x^2 + e x + f), second factor without real roots
    T const e = b + a * r0;
    T const f = c + e * r0;
    vx_assume(d + f * r0 == 0);
    vx_assume(e * e - 4 * a * f < 0);
    return {r0, static_cast<T>(1e16), static_cast<T>(1e16)};
  }
  T const r1 = last_roots[1] = vx_real("root", -1000, 1000);
  T const r2 = last_roots[2] = vx_real("root", -1000, 1000);
  vx_assume(-a * (r0 + r1 + r2) == b);
  vx_assume(a * (r0 * r1 + r1 * r2 + r0 * r2) == c);
  vx_assume(-a * r0 * r1 * r2 == d);
  return {r0, r1, r2};
}
} // namespace um2
