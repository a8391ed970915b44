// Polynomial roots
// @bounds quadratics: every real coefficient in [-100, 100] with |leading nonzero coefficient| >= 1e-6, double and float
// @bounds cubics: zero leading coefficient, zero constant term, triple roots, and one real root of a shifted pure cubic, all real coefficients in [-20, 20]
// @outside rounding; cubics whose Newton iteration needs more than one step over the reals (the iteration has no finite exact form); for these the integer triples are executed as concrete IEEE runs only (supplementary, not a proof)
#include "vrt.hpp"
#include <um2/math/cubic_equation.hpp>
#include <um2/math/quadratic_equation.hpp>

template <class T>
static void quadratic()
{
  double const a = vx_real("a", -100, 100);
  double const b = vx_real("b", -100, 100);
  double const c = vx_real("c", -100, 100);
  vx_assume(a == 0 || a > 1e-6 || a < -1e-6);
  vx_assume(b == 0 || b > 1e-6 || b < -1e-6);
  auto const r = um2::solveQuadratic<T>(static_cast<T>(a), static_cast<T>(b), static_cast<T>(c));
  double const r0 = static_cast<double>(r[0]);
  double const r1 = static_cast<double>(r[1]);
  double const none = 0.99e16;
  if (a == 0) {
    vx_le(none, r1, 0, "a linear equation has no second root");
    if (b == 0) {
      vx_le(none, r0, 0, "a constant has no root");
    } else {
      vx_near(b * r0, -c, 0, "the root of a linear equation");
    }
    return;
  }
  double const disc = b * b - 4 * a * c;
  if (disc < 0) {
    vx_le(none, r0, 0, "no real roots");
    vx_le(none, r1, 0, "no real roots");
    return;
  }
  vx_near(a * r0 * r0 + b * r0 + c, 0, 0, "the first root is a root");
  vx_near(a * r1 * r1 + b * r1 + c, 0, 0, "the second root is a root");
  vx_near(a * (r0 + r1), -b, 0, "both roots with their multiplicity");
  vx_le(r0, r1, 0, "roots are ordered");
}
// @entry h_quad_d mode=real
extern "C" void h_quad_d() { quadratic<double>(); }
// @entry h_quad_f mode=real
extern "C" void h_quad_f() { quadratic<float>(); }

// Leading coefficient zero: the roots of the quadratic
// @entry h_cubic_a0 mode=real
extern "C" void h_cubic_a0()
{
  double const b = vx_real("b", -20, 20);
  double const c = vx_real("c", -20, 20);
  double const d = vx_real("d", -20, 20);
  vx_assume(b > 0.01 || b < -0.01);
  double const disc = c * c - 4 * b * d;
  auto const r = um2::solveCubic(0.0, b, c, d);
  vx_near(r[2], 1e16, 0, "a quadratic has no third root");
  if (disc < 0) {
    vx_near(r[0], 1e16, 0, "no real roots left");
    vx_near(r[1], 1e16, 0, "no real roots left");
  } else {
    vx_near(b * (r[0] + r[1]), -c, 0, "sum of the roots of the quadratic");
    vx_near(b * r[0] * r[0] + c * r[0] + d, 0, 0, "root of the quadratic");
    vx_le(r[0], r[1], 0, "cubic roots are ordered");
  }
}
// Constant term zero: zero is a root
// @entry h_cubic_d0 mode=real
extern "C" void h_cubic_d0()
{
  double const a = vx_real("a", -20, 20);
  double const b = vx_real("b", -20, 20);
  double const c = vx_real("c", -20, 20);
  vx_assume(a > 0.01 || a < -0.01);
  double const disc = b * b - 4 * a * c;
  auto const r = um2::solveCubic(a, b, c, 0.0);
  if (disc < 0) {
    vx_near(r[0], 0, 0, "zero is the only root");
    vx_near(r[1], 1e16, 0, "complex roots are left out");
    vx_near(r[2], 1e16, 0, "complex roots are left out");
  } else {
    vx_near(a * (r[0] + r[1] + r[2]), -b, 0, "sum of three roots");
    vx_near(r[0] * r[1] * r[2], 0, 0, "one of three roots is zero");
    vx_near(a * (r[0] * r[1] + r[0] * r[2] + r[1] * r[2]), c, 0, "pairwise products of three roots");
    vx_le(r[0], r[1], 0, "three roots are ordered");
    vx_le(r[1], r[2], 0, "three roots are ordered");
  }
}
// (x - m)^3
// @entry h_cubic_triple mode=real
extern "C" void h_cubic_triple()
{
  double const a = vx_real("a", -20, 20);
  double const m = vx_real("m", -20, 20);
  vx_assume(a > 0.01 || a < -0.01);
  vx_assume(m > 0.01 || m < -0.01);
  auto const r = um2::solveCubic(a, -3 * a * m, 3 * a * m * m, -a * m * m * m);
  for (Int i = 0; i < 3; ++i) {
    vx_near(r[i], m, 0, "triple root");
  }
}
// Concrete runs with known integer roots
// @entry h_cubic_runs
extern "C" void h_cubic_runs()
{
  Int const p = vx_choice("p", 6) - 2;
  Int const q = vx_choice("q", 9) - 4;
  Int const s = vx_choice("s", 9) - 4;
  double const a = vx_choice("a", 2) == 0 ? 1 : -2.5;
  double x[3] = {static_cast<double>(p), static_cast<double>(q), static_cast<double>(s)};
  for (Int i = 0; i < 2; ++i) {
    for (Int j = 0; j < 2 - i; ++j) {
      if (x[j] > x[j + 1]) {
        double const t = x[j];
        x[j] = x[j + 1];
        x[j + 1] = t;
      }
    }
  }
  vx_assume(x[0] != x[1] && x[1] != x[2]);
  auto const r = um2::solveCubic(a, -a * (x[0] + x[1] + x[2]), a * (x[0] * x[1] + x[0] * x[2] + x[1] * x[2]), -a * x[0] * x[1] * x[2]);
  for (Int i = 0; i < 3; ++i) {
    vx_near(r[i], x[i], 1e-6, "three distinct integer roots");
  }
  // one real root: (x - p)(x^2 + 2ux + u^2 + v^2), v != 0
  double const u = q;
  double const v = s == 0 ? 5 : s;
  double const B = 2 * u;
  double const Q = u * u + v * v;
  vx_assume(p != 0);
  auto const w = um2::solveCubic(a, a * (B - p), a * (Q - p * B), -a * p * Q);
  vx_near(w[0], p, 1e-6, "the single real root comes first");
  vx_assert(w[1] == 1e16 && w[2] == 1e16, "complex roots are marked invalid");
}
