// Modular rays
// @bounds every box with sides in [0.5, 2], every corner in [-5, 5]^2, every spacing in [0.4, 2] (up to 5 rays per side); seven fixed angles in both quadrants, and every angle with sine and cosine any point of the unit circle in the right quadrant
// @outside rounding; angles with a vanishing count on one side (rejected by the library's asserts); more rays
#include "vrt.hpp"
#include <um2/geometry/modular_rays.hpp>
#include "geo.inc"
using Box = um2::AxisAlignedBox2<double>;
using Rays = um2::ModularRayParams<double>;

static void rays(double a, bool fixed)
{
  double const s = fixed ? vx_real("s", 0.4, 2) : 0.5;
  double const x = vx_real("x", -5, 5);
  double const y = vx_real("y", -5, 5);
  double const w = vx_real("w", 0.5, fixed ? 2 : 1);
  double const h = vx_real("h", 0.5, fixed ? 2 : 1);
  Rays const p(a, s, Box(v2(x, y), v2(x + w, y + h)));
  double const sn = um2::sin(a);
  double const cs0 = um2::cos(a);
  double const cs = cs0 < 0 ? -cs0 : cs0;
  Int const nx = p.getNumXRays();
  Int const ny = p.getNumYRays();
  vx_assert(p.getTotalNumRays() == nx + ny, "total number of rays");
  // smallest counts whose perpendicular distance does not exceed the spacing
  vx_le(w * sn, nx * s, 1e-7, "rays along x are at least as dense as requested");
  vx_le(h * cs, ny * s, 1e-7, "rays along y are at least as dense as requested");
  vx_le((nx - 1) * s, w * sn, 1e-7, "no more rays along x than needed");
  vx_le((ny - 1) * s, h * cs, 1e-7, "no more rays along y than needed");
  auto const sp = p.getSpacing();
  vx_near(sp[0] * nx, w, 1e-7, "spacing divides the width");
  vx_near(sp[1] * ny, h, 1e-7, "spacing divides the height");
  auto const d = p.getDirection();
  vx_near(d[0] * d[0] + d[1] * d[1], 1, 1e-7, "unit direction");
  vx_assert(d[1] > 0, "direction points upward");
  vx_assert((d[0] > 0) == (a < 1.5707963267948966), "direction lies in the requested quadrant");
  // effective angle: along one x spacing the ray climbs one y spacing
  vx_near(d[1] * sp[0], (d[0] > 0 ? d[0] : -d[0]) * sp[1], 1e-7, "the angle makes the rays cyclic");
  for (Int i = 0; i < nx + ny; ++i) {
    auto const r = p.getRay(i);
    auto const o = r.origin();
    samePoint<2>(r.direction(), d, 0, "all rays are parallel");
    bool const fwd = d[0] > 0;
    if (i < nx) {
      vx_near(o[1], y, 1e-7, "the first rays start on the bottom");
      vx_near(fwd ? x + w - o[0] : o[0] - x, (i + 0.5) * sp[0], 1e-7, "rays are evenly spaced along the bottom");
    } else {
      vx_near(o[0], fwd ? x : x + w, 1e-7, "the other rays start on the side");
      vx_near(o[1] - y, (i - nx + 0.5) * sp[1], 1e-7, "rays are evenly spaced along the side");
    }
    // the exit on the top or far side is the entry of another ray after translation by the box:
    // in units of the spacing every exit is at a half-integer
    double const u = fwd ? (x + w - o[0]) / sp[0] : (o[0] - x) / sp[0];
    double const v = (y + h - o[1]) / sp[1];
    double const t = u < v ? u : v; // steps of one spacing in x and y until a wall is reached
    Int const on = static_cast<Int>(2 * (u < v ? v - t : u - t) + 0.5);
    vx_near(2 * (u < v ? v - t : u - t), on, 1e-5, "exits lie on entry positions");
    vx_assert(on % 2 == 1 || on == 0, "exits lie on entry positions");
    vx_near(d[0] * t * sp[1], (fwd ? 1 : -1) * d[1] * t * sp[0], 1e-5, "the ray moves by equal steps");
  }
}
// @entry h_fixed mode=real time=60
extern "C" void h_fixed()
{
  static double const A[7] = {0.05, 0.3, 0.7853981633974483, 1.2, 1.8, 2.4, 3.0};
  rays(A[vx_choice("angle", 7)], true);
}
// @entry h_any mode=real time=60
extern "C" void h_any()
{
  double const a = vx_real("a", 0.05, 3.09);
  vx_assume(a < 1.57 || a > 1.5715);
  rays(a, false);
}
