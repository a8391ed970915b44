// Morton codes, hardware (pdep/pext) build
// @config UM2_ENABLE_BMI2=1
// @bounds all coordinates (2D: 16/32 bits each, 3D: 10/21 bits each); all IEEE doubles/floats of [0,1]; sorting: 3 planar / 2 spatial float points
// @outside sorting more than three points (two in space)
#include "p06.inc"
// Points of any extent, scaled to the unit square
// @entry h_sort_scaled mode=fp time=200
extern "C" void h_sort_scaled()
{
  um2::Point<2, float> p[2];
  um2::Vec<2, float> scale;
  scale[0] = 0.5F;
  scale[1] = 0.25F;
  for (auto & q : p) {
    q[0] = vx_fp32("x");
    q[1] = vx_choice("y", 2) == 0 ? 1.0F : 3.5F;
    vx_assume(q[0] >= 0 && q[0] <= 2);
  }
  Int perm[2] = {-1, -1};
  um2::mortonSortPermutation(&p[0], &p[2], &perm[0], scale);
  vx_assert((perm[0] == 0 && perm[1] == 1) || (perm[0] == 1 && perm[1] == 0), "scaled sort permutation lists each point once");
  um2::Point<2, float> u = p[perm[0]];
  um2::Point<2, float> v = p[perm[1]];
  for (Int k = 0; k < 2; ++k) {
    u[k] *= scale[k];
    v[k] *= scale[k];
  }
  vx_assert(um2::mortonEncode(u) <= um2::mortonEncode(v), "scaled sort permutation orders the codes of the scaled points");
}
