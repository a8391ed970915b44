#pragma once
// Sorting along the Morton curve, with the curve cut off after two levels (the code itself is
// checked separately) so that orders depend on the positions through comparisons only.
#include <um2/geometry/point.hpp>
#include <um2/stdlib/numeric/iota.hpp>
#include <algorithm>
extern "C" void vx_assert(bool, char const *);
namespace um2
{
using MortonCode = unsigned;
// First two levels of the curve; points in the same sixteenth of the square compare equal
inline auto
mortonEncode(Vec<2, double> const & p) noexcept -> unsigned
{
  vx_assert(p[0] >= 0 && p[0] <= 1 && p[1] >= 0 && p[1] <= 1, "points are scaled into the unit square before encoding");
  unsigned const x = p[0] < 32768 / 65535.0 ? (p[0] < 16384 / 65535.0 ? 0 : 1) : (p[0] < 49152 / 65535.0 ? 2 : 3);
  unsigned const y = p[1] < 32768 / 65535.0 ? (p[1] < 16384 / 65535.0 ? 0 : 1) : (p[1] < 49152 / 65535.0 ? 2 : 3);
  return (x & 1) | (y & 1) << 1 | (x & 2) << 1 | (y & 2) << 2;
}
template <Int D, class T>
void
mortonSortPermutation(Point<D, T> const * begin, Point<D, T> const * end, Int * perm_begin) noexcept
{
  auto const n = end - begin;
  um2::iota(perm_begin, perm_begin + n, 0);
  std::sort(perm_begin, perm_begin + n,
            [&](Int const i, Int const j) { return mortonEncode(begin[i]) < mortonEncode(begin[j]); });
}
template <Int D, class T>
void
mortonSortPermutation(Point<D, T> const * begin, Point<D, T> const * end, Int * perm_begin,
                      Vec<D, T> const scale) noexcept
{
  auto const n = end - begin;
  um2::iota(perm_begin, perm_begin + n, 0);
  std::sort(perm_begin, perm_begin + n, [&](Int const i, Int const j) {
    return mortonEncode(begin[i] * scale) < mortonEncode(begin[j] * scale);
  });
}
} // namespace um2
