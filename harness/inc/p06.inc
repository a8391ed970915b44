#include "vrt.hpp"
#include <um2/geometry/morton_sort_points.hpp>
#include <um2/math/morton.hpp>

// reference: bit i of the coordinate k goes to bit i * dim + k
template <class U>
static U spread(U x, int bits, int dim, int k)
{
  U r = 0;
  for (int i = 0; i < bits; ++i) {
    r |= ((x >> i) & 1) << (i * dim + k);
  }
  return r;
}
// @entry h_int2d_32
extern "C" void h_int2d_32()
{
  uint32_t const x = vx_u32("x", 0, 0xffffU);
  uint32_t const y = vx_u32("y", 0, 0xffffU);
  uint32_t const c = um2::mortonEncode(x, y);
  vx_assert(c == (spread(x, 16, 2, 0) | spread(y, 16, 2, 1)), "2D 32-bit code interleaves the bits");
  uint32_t u = 1;
  uint32_t v = 1;
  um2::mortonDecode(c, u, v);
  vx_assert(u == x && v == y, "2D 32-bit decode inverts encode");
  uint32_t const any = vx_u32("code", 0, 0xffffffffU);
  um2::mortonDecode(any, u, v);
  vx_assert(u <= 0xffffU && v <= 0xffffU && um2::mortonEncode(u, v) == any, "2D 32-bit every code is the code of its decoding");
  vx_obs_i("c", c);
  vx_obs_i("u", u);
}
// @entry h_int2d_64
extern "C" void h_int2d_64()
{
  uint64_t const x = vx_u64("x", 0, 0xffffffffULL);
  uint64_t const y = vx_u64("y", 0, 0xffffffffULL);
  uint64_t const c = um2::mortonEncode(x, y);
  vx_assert(c == (spread(x, 32, 2, 0) | spread(y, 32, 2, 1)), "2D 64-bit code interleaves the bits");
  uint64_t u = 1;
  uint64_t v = 1;
  um2::mortonDecode(c, u, v);
  vx_assert(u == x && v == y, "2D 64-bit decode inverts encode");
  uint64_t const any = vx_u64("code", 0, ~0ULL);
  um2::mortonDecode(any, u, v);
  vx_assert(u <= 0xffffffffULL && v <= 0xffffffffULL && um2::mortonEncode(u, v) == any, "2D 64-bit every code is the code of its decoding");
  vx_obs_i("u", static_cast<int64_t>(u));
}
// @entry h_int3d_32
extern "C" void h_int3d_32()
{
  uint32_t const x = vx_u32("x", 0, 1023);
  uint32_t const y = vx_u32("y", 0, 1023);
  uint32_t const z = vx_u32("z", 0, 1023);
  uint32_t const c = um2::mortonEncode(x, y, z);
  vx_assert(c == (spread(x, 10, 3, 0) | spread(y, 10, 3, 1) | spread(z, 10, 3, 2)), "3D 32-bit code interleaves the bits");
  uint32_t u = 1;
  uint32_t v = 1;
  uint32_t w = 1;
  um2::mortonDecode(c, u, v, w);
  vx_assert(u == x && v == y && w == z, "3D 32-bit decode inverts encode");
  vx_obs_i("c", c);
}
// @entry h_int3d_64
extern "C" void h_int3d_64()
{
  uint64_t const m = (1ULL << 21) - 1;
  uint64_t const x = vx_u64("x", 0, m);
  uint64_t const y = vx_u64("y", 0, m);
  uint64_t const z = vx_u64("z", 0, m);
  uint64_t const c = um2::mortonEncode(x, y, z);
  vx_assert(c == (spread(x, 21, 3, 0) | spread(y, 21, 3, 1) | spread(z, 21, 3, 2)), "3D 64-bit code interleaves the bits");
  uint64_t u = 1;
  uint64_t v = 1;
  uint64_t w = 1;
  um2::mortonDecode(c, u, v, w);
  vx_assert(u == x && v == y && w == z, "3D 64-bit decode inverts encode");
  vx_obs_i("c", static_cast<int64_t>(c));
}
template <class T>
static T unit(char const * n)
{
  T t;
  if constexpr (sizeof(T) == 8) {
    t = vx_fp(n);
  } else {
    t = vx_fp32(n);
  }
  vx_assume(t >= 0 && t <= 1);
  return t;
}
// normalised coordinates: cell k of n cells is the set k/n <= x (scaled comparison within rounding)
template <class U, class T>
static void normalised2(U m)
{
  T const x = unit<T>("x");
  T const y = unit<T>("y");
  U const c = um2::mortonEncode<U, T>(x, y);
  U u = 0;
  U v = 0;
  um2::mortonDecode(c, u, v);
  vx_assert(u <= m && v <= m, "2D normalised code stays in range");
  T const sx = x * static_cast<T>(m);
  T const sy = y * static_cast<T>(m);
  vx_assert(static_cast<T>(u) <= sx && sx < static_cast<T>(u) + 1, "2D normalised x falls in its cell");
  vx_assert(static_cast<T>(v) <= sy && sy < static_cast<T>(v) + 1, "2D normalised y falls in its cell");
  vx_obs_i("c", static_cast<int64_t>(c));
}
template <class U, class T>
static void normalised3(U m)
{
  T const x = unit<T>("x");
  T const y = unit<T>("y");
  T const z = unit<T>("z");
  U const c = um2::mortonEncode<U, T>(x, y, z);
  U u = 0;
  U v = 0;
  U w = 0;
  um2::mortonDecode(c, u, v, w);
  vx_assert(u <= m && v <= m && w <= m, "3D normalised code stays in range");
  T const sx = x * static_cast<T>(m);
  T const sy = y * static_cast<T>(m);
  T const sz = z * static_cast<T>(m);
  vx_assert(static_cast<T>(u) <= sx && sx < static_cast<T>(u) + 1, "3D normalised x falls in its cell");
  vx_assert(static_cast<T>(v) <= sy && sy < static_cast<T>(v) + 1, "3D normalised y falls in its cell");
  vx_assert(static_cast<T>(w) <= sz && sz < static_cast<T>(w) + 1, "3D normalised z falls in its cell");
  vx_obs_i("c", static_cast<int64_t>(c));
}
// @entry h_norm2_f64_u32 mode=fp time=200
extern "C" void h_norm2_f64_u32() { normalised2<uint32_t, double>(0xffffU); }
// @entry h_norm2_f64_u64 mode=fp time=200
extern "C" void h_norm2_f64_u64() { normalised2<uint64_t, double>(0xffffffffULL); }
// @entry h_norm2_f32_u32 mode=fp time=200
extern "C" void h_norm2_f32_u32() { normalised2<uint32_t, float>(0xffffU); }
// @entry h_norm3_f64_u32 mode=fp time=200
extern "C" void h_norm3_f64_u32() { normalised3<uint32_t, double>(1023U); }
// @entry h_norm3_f64_u64 mode=fp time=200
extern "C" void h_norm3_f64_u64() { normalised3<uint64_t, double>((1ULL << 21) - 1); }
// @entry h_norm3_f32_u32 mode=fp time=200
extern "C" void h_norm3_f32_u32() { normalised3<uint32_t, float>(1023U); }

// decoding a code to normalised coordinates and encoding again stays in the same cell or the cell
// below (the quotient k / n may round below the exact value)
// @entry h_normdec2 mode=fp time=200
extern "C" void h_normdec2()
{
  uint32_t const c = vx_u32("code", 0, 0xffffffffU);
  float x = -1;
  float y = -1;
  um2::mortonDecode(c, x, y);
  uint32_t u = 0;
  uint32_t v = 0;
  um2::mortonDecode(c, u, v);
  vx_assert(x >= 0 && x <= 1 && y >= 0 && y <= 1, "2D decoded coordinates are normalised");
  vx_assert(x == static_cast<float>(u) / 65535.0F && y == static_cast<float>(v) / 65535.0F, "2D decoded coordinates are cell / max");
  um2::Point<2, float> p;
  p[0] = -1;
  p[1] = -1;
  um2::mortonDecode(c, p);
  vx_assert(p[0] == x && p[1] == y, "2D decoded points have the decoded coordinates");
  vx_obs_f("x", x);
}
// @entry h_normdec3 mode=fp time=200
extern "C" void h_normdec3()
{
  uint32_t const c = vx_u32("code", 0, 0x3fffffffU);
  float x = -1;
  float y = -1;
  float z = -1;
  um2::mortonDecode(c, x, y, z);
  uint32_t u = 0;
  uint32_t v = 0;
  uint32_t w = 0;
  um2::mortonDecode(c, u, v, w);
  vx_assert(x >= 0 && x <= 1 && y >= 0 && y <= 1 && z >= 0 && z <= 1, "3D decoded coordinates are normalised");
  vx_assert(x == static_cast<float>(u) / 1023.0F && y == static_cast<float>(v) / 1023.0F && z == static_cast<float>(w) / 1023.0F, "3D decoded coordinates are cell / max");
  um2::Point<3, float> p;
  p[0] = -1;
  p[1] = -1;
  p[2] = -1;
  um2::mortonDecode(c, p);
  vx_assert(p[0] == x && p[1] == y && p[2] == z, "3D decoded points have the decoded coordinates");
  vx_obs_f("x", x);
}
template <Int D>
static void sortPoints(int n)
{
  um2::Point<D, float> p[4];
  um2::Point<D, float> q[4];
  for (int i = 0; i < n; ++i) {
    for (int d = 0; d < D; ++d) {
      p[i][d] = q[i][d] = unit<float>("p");
    }
  }
  Int perm[4] = {-1, -1, -1, -1};
  um2::mortonSortPermutation(p, p + n, perm);
  for (int i = 0; i < n; ++i) {
    int c = 0;
    for (int j = 0; j < n; ++j) {
      c += static_cast<int>(perm[j] == i);
    }
    vx_assert(c == 1, "Morton sort permutation lists each point once");
    vx_obs_i("perm", perm[i]);
  }
  um2::mortonSort(q, q + n);
  for (int i = 0; i + 1 < n; ++i) {
    vx_assert(um2::mortonEncode(q[i]) <= um2::mortonEncode(q[i + 1]), "Morton sort orders the codes");
    vx_assert(um2::mortonEncode(p[perm[i]]) <= um2::mortonEncode(p[perm[i + 1]]), "Morton sort permutation orders the codes");
  }
  for (int i = 0; i < n; ++i) {
    int a = 0;
    int b = 0;
    for (int j = 0; j < n; ++j) {
      bool e = true;
      bool f = true;
      for (int d = 0; d < D; ++d) {
        e &= p[j][d] == p[i][d];
        f &= q[j][d] == p[i][d];
      }
      a += static_cast<int>(e);
      b += static_cast<int>(f);
    }
    vx_assert(a == b, "Morton sort rearranges the points");
  }
}
// @entry h_sort2 mode=fp time=200
extern "C" void h_sort2() { sortPoints<2>(vx_tier() ? 3 : 2); }
// @entry h_sort3d mode=fp time=200
extern "C" void h_sort3d() { sortPoints<3>(2); }
