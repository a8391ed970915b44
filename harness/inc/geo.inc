#include <um2/geometry/ray.hpp>
template <Int D, class T = double>
static um2::Vec<D, T> anyPoint(char const * n, double lo = -10, double hi = 10)
{
  um2::Vec<D, T> p;
  for (Int i = 0; i < D; ++i) {
    p[i] = static_cast<T>(vx_real(n, lo, hi));
  }
  return p;
}
// Any direction of (almost) unit length with no component in (-lim, lim)
template <Int D>
static um2::Vec<D, double> anyDirection(char const * n, double lim)
{
  auto d = anyPoint<D>(n, -1, 1);
  double q = 0;
  for (Int i = 0; i < D; ++i) {
    vx_assume(d[i] >= lim || d[i] <= -lim);
    q += d[i] * d[i];
  }
  vx_assume(q > 0.9999999 && q < 1.0000001);
  return d;
}
template <Int D>
static void samePoint(um2::Vec<D, double> const & a, um2::Vec<D, double> const & b, double tol, char const * l)
{
  for (Int i = 0; i < D; ++i) {
    vx_near(a[i], b[i], tol, l);
  }
}
static inline um2::Vec<2, double> v2(double x, double y)
{
  um2::Vec<2, double> p;
  p[0] = x;
  p[1] = y;
  return p;
}
