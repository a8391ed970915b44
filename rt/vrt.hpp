// Harness primitives. With SYMX they are interpreted by the symbolic executor; otherwise
// rt/vrt_native.cpp implements them by reading one concrete model (counterexample or witness).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
int32_t vx_int(char const * name, int32_t lo, int32_t hi);
uint32_t vx_u32(char const * name, uint32_t lo, uint32_t hi);
int64_t vx_i64(char const * name, int64_t lo, int64_t hi);
uint64_t vx_u64(char const * name, uint64_t lo, uint64_t hi);
double vx_real(char const * name, double lo, double hi); // symbolic number in [lo, hi]
double vx_fp(char const * name);                         // any IEEE double (mode=fp)
float vx_fp32(char const * name);                        // any IEEE float (mode=fp)
int32_t vx_choice(char const * name, int32_t n);         // 0..n-1, one path each
int32_t vx_concrete(int32_t v);                          // split into one path per value
void vx_assume(bool c);
void vx_assert(bool c, char const * label);
void vx_near(double a, double b, double tol, char const * label); // |a-b| <= tol
void vx_le(double a, double b, double tol, char const * label);   // a <= b + tol
void vx_reach(char const * label);                                // must be reachable
void vx_obs_i(char const * name, int64_t v); // observation compared with the native run
void vx_obs_f(char const * name, double v);
double vx_printed(char const * at, int32_t * length); // the unsigned decimal number printed there
int32_t vx_tier();    // 0 quick, 1 thorough
int64_t vx_live();    // bytes currently allocated on the heap
void vx_allow_exit(bool b); // exit()/failed library assertion is acceptable while true
}
// Execution must not get here (not subject to the vacuity guard: precede it by vx_reach)
static inline void vx_never(char const * label)
{
  vx_assert(false, label);
}
