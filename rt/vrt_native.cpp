// Native implementation of the harness primitives: replays one model against the real code.
#include "vrt.hpp"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <string>
#include <unistd.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace
{
struct In {
  char t;
  std::string v;
};
std::map<std::string, In> * g_in;
std::map<std::string, int> * g_cnt;
bool g_allow = false;
bool g_done = false;
int g_tier = 0;
FILE * g_obs = nullptr;
int64_t g_own = 0; // bytes held by this runtime, not by the code under test

int64_t heapBytes()
{
#if defined(__SANITIZE_ADDRESS__)
  return static_cast<int64_t>(__sanitizer_get_current_allocated_bytes());
#else
  return 0;
#endif
}
struct Own {
  int64_t before = heapBytes();
  ~Own() { g_own += heapBytes() - before; }
};

char const * look(char const * name, char & t)
{
  Own const own;
  static std::string key;
  key = name;
  for (char & c : key) {
    c = c == ' ' ? '_' : c;
  }
  key += "#" + std::to_string((*g_cnt)[key]++);
  auto it = g_in->find(key);
  if (it == g_in->end()) {
    if (g_obs) {
      fprintf(g_obs, "MISSING %s\n", key.c_str());
    }
    return nullptr;
  }
  t = it->second.t;
  return it->second.v.c_str();
}
[[noreturn]] void stop(int code, char const * what)
{
  if (g_obs) {
    fprintf(g_obs, "STOP %d %s\n", code, what);
    fflush(g_obs);
  }
  g_done = true;
  fflush(stdout);
  _exit(code);
}
void onExit()
{
  if (g_done) {
    return;
  }
  // the code under test called exit()
  if (g_allow) {
    stop(0, "allowed exit");
  }
  stop(79, "exit called by the code under test");
}
} // namespace

extern "C" {
int32_t vx_int(char const * n, int32_t lo, int32_t)
{
  char t = 0;
  char const * s = look(n, t);
  return s ? static_cast<int32_t>(strtoll(s, nullptr, 10)) : lo;
}
uint32_t vx_u32(char const * n, uint32_t lo, uint32_t)
{
  char t = 0;
  char const * s = look(n, t);
  return s ? static_cast<uint32_t>(strtoull(s, nullptr, 10)) : lo;
}
int64_t vx_i64(char const * n, int64_t lo, int64_t)
{
  char t = 0;
  char const * s = look(n, t);
  return s ? strtoll(s, nullptr, 10) : lo;
}
uint64_t vx_u64(char const * n, uint64_t lo, uint64_t)
{
  char t = 0;
  char const * s = look(n, t);
  return s ? strtoull(s, nullptr, 10) : lo;
}
static double fpval(char const * n, double dflt, bool f32)
{
  char t = 0;
  char const * s = look(n, t);
  if (!s) {
    return dflt;
  }
  if (t == 'f') {
    uint64_t const u = strtoull(s, nullptr, 10);
    double d;
    memcpy(&d, &u, 8);
    return d;
  }
  if (t == 'g') {
    auto const u = static_cast<uint32_t>(strtoul(s, nullptr, 10));
    float f;
    memcpy(&f, &u, 4);
    return static_cast<double>(f);
  }
  (void)f32;
  return strtod(s, nullptr);
}
double vx_real(char const * n, double lo, double hi)
{
  double d = fpval(n, lo, false);
  if (d < lo) {
    d = lo;
  }
  if (d > hi) {
    d = hi;
  }
  return d;
}
double vx_fp(char const * n) { return fpval(n, 0, false); }
float vx_fp32(char const * n) { return static_cast<float>(fpval(n, 0, true)); }
int32_t vx_choice(char const * n, int32_t) { return vx_int(n, 0, 0); }
int32_t vx_concrete(int32_t v) { return v; }
void vx_assume(bool c)
{
  if (!c) {
    stop(78, "assumption not met by this input");
  }
}
void vx_assert(bool c, char const * l)
{
  if (!c) {
    printf("assertion failed: %s\n", l);
    stop(77, l);
  }
}
// Rounding slack of the native run: the solver decided the statement over the reals.
static double slack(double a, double b)
{
  return 1e-6 * std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
}
void vx_near(double a, double b, double tol, char const * l)
{
  if (a == b) {
    return;
  }
  if (!(std::fabs(a - b) <= tol + slack(a, b))) {
    printf("assertion failed: %s: %.17g vs %.17g (tolerance %g)\n", l, a, b, tol);
    stop(77, l);
  }
}
void vx_le(double a, double b, double tol, char const * l)
{
  if (a <= b) {
    return;
  }
  if (!(a <= b + tol + slack(a, b))) {
    printf("assertion failed: %s: %.17g <= %.17g (tolerance %g)\n", l, a, b, tol);
    stop(77, l);
  }
}
void vx_reach(char const *) {}
void vx_obs_i(char const * n, int64_t v)
{
  Own const own;
  if (g_obs) {
    fprintf(g_obs, "OBS %s %lld\n", n, static_cast<long long>(v));
  }
}
void vx_obs_f(char const * n, double v)
{
  Own const own;
  if (g_obs) {
    fprintf(g_obs, "OBS %s %.17g\n", n, v);
  }
}
double vx_printed(char const * at, int32_t * length)
{
  char * end = nullptr;
  double const d = strtod(at, &end);
  *length = static_cast<int32_t>(end - at);
  return d;
}
int32_t vx_tier() { return g_tier; }
int64_t vx_live() { return heapBytes() - g_own; }
void vx_allow_exit(bool b) { g_allow = b; }
}

int main(int argc, char ** argv)
{
  if (argc < 4) {
    fprintf(stderr, "usage: %s entry model tier [obs]\n", argv[0]);
    return 3;
  }
  g_in = new std::map<std::string, In>;
  g_cnt = new std::map<std::string, int>;
  FILE * f = fopen(argv[2], "r");
  if (!f) {
    return 3;
  }
  char n[256];
  char t;
  char v[1024];
  while (fscanf(f, "%255s %c %1023s", n, &t, v) == 3) {
    (*g_in)[n] = In{t, v};
    (*g_cnt)[std::string(n).substr(0, std::string(n).rfind('#'))] = 0;
  }
  fclose(f);
  g_tier = atoi(argv[3]);
  if (argc > 4) {
    g_obs = fopen(argv[4], "w");
  }
  auto fn = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
  if (!fn) {
    fprintf(stderr, "no entry %s\n", argv[1]);
    return 3;
  }
  atexit(onExit);
  fn();
  stop(0, "done");
}
