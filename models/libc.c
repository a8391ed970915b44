// Models of C library functions (GNU libc semantics, "C" locale), interpreted like any other code.
typedef unsigned long size_t;
size_t strlen(char const * s)
{
  size_t n = 0;
  while (s[n] != 0) {
    ++n;
  }
  return n;
}
int memcmp(void const * a, void const * b, size_t n)
{
  unsigned char const * x = a;
  unsigned char const * y = b;
  for (size_t i = 0; i < n; ++i) {
    if (x[i] != y[i]) {
      return x[i] < y[i] ? -1 : 1;
    }
  }
  return 0;
}
int bcmp(void const * a, void const * b, size_t n) { return memcmp(a, b, n); }
int strcmp(char const * a, char const * b)
{
  size_t i = 0;
  while (a[i] != 0 && a[i] == b[i]) {
    ++i;
  }
  return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
int strncmp(char const * a, char const * b, size_t n)
{
  for (size_t i = 0; i < n; ++i) {
    if (a[i] != b[i] || a[i] == 0) {
      return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
    }
  }
  return 0;
}
void * memchr(void const * s, int c, size_t n)
{
  unsigned char const * p = s;
  for (size_t i = 0; i < n; ++i) {
    if (p[i] == (unsigned char)c) {
      return (void *)(p + i);
    }
  }
  return 0;
}
static int isSpace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
// Numbers in the text files of the harnesses: a token of three characters stands for a number that
// need not be concrete (1: real, 2: integer; two letters: which). No token, no difference.
static double tokR[676];
static long tokI[676];
static int numR = 0;
static int numI = 0;
int vx_token_r(double v)
{
  tokR[numR] = v;
  return numR++;
}
int vx_token_i(long v)
{
  tokI[numI] = v;
  return numI++;
}
static int which(char const * p) { return (p[1] - 'A') * 26 + (p[2] - 'a'); }
double vx_token_real(char const * p) { return tokR[which(p)]; }
long vx_token_int(char const * p) { return tokI[which(p)]; }
long strtol(char const * s, char ** end, int base)
{
  char const * p = s;
  while (isSpace(*p)) {
    ++p;
  }
  if (numI > 0 && *p == 2) {
    if (end != 0) {
      *end = (char *)p + 3;
    }
    return tokI[which(p)];
  }
  int neg = 0;
  if (*p == '-' || *p == '+') {
    neg = *p == '-';
    ++p;
  }
  unsigned long v = 0;
  int any = 0;
  int over = 0;
  unsigned long const lim = neg ? 9223372036854775808UL : 9223372036854775807UL;
  while (*p >= '0' && *p <= '9') { // base 10 only, checked below
    unsigned long const d = (unsigned long)(*p - '0');
    if (v > (lim - d) / 10) {
      over = 1;
    }
    v = v * 10 + d;
    any = 1;
    ++p;
  }
  (void)base;
  if (end != 0) {
    *end = (char *)(any ? p : s);
  }
  if (over) {
    v = lim;
  }
  return neg ? (long)(0UL - v) : (long)v;
}
long long strtoll(char const * s, char ** end, int base) { return strtol(s, end, base); }
unsigned long strtoul(char const * s, char ** end, int base)
{
  char const * p = s;
  while (isSpace(*p)) {
    ++p;
  }
  if (numI > 0 && *p == 2) {
    if (end != 0) {
      *end = (char *)p + 3;
    }
    return (unsigned long)tokI[which(p)];
  }
  int neg = 0;
  if (*p == '-' || *p == '+') {
    neg = *p == '-';
    ++p;
  }
  unsigned long v = 0;
  int any = 0;
  int over = 0;
  while (*p >= '0' && *p <= '9') {
    unsigned long const d = (unsigned long)(*p - '0');
    if (v > (~0UL - d) / 10) {
      over = 1;
    }
    v = v * 10 + d;
    any = 1;
    ++p;
  }
  (void)base;
  if (end != 0) {
    *end = (char *)(any ? p : s);
  }
  if (over) {
    return ~0UL;
  }
  return neg ? 0UL - v : v;
}
unsigned long long strtoull(char const * s, char ** end, int base) { return strtoul(s, end, base); }
// Decimal and exponent forms. The value is accumulated in the executor's number model
// (exact in mode=real; in mode=fp correct for up to 15 digits and exponents up to 22).
double strtod(char const * s, char ** end)
{
  char const * p = s;
  while (isSpace(*p)) {
    ++p;
  }
  if (numR > 0 && *p == 1) {
    if (end != 0) {
      *end = (char *)p + 3;
    }
    return tokR[which(p)];
  }
  if (numI > 0 && *p == 2) {
    if (end != 0) {
      *end = (char *)p + 3;
    }
    return (double)tokI[which(p)];
  }
  int neg = 0;
  if (*p == '-' || *p == '+') {
    neg = *p == '-';
    ++p;
  }
  double v = 0;
  double scale = 1;
  int any = 0;
  while (*p >= '0' && *p <= '9') {
    v = v * 10 + (double)(*p - '0');
    any = 1;
    ++p;
  }
  if (*p == '.') {
    char const * q = p + 1;
    if (any || (*q >= '0' && *q <= '9')) {
      p = q;
      while (*p >= '0' && *p <= '9') {
        v = v * 10 + (double)(*p - '0');
        scale *= 10;
        any = 1;
        ++p;
      }
    }
  }
  if (!any) {
    if (end != 0) {
      *end = (char *)s;
    }
    return 0;
  }
  if (*p == 'e' || *p == 'E') {
    char const * q = p + 1;
    int eneg = 0;
    if (*q == '-' || *q == '+') {
      eneg = *q == '-';
      ++q;
    }
    if (*q >= '0' && *q <= '9') {
      int e = 0;
      while (*q >= '0' && *q <= '9') {
        e = e * 10 + (*q - '0');
        ++q;
      }
      double m = 1;
      for (int i = 0; i < e; ++i) {
        m *= 10;
      }
      if (eneg) {
        scale *= m;
      } else {
        v *= m;
      }
      p = q;
    }
  }
  if (end != 0) {
    *end = (char *)p;
  }
  v = v / scale;
  return neg ? -v : v;
}
float strtof(char const * s, char ** end) { return (float)strtod(s, end); }
int isspace(int c) { return isSpace(c); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

// glibc redirects the C23 names
long __isoc23_strtol(char const * s, char ** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(char const * s, char ** e, int b) { return strtoul(s, e, b); }
static int errnoCell;
int * __errno_location(void) { return &errnoCell; }

char * strchr(char const * s, int c)
{
  for (;; ++s) {
    if (*s == (char)c) {
      return (char *)s;
    }
    if (*s == 0) {
      return 0;
    }
  }
}
char * strrchr(char const * s, int c)
{
  char const * r = 0;
  for (;; ++s) {
    if (*s == (char)c) {
      r = s;
    }
    if (*s == 0) {
      return (char *)r;
    }
  }
}
char * strstr(char const * s, char const * t)
{
  size_t const n = strlen(t);
  for (;; ++s) {
    if (strncmp(s, t, n) == 0) {
      return (char *)s;
    }
    if (*s == 0) {
      return 0;
    }
  }
}
size_t strcspn(char const * s, char const * set)
{
  size_t n = 0;
  while (s[n] != 0 && strchr(set, s[n]) == 0) {
    ++n;
  }
  return n;
}
size_t strspn(char const * s, char const * set)
{
  size_t n = 0;
  while (s[n] != 0 && strchr(set, s[n]) != 0) {
    ++n;
  }
  return n;
}
char * stpcpy(char * d, char const * s)
{
  while ((*d = *s) != 0) {
    ++d;
    ++s;
  }
  return d;
}
char * strcpy(char * d, char const * s)
{
  stpcpy(d, s);
  return d;
}
char * strcat(char * d, char const * s)
{
  stpcpy(d + strlen(d), s);
  return d;
}
char * strncpy(char * d, char const * s, size_t n)
{
  size_t i = 0;
  for (; i < n && s[i] != 0; ++i) {
    d[i] = s[i];
  }
  for (; i < n; ++i) {
    d[i] = 0;
  }
  return d;
}
typedef struct { int quot, rem; } div_t;
typedef struct { long quot, rem; } ldiv_t;
div_t div(int a, int b)
{
  div_t const r = {a / b, a % b};
  return r;
}
ldiv_t ldiv(long a, long b)
{
  ldiv_t const r = {a / b, a % b};
  return r;
}
ldiv_t lldiv(long a, long b) { return ldiv(a, b); }
double fdim(double a, double b) { return a > b ? a - b : 0; }
double modf(double a, double * whole)
{
  *whole = __builtin_trunc(a);
  return a - *whole;
}
