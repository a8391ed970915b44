// Growable array: operation histories against an ideal sequence
// @bounds histories of 3 operations (quick) / 4 (thorough) on two arrays of up to 12 elements each; the operation mix is exhaustive, every element value is symbolic (all 32-bit values)
// @bounds element types: int32_t (memcpy paths) and an owning class that checks its own lifetime (construct/move/destroy paths)
// @outside capacities beyond 32 elements, allocation failure, element types with throwing moves
#include "vrt.hpp"
#include <um2/stdlib/vector.hpp>

// An element that owns heap storage and verifies that it is alive whenever it is used
static int live_boxes = 0;
struct Box {
  Box * self;
  int32_t * p;
  Box() : self(this), p(nullptr) { ++live_boxes; }
  Box(int32_t v) : self(this), p(new int32_t(v)) { ++live_boxes; }
  Box(Box const & o) : self(this), p(nullptr)
  {
    vx_assert(o.self == &o, "source element is alive");
    if (o.p != nullptr) {
      p = new int32_t(*o.p);
    }
    ++live_boxes;
  }
  Box(Box && o) noexcept : self(this), p(o.p)
  {
    vx_assert(o.self == &o, "source element is alive");
    o.p = nullptr;
    ++live_boxes;
  }
  Box & operator=(Box const & o)
  {
    vx_assert(self == this && o.self == &o, "assigned element is alive");
    if (this != &o) {
      delete p;
      p = o.p == nullptr ? nullptr : new int32_t(*o.p);
    }
    return *this;
  }
  Box & operator=(Box && o) noexcept
  {
    vx_assert(self == this && o.self == &o, "assigned element is alive");
    if (this != &o) {
      delete p;
      p = o.p;
      o.p = nullptr;
    }
    return *this;
  }
  ~Box()
  {
    vx_assert(self == this, "element destroyed exactly once");
    delete p;
    self = nullptr;
    --live_boxes;
  }
};
static int32_t val(int32_t const & x) { return x; }
static int32_t val(Box const & b)
{
  vx_assert(b.self == &b, "stored element is alive");
  return b.p == nullptr ? 0 : *b.p;
}
template <class T> constexpr bool kTracked = false;
template <> constexpr bool kTracked<Box> = true;

// The ideal sequence. `known` is false for elements whose value is unspecified
// (default-initialised plain integers).
struct Ideal {
  int n = 0;
  int32_t v[64];
  bool known[64];
  void push(int32_t x, bool k = true)
  {
    v[n] = x;
    known[n] = k;
    ++n;
  }
};
template <class T>
static void compare(um2::Vector<T> const & a, Ideal const & m)
{
  vx_assert(a.size() == m.n, "size equals the number of elements");
  vx_assert(a.empty() == (m.n == 0), "empty exactly when there are no elements");
  vx_assert(a.capacity() >= a.size(), "capacity covers the size");
  vx_assert(a.end() - a.begin() == m.n && a.cend() - a.cbegin() == m.n, "iterators span the elements");
  for (int i = 0; i < m.n; ++i) {
    if (m.known[i]) {
      vx_assert(val(a[i]) == m.v[i], "element values and order");
    } else if constexpr (kTracked<T>) {
      vx_assert(val(a[i]) == m.v[i], "element values and order");
    }
  }
  if (m.n > 0 && m.known[m.n - 1] && m.known[0]) {
    vx_assert(val(a.back()) == m.v[m.n - 1] && val(a.front()) == m.v[0] && a.data() == a.begin(), "front, back and data");
  }
}
static int32_t anyVal() { return vx_int("v", INT32_MIN, INT32_MAX); }

template <class T>
static void history(int nops)
{
  int64_t const live0 = vx_live();
  {
    um2::Vector<T> a;
    um2::Vector<T> b;
    Ideal ma;
    Ideal mb;
    // Starting states: empty, exactly full, with spare capacity
    int const start = vx_choice("start", 3);
    if (start == 1) {
      int32_t const v = anyVal();
      a = um2::Vector<T>(2, T(v));
      ma.push(v);
      ma.push(v);
    } else if (start == 2) {
      a.reserve(4);
      for (int i = 0; i < 3; ++i) {
        int32_t const v = anyVal();
        a.push_back(T(v));
        ma.push(v);
      }
    }
    for (int k = 0; k < nops; ++k) {
      switch (vx_choice("op", 16)) {
      case 0: { // copy value in
        int32_t const v = anyVal();
        T const x(v);
        a.push_back(x);
        ma.push(v);
        break;
      }
      case 1: { // move value in
        int32_t const v = anyVal();
        a.push_back(T(v));
        ma.push(v);
        break;
      }
      case 2: {
        int32_t const v = anyVal();
        a.emplace_back(v);
        ma.push(v);
        break;
      }
      case 3: // append an element of the array itself
        if (ma.n > 0 && ma.known[0]) {
          a.push_back(a[0]);
          ma.push(ma.v[0]);
        }
        break;
      case 4:
        if (ma.n > 0) {
          a.pop_back();
          --ma.n;
        }
        break;
      case 5: {
        int const n = ma.n + 2;
        a.resize(n);
        while (ma.n < n) {
          ma.push(0, false);
        }
        break;
      }
      case 6: {
        int const n = ma.n / 2;
        a.resize(n);
        ma.n = n;
        break;
      }
      case 7:
        a.reserve(ma.n + 1);
        vx_assert(a.capacity() >= ma.n + 1, "reserve provides the capacity");
        break;
      case 8:
        a.clear();
        ma.n = 0;
        break;
      case 9: // copy assignment, then the source changes
        b = a;
        mb = ma;
        if (ma.n > 0) {
          int32_t const v = anyVal();
          a[0] = T(v);
          ma.v[0] = v;
          ma.known[0] = true;
        }
        break;
      case 10: // move assignment leaves a usable empty source
        b = um2::move(a);
        mb = ma;
        ma.n = 0;
        a.clear();
        break;
      case 11: { // copy construction
        um2::Vector<T> c(a);
        compare(c, ma);
        c.push_back(T(7));
        break;
      }
      case 12: { // move construction and move back
        um2::Vector<T> c(um2::move(a));
        compare(c, ma);
        vx_assert(a.empty(), "moved-from array is empty");
        a = um2::move(c);
        break;
      }
      case 13: { // assign from a range (of the other array, possibly longer or shorter)
        T tmp[3] = {T(anyVal()), T(anyVal()), T(anyVal())};
        int const n = vx_choice("n", 4);
        a.assign(static_cast<T const *>(tmp), static_cast<T const *>(tmp + n));
        ma.n = 0;
        for (int i = 0; i < n; ++i) {
          ma.push(val(tmp[i]));
        }
        break;
      }
      case 14: { // copy assignment from the other array and self assignment
        a = b;
        ma = mb;
        um2::Vector<T> & r = a;
        a = r;
        break;
      }
      case 15: { // initializer list and range construction
        int32_t const v = anyVal();
        um2::Vector<T> c = {T(v), T(2)};
        um2::Vector<T> d(c.data(), c.data() + 2);
        vx_assert(val(d[0]) == v && val(d[1]) == 2 && d.size() == 2, "range construction copies the range");
        a = {T(v), T(2)};
        ma.n = 0;
        ma.push(v);
        ma.push(2);
        break;
      }
      }
      compare(a, ma);
      compare(b, mb);
    }
    vx_obs_i("size", a.size());
    if (ma.n > 0 && ma.known[ma.n - 1]) {
      vx_obs_i("last", val(a.back()));
    }
    if constexpr (kTracked<T>) {
      vx_assert(live_boxes == a.size() + b.size(), "every live element belongs to an array");
    }
  }
  vx_assert(vx_live() == live0, "all storage is released");
  if constexpr (kTracked<T>) {
    vx_assert(live_boxes == 0, "every element is destroyed");
  }
}
// @entry h_int
extern "C" void h_int() { history<int32_t>(vx_tier() ? 4 : 3); }
// @entry h_owning
extern "C" void h_owning() { history<Box>(vx_tier() ? 4 : 3); }

// Long growth: contents survive every reallocation
// @entry h_growth
extern "C" void h_growth()
{
  um2::Vector<Box> a;
  Ideal m;
  int const n = vx_choice("n", vx_tier() ? 34 : 18);
  for (int i = 0; i < n; ++i) {
    int32_t const v = anyVal();
    if (i % 2 == 0) {
      a.push_back(Box(v));
    } else {
      a.emplace_back(v);
    }
    m.push(v);
  }
  compare(a, m);
  um2::Vector<Box> b(a);
  while (!a.empty()) {
    a.pop_back();
  }
  compare(b, m);
}

// Relational operators are the lexicographic order
// @entry h_order
extern "C" void h_order()
{
  int const na = vx_choice("na", 4);
  int const nb = vx_choice("nb", 4);
  um2::Vector<int32_t> a;
  um2::Vector<int32_t> b;
  for (int i = 0; i < na; ++i) {
    a.push_back(anyVal());
  }
  for (int i = 0; i < nb; ++i) {
    b.push_back(anyVal());
  }
  bool eq = na == nb;
  bool lt = na < nb;
  for (int i = (na < nb ? na : nb) - 1; i >= 0; --i) {
    if (a[i] != b[i]) {
      eq = false;
      lt = a[i] < b[i];
    }
  }
  vx_assert((a == b) == eq && (a != b) == !eq, "equality is elementwise");
  vx_assert((a < b) == lt && (a >= b) == !lt, "ordering is lexicographic");
  vx_assert((a > b) == (!lt && !eq) && (a <= b) == (lt || eq), "reverse ordering is lexicographic");
}
