#!/usr/bin/env python3
"""Writes harness/P39_api.cpp: for every function of the meshing library that has a wrapper, a stand-in which compares
what it is given with what the caller passed. Run once after a change of the installed meshing library."""
import re, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
def declarations(path, marker):
    t = open(path).read()
    t = re.sub(r'//[^\n]*\n(?!\s*//)', lambda m: ('' if 'namespace' not in m.group(0) else '') + '\n', t)
    t = re.sub(r'//[^\n]*', '', t)
    t = re.sub(r'^\s*#[^\n]*(\\\n[^\n]*)*', '', t, flags=re.M)
    out, ns, depth = [], [], []
    i = 0
    tok = re.compile(r'namespace\s+(\w+)\s*\{|namespace\s*\{|extern "C"\s*\{|\{|\}|((?:[\w:<>,\*& ]|\n)+?)\b(\w+)\s*\(([^;{}]*?)\)\s*;')
    while True:
        m = tok.search(t, i)
        if not m: break
        i = m.end()
        s = m.group(0)
        if s.startswith('namespace') and m.group(1): ns.append(m.group(1))
        elif s.endswith('{'): ns.append(None)
        elif s == '}': ns.pop() if ns else None
        elif m.group(3):
            ret = ' '.join(m.group(2).replace(marker, '').split())
            out.append(('::'.join(n for n in ns if n), ret, m.group(3), ' '.join(m.group(4).split())))
    return out
def split(args):
    parts, d, cur = [], 0, ''
    for c in args:
        if c in '<(': d += 1
        if c in '>)': d -= 1
        if c == ',' and d == 0: parts.append(cur); cur = ''
        else: cur += c
    if cur.strip(): parts.append(cur)
    r = []
    for p in parts:
        p = p.strip(); dflt = None
        if '=' in p:
            p, dflt = [x.strip() for x in p.split('=', 1)]
        m = re.match(r'(.*?)(\w+)$', p)
        r.append((m.group(1).strip(), m.group(2), dflt))
    return r
def base(t):
    return t.replace('const ', '').replace('&', '').strip().replace('gmsh::vectorpair', 'std::vector<std::pair<int, int>>')
GM = declarations('/usr/include/gmsh.h', 'GMSH_API')
UM = declarations((sys.argv[1] if len(sys.argv) > 1 else '/repo') + '/include/um2/gmsh/base_gmsh_api.hpp', 'GMSH_API')
have = {}
for n, r, f, a in UM:
    k = (n.replace('um2::', '', 1), f)
    have[k] = max(have.get(k, 0), len(split(a)))
# declared without a definition
for k in ('mesh::computeHomology', 'mesh::removeDuplicateElements', 'geo::addSpline', 'occ::addSpline', 'setAttribute', 'getAttribute',
          'getAttributeNames', 'removeAttribute', 'occ::addThruSections'):
    have.pop(tuple(('gmsh::model::' + k).rsplit('::', 1)), None)
mock, calls, lost = [], [], []
ids = 0
for ns, ret, f, a in GM:
    args = split(a)
    sig = ', '.join('%s %s' % (t, n) for t, n, d in args)
    odd = any('*' in t or 'function' in t for t, n, d in args)
    key = (ns, f)
    if odd or key not in have:
        if key not in have: lost.append('::'.join(key))
        mock.append('namespace %s\n{\n%s %s(%s) {%s}\n}' % (ns, ret, f, ', '.join(t for t, n, d in args), '' if ret == 'void' else ' return {}; '))
        continue
    isout = lambda t: '&' in t and not t.startswith('const')
    body = 'begin(%d);' % ids
    for i, (t, n, d) in enumerate(args):
        body += ' %s(%d, %s);' % ('out' if isout(t) else 'in', i, n)
    if ret != 'void': body += ' return give<%s>();' % ret
    mock.append('namespace %s\n{\n%s %s(%s) { %s }\n}' % (ns, ret, f, sig, body))
    ndef = sum(1 for t, n, d in args if d is not None)
    for short in ([False, True] if ndef else [False]):
        c = 'expect(%d);' % ids
        use = []
        for i, (t, n, d) in enumerate(args):
            b = base(t)
            if isout(t):
                c += '\n  %s a%d{};' % (b, i)
            elif d is not None and (short or i >= have[key]):
                c += '\n  %s const a%d = %s;\n  pass(%d, a%d);' % (b, i, d, i, i)
            else:
                c += '\n  %s const a%d = make<%s>();\n  pass(%d, a%d);' % (b, i, b, i, i)
            if not (d is not None and (short or i >= have[key])): use.append('a%d' % i)
        call = 'um2::%s::%s(%s)' % (ns, f, ', '.join(use))
        c += '\n  %s%s;' % ('' if ret == 'void' else 'auto const r = ', call)
        c += '\n  called();'
        if ret != 'void': c += '\n  returned(r);'
        for i, (t, n, d) in enumerate(args):
            if isout(t): c += '\n  received(%d, a%d);' % (i, i)
        calls.append(c)
    ids += 1
print(ids, 'functions', len(calls), 'calls; without wrapper:', lost, file=sys.stderr)
GROUP = 16
fn = '\n'.join('static void call%d()\n{\n  %s\n}' % (i, c) for i, c in enumerate(calls))
table = ', '.join('call%d' % i for i in range(len(calls)))
src = '''// Wrappers of the meshing library (written by tools/gen_gmsh.py)
// @src src/gmsh/base_gmsh_api.cpp
// @config UM2_USE_GMSH=1
// @bounds every wrapped function of the meshing library with every number and truth value, two-element lists and fixed texts as arguments, once with all arguments and once without the optional ones
// @outside callbacks, raw pointers and command-line arguments; longer lists; functions without a wrapper or whose wrapper is declared but not defined
#include "vrt.hpp"
#include <gmsh.h>
#include <um2/gmsh/base_gmsh_api.hpp>
// Any value of a type
template <class T>
struct Any;
template <>
struct Any<int> {
  static int make() { return vx_int("i", -2147483647 - 1, 2147483647); }
  static bool same(int a, int b) { return a == b; }
};
template <>
struct Any<std::size_t> {
  static std::size_t make() { return vx_u64("n", 0, 18446744073709551615UL); }
  static bool same(std::size_t a, std::size_t b) { return a == b; }
};
template <>
struct Any<bool> {
  static bool make() { return vx_int("b", 0, 1) == 1; }
  static bool same(bool a, bool b) { return a == b; }
};
template <>
struct Any<double> {
  static double make() { return vx_real("x", -1000000, 1000000); }
  static bool same(double a, double b) { return a == b; }
};
static int texts = 0;
template <>
struct Any<std::string> {
  static std::string make()
  {
    std::string s("text A");
    s[5] = static_cast<char>('A' + texts++);
    return s;
  }
  static bool same(std::string const & a, std::string const & b)
  {
    bool r = a.size() == b.size();
    for (std::size_t i = 0; i < a.size() && r; ++i) {
      r = a[i] == b[i];
    }
    return r;
  }
};
template <class A, class B>
struct Any<std::pair<A, B>> {
  static std::pair<A, B> make()
  {
    A const a = Any<A>::make();
    return {a, Any<B>::make()};
  }
  static bool same(std::pair<A, B> const & a, std::pair<A, B> const & b)
  {
    return Any<A>::same(a.first, b.first) & Any<B>::same(a.second, b.second);
  }
};
template <class T>
struct Any<std::vector<T>> {
  static std::vector<T> make()
  {
    std::vector<T> v(2);
    v[0] = Any<T>::make();
    v[1] = Any<T>::make();
    return v;
  }
  static bool same(std::vector<T> const & a, std::vector<T> const & b)
  {
    if (a.size() != b.size()) {
      return false;
    }
    bool r = true;
    for (std::size_t i = 0; i < a.size(); ++i) {
      T const x = a[i];
      T const y = b[i];
      r = r & Any<T>::same(x, y);
    }
    return r;
  }
};
template <class T>
static T make()
{
  return Any<T>::make();
}
// What the caller passed, what the stand-in handed out
static int wanted = -1;
static int count = 0;
static void const * passed[32];
static void const * handed[32];
static void const * given = nullptr;
static void expect(int id)
{
  wanted = id;
  count = 0;
}
template <class T>
static void pass(int i, T const & v)
{
  passed[i] = &v;
}
static void begin(int id)
{
  vx_assert(id == wanted, "the function of the same name");
  ++count;
}
template <class T>
static void in(int i, T const & v)
{
  vx_assert(Any<T>::same(v, *static_cast<T const *>(passed[i])), "arguments arrive as passed");
}
template <class T>
static void out(int i, T & v)
{
  v = make<T>();
  handed[i] = new T(v);
}
template <class T>
static T give()
{
  T const v = make<T>();
  given = new T(v);
  return v;
}
static void called() { vx_assert(count == 1, "called once"); }
template <class T>
static void returned(T const & v)
{
  vx_assert(Any<T>::same(v, *static_cast<T const *>(given)), "result as returned");
  delete static_cast<T const *>(given);
}
template <class T>
static void received(int i, T const & v)
{
  vx_assert(Any<T>::same(v, *static_cast<T const *>(handed[i])), "results handed back");
  delete static_cast<T const *>(handed[i]);
}
// Stand-ins
%s
// Calls
%s
using Call = void (*)();
static Call const table[%d] = {%s};
// @entry h_wrappers mode=real time=240
extern "C" void h_wrappers()
{
  table[vx_choice("function", %d)]();
}
// The comparison tells arguments apart
// @entry h_differ mode=real
extern "C" void h_differ()
{
  std::pair<int, double> const a = Any<std::pair<int, double>>::make();
  std::pair<int, double> const b = Any<std::pair<int, double>>::make();
  bool const same = Any<std::pair<int, double>>::same(a, b);
  vx_assert(same == !(a.first < b.first || b.first < a.first || a.second < b.second || b.second < a.second), "equal means neither less nor greater");
  if (!same) {
    vx_reach("different arguments");
  }
}
''' % ('\n'.join(mock), fn, len(calls), table, len(calls))
open(sys.argv[2] if len(sys.argv) > 2 else os.path.join(HERE, '..', 'harness', 'P39_api.cpp'), 'w').write(src)
