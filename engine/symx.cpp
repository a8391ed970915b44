// symx: symbolic execution of LLVM IR with SMT (Z3) deciding every branch and assertion.
#include "poly.hpp"

#include <llvm/ADT/APInt.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <cmath>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <set>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;

// ------------------------------------------------------------------------------------------------
// Globals and options
// ------------------------------------------------------------------------------------------------
static Z3_context Z;
static PolyCtx PX;
static Module * M;
static DataLayout const * DLp;
static bool g_real = true;        // real or IEEE
static int g_tier = 0;
static int g_seed = 1;
static double g_deadline = 0;     // absolute seconds

// No process outlives the time limit by more than this, whatever it is computing: the kernel ends it.
static void hardStop();
static double g_qto = 20;         // seconds per query (hard)
static int g_max_viol = 3;
static int g_enum_limit = 300;
static int g_witness = 6;
static uint64_t g_max_inst = 200000000ULL;
// paths longer than this may be endless
static uint64_t g_long_inst = 10000000ULL;
static int g_out = -1;
static std::string g_tmp;
static int g_maxprocs = 8;

struct Shared {
  int32_t active;
  int32_t stop;
  int32_t viol;
  int32_t witness;
  int32_t procs;
};
static Shared * g_sh;              // per entry
static int32_t * g_pool;           // shared by all entries of a driver run

struct Stats {
  uint64_t paths = 0, forks = 0, insts = 0, queries = 0, q_sat = 0, q_unsat = 0, q_unknown = 0,
           q_cached = 0, q_model = 0, asserts = 0, asserts_trivial = 0, asserts_solver = 0, ident_solver = 0, ident_nf = 0,
           pruned = 0, memchecks = 0, exits_ok = 0;
  double solver_s = 0;
};
static Stats S;
static std::unordered_set<Function const *> g_funcs;
static std::unordered_map<std::string, uint64_t> g_reached;   // label -> times
static std::unordered_map<std::string, uint64_t> g_label_ok;

static double now()
{
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

static void hardStop()
{
  double const left = g_deadline - now();
  alarm(static_cast<unsigned>((left > 0 ? left : 0) + 75));
}

static std::string jesc(std::string const & s)
{
  std::string r;
  for (char const c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", static_cast<unsigned char>(c));
      r += b;
    } else {
      r += c;
    }
  }
  return r;
}
static void emit(std::string s)
{
  s += "\n";
  ssize_t const r = write(g_out, s.data(), s.size());
  (void)r;
}

// ------------------------------------------------------------------------------------------------
// Values
// ------------------------------------------------------------------------------------------------
enum VK : uint8_t { V_UNDEF, V_INT, V_WIDE, V_SYM, V_REAL, V_FPC, V_FPS, V_AGG };
struct Val;
using Agg = std::vector<Val>;
struct Val {
  VK k = V_UNDEF;
  uint8_t sp = 0;   // V_REAL: 0 finite 1 +inf 2 -inf 3 nan
  uint16_t w = 0;   // bit width
  union {
    uint64_t i;
    APInt const * wide;
    Z3_ast a;
    PP n;
    Agg const * agg;
    double d;
  };
  PP den = nullptr; // V_REAL denominator, nullptr = 1
  Val() : i(0) {}
};
static Val mkInt(unsigned w, uint64_t v)
{
  Val r;
  r.k = V_INT;
  r.w = static_cast<uint16_t>(w);
  r.i = w >= 64 ? v : (v & ((1ULL << w) - 1));
  return r;
}
static Val mkAP(APInt const & a)
{
  if (a.getBitWidth() <= 64) {
    return mkInt(a.getBitWidth(), a.getZExtValue());
  }
  Val r;
  r.k = V_WIDE;
  r.w = static_cast<uint16_t>(a.getBitWidth());
  r.wide = new APInt(a);
  return r;
}
static APInt toAP(Val const & v)
{
  if (v.k == V_WIDE) {
    return *v.wide;
  }
  return APInt(v.w, v.i);
}
static Val mkSym(unsigned w, Z3_ast a) // w == 1 -> Bool sorted
{
  Val r;
  r.k = V_SYM;
  r.w = static_cast<uint16_t>(w);
  r.a = a;
  return r;
}
static Val mkUndef(unsigned w)
{
  Val r;
  r.w = static_cast<uint16_t>(w);
  return r;
}
// A constant of more than 2000 bits is rounded to 400: relative error below 2^-399, against
// tolerances of 1e-12 and coarser. Keeps long chains of concrete arithmetic finite.
static PP roundConst(PP n)
{
  mpq_class const & q = n->t[0].second;
  size_t const bn = mpz_sizeinbase(q.get_num_mpz_t(), 2);
  size_t const bd = mpz_sizeinbase(q.get_den_mpz_t(), 2);
  if (bn + bd <= 2000) {
    return n;
  }
  long const sh = 400 + static_cast<long>(bd) - static_cast<long>(bn);
  mpz_class num = q.get_num();
  mpz_class den = q.get_den();
  if (sh >= 0) {
    num <<= static_cast<unsigned long>(sh);
  } else {
    den <<= static_cast<unsigned long>(-sh);
  }
  mpz_class v = num / den;
  mpq_class r(v);
  if (sh >= 0) {
    mpz_class p = 1;
    p <<= static_cast<unsigned long>(sh);
    r /= p;
  } else {
    mpz_class p = 1;
    p <<= static_cast<unsigned long>(-sh);
    r *= p;
  }
  r.canonicalize();
  return PX.constant(r);
}
static Val mkReal(PP n, PP d = nullptr)
{
  if (n->t.size() == 1 && n->t[0].first == 0 && (d == nullptr || d == PX.one)) {
    n = roundConst(n);
  }
  Val r;
  r.k = V_REAL;
  r.w = 64;
  r.n = n;
  r.den = (d != nullptr && d == PX.one) ? nullptr : d;
  return r;
}
static Val mkSpecial(int sp)
{
  Val r = mkReal(PX.zero);
  r.sp = static_cast<uint8_t>(sp);
  return r;
}
static Val mkFPC(unsigned w, double d)
{
  Val r;
  r.k = V_FPC;
  r.w = static_cast<uint16_t>(w);
  r.d = w == 32 ? static_cast<double>(static_cast<float>(d)) : d;
  return r;
}
static Val mkFPS(unsigned w, Z3_ast a)
{
  Val r;
  r.k = V_FPS;
  r.w = static_cast<uint16_t>(w);
  r.a = a;
  return r;
}
static Val mkAgg(Agg a)
{
  Val r;
  r.k = V_AGG;
  r.agg = new Agg(std::move(a));
  return r;
}
// an integer made of several values that must keep their identity, lowest first (w is its width)
static Val mkPacked(Agg a, unsigned w)
{
  Val r = mkAgg(std::move(a));
  r.w = static_cast<uint16_t>(w);
  return r;
}
static bool isPacked(Val const & v) { return v.k == V_AGG && v.w != 0; }
static bool isConc(Val const & v) { return v.k == V_INT || v.k == V_WIDE; }

struct EngineError {
  std::string msg;
};
[[noreturn]] static void fail(std::string const & s) { throw EngineError{s}; }
struct PathEnd {}; // current path finished

// ------------------------------------------------------------------------------------------------
// Z3 helpers
// ------------------------------------------------------------------------------------------------
static Z3_ast zTrue, zFalse;
static Z3_ast zNot(Z3_ast a)
{
  if (a == zTrue) {
    return zFalse;
  }
  if (a == zFalse) {
    return zTrue;
  }
  if (Z3_get_ast_kind(Z, a) == Z3_APP_AST) {
    Z3_app const app = Z3_to_app(Z, a);
    if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, app)) == Z3_OP_NOT) {
      return Z3_get_app_arg(Z, app, 0);
    }
  }
  return Z3_mk_not(Z, a);
}
static Z3_ast zAnd(Z3_ast a, Z3_ast b)
{
  if (a == zTrue || a == b) {
    return b;
  }
  if (b == zTrue) {
    return a;
  }
  if (a == zFalse || b == zFalse) {
    return zFalse;
  }
  Z3_ast x[2] = {a, b};
  return Z3_mk_and(Z, 2, x);
}
static Z3_ast zOr(Z3_ast a, Z3_ast b)
{
  if (a == zFalse || a == b) {
    return b;
  }
  if (b == zFalse) {
    return a;
  }
  if (a == zTrue || b == zTrue) {
    return zTrue;
  }
  Z3_ast x[2] = {a, b};
  return Z3_mk_or(Z, 2, x);
}
static Z3_ast zBV(unsigned w, uint64_t v)
{
  return Z3_mk_unsigned_int64(Z, v, Z3_mk_bv_sort(Z, w));
}
static Z3_ast zSimp(Z3_ast a) { return Z3_simplify(Z, a); }
static Z3_sort fpSort(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z); }
static Z3_ast fpRNE() { return Z3_mk_fpa_rne(Z); }

static Z3_ast bvOf(Val const & v) // bit-vector term
{
  switch (v.k) {
  case V_INT:
    return zBV(v.w, v.i);
  case V_WIDE: {
    SmallString<128> s;
    v.wide->toStringUnsigned(s, 10);
    return Z3_mk_numeral(Z, s.c_str(), Z3_mk_bv_sort(Z, v.w));
  }
  case V_SYM:
    if (v.w == 1) {
      return Z3_mk_ite(Z, v.a, zBV(1, 1), zBV(1, 0));
    }
    return v.a;
  default:
    fail("bvOf: not an integer value");
  }
}
static Z3_ast boolOf(Val const & v)
{
  if (v.k == V_INT) {
    return v.i != 0 ? zTrue : zFalse;
  }
  if (v.k == V_SYM && v.w == 1) {
    return v.a;
  }
  fail("boolOf: not a boolean");
}
static Val fromBV(unsigned w, Z3_ast a)
{
  if (w == 1) {
    return mkSym(1, Z3_mk_eq(Z, a, zBV(1, 1)));
  }
  return mkSym(w, a);
}
static Val fromBool(Z3_ast a)
{
  if (a == zTrue) {
    return mkInt(1, 1);
  }
  if (a == zFalse) {
    return mkInt(1, 0);
  }
  return mkSym(1, a);
}
static Z3_ast fpOf(Val const & v)
{
  if (v.k == V_FPC) {
    return v.w == 32 ? Z3_mk_fpa_numeral_float(Z, static_cast<float>(v.d), fpSort(32))
                     : Z3_mk_fpa_numeral_double(Z, v.d, fpSort(64));
  }
  if (v.k == V_FPS) {
    return v.a;
  }
  fail("fpOf: not a floating point value");
}

// ------------------------------------------------------------------------------------------------
// double <-> rational
// ------------------------------------------------------------------------------------------------
static double mpqToDouble(mpq_class const & q)
{
  // nearest double: mpq_get_d truncates, so compare neighbours
  double d = q.get_d();
  double best = d;
  mpq_class be = abs(mpq_class(d) - q);
  for (double c : {std::nextafter(d, -INFINITY), std::nextafter(d, INFINITY)}) {
    if (std::isfinite(c)) {
      mpq_class e = abs(mpq_class(c) - q);
      if (e < be) {
        be = e;
        best = c;
      }
    }
  }
  return best;
}
static mpq_class decimalOf(std::string const & s)
{
  // parse [-]d.ddde[+-]x
  std::string mant;
  int exp = 0;
  bool neg = false;
  bool dot = false;
  size_t i = 0;
  if (s[i] == '-') {
    neg = true;
    ++i;
  }
  for (; i < s.size(); ++i) {
    if (s[i] == '.') {
      dot = true;
    } else if (s[i] == 'e' || s[i] == 'E') {
      exp += std::atoi(s.c_str() + i + 1);
      break;
    } else {
      mant += s[i];
      if (dot) {
        --exp;
      }
    }
  }
  mpz_class m(mant, 10);
  mpz_class p;
  mpz_ui_pow_ui(p.get_mpz_t(), 10, static_cast<unsigned long>(std::abs(exp)));
  mpq_class q = exp >= 0 ? mpq_class(m * p) : mpq_class(m, p);
  q.canonicalize();
  return neg ? mpq_class(-q) : q;
}
static mpq_class ratOfConst(double d, bool f32)
{
  // Source constants: read as the short decimal or small fraction they denote.
  if (d == std::floor(d) && std::fabs(d) < 9e15) {
    return mpq_class(d);
  }
  char buf[64];
  for (int prec = 1; prec <= (f32 ? 6 : 13); ++prec) {
    snprintf(buf, sizeof buf, "%.*e", prec, d);
    double const back = f32 ? static_cast<double>(strtof(buf, nullptr)) : strtod(buf, nullptr);
    if (back == d) {
      return decimalOf(buf);
    }
  }
  double const ad = std::fabs(d);
  for (int q = 2; q <= 2520; ++q) {
    double const p = std::nearbyint(ad * q);
    if (p > 1e6 || p < 1) {
      continue;
    }
    double const back = f32 ? static_cast<double>(static_cast<float>(p) / static_cast<float>(q)) : p / q;
    if (back == ad) {
      mpq_class r(static_cast<long>(p), q);
      r.canonicalize();
      return d < 0 ? mpq_class(-r) : r;
    }
  }
  return mpq_class(d);
}
static Val realFromDouble(double d, bool constant, bool f32 = false)
{
  if (std::isnan(d)) {
    // remember the bits: integers moved through floating registers look like this
    Val r = mkSpecial(3);
    uint64_t b = 0;
    memcpy(&b, &d, 8);
    mpz_class z;
    mpz_import(z.get_mpz_t(), 1, 1, 8, 0, 0, &b);
    r.n = PX.constant(mpq_class(z));
    return r;
  }
  if (std::isinf(d)) {
    return mkSpecial(d > 0 ? 1 : 2);
  }
  return mkReal(PX.constant(constant ? ratOfConst(d, f32) : mpq_class(d)));
}
static bool realIsConst(Val const & v)
{
  return v.k == V_REAL && v.sp == 0 && v.n->isConst() && (v.den == nullptr || v.den->isConst());
}
static mpq_class realConst(Val const & v)
{
  mpq_class q = v.n->constVal();
  if (v.den != nullptr) {
    q /= v.den->constVal();
  }
  return q;
}
static double realToDouble(Val const & v)
{
  if (v.sp == 1) {
    return INFINITY;
  }
  if (v.sp == 2) {
    return -INFINITY;
  }
  if (v.sp == 3) {
    return NAN;
  }
  return mpqToDouble(realConst(v));
}

// ------------------------------------------------------------------------------------------------
// Memory
// ------------------------------------------------------------------------------------------------
enum OK : uint8_t { O_GLOBAL, O_STACK, O_HEAP };
struct Cell {
  uint32_t size;
  Val v;
};
struct Obj {
  int rc = 1;
  uint64_t base = 0;
  uint64_t size = 0;
  OK kind = O_GLOBAL;
  bool alive = true;
  bool ro = false;
  uint8_t how = 0; // 0 malloc, 1 new, 2 new[]
  std::vector<uint8_t> bytes;
  std::vector<uint8_t> tag; // 0 uninit 1 concrete 2 symbolic cell
  std::map<uint32_t, Cell> cells;
  std::string name;
};
struct ObjRef {
  Obj * p = nullptr;
  ObjRef() = default;
  explicit ObjRef(Obj * o) : p(o) {}
  ObjRef(ObjRef const & o) : p(o.p)
  {
    if (p != nullptr) {
      ++p->rc;
    }
  }
  ObjRef(ObjRef && o) noexcept : p(o.p) { o.p = nullptr; }
  ObjRef & operator=(ObjRef o)
  {
    std::swap(p, o.p);
    return *this;
  }
  ~ObjRef()
  {
    if (p != nullptr && --p->rc == 0) {
      delete p;
    }
  }
};

// ------------------------------------------------------------------------------------------------
// Program info
// ------------------------------------------------------------------------------------------------
struct FInfo {
  DenseMap<Value const *, unsigned> num;
  unsigned n = 0;
};
static std::unordered_map<Function const *, FInfo *> g_fi;
static FInfo * finfo(Function const * f)
{
  auto & p = g_fi[f];
  if (p == nullptr) {
    p = new FInfo;
    for (auto const & a : f->args()) {
      p->num[&a] = p->n++;
    }
    for (auto const & bb : *f) {
      for (auto const & in : bb) {
        if (!in.getType()->isVoidTy()) {
          p->num[&in] = p->n++;
        }
      }
    }
  }
  return p;
}

struct Frame {
  Function const * f = nullptr;
  FInfo * fi = nullptr;
  BasicBlock const * bb = nullptr;
  BasicBlock const * prev = nullptr;
  BasicBlock::const_iterator it;
  CallBase const * call = nullptr;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  std::vector<Val> varargs;
};

struct Input {
  std::string name;
  char type; // i (int) r (real) f (fp64) g (fp32) c (choice)
  unsigned w;
  bool sgn;
  Z3_ast a;    // nullptr for choices
  int64_t c;
};
struct Observation {
  std::string name;
  Val v;
  bool isf;
};

struct State {
  std::vector<Frame> fr;
  std::map<uint64_t, ObjRef> mem; // by base address
  uint64_t brk = 0x200000000ULL;
  std::vector<Z3_ast> pc;
  std::vector<Z3_ast> assign; // by var index
  bool assign_ok = true;
  std::vector<Input> inputs;
  std::vector<Observation> obs;
  std::map<std::string, int> name_count;
  std::vector<int> choices_forced; // choice replay for re-execution
  std::unordered_map<PP, int> sign; // known sign of polynomials
  uint64_t insts = 0;
  bool allow_exit = false;
  bool used_undef = false;
  int undef_ctr = 0;
  std::vector<std::tuple<Z3_ast, Val, int>> printed; // first digit, printed magnitude, length
  // arguments behind each va_list
  std::map<uint64_t, std::vector<Val>> valists;
  std::map<std::pair<void const *, void const *>, std::vector<Val>> fdigits; // digits given to printed reals
  int depth = 0;
};

static std::map<uint64_t, ObjRef> g_globmem; // immutable constants shared by all states
static std::unordered_map<GlobalValue const *, uint64_t> g_gaddr;
static std::unordered_map<uint64_t, Function const *> g_faddr;
static std::vector<std::unique_ptr<State>> g_work;
static State * C; // current

// ------------------------------------------------------------------------------------------------
// Variables of terms (for slicing)
// ------------------------------------------------------------------------------------------------
struct VarDef {
  Z3_ast a;
  std::string name;
  std::vector<Z3_ast> defs; // definitional constraints
};
static std::vector<VarDef> g_vars;
static std::unordered_map<Z3_ast, unsigned> g_varix;
enum { F_BV = 1, F_REAL = 2, F_NL = 4, F_FP = 8 };
struct TInfo {
  std::vector<unsigned> vars;
  unsigned flags = 0;
};
static std::unordered_map<Z3_ast, TInfo *> g_tinfo;

static Z3_ast newVar(std::string const & name, Z3_sort s)
{
  Z3_ast const a = Z3_mk_const(Z, Z3_mk_string_symbol(Z, name.c_str()), s);
  if (g_varix.find(a) == g_varix.end()) {
    g_varix[a] = static_cast<unsigned>(g_vars.size());
    g_vars.push_back({a, name, {}});
  }
  return a;
}
static TInfo * tinfo(Z3_ast a)
{
  auto it = g_tinfo.find(a);
  if (it != g_tinfo.end()) {
    return it->second;
  }
  auto * r = new TInfo;
  auto const kind = Z3_get_ast_kind(Z, a);
  if (kind == Z3_APP_AST) {
    Z3_app const app = Z3_to_app(Z, a);
    unsigned const n = Z3_get_app_num_args(Z, app);
    Z3_sort const s = Z3_get_sort(Z, a);
    auto const sk = Z3_get_sort_kind(Z, s);
    if (sk == Z3_BV_SORT) {
      r->flags |= F_BV;
    } else if (sk == Z3_REAL_SORT) {
      r->flags |= F_REAL;
    } else if (sk == Z3_FLOATING_POINT_SORT) {
      r->flags |= F_FP;
    }
    if (n == 0) {
      auto v = g_varix.find(a);
      if (v != g_varix.end()) {
        r->vars.push_back(v->second);
      }
    } else {
      std::set<unsigned> vs;
      unsigned nonnum = 0;
      for (unsigned i = 0; i < n; ++i) {
        Z3_ast const ch = Z3_get_app_arg(Z, app, i);
        auto * c = tinfo(ch);
        r->flags |= c->flags;
        vs.insert(c->vars.begin(), c->vars.end());
        if (Z3_get_ast_kind(Z, ch) != Z3_NUMERAL_AST) {
          ++nonnum;
        }
      }
      r->vars.assign(vs.begin(), vs.end());
      auto const dk = Z3_get_decl_kind(Z, Z3_get_app_decl(Z, app));
      if (sk == Z3_REAL_SORT && (dk == Z3_OP_MUL || dk == Z3_OP_POWER || dk == Z3_OP_DIV) &&
          nonnum > 1) {
        r->flags |= F_NL;
      }
      if (sk == Z3_REAL_SORT && dk == Z3_OP_POWER) {
        r->flags |= F_NL;
      }
    }
  }
  g_tinfo[a] = r;
  return r;
}

// ------------------------------------------------------------------------------------------------
// Solver
// ------------------------------------------------------------------------------------------------
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct QRes {
  Res r = R_UNKNOWN;
  std::vector<std::pair<unsigned, Z3_ast>> model; // var index -> numeral value (rational/bv/fp only)
  double budget = 0;
  bool exact = true;                               // false if some value was algebraic
};

static std::unordered_map<std::string, QRes> g_qcache;

static void slice(std::vector<Z3_ast> const & pc, std::vector<Z3_ast> const & extra,
                  std::vector<Z3_ast> & out, std::vector<unsigned> & vars)
{
  std::vector<char> in(g_vars.size(), 0);
  std::vector<unsigned> todo;
  auto const addv = [&](Z3_ast a) {
    for (unsigned const v : tinfo(a)->vars) {
      if (in[v] == 0) {
        in[v] = 1;
        todo.push_back(v);
      }
    }
  };
  std::unordered_set<Z3_ast> have;
  for (auto e : extra) {
    if (have.insert(e).second) {
      out.push_back(e);
    }
    addv(e);
  }
  std::vector<char> used(pc.size(), 0);
  bool changed = true;
  while (changed) {
    changed = false;
    while (!todo.empty()) {
      unsigned const v = todo.back();
      todo.pop_back();
      vars.push_back(v);
      for (auto d : g_vars[v].defs) {
        if (have.insert(d).second) {
          out.push_back(d);
        }
        addv(d);
      }
      changed = true;
    }
    for (size_t i = 0; i < pc.size(); ++i) {
      if (used[i] != 0) {
        continue;
      }
      bool hit = false;
      for (unsigned const v : tinfo(pc[i])->vars) {
        if (in[v] != 0) {
          hit = true;
          break;
        }
      }
      if (hit) {
        used[i] = 1;
        if (have.insert(pc[i]).second) {
          out.push_back(pc[i]);
        }
        addv(pc[i]);
        changed = true;
      }
    }
  }
}

static bool g_z3err = false;
static void z3err(Z3_context c, Z3_error_code e)
{
  (void)c;
  (void)e;
  g_z3err = true;
}

static Z3_ast modelVal(Z3_model m, Z3_ast v, bool & exact)
{
  Z3_ast r = nullptr;
  if (!Z3_model_eval(Z, m, v, true, &r) || r == nullptr) {
    exact = false;
    return nullptr;
  }
  auto const k = Z3_get_sort_kind(Z, Z3_get_sort(Z, r));
  if (k == Z3_REAL_SORT) {
    if (Z3_get_ast_kind(Z, r) == Z3_NUMERAL_AST) {
      return r;
    }
    r = zSimp(r);
    if (Z3_get_ast_kind(Z, r) == Z3_NUMERAL_AST) {
      return r;
    }
    exact = false;
    if (Z3_is_algebraic_number(Z, r)) {
      return Z3_get_algebraic_number_lower(Z, r, 18);
    }
    return nullptr;
  }
  return r;
}

static Z3_solver mkSolver(int which, double to_s, unsigned flags)
{
  Z3_solver s = nullptr;
  if (which == 0) {
    s = Z3_mk_simple_solver(Z);
  } else if (which == 1) {
    Z3_tactic const t = Z3_mk_tactic(Z, "qfnra-nlsat");
    Z3_tactic_inc_ref(Z, t);
    s = Z3_mk_solver_from_tactic(Z, t);
  } else if (which == 2) {
    s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
  } else if (which == 3) {
    s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_FPBV"));
  } else {
    s = Z3_mk_solver(Z);
  }
  Z3_solver_inc_ref(Z, s);
  Z3_params const p = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"),
                     static_cast<unsigned>(std::max(50.0, to_s * 1000)));
  if (which == 0) {
    Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "random_seed"),
                       static_cast<unsigned>(g_seed));
  }
  Z3_solver_set_params(Z, s, p);
  Z3_params_dec_ref(Z, p);
  (void)flags;
  return s;
}

static Res runCvc5(std::vector<Z3_ast> const & cs, double to_s)
{
  // text round trip to an independent solver; only unsat is used
  std::string f = g_tmp + "/q" + std::to_string(getpid()) + ".smt2";
  Z3_ast const t = zTrue;
  std::vector<Z3_ast> v(cs);
  Z3_string const s = Z3_benchmark_to_smtlib_string(Z, "q", "ALL", "unknown", "",
                                                    static_cast<unsigned>(v.size()), v.data(), t);
  FILE * fp = fopen(f.c_str(), "w");
  if (fp == nullptr) {
    return R_UNKNOWN;
  }
  fputs(s, fp);
  fclose(fp);
  std::string const cmd = "cvc5 --tlimit=" + std::to_string(static_cast<long>(to_s * 1000)) + " " +
                          f + " 2>/dev/null";
  FILE * pp = popen(cmd.c_str(), "r");
  char buf[256] = {0};
  Res r = R_UNKNOWN;
  if (pp != nullptr) {
    if (fgets(buf, sizeof buf, pp) != nullptr) {
      if (strncmp(buf, "unsat", 5) == 0) {
        r = R_UNSAT;
      }
    }
    pclose(pp);
  }
  unlink(f.c_str());
  return r;
}

static char const * g_dump = nullptr;

static QRes solveSet(std::vector<Z3_ast> const & cs, std::vector<unsigned> const & vars,
                     double budget)
{
  QRes q;
  unsigned flags = 0;
  for (auto c : cs) {
    flags |= tinfo(c)->flags;
  }
  std::vector<std::pair<int, double>> plan;
  if ((flags & F_NL) != 0) {
    plan = {{0, std::min(0.6, budget)}, {1, std::min(3.0, budget)}, {0, std::min(4.0, budget)}, {1, budget}, {9, budget}, {4, budget}};
  } else if ((flags & F_FP) != 0) {
    plan = {{3, std::min(5.0, budget)}, {0, budget}, {3, budget * 3}};
  } else if ((flags & F_REAL) == 0) {
    plan = {{0, std::min(1.0, budget)}, {2, budget}, {0, budget}};
  } else {
    plan = {{0, budget}, {4, budget}};
  }
  double const t0 = now();
  ++S.queries;
  for (auto [which, to] : plan) {
    if (which == 9) {
      if (runCvc5(cs, to) == R_UNSAT) {
        q.r = R_UNSAT;
        break;
      }
      continue;
    }
    Z3_solver const s = mkSolver(which, to, flags);
    g_z3err = false;
    for (auto c : cs) {
      Z3_solver_assert(Z, s, c);
    }
    auto const r = Z3_solver_check(Z, s);
    if (g_z3err) {
      Z3_solver_dec_ref(Z, s);
      continue;
    }
    if (r == Z3_L_FALSE) {
      q.r = R_UNSAT;
      Z3_solver_dec_ref(Z, s);
      break;
    }
    if (r == Z3_L_TRUE) {
      q.r = R_SAT;
      Z3_model const m = Z3_solver_get_model(Z, s);
      if (m != nullptr) {
        Z3_model_inc_ref(Z, m);
        for (unsigned const v : vars) {
          Z3_ast const val = modelVal(m, g_vars[v].a, q.exact);
          q.model.emplace_back(v, val);
        }
        Z3_model_dec_ref(Z, m);
      } else {
        q.exact = false;
      }
      Z3_solver_dec_ref(Z, s);
      break;
    }
    Z3_solver_dec_ref(Z, s);
    if (now() > g_deadline) {
      break;
    }
  }
  double const dt = now() - t0;
  S.solver_s += dt;
  if (g_dump != nullptr && dt > 2) {
    static int k = 0;
    std::string f = std::string(g_dump) + "/slow" + std::to_string(getpid()) + "_" +
                    std::to_string(k++) + ".smt2";
    FILE * fp = fopen(f.c_str(), "w");
    if (fp != nullptr) {
      std::vector<Z3_ast> v(cs);
      fprintf(fp, "; %.1f s result %d\n", dt, q.r);
      fputs(Z3_benchmark_to_smtlib_string(Z, "q", "ALL", "unknown", "",
                                          static_cast<unsigned>(v.size()), v.data(), zTrue),
            fp);
      fclose(fp);
    }
  }
  if (q.r == R_SAT) {
    ++S.q_sat;
  } else if (q.r == R_UNSAT) {
    ++S.q_unsat;
  } else {
    ++S.q_unknown;
  }
  return q;
}

static QRes check(std::vector<Z3_ast> const & pc, std::vector<Z3_ast> const & extra,
                  double budget = 0)
{
  if (budget <= 0) {
    budget = g_qto;
  }
  std::vector<Z3_ast> cs;
  std::vector<unsigned> vars;
  for (auto e : extra) {
    if (e == zFalse) {
      QRes q;
      q.r = R_UNSAT;
      return q;
    }
  }
  slice(pc, extra, cs, vars);
  std::vector<unsigned> ids;
  for (auto c : cs) {
    ids.push_back(Z3_get_ast_id(Z, c));
  }
  std::sort(ids.begin(), ids.end());
  std::string key(reinterpret_cast<char const *>(ids.data()), ids.size() * sizeof(unsigned));
  auto it = g_qcache.find(key);
  if (it != g_qcache.end() && (it->second.r != R_UNKNOWN || it->second.budget >= budget)) {
    ++S.q_cached;
    return it->second;
  }
  QRes q = solveSet(cs, vars, budget);
  q.budget = budget;
  if (g_qcache.size() > 200000) {
    g_qcache.clear();
  }
  g_qcache[key] = q;
  return q;
}

// evaluate a boolean under the state's assignment: 1 true, 0 false, -1 unknown
static Z3_ast substAssign(State const & st, Z3_ast a)
{
  auto * ti = tinfo(a);
  std::vector<Z3_ast> from;
  std::vector<Z3_ast> to;
  for (unsigned const v : ti->vars) {
    if (v >= st.assign.size() || st.assign[v] == nullptr) {
      return nullptr;
    }
    from.push_back(g_vars[v].a);
    to.push_back(st.assign[v]);
  }
  return zSimp(Z3_substitute(Z, a, static_cast<unsigned>(from.size()), from.data(), to.data()));
}
static int evalAssign(State const & st, Z3_ast a)
{
  if (!st.assign_ok) {
    return -1;
  }
  Z3_ast const r = substAssign(st, a);
  if (r == nullptr) {
    return -1;
  }
  if (r == zTrue) {
    return 1;
  }
  if (r == zFalse) {
    return 0;
  }
  return -1;
}
static void adoptModel(State & st, QRes const & q)
{
  if (st.assign.size() < g_vars.size()) {
    st.assign.resize(g_vars.size(), nullptr);
  }
  for (auto const & [v, val] : q.model) {
    // an inexact value would make later evaluations unsound as evidence; drop it
    st.assign[v] = q.exact ? val : nullptr;
  }
}

static std::unique_ptr<State> cloneState(State const & s)
{
  ++S.forks;
  return std::make_unique<State>(s);
}

static bool inPC(State const & st, Z3_ast c)
{
  for (auto it = st.pc.rbegin(); it != st.pc.rend(); ++it) {
    if (*it == c) {
      return true;
    }
  }
  return false;
}

// Decide a boolean for the current state, forking (the sibling re-executes the instruction).
static bool decide(Z3_ast c)
{
  c = zSimp(c);
  if (c == zTrue) {
    return true;
  }
  if (c == zFalse) {
    return false;
  }
  State & st = *C;
  Z3_ast const nc = zNot(c);
  if (inPC(st, c)) {
    return true;
  }
  if (inPC(st, nc)) {
    return false;
  }
  int const ev = evalAssign(st, c);
  QRes qt;
  QRes qf;
  bool t = ev == 1;
  bool f = ev == 0;
  if (ev >= 0) {
    ++S.q_model;
  }
  if (!t) {
    qt = check(st.pc, {c});
    t = qt.r != R_UNSAT;
  }
  if (!f) {
    qf = check(st.pc, {nc});
    f = qf.r != R_UNSAT;
  }
  if (t && f) {
    auto o = cloneState(st);
    o->pc.push_back(nc);
    if (ev != 0) {
      if (qf.r == R_SAT) {
        adoptModel(*o, qf);
      } else {
        for (unsigned const v : tinfo(c)->vars) {
          if (v < o->assign.size()) {
            o->assign[v] = nullptr;
          }
        }
      }
    }
    g_work.push_back(std::move(o));
    st.pc.push_back(c);
    if (ev != 1) {
      if (qt.r == R_SAT) {
        adoptModel(st, qt);
      } else {
        for (unsigned const v : tinfo(c)->vars) {
          if (v < st.assign.size()) {
            st.assign[v] = nullptr;
          }
        }
      }
    }
    return true;
  }
  if (!t && !f) {
    ++S.pruned;
    throw PathEnd{};
  }
  if (t && ev == -1 && qt.r == R_SAT) {
    adoptModel(st, qt);
  }
  if (f && ev == -1 && qf.r == R_SAT) {
    adoptModel(st, qf);
  }
  return t;
}

static void assume(Z3_ast c)
{
  State & st = *C;
  c = zSimp(c);
  if (c == zTrue) {
    return;
  }
  if (c == zFalse) {
    ++S.pruned;
    throw PathEnd{};
  }
  if (inPC(st, c)) {
    return;
  }
  int const ev = evalAssign(st, c);
  if (ev != 1) {
    QRes const q = check(st.pc, {c});
    if (q.r == R_UNSAT) {
      ++S.pruned;
      throw PathEnd{};
    }
    if (q.r == R_SAT) {
      adoptModel(st, q);
    } else {
      for (unsigned const v : tinfo(c)->vars) {
        if (v < st.assign.size()) {
          st.assign[v] = nullptr;
        }
      }
    }
  }
  st.pc.push_back(c);
}

static uint64_t numU64(Z3_ast a)
{
  uint64_t u = 0;
  if (!Z3_get_numeral_uint64(Z, a, &u)) {
    fail("numU64: not a 64-bit numeral");
  }
  return u;
}

// A concrete value for a bit-vector term on this path (forks over the alternatives).
static uint64_t concretize(Val const & v, char const * what)
{
  if (v.k == V_INT) {
    return v.i;
  }
  if (v.k == V_UNDEF) {
    fail(std::string("concretize undef: ") + what);
  }
  if (v.k != V_SYM) {
    fail(std::string("concretize: unsupported value kind in ") + what);
  }
  Z3_ast const t = zSimp(bvOf(v));
  if (Z3_get_ast_kind(Z, t) == Z3_NUMERAL_AST) {
    return numU64(t);
  }
  State & st = *C;
  // how many alternatives have been excluded for this term already
  int excluded = 0;
  for (auto c : st.pc) {
    if (Z3_get_ast_kind(Z, c) == Z3_APP_AST) {
      Z3_app const app = Z3_to_app(Z, c);
      if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, app)) == Z3_OP_NOT) {
        ++excluded;
      }
    }
  }
  if (excluded > g_enum_limit * 4) {
    fail(std::string("too many values to enumerate in ") + what);
  }
  Z3_ast val = nullptr;
  if (st.assign_ok) {
    val = substAssign(st, t);
    if (val != nullptr && Z3_get_ast_kind(Z, val) != Z3_NUMERAL_AST) {
      val = nullptr;
    }
  }
  if (val == nullptr) {
    // introduce a probe variable to read its value off a model
    Z3_ast const probe = newVar("probe!" + std::to_string(Z3_get_ast_id(Z, t)), Z3_get_sort(Z, t));
    QRes const q = check(st.pc, {Z3_mk_eq(Z, probe, t)});
    if (q.r == R_UNSAT) {
      ++S.pruned;
      throw PathEnd{};
    }
    if (q.r != R_SAT) {
      fail(std::string("solver unknown while enumerating ") + what);
    }
    adoptModel(st, q);
    for (auto const & [vi, a] : q.model) {
      if (g_vars[vi].a == probe) {
        val = a;
      }
    }
    if (val == nullptr) {
      fail("no model value");
    }
  }
  uint64_t const u = numU64(val);
  if (decide(Z3_mk_eq(Z, t, zBV(v.w, u)))) {
    return u;
  }
  fail("concretize: inconsistent decision");
}

// ------------------------------------------------------------------------------------------------
// Real arithmetic with infinities
// ------------------------------------------------------------------------------------------------
static PP denOf(Val const & v) { return v.den != nullptr ? v.den : PX.one; }

static Z3_ast polyCmp0(PP p, int op) // op: 0 p<0, 1 p<=0, 2 p==0, 3 p>0, 4 p>=0
{
  if (p->isConst()) {
    int const s = sgn(p->constVal());
    bool const r = op == 0 ? s < 0 : op == 1 ? s <= 0 : op == 2 ? s == 0 : op == 3 ? s > 0 : s >= 0;
    return r ? zTrue : zFalse;
  }
  // normalise leading coefficient sign/scale so that equal conditions are equal terms
  mpq_class const lc = p->t.back().second;
  bool flip = sgn(lc) < 0;
  PP const q = PX.scale(p, 1 / lc);
  int o = op;
  if (flip) {
    o = op == 0 ? 3 : op == 1 ? 4 : op == 3 ? 0 : op == 4 ? 1 : 2;
  }
  Z3_ast const a = PX.toZ3(q);
  static Z3_ast zero = PX.numeral(0);
  switch (o) {
  case 0:
    return zNot(Z3_mk_ge(Z, a, zero));
  case 1:
    return Z3_mk_le(Z, a, zero);
  case 2:
    return Z3_mk_eq(Z, a, zero);
  case 3:
    return zNot(Z3_mk_le(Z, a, zero));
  default:
    return Z3_mk_ge(Z, a, zero);
  }
}
static int polySign(PP p) // -1, 0, 1 by deciding (forks)
{
  if (p->isConst()) {
    return sgn(p->constVal());
  }
  auto it = C->sign.find(p);
  if (it != C->sign.end()) {
    return it->second;
  }
  int s = 0;
  if (decide(polyCmp0(p, 3))) {
    s = 1;
  } else if (decide(polyCmp0(p, 2))) {
    s = 0;
  } else {
    s = -1;
  }
  C->sign[p] = s;
  return s;
}
static int polySignNZ(PP p) // sign of a polynomial known to be non-zero on this path
{
  if (p->isConst()) {
    return sgn(p->constVal());
  }
  auto it = C->sign.find(p);
  if (it != C->sign.end() && it->second != 0) {
    return it->second;
  }
  // squares of sign-known factors are common
  int const s = decide(polyCmp0(p, 3)) ? 1 : -1;
  C->sign[p] = s;
  return s;
}

static Val rNorm(PP n, PP d)
{
  if (d == nullptr || d == PX.one) {
    return mkReal(n);
  }
  if (n->isZero()) {
    return mkReal(PX.zero);
  }
  if (d->isConst()) {
    return mkReal(PX.scale(n, 1 / d->constVal()));
  }
  if (n == d) {
    return mkReal(PX.one);
  }
  PP const q = PX.divExact(n, d);
  if (q != nullptr) {
    return mkReal(q);
  }
  // common monomial factor and reverse division
  PP const q2 = n->isConst() ? nullptr : PX.divExact(d, n);
  if (q2 != nullptr) {
    return mkReal(PX.one, q2);
  }
  return mkReal(n, d);
}
static Val rAdd(Val const & a, Val const & b, bool sub)
{
  if (a.sp != 0 || b.sp != 0) {
    int const bs = b.sp == 0 ? 0 : (b.sp == 3 ? 3 : (sub ? 3 - b.sp : b.sp));
    if (a.sp == 3 || bs == 3) {
      return mkSpecial(3);
    }
    if (a.sp != 0 && bs != 0) {
      return a.sp == bs ? mkSpecial(a.sp) : mkSpecial(3);
    }
    return mkSpecial(a.sp != 0 ? a.sp : bs);
  }
  PP const bn = sub ? PX.neg(b.n) : b.n;
  if (a.den == b.den) {
    return rNorm(PX.add(a.n, bn), a.den);
  }
  PP const da = denOf(a);
  PP const db = denOf(b);
  // try to share denominators
  if (a.den != nullptr && b.den != nullptr) {
    PP const q = PX.divExact(db, da);
    if (q != nullptr) {
      return rNorm(PX.add(PX.mul(a.n, q), bn), db);
    }
    PP const q2 = PX.divExact(da, db);
    if (q2 != nullptr) {
      return rNorm(PX.add(a.n, PX.mul(bn, q2)), da);
    }
  }
  return rNorm(PX.add(PX.mul(a.n, db), PX.mul(bn, da)), PX.mul(da, db));
}
static Val rNeg(Val const & a)
{
  if (a.sp != 0) {
    return mkSpecial(a.sp == 3 ? 3 : 3 - a.sp);
  }
  return mkReal(PX.neg(a.n), a.den);
}
static int rSign(Val const & a) // decides
{
  if (a.sp == 1) {
    return 1;
  }
  if (a.sp == 2) {
    return -1;
  }
  int const s = polySign(a.n);
  if (s == 0 || a.den == nullptr) {
    return s;
  }
  return s * polySignNZ(a.den);
}
static Val rMul(Val const & a, Val const & b)
{
  if (a.sp == 3 || b.sp == 3) {
    return mkSpecial(3);
  }
  if (a.sp != 0 || b.sp != 0) {
    int const s = rSign(a) * rSign(b);
    return s == 0 ? mkSpecial(3) : mkSpecial(s > 0 ? 1 : 2);
  }
  PP an = a.n;
  PP ad = denOf(a);
  PP bn = b.n;
  PP bd = denOf(b);
  if (ad != PX.one) {
    PP const q = PX.divExact(bn, ad);
    if (q != nullptr) {
      bn = q;
      ad = PX.one;
    }
  }
  if (bd != PX.one) {
    PP const q = PX.divExact(an, bd);
    if (q != nullptr) {
      an = q;
      bd = PX.one;
    }
  }
  return rNorm(PX.mul(an, bn), PX.mul(ad, bd));
}
static Val rDiv(Val const & a, Val const & b)
{
  if (a.sp == 3 || b.sp == 3) {
    return mkSpecial(3);
  }
  if (b.sp != 0) {
    return a.sp != 0 ? mkSpecial(3) : mkReal(PX.zero);
  }
  // divisor zero?
  bool zero = false;
  if (b.n->isConst()) {
    zero = b.n->isZero();
  } else {
    auto it = C->sign.find(b.n);
    if (it != C->sign.end()) {
      zero = it->second == 0;
    } else {
      zero = decide(polyCmp0(b.n, 2));
      if (zero) {
        C->sign[b.n] = 0;
      }
    }
  }
  if (zero) {
    int const s = rSign(a);
    return s == 0 ? mkSpecial(3) : mkSpecial(s > 0 ? 1 : 2); // sign of zero taken as +
  }
  if (a.sp != 0) {
    int const s = rSign(a) * rSign(b);
    return mkSpecial(s > 0 ? 1 : 2);
  }
  Val inv = mkReal(denOf(b), b.n);
  if (b.n->isConst()) {
    inv = mkReal(PX.scale(denOf(b), 1 / b.n->constVal()));
  }
  return rMul(a, inv);
}
// op: 0 eq 1 lt 2 le  -> boolean term for ordered comparison of non-NaN values
static Z3_ast rCmp(Val const & a, Val const & b, int op)
{
  if (a.sp != 0 || b.sp != 0) {
    auto const rank = [](Val const & v) { return v.sp == 1 ? 1 : v.sp == 2 ? -1 : 0; };
    int const x = rank(a);
    int const y = rank(b);
    bool const r = op == 0 ? x == y : op == 1 ? x < y : x <= y;
    return r ? zTrue : zFalse;
  }
  PP p = nullptr;
  PP d = PX.one;
  if (a.den == b.den) {
    p = PX.sub(a.n, b.n);
    d = denOf(a);
  } else {
    Val const df = rAdd(a, b, true);
    p = df.n;
    d = denOf(df);
  }
  if (op == 0) {
    return polyCmp0(p, 2);
  }
  if (p->isZero()) {
    return op == 1 ? zFalse : zTrue;
  }
  int const s = d == PX.one ? 1 : polySignNZ(d);
  if (op == 1) {
    return polyCmp0(p, s > 0 ? 0 : 3);
  }
  return polyCmp0(p, s > 0 ? 1 : 4);
}
static std::unordered_map<uint64_t, PP> g_itecache;
static Val rIte(Z3_ast c, Val const & a, Val const & b)
{
  if (c == zTrue) {
    return a;
  }
  if (c == zFalse) {
    return b;
  }
  if (a.sp == b.sp && (a.sp != 0 || (a.n == b.n && a.den == b.den))) {
    return a;
  }
  if (a.sp != 0 || b.sp != 0) {
    return decide(c) ? a : b;
  }
  auto const ite = [&](PP x, PP y) -> PP {
    if (x == y) {
      return x;
    }
    return PX.atom(Z3_mk_ite(Z, c, PX.toZ3(x), PX.toZ3(y)));
  };
  return rNorm(ite(a.n, b.n), ite(denOf(a), denOf(b)));
}

static std::map<std::pair<PP, PP>, PP> g_sqrtcache;
static int g_auxn = 0;
static Val rSqrtPoly(PP p) // p >= 0 on this path
{
  if (p->isConst()) {
    mpq_class const q = p->constVal();
    mpz_class a;
    mpz_class b;
    if (mpz_perfect_square_p(q.get_num_mpz_t()) != 0 &&
        mpz_perfect_square_p(q.get_den_mpz_t()) != 0) {
      a = sqrt(q.get_num());
      b = sqrt(q.get_den());
      mpq_class r(a, b);
      r.canonicalize();
      return mkReal(PX.constant(r));
    }
    // rational enclosure with relative error < 1e-25
    mpz_class n = q.get_num() * q.get_den();
    mpz_class sc;
    mpz_ui_pow_ui(sc.get_mpz_t(), 10, 60);
    mpz_class const r = sqrt(mpz_class(n * sc));
    mpz_class s30;
    mpz_ui_pow_ui(s30.get_mpz_t(), 10, 30);
    mpq_class res(r, q.get_den() * s30);
    res.canonicalize();
    return mkReal(PX.constant(res));
  }
  auto key = std::make_pair(p, PX.one);
  auto it = g_sqrtcache.find(key);
  if (it != g_sqrtcache.end()) {
    return mkReal(it->second);
  }
  // single-term squares: c*m^2 with c a square is |m|*sqrt(c)
  std::string const name = "sqrt!" + std::to_string(g_auxn++);
  Z3_ast const a = newVar(name, PX.real);
  uint32_t const ix = PX.newVar(a, name);
  PX.vars[ix].sq_rule = p;
  PP const v = PX.var(ix);
  Z3_ast sq[2] = {a, a};
  auto & vd = g_vars[g_varix[a]];
  vd.defs.push_back(Z3_mk_ge(Z, a, PX.numeral(0)));
  vd.defs.push_back(Z3_mk_eq(Z, Z3_mk_mul(Z, 2, sq), PX.toZ3(p)));
  g_sqrtcache[key] = v;
  return mkReal(v);
}
static Val rAbs(Val const & a)
{
  if (a.sp != 0) {
    return mkSpecial(a.sp == 3 ? 3 : 1);
  }
  if (realIsConst(a)) {
    return mkReal(PX.constant(abs(realConst(a))));
  }
  Z3_ast const c = rCmp(mkReal(PX.zero), a, 2);
  return rIte(zSimp(c), a, rNeg(a));
}
static Val rSqrt(Val const & a)
{
  if (a.sp == 3 || a.sp == 2) {
    return mkSpecial(3);
  }
  if (a.sp == 1) {
    return a;
  }
  if (decide(rCmp(a, mkReal(PX.zero), 1))) {
    return mkSpecial(3);
  }
  if (a.den == nullptr) {
    return rSqrtPoly(a.n);
  }
  int const s = polySignNZ(a.den);
  Val const num = rSqrtPoly(PX.mul(a.n, a.den));
  return rNorm(num.n, s > 0 ? a.den : PX.neg(a.den));
}

struct TrigPair {
  Val s, c;
};
static std::map<std::pair<PP, PP>, TrigPair> g_trig;
struct AtanInfo {
  Val t;
};
static std::map<PP, Val> g_atan_of; // variable polynomial -> tangent value
static TrigPair rTrig(Val const & x)
{
  auto const key = std::make_pair(x.n, denOf(x));
  auto it = g_trig.find(key);
  if (it != g_trig.end()) {
    return it->second;
  }
  TrigPair tp;
  auto at = g_atan_of.find(x.n);
  if (x.den == nullptr && at != g_atan_of.end()) {
    // c = 1/sqrt(1+t^2), s = t*c
    Val const t = at->second;
    Val const r = rSqrt(rAdd(mkReal(PX.one), rMul(t, t), false));
    tp.c = rDiv(mkReal(PX.one), r);
    tp.s = rMul(t, tp.c);
    g_trig[key] = tp;
    return tp;
  }
  std::string const k = std::to_string(g_auxn++);
  Z3_ast const sa = newVar("sin!" + k, PX.real);
  Z3_ast const ca = newVar("cos!" + k, PX.real);
  uint32_t const si = PX.newVar(sa, "sin!" + k);
  uint32_t const ci = PX.newVar(ca, "cos!" + k);
  PP const c = PX.var(ci);
  PP const rule = PX.sub(PX.one, PX.mul(c, c));
  PX.vars[si].sq_rule = rule;
  PP const s = PX.var(si);
  tp.s = mkReal(s);
  tp.c = mkReal(c);
  Z3_ast ss[2] = {sa, sa};
  Z3_ast cc[2] = {ca, ca};
  Z3_ast sum[2] = {Z3_mk_mul(Z, 2, ss), Z3_mk_mul(Z, 2, cc)};
  std::vector<Z3_ast> defs = {
      Z3_mk_eq(Z, Z3_mk_add(Z, 2, sum), PX.numeral(1)), Z3_mk_le(Z, sa, PX.numeral(1)),
      Z3_mk_ge(Z, sa, PX.numeral(-1)), Z3_mk_le(Z, ca, PX.numeral(1)),
      Z3_mk_ge(Z, ca, PX.numeral(-1))};
  // quadrant facts for arguments in [0, pi] (decimal enclosures of pi/2 and pi)
  if (x.den == nullptr) {
    Z3_ast const xa = PX.toZ3(x.n);
    mpq_class const pil("314159265358979323846/100000000000000000000");
    mpq_class const hl = pil / 2;
    Z3_ast const z = PX.numeral(0);
    auto const imp = [&](Z3_ast p, Z3_ast q) { defs.push_back(Z3_mk_implies(Z, p, q)); };
    Z3_ast in1[2] = {Z3_mk_gt(Z, xa, z), Z3_mk_lt(Z, xa, PX.numeral(pil))};
    imp(Z3_mk_and(Z, 2, in1), Z3_mk_gt(Z, sa, z));
    Z3_ast in2[2] = {Z3_mk_ge(Z, xa, z), Z3_mk_lt(Z, xa, PX.numeral(hl))};
    imp(Z3_mk_and(Z, 2, in2), Z3_mk_gt(Z, ca, z));
    Z3_ast in3[2] = {Z3_mk_gt(Z, xa, PX.numeral(hl)), Z3_mk_lt(Z, xa, PX.numeral(pil))};
    imp(Z3_mk_and(Z, 2, in3), Z3_mk_lt(Z, ca, z));
  }
  g_vars[g_varix[sa]].defs = defs;
  g_vars[g_varix[ca]].defs = defs;
  g_trig[key] = tp;
  return tp;
}
static std::map<std::pair<PP, PP>, PP> g_atancache;
static Val rAtan(Val const & t)
{
  auto const key = std::make_pair(t.n, denOf(t));
  auto it = g_atancache.find(key);
  if (it != g_atancache.end()) {
    return mkReal(it->second);
  }
  std::string const name = "atan!" + std::to_string(g_auxn++);
  Z3_ast const a = newVar(name, PX.real);
  PP const v = PX.var(PX.newVar(a, name));
  mpq_class const h("157079632679489661924/100000000000000000000");
  auto & defs = g_vars[g_varix[a]].defs;
  defs.push_back(Z3_mk_lt(Z, a, PX.numeral(h)));
  defs.push_back(Z3_mk_gt(Z, a, PX.numeral(-h)));
  if (t.den == nullptr) {
    Z3_ast const ta = PX.toZ3(t.n);
    Z3_ast const z = PX.numeral(0);
    defs.push_back(Z3_mk_iff(Z, Z3_mk_gt(Z, a, z), Z3_mk_gt(Z, ta, z)));
    defs.push_back(Z3_mk_iff(Z, Z3_mk_lt(Z, a, z), Z3_mk_lt(Z, ta, z)));
  } else {
    Z3_ast q[2] = {PX.toZ3(t.n), PX.toZ3(t.den)};
    Z3_ast const ta = Z3_mk_mul(Z, 2, q);
    Z3_ast const z = PX.numeral(0);
    defs.push_back(Z3_mk_iff(Z, Z3_mk_gt(Z, a, z), Z3_mk_gt(Z, ta, z)));
    defs.push_back(Z3_mk_iff(Z, Z3_mk_lt(Z, a, z), Z3_mk_lt(Z, ta, z)));
  }
  g_atancache[key] = v;
  g_atan_of[v] = t;
  return mkReal(v);
}

static mpq_class astToQ(Z3_ast a)
{
  mpq_class q(Z3_get_numeral_string(Z, a));
  q.canonicalize();
  return q;
}
// model value of a real on the current path
static mpq_class realModelValue(Val const & v)
{
  State & st = *C;
  Z3_ast const n = PX.toZ3(v.n);
  Z3_ast const d = PX.toZ3(denOf(v));
  Z3_ast t = nullptr;
  if (st.assign_ok) {
    Z3_ast const a = substAssign(st, n);
    Z3_ast const b = substAssign(st, d);
    if (a != nullptr && b != nullptr && Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST &&
        Z3_get_ast_kind(Z, b) == Z3_NUMERAL_AST) {
      mpq_class const qb = astToQ(b);
      if (qb != 0) {
        return astToQ(a) / qb;
      }
    }
  }
  t = newVar("rprobe!" + std::to_string(Z3_get_ast_id(Z, n)) + "_" +
                 std::to_string(Z3_get_ast_id(Z, d)),
             PX.real);
  Z3_ast m[2] = {t, d};
  QRes const q = check(st.pc, {Z3_mk_eq(Z, v.den == nullptr ? t : Z3_mk_mul(Z, 2, m), n)});
  if (q.r == R_UNSAT) {
    ++S.pruned;
    throw PathEnd{};
  }
  if (q.r != R_SAT) {
    fail("solver unknown while enumerating a rounded real");
  }
  for (auto const & [vi, a] : q.model) {
    if (g_vars[vi].a == t && a != nullptr) {
      if (q.exact) {
        adoptModel(st, q);
      }
      return astToQ(a);
    }
  }
  fail("no model value for a real");
}
// mode 0 floor, 1 ceil, 2 trunc, 3 round half away
static mpz_class rRoundInt(Val const & v, int mode)
{
  mpz_class k;
  if (realIsConst(v)) {
    mpq_class q = realConst(v);
    int const s = sgn(q);
    if (mode == 3) {
      mpq_class const h(1, 2);
      q = abs(q) + h;
      mpz_fdiv_q(k.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
      return s < 0 ? mpz_class(-k) : k;
    }
    if (mode == 0) {
      mpz_fdiv_q(k.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    } else if (mode == 1) {
      mpz_cdiv_q(k.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    } else {
      mpz_tdiv_q(k.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    }
    return k;
  }
  // enumerate: (the sibling state re-executes and picks another integer)
  int tries = 0;
  (void)tries;
  if (mode == 3) {
    fail("round of a symbolic real");
  }
  if (mode == 2) {
    // sign first
    if (decide(rCmp(v, mkReal(PX.zero), 1))) {
      return rRoundInt(v, 1);
    }
    return rRoundInt(v, 0);
  }
  for (;;) {
    mpq_class const q = realModelValue(v);
    if (mode == 0) {
      mpz_fdiv_q(k.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    } else {
      mpz_cdiv_q(k.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
    }
    Val const kv = mkReal(PX.constant(mpq_class(k)));
    Z3_ast c = nullptr;
    if (mode == 0) {
      Val const k1 = mkReal(PX.constant(mpq_class(k + 1)));
      c = zAnd(rCmp(kv, v, 2), rCmp(v, k1, 1));
    } else {
      Val const k1 = mkReal(PX.constant(mpq_class(k - 1)));
      c = zAnd(rCmp(k1, v, 1), rCmp(v, kv, 2));
    }
    if (decide(c)) {
      return k;
    }
  }
}

// ------------------------------------------------------------------------------------------------
// Memory access
// ------------------------------------------------------------------------------------------------
struct Violation {
  std::string kind, msg;
};
static std::string whereAmI();
static void violation(std::string const & kind, std::string const & msg, Z3_ast extra);

[[noreturn]] static void memErr(std::string const & msg)
{
  violation("memory", msg, nullptr);
  throw PathEnd{};
}
static Obj * findObj(uint64_t addr, uint64_t n, bool write, bool & shared)
{
  auto look = [&](std::map<uint64_t, ObjRef> & m) -> Obj * {
    auto it = m.upper_bound(addr);
    if (it == m.begin()) {
      return nullptr;
    }
    --it;
    Obj * o = it->second.p;
    if (addr >= o->base && addr <= o->base + o->size) {
      return o;
    }
    return nullptr;
  };
  shared = false;
  Obj * o = look(C->mem);
  if (o == nullptr) {
    o = look(g_globmem);
    shared = true;
  }
  if (o == nullptr) {
    std::ostringstream os;
    os << (write ? "write of " : "read of ") << n << " bytes at invalid address 0x" << std::hex
       << addr;
    memErr(os.str());
  }
  ++S.memchecks;
  if (!o->alive) {
    memErr(std::string(write ? "write to" : "read from") +
           (o->kind == O_HEAP ? " freed heap memory" : " dead stack memory"));
  }
  if (addr + n > o->base + o->size) {
    std::ostringstream os;
    os << (write ? "write of " : "read of ") << n << " bytes at offset " << (addr - o->base)
       << " of a " << o->size << "-byte "
       << (o->kind == O_HEAP ? "heap" : o->kind == O_STACK ? "stack" : "global") << " object "
       << o->name;
    memErr(os.str());
  }
  if (write && (shared || o->ro)) {
    memErr("write to constant " + o->name);
  }
  return o;
}
static Obj * writable(uint64_t addr, uint64_t n)
{
  bool sh = false;
  Obj * o = findObj(addr, n, true, sh);
  auto it = C->mem.find(o->base);
  if (it->second.p->rc > 1) {
    Obj * c = new Obj(*o);
    c->rc = 1;
    it->second = ObjRef(c);
    return c;
  }
  return it->second.p;
}

static Val toIntVal(Val const & v); // reinterpret as integer bits

// split symbolic cell at offset into single bytes
static void breakCell(Obj * o, std::map<uint32_t, Cell>::iterator it)
{
  uint32_t const off = it->first;
  Cell const c = it->second;
  o->cells.erase(it);
  Val const iv = toIntVal(c.v);
  for (uint32_t b = 0; b < c.size; ++b) {
    if (iv.k == V_UNDEF) {
      o->tag[off + b] = 0;
    } else if (isConc(iv)) {
      o->bytes[off + b] = static_cast<uint8_t>(toAP(iv).extractBitsAsZExtValue(8, 8 * b));
      o->tag[off + b] = 1;
    } else {
      Z3_ast const e = zSimp(Z3_mk_extract(Z, 8 * b + 7, 8 * b, bvOf(iv)));
      if (Z3_get_ast_kind(Z, e) == Z3_NUMERAL_AST) {
        o->bytes[off + b] = static_cast<uint8_t>(numU64(e));
        o->tag[off + b] = 1;
      } else {
        o->cells[off + b] = {1, mkSym(8, e)};
        o->tag[off + b] = 2;
      }
    }
  }
}
static void clearRange(Obj * o, uint32_t off, uint32_t n)
{
  if (o->cells.empty()) {
    return;
  }
  auto it = o->cells.lower_bound(off);
  if (it != o->cells.begin()) {
    auto p = std::prev(it);
    if (p->first + p->second.size > off) {
      breakCell(o, p);
      it = o->cells.lower_bound(off);
    }
  }
  while (it != o->cells.end() && it->first < off + n) {
    if (it->first + it->second.size > off + n) {
      uint32_t const k = it->first;
      breakCell(o, it);
      it = o->cells.lower_bound(k);
      continue;
    }
    it = o->cells.erase(it);
  }
}
static void storeScalar(uint64_t addr, Val const & v, uint32_t n)
{
  if (isPacked(v)) {
    uint32_t b = 0;
    for (auto const & x : *v.agg) {
      storeScalar(addr + b, x, x.w / 8U);
      b += x.w / 8U;
    }
    return;
  }
  Obj * o = writable(addr, n);
  auto const off = static_cast<uint32_t>(addr - o->base);
  clearRange(o, off, n);
  if (v.k == V_UNDEF) {
    memset(&o->tag[off], 0, n);
    return;
  }
  if (v.k == V_INT) {
    uint64_t x = v.i;
    for (uint32_t b = 0; b < n; ++b) {
      o->bytes[off + b] = b < 8 ? static_cast<uint8_t>(x >> (8 * b)) : 0;
    }
    memset(&o->tag[off], 1, n);
    return;
  }
  if (v.k == V_WIDE) {
    for (uint32_t b = 0; b < n; ++b) {
      o->bytes[off + b] = 8 * b + 8 <= v.w ? static_cast<uint8_t>(v.wide->extractBitsAsZExtValue(8, 8 * b)) : 0;
    }
    memset(&o->tag[off], 1, n);
    return;
  }
  if (v.k == V_FPC) {
    uint64_t bits = 0;
    if (v.w == 32) {
      float const f = static_cast<float>(v.d);
      uint32_t b32 = 0;
      memcpy(&b32, &f, 4);
      bits = b32;
    } else {
      memcpy(&bits, &v.d, 8);
    }
    for (uint32_t b = 0; b < n; ++b) {
      o->bytes[off + b] = static_cast<uint8_t>(bits >> (8 * b));
    }
    memset(&o->tag[off], 1, n);
    return;
  }
  Val s = v;
  if (s.k == V_SYM && s.w != 8 * n) {
    // zero extend to the store size
    s = mkSym(8 * n, Z3_mk_zero_ext(Z, 8 * n - s.w, bvOf(s)));
  }
  o->cells[off] = {n, s};
  memset(&o->tag[off], 2, n);
}
// raw load of n bytes as an integer-or-opaque value
static Val loadScalar(uint64_t addr, uint32_t n)
{
  bool sh = false;
  Obj * o = findObj(addr, n, false, sh);
  auto const off = static_cast<uint32_t>(addr - o->base);
  bool allc = true;
  bool anyu = false;
  bool anys = false;
  for (uint32_t b = 0; b < n; ++b) {
    uint8_t const t = o->tag[off + b];
    allc = allc && t == 1;
    anyu = anyu || t == 0;
    anys = anys || t == 2;
  }
  if (allc) {
    if (n <= 8) {
      uint64_t x = 0;
      for (uint32_t b = 0; b < n; ++b) {
        x |= static_cast<uint64_t>(o->bytes[off + b]) << (8 * b);
      }
      return mkInt(8 * n, x);
    }
    APInt a(8 * n, 0);
    for (uint32_t b = 0; b < n; ++b) {
      a.insertBits(o->bytes[off + b], 8 * b, 8);
    }
    return mkAP(a);
  }
  if (anys) {
    auto it = o->cells.find(off);
    if (it != o->cells.end() && it->second.size == n) {
      return it->second.v;
    }
  }
  if (anyu && !anys) {
    bool all = true;
    for (uint32_t b = 0; b < n; ++b) {
      all = all && o->tag[off + b] == 0;
    }
    if (all) {
      return mkUndef(8 * n);
    }
  }
  // reals have no bits: a wider integer that covers several values stays a list of its parts
  if (g_real && anys && n > 4) {
    bool symreal = false;
    bool whole = true;
    Agg parts;
    for (uint32_t b = 0; b < n && whole;) {
      if (o->tag[off + b] == 2) {
        auto it = o->cells.find(off + b);
        whole = it != o->cells.end() && b + it->second.size <= n;
        if (whole) {
          symreal = symreal || (it->second.v.k == V_REAL && it->second.v.sp == 0 && !realIsConst(it->second.v));
          Val v = it->second.v;
          v.w = static_cast<uint16_t>(8 * it->second.size);
          parts.push_back(v);
          b += it->second.size;
        }
      } else {
        uint32_t e = b;
        uint8_t const t = o->tag[off + b];
        uint64_t x = 0;
        while (e < n && e - b < 8 && o->tag[off + e] == t && (e == b || e % 4 != 0)) {
          x |= static_cast<uint64_t>(o->bytes[off + e]) << (8 * (e - b));
          ++e;
        }
        parts.push_back(t == 1 ? mkInt(8 * (e - b), x) : mkUndef(8 * (e - b)));
        b = e;
      }
    }
    if (whole && symreal) {
      return mkPacked(std::move(parts), 8 * n);
    }
  }
  // mixture: assemble bytes
  Z3_ast acc = nullptr;
  for (uint32_t b = 0; b < n; ++b) {
    Z3_ast byte = nullptr;
    uint8_t const t = o->tag[off + b];
    if (t == 1) {
      byte = zBV(8, o->bytes[off + b]);
    } else if (t == 0) {
      C->used_undef = true;
      byte = newVar("undef!" + std::to_string(C->undef_ctr++), Z3_mk_bv_sort(Z, 8));
    } else {
      auto it = o->cells.upper_bound(off + b);
      --it;
      Val const iv = toIntVal(it->second.v);
      uint32_t const k = off + b - it->first;
      if (iv.k == V_UNDEF) {
        byte = newVar("undef!" + std::to_string(C->undef_ctr++), Z3_mk_bv_sort(Z, 8));
      } else {
        byte = Z3_mk_extract(Z, 8 * k + 7, 8 * k, bvOf(iv));
      }
    }
    acc = acc == nullptr ? byte : Z3_mk_concat(Z, byte, acc);
  }
  acc = zSimp(acc);
  if (Z3_get_ast_kind(Z, acc) == Z3_NUMERAL_AST && n <= 8) {
    return mkInt(8 * n, numU64(acc));
  }
  return mkSym(8 * n, acc);
}

static Val toIntVal(Val const & v)
{
  switch (v.k) {
  case V_FPC: {
    if (v.w == 32) {
      float const f = static_cast<float>(v.d);
      uint32_t b = 0;
      memcpy(&b, &f, 4);
      return mkInt(32, b);
    }
    uint64_t b = 0;
    memcpy(&b, &v.d, 8);
    return mkInt(64, b);
  }
  case V_FPS:
    return mkSym(v.w, Z3_mk_fpa_to_ieee_bv(Z, v.a));
  case V_REAL:
    if (v.sp == 3 && v.w == 64 && v.n->isConst() && v.n->constVal() != 0) {
      uint64_t b = 0;
      mpz_export(&b, nullptr, 1, 8, 0, 0, v.n->constVal().get_num_mpz_t());
      return mkInt(64, b);
    }
    if (v.sp != 0 || realIsConst(v)) {
      double const d = realToDouble(v);
      if (v.w == 32) {
        float const f = static_cast<float>(d);
        uint32_t b = 0;
        memcpy(&b, &f, 4);
        return mkInt(32, b);
      }
      uint64_t b = 0;
      memcpy(&b, &d, 8);
      return mkInt(64, b);
    }
    fail("bits of a symbolic real are needed");
  default:
    return v;
  }
}
static Val toFloatVal(Val const & v, unsigned w)
{
  switch (v.k) {
  case V_REAL:
  case V_FPC:
  case V_FPS:
  case V_UNDEF:
  case V_AGG: // packed
    return v;
  case V_INT: {
    double d = 0;
    if (w == 32) {
      float f = 0;
      auto const b = static_cast<uint32_t>(v.i);
      memcpy(&f, &b, 4);
      d = static_cast<double>(f);
    } else {
      memcpy(&d, &v.i, 8);
    }
    if (g_real) {
      Val r = realFromDouble(d, true, w == 32);
      r.w = static_cast<uint16_t>(w);
      return r;
    }
    return mkFPC(w, d);
  }
  case V_SYM:
    if (g_real) {
      // one path per value of the integers that travel through a floating-point register
      return toFloatVal(mkInt(w, concretize(v, "bits as a real")), w);
    }
    return mkFPS(w, Z3_mk_fpa_to_fp_bv(Z, v.a, fpSort(w)));
  default:
    fail("toFloatVal");
  }
}

static uint64_t allocObj(uint64_t size, OK kind, std::string const & name, uint64_t align = 16)
{
  auto * o = new Obj;
  if (align < 16) {
    align = 16;
  }
  C->brk = (C->brk + 64 + align - 1) / align * align;
  o->base = C->brk;
  C->brk += size + 64;
  o->size = size;
  o->kind = kind;
  o->name = name;
  o->bytes.assign(size, 0);
  o->tag.assign(size, 0);
  uint64_t const b = o->base;
  C->mem[b] = ObjRef(o);
  return b;
}

// typed load / store
static Val loadT(uint64_t addr, Type * t)
{
  DataLayout const & DL = *DLp;
  if (t->isIntegerTy()) {
    unsigned const w = t->getIntegerBitWidth();
    auto const n = static_cast<uint32_t>(DL.getTypeStoreSize(t).getFixedValue());
    Val v = loadScalar(addr, n);
    if (v.k == V_UNDEF) {
      return mkUndef(w);
    }
    if (w == 8 * n) {
      return v;
    }
    if (isConc(v)) {
      return mkAP(toAP(v).trunc(w));
    }
    v = toIntVal(v);
    if (isConc(v)) {
      return mkAP(toAP(v).trunc(w));
    }
    return fromBV(w, Z3_mk_extract(Z, w - 1, 0, bvOf(v)));
  }
  if (t->isDoubleTy() || t->isFloatTy()) {
    unsigned const w = t->isFloatTy() ? 32 : 64;
    return toFloatVal(loadScalar(addr, w / 8), w);
  }
  if (t->isPointerTy()) {
    return loadScalar(addr, 8);
  }
  if (auto * vt = dyn_cast<FixedVectorType>(t)) {
    Agg a;
    auto const es = DL.getTypeAllocSize(vt->getElementType()).getFixedValue();
    if (vt->getElementType()->isIntegerTy(1)) {
      fail("load of i1 vector");
    }
    for (unsigned i = 0; i < vt->getNumElements(); ++i) {
      a.push_back(loadT(addr + i * es, vt->getElementType()));
    }
    return mkAgg(std::move(a));
  }
  if (auto * st = dyn_cast<StructType>(t)) {
    Agg a;
    auto const * sl = DL.getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) {
      a.push_back(loadT(addr + sl->getElementOffset(i).getFixedValue(), st->getElementType(i)));
    }
    return mkAgg(std::move(a));
  }
  if (auto * at = dyn_cast<ArrayType>(t)) {
    Agg a;
    auto const es = DL.getTypeAllocSize(at->getElementType()).getFixedValue();
    for (unsigned i = 0; i < at->getNumElements(); ++i) {
      a.push_back(loadT(addr + i * es, at->getElementType()));
    }
    return mkAgg(std::move(a));
  }
  fail("load of unsupported type");
}
static void storeT(uint64_t addr, Val const & v, Type * t)
{
  DataLayout const & DL = *DLp;
  if (t->isIntegerTy() || t->isPointerTy() || t->isDoubleTy() || t->isFloatTy()) {
    storeScalar(addr, v, static_cast<uint32_t>(DL.getTypeStoreSize(t).getFixedValue()));
    return;
  }
  auto const elems = [&](unsigned i) -> Val { return v.k == V_UNDEF ? Val() : (*v.agg)[i]; };
  if (auto * vt = dyn_cast<FixedVectorType>(t)) {
    auto const es = DL.getTypeAllocSize(vt->getElementType()).getFixedValue();
    for (unsigned i = 0; i < vt->getNumElements(); ++i) {
      storeT(addr + i * es, elems(i), vt->getElementType());
    }
    return;
  }
  if (auto * st = dyn_cast<StructType>(t)) {
    auto const * sl = DL.getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) {
      storeT(addr + sl->getElementOffset(i).getFixedValue(), elems(i), st->getElementType(i));
    }
    return;
  }
  if (auto * at = dyn_cast<ArrayType>(t)) {
    auto const es = DL.getTypeAllocSize(at->getElementType()).getFixedValue();
    for (unsigned i = 0; i < at->getNumElements(); ++i) {
      storeT(addr + i * es, elems(i), at->getElementType());
    }
    return;
  }
  fail("store of unsupported type");
}
static void memMove(uint64_t dst, uint64_t src, uint64_t n)
{
  if (n == 0) {
    return;
  }
  bool sh = false;
  Obj * s = findObj(src, n, false, sh);
  // take a copy of the source range first (overlap safe)
  auto const so = static_cast<uint32_t>(src - s->base);
  std::vector<uint8_t> by(s->bytes.begin() + so, s->bytes.begin() + so + static_cast<long>(n));
  std::vector<uint8_t> tg(s->tag.begin() + so, s->tag.begin() + so + static_cast<long>(n));
  std::vector<std::pair<uint32_t, Cell>> cs;
  if (!s->cells.empty()) {
    auto it = s->cells.lower_bound(so);
    bool partial = false;
    if (it != s->cells.begin()) {
      auto p = std::prev(it);
      partial = p->first + p->second.size > so;
    }
    for (auto j = it; j != s->cells.end() && j->first < so + n; ++j) {
      partial = partial || j->first + j->second.size > so + n;
      cs.emplace_back(j->first - so, j->second);
    }
    if (partial) {
      // byte-wise copy of a temporary with broken cells
      Obj t(*s);
      t.rc = 1;
      clearRange(&t, so, 0);
      for (;;) {
        bool again = false;
        for (auto j = t.cells.begin(); j != t.cells.end(); ++j) {
          bool const st = j->first < so && j->first + j->second.size > so;
          bool const en = j->first < so + n && j->first + j->second.size > so + n;
          if (st || en) {
            breakCell(&t, j);
            again = true;
            break;
          }
        }
        if (!again) {
          break;
        }
      }
      cs.clear();
      for (auto j = t.cells.lower_bound(so); j != t.cells.end() && j->first < so + n; ++j) {
        cs.emplace_back(j->first - so, j->second);
      }
      by.assign(t.bytes.begin() + so, t.bytes.begin() + so + static_cast<long>(n));
      tg.assign(t.tag.begin() + so, t.tag.begin() + so + static_cast<long>(n));
    }
  }
  Obj * d = writable(dst, n);
  auto const dof = static_cast<uint32_t>(dst - d->base);
  clearRange(d, dof, static_cast<uint32_t>(n));
  std::copy(by.begin(), by.end(), d->bytes.begin() + dof);
  std::copy(tg.begin(), tg.end(), d->tag.begin() + dof);
  for (auto const & [o, c] : cs) {
    d->cells[dof + o] = c;
  }
}
static void memSet(uint64_t dst, Val const & b, uint64_t n)
{
  if (n == 0) {
    return;
  }
  Obj * d = writable(dst, n);
  auto const off = static_cast<uint32_t>(dst - d->base);
  clearRange(d, off, static_cast<uint32_t>(n));
  if (b.k == V_INT) {
    memset(&d->bytes[off], static_cast<int>(b.i), n);
    memset(&d->tag[off], 1, n);
  } else {
    for (uint64_t i = 0; i < n; ++i) {
      d->cells[off + static_cast<uint32_t>(i)] = {1, b};
    }
    memset(&d->tag[off], 2, n);
  }
}
static std::string readCStr(uint64_t addr, size_t maxn = 4096)
{
  std::string r;
  for (size_t i = 0; i < maxn; ++i) {
    Val const v = loadScalar(addr + i, 1);
    if (v.k != V_INT) {
      r += '?';
      continue;
    }
    if (v.i == 0) {
      break;
    }
    r += static_cast<char>(v.i);
  }
  return r;
}

#include "symx_exec.inc"
