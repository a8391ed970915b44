// Interpreter part of symx (included by symx.cpp)

static std::string whereAmI()
{
  std::string r;
  int n = 0;
  for (auto it = C->fr.rbegin(); it != C->fr.rend() && n < 8; ++it, ++n) {
    std::string nm = demangle(it->f->getName().str());
    if (nm.size() > 120) {
      nm = nm.substr(0, 117) + "...";
    }
    std::string loc;
    auto ii = it->it;
    if (it != C->fr.rbegin() && ii != it->bb->begin()) {
      --ii;
    }
    if (ii != it->bb->end()) {
      if (DILocation * dl = ii->getDebugLoc().get()) {
        loc = " (" + dl->getFilename().str() + ":" + std::to_string(dl->getLine()) + ")";
      }
    }
    r += (n != 0 ? " <- " : "") + nm + loc;
  }
  return r;
}

// ------------------------------------------------------------------------------------------------
// Models for replay
// ------------------------------------------------------------------------------------------------
static std::string numStr(Z3_ast a) { return Z3_get_numeral_string(Z, a); }

static bool isAux(unsigned v)
{
  return g_vars[v].name.find('!') != std::string::npos;
}

struct NiceModel {
  Res r = R_UNKNOWN;
  std::map<unsigned, Z3_ast> val;
  bool exact = true;
};

static bool evalAll(std::vector<Z3_ast> const & cs, std::map<unsigned, Z3_ast> const & val)
{
  for (auto c : cs) {
    auto * ti = tinfo(c);
    std::vector<Z3_ast> from;
    std::vector<Z3_ast> to;
    for (unsigned const v : ti->vars) {
      auto it = val.find(v);
      if (it == val.end() || it->second == nullptr) {
        return false;
      }
      from.push_back(g_vars[v].a);
      to.push_back(it->second);
    }
    Z3_ast const r =
        zSimp(Z3_substitute(Z, c, static_cast<unsigned>(from.size()), from.data(), to.data()));
    if (r != zTrue) {
      return false;
    }
  }
  return true;
}
static mpq_class roundBits(mpq_class const & q, unsigned k)
{
  mpz_class two = 1;
  two <<= k;
  mpq_class const s = q * two + mpq_class(1, 2);
  mpz_class f;
  mpz_fdiv_q(f.get_mpz_t(), s.get_num_mpz_t(), s.get_den_mpz_t());
  mpq_class r(f, two);
  r.canonicalize();
  return r;
}
static NiceModel niceModel(State const & st, std::vector<Z3_ast> const & extra)
{
  NiceModel nm;
  std::vector<Z3_ast> all(st.pc);
  for (auto e : extra) {
    if (e != nullptr) {
      all.push_back(e);
    }
  }
  for (auto const & in : st.inputs) {
    if (in.a != nullptr && g_varix.find(in.a) != g_varix.end()) {
      for (auto d : g_vars[g_varix[in.a]].defs) {
        all.push_back(d);
      }
    }
  }
  std::vector<Z3_ast> cs;
  std::vector<unsigned> vars;
  slice({}, all, cs, vars);
  // start from the state's assignment when it already works
  std::map<unsigned, Z3_ast> cur;
  bool have = st.assign_ok;
  for (unsigned const v : vars) {
    if (v < st.assign.size() && st.assign[v] != nullptr) {
      cur[v] = st.assign[v];
    } else {
      have = false;
    }
  }
  if (have && evalAll(cs, cur)) {
    nm.r = R_SAT;
    nm.val = cur;
  } else {
    QRes const q = check({}, all);
    nm.r = q.r;
    nm.exact = q.exact;
    if (q.r != R_SAT) {
      return nm;
    }
    for (auto const & [v, a] : q.model) {
      nm.val[v] = a;
    }
  }
  bool aux = false;
  for (unsigned const v : vars) {
    aux = aux || isAux(v);
  }
  double const t0 = now();
  std::vector<Z3_ast> pinned(all);
  for (auto const & in : st.inputs) {
    if (in.a == nullptr || in.type != 'r') {
      continue;
    }
    unsigned const v = g_varix[in.a];
    auto it = nm.val.find(v);
    if (it == nm.val.end() || it->second == nullptr) {
      continue;
    }
    mpq_class const q = astToQ(it->second);
    bool done = false;
    for (unsigned const k : {0U, 2U, 4U, 8U, 16U, 30U}) {
      mpq_class const c = roundBits(q, k);
      Z3_ast const ca = PX.numeral(c);
      if (!aux && nm.exact) {
        auto trial = nm.val;
        trial[v] = ca;
        if (c == q || evalAll(cs, trial)) {
          nm.val[v] = ca;
          done = true;
          break;
        }
      } else {
        if (now() - t0 > 8) {
          break;
        }
        auto p2 = pinned;
        p2.push_back(Z3_mk_eq(Z, in.a, ca));
        QRes const r = check({}, p2, 1.0);
        if (r.r == R_SAT) {
          pinned = p2;
          for (auto const & [vv, a] : r.model) {
            nm.val[vv] = a;
          }
          nm.exact = r.exact;
          nm.val[v] = ca;
          done = true;
          break;
        }
      }
    }
    (void)done;
  }
  return nm;
}

static std::string inputsJson(State const & st, NiceModel const & nm)
{
  std::string s = "[";
  bool first = true;
  for (auto const & in : st.inputs) {
    std::string v;
    if (in.a == nullptr) {
      v = std::to_string(in.c);
    } else {
      auto it = nm.val.find(g_varix[in.a]);
      Z3_ast a = it != nm.val.end() ? it->second : nullptr;
      if (a == nullptr) {
        v = "none";
      } else if (in.type == 'f' || in.type == 'g') {
        Z3_ast const bv = zSimp(Z3_mk_fpa_to_ieee_bv(Z, a));
        v = Z3_get_ast_kind(Z, bv) == Z3_NUMERAL_AST
                ? numStr(bv)
                : std::string(in.type == 'f' ? "9221120237041090560" : "2143289344");
      } else if (in.w == 1) {
        v = a == zTrue ? "1" : "0";
      } else {
        v = numStr(a);
      }
    }
    s += (first ? "" : ",") + std::string("{\"n\":\"") + jesc(in.name) + "\",\"t\":\"" + in.type +
         "\",\"w\":" + std::to_string(in.w) + ",\"s\":" + (in.sgn ? "1" : "0") + ",\"v\":\"" + v +
         "\"}";
    first = false;
  }
  return s + "]";
}

static std::unordered_map<std::string, int> g_vcount;

static void violation(std::string const & kind, std::string const & msg, Z3_ast extra)
{
  State & st = *C;
  std::string const where = whereAmI();
  std::string const key = kind + "|" + msg;
  if (g_vcount[key] >= 2) {
    return;
  }
  NiceModel const nm = niceModel(st, {extra});
  if (nm.r == R_UNSAT) {
    return;
  }
  if (nm.r == R_UNKNOWN) {
    emit("{\"t\":\"inconclusive\",\"why\":\"solver unknown for " + jesc(kind + ": " + msg) +
         "\",\"where\":\"" + jesc(where) + "\"}");
    return;
  }
  ++g_vcount[key];
  int const n = __atomic_add_fetch(&g_sh->viol, 1, __ATOMIC_SEQ_CST);
  emit("{\"t\":\"viol\",\"kind\":\"" + jesc(kind) + "\",\"msg\":\"" + jesc(msg) + "\",\"where\":\"" +
       jesc(where) + "\",\"undef\":" + (st.used_undef ? "1" : "0") +
       ",\"inputs\":" + inputsJson(st, nm) + "}");
  if (n >= g_max_viol) {
    __atomic_store_n(&g_sh->stop, 1, __ATOMIC_SEQ_CST);
  }
}

static void witness()
{
  State & st = *C;
  int const k = __atomic_load_n(&g_sh->witness, __ATOMIC_SEQ_CST);
  if (k >= g_witness) {
    return;
  }
  // spread the sample: take path numbers 1,2,4,8,... of each process
  if ((S.paths & (S.paths - 1)) != 0) {
    return;
  }
  if (now() > g_deadline - 5) {
    return;
  }
  __atomic_add_fetch(&g_sh->witness, 1, __ATOMIC_SEQ_CST);
  NiceModel const nm = niceModel(st, {});
  if (nm.r != R_SAT) {
    return;
  }
  std::string o = "[";
  bool first = true;
  for (auto const & ob : st.obs) {
    std::string val = "null";
    auto const evalA = [&](Z3_ast a) -> Z3_ast {
      auto * ti = tinfo(a);
      std::vector<Z3_ast> from;
      std::vector<Z3_ast> to;
      for (unsigned const v : ti->vars) {
        auto it = nm.val.find(v);
        if (it == nm.val.end() || it->second == nullptr) {
          return nullptr;
        }
        from.push_back(g_vars[v].a);
        to.push_back(it->second);
      }
      Z3_ast const r =
          zSimp(Z3_substitute(Z, a, static_cast<unsigned>(from.size()), from.data(), to.data()));
      return Z3_get_ast_kind(Z, r) == Z3_NUMERAL_AST ? r : nullptr;
    };
    if (ob.v.k == V_INT) {
      val = "\"" + std::to_string(static_cast<int64_t>(ob.v.i)) + "\"";
    } else if (ob.v.k == V_SYM) {
      Z3_ast const r = evalA(bvOf(ob.v));
      if (r != nullptr) {
        val = "\"" + std::to_string(static_cast<int64_t>(numU64(r))) + "\"";
      }
    } else if (ob.v.k == V_REAL && ob.v.sp == 0) {
      Z3_ast const n = evalA(PX.toZ3(ob.v.n));
      Z3_ast const d = evalA(PX.toZ3(denOf(ob.v)));
      if (n != nullptr && d != nullptr && astToQ(d) != 0) {
        char b[64];
        mpq_class const q = astToQ(n) / astToQ(d);
        snprintf(b, sizeof b, "\"%.17g\"", q.get_d());
        val = b;
      }
    } else if (ob.v.k == V_FPC) {
      char b[64];
      snprintf(b, sizeof b, "\"%.17g\"", ob.v.d);
      val = b;
    } else if (ob.v.k == V_FPS) {
      Z3_ast a = ob.v.a;
      auto * ti = tinfo(a);
      std::vector<Z3_ast> from;
      std::vector<Z3_ast> to;
      bool ok = true;
      for (unsigned const v : ti->vars) {
        auto it = nm.val.find(v);
        if (it == nm.val.end() || it->second == nullptr) {
          ok = false;
          break;
        }
        from.push_back(g_vars[v].a);
        to.push_back(it->second);
      }
      if (ok) {
        Z3_ast const r = zSimp(Z3_mk_fpa_to_ieee_bv(
            Z, Z3_substitute(Z, a, static_cast<unsigned>(from.size()), from.data(), to.data())));
        if (Z3_get_ast_kind(Z, r) == Z3_NUMERAL_AST) {
          uint64_t const u = numU64(r);
          double d = 0;
          if (ob.v.w == 32) {
            float f = 0;
            auto const u32 = static_cast<uint32_t>(u);
            memcpy(&f, &u32, 4);
            d = static_cast<double>(f);
          } else {
            memcpy(&d, &u, 8);
          }
          char b[64];
          snprintf(b, sizeof b, "\"%.17g\"", d);
          val = b;
        }
      }
    }
    o += (first ? "" : ",") + std::string("[\"") + jesc(ob.name) + "\"," + val + "]";
    first = false;
  }
  o += "]";
  emit("{\"t\":\"witness\",\"exact\":" + std::string(nm.exact ? "1" : "0") +
       ",\"inputs\":" + inputsJson(st, nm) + ",\"obs\":" + o + "}");
}

// ------------------------------------------------------------------------------------------------
// Constants and operands
// ------------------------------------------------------------------------------------------------
static Val evalConst(Constant const * c);
static std::unordered_map<Constant const *, Val> g_ccache;

static Val evalConst(Constant const * c)
{
  auto it = g_ccache.find(c);
  if (it != g_ccache.end()) {
    return it->second;
  }
  DataLayout const & DL = *DLp;
  Val r;
  Type * t = c->getType();
  if (auto * ci = dyn_cast<ConstantInt>(c)) {
    r = mkAP(ci->getValue());
  } else if (auto * cf = dyn_cast<ConstantFP>(c)) {
    bool lossy = false;
    APFloat f = cf->getValueAPF();
    bool const f32 = t->isFloatTy();
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lossy);
    double const d = f.convertToDouble();
    if (g_real) {
      r = realFromDouble(d, true, f32);
      r.w = f32 ? 32 : 64;
    } else {
      r = mkFPC(f32 ? 32 : 64, d);
    }
  } else if (isa<ConstantPointerNull>(c)) {
    r = mkInt(64, 0);
  } else if (isa<UndefValue>(c)) {
    if (auto * vt = dyn_cast<FixedVectorType>(t)) {
      Agg a;
      for (unsigned i = 0; i < vt->getNumElements(); ++i) {
        a.push_back(evalConst(cast<UndefValue>(c)->getElementValue(i)));
      }
      r = mkAgg(std::move(a));
    } else if (auto * st = dyn_cast<StructType>(t)) {
      Agg a;
      for (unsigned i = 0; i < st->getNumElements(); ++i) {
        a.push_back(evalConst(cast<UndefValue>(c)->getElementValue(i)));
      }
      r = mkAgg(std::move(a));
    } else if (auto * at = dyn_cast<ArrayType>(t)) {
      Agg a;
      for (unsigned i = 0; i < at->getNumElements(); ++i) {
        a.push_back(evalConst(cast<UndefValue>(c)->getElementValue(i)));
      }
      r = mkAgg(std::move(a));
    } else {
      r = mkUndef(t->isIntegerTy() ? t->getIntegerBitWidth() : t->isFloatTy() ? 32 : 64);
    }
  } else if (auto * gv = dyn_cast<GlobalValue>(c)) {
    if (auto * ga = dyn_cast<GlobalAlias>(gv)) {
      r = evalConst(ga->getAliasee());
    } else {
      auto g = g_gaddr.find(gv);
      if (g == g_gaddr.end()) {
        fail("unknown global " + gv->getName().str());
      }
      r = mkInt(64, g->second);
    }
  } else if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    Agg a;
    unsigned n = 0;
    if (auto * vt = dyn_cast<FixedVectorType>(t)) {
      n = vt->getNumElements();
    } else if (auto * st = dyn_cast<StructType>(t)) {
      n = st->getNumElements();
    } else {
      n = static_cast<unsigned>(t->getArrayNumElements());
    }
    for (unsigned i = 0; i < n; ++i) {
      a.push_back(evalConst(c->getAggregateElement(i)));
    }
    r = mkAgg(std::move(a));
  } else if (auto * ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto * gep = cast<GEPOperator>(ce);
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(DL, off)) {
        fail("non-constant constant GEP");
      }
      r = mkInt(64, evalConst(cast<Constant>(gep->getPointerOperand())).i + off.getZExtValue());
      break;
    }
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast:
      r = evalConst(ce->getOperand(0));
      break;
    case Instruction::PtrToInt:
    case Instruction::IntToPtr: {
      Val const v = evalConst(ce->getOperand(0));
      unsigned const w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64;
      r = mkInt(w, v.i);
      break;
    }
    case Instruction::Add:
      r = mkAP(toAP(evalConst(ce->getOperand(0))) + toAP(evalConst(ce->getOperand(1))));
      break;
    case Instruction::Sub:
      r = mkAP(toAP(evalConst(ce->getOperand(0))) - toAP(evalConst(ce->getOperand(1))));
      break;
    case Instruction::ICmp: {
      uint64_t const a = evalConst(ce->getOperand(0)).i;
      uint64_t const b = evalConst(ce->getOperand(1)).i;
      r = mkInt(1, ICmpInst::compare(APInt(64, a), APInt(64, b),
                                     static_cast<ICmpInst::Predicate>(ce->getPredicate()))
                       ? 1
                       : 0);
      break;
    }
    case Instruction::Trunc:
      r = mkInt(t->getIntegerBitWidth(), evalConst(ce->getOperand(0)).i);
      break;
    default:
      fail(std::string("constant expression ") + ce->getOpcodeName());
    }
  } else {
    fail("unsupported constant");
  }
  g_ccache[c] = r;
  return r;
}
static Val V(Value const * v)
{
  if (auto * c = dyn_cast<Constant>(v)) {
    return evalConst(c);
  }
  Frame & f = C->fr.back();
  auto it = f.fi->num.find(v);
  if (it == f.fi->num.end()) {
    if (isa<MetadataAsValue>(v)) {
      return Val();
    }
    fail("operand without a number");
  }
  return f.regs[it->second];
}
static void setReg(Instruction const & in, Val const & v)
{
  Frame & f = C->fr.back();
  f.regs[f.fi->num.find(&in)->second] = v;
}

static Val materialize(Val const & v, Type * t)
{
  if (v.k != V_UNDEF) {
    return v;
  }
  C->used_undef = true;
  std::string const nm = "undef!" + std::to_string(C->undef_ctr++);
  if (t->isIntegerTy()) {
    unsigned const w = t->getIntegerBitWidth();
    if (w == 1) {
      return mkSym(1, newVar(nm + "b", Z3_mk_bool_sort(Z)));
    }
    return mkSym(w, newVar(nm + "w" + std::to_string(w), Z3_mk_bv_sort(Z, w)));
  }
  if (t->isDoubleTy() || t->isFloatTy()) {
    if (g_real) {
      return mkReal(PX.atom(newVar(nm + "r", PX.real)));
    }
    unsigned const w = t->isFloatTy() ? 32 : 64;
    return mkFPS(w, newVar(nm + "f" + std::to_string(w), fpSort(w)));
  }
  if (t->isPointerTy()) {
    memErr("use of an uninitialised pointer");
  }
  fail("materialize");
}

static uint64_t ptrOf(Val const & v, char const * what)
{
  if (v.k == V_INT) {
    return v.i;
  }
  if (v.k == V_UNDEF) {
    memErr("use of an uninitialised pointer");
  }
  return concretize(v, what);
}

// ------------------------------------------------------------------------------------------------
// Integer operations
// ------------------------------------------------------------------------------------------------
static Val intBin(unsigned op, Val a, Val b, unsigned w)
{
  if (a.k == V_REAL || a.k == V_FPC || a.k == V_FPS) {
    a = toIntVal(a);
  }
  if (b.k == V_REAL || b.k == V_FPC || b.k == V_FPS) {
    b = toIntVal(b);
  }
  if (a.k == V_UNDEF || b.k == V_UNDEF) {
    // keep the cases where the result is defined
    if (op == Instruction::And && ((a.k == V_INT && a.i == 0) || (b.k == V_INT && b.i == 0))) {
      return mkInt(w, 0);
    }
    if (w == 1) {
      C->used_undef = true;
      if (a.k == V_UNDEF) {
        a = mkSym(1, newVar("undef!" + std::to_string(C->undef_ctr++) + "b", Z3_mk_bool_sort(Z)));
      }
      if (b.k == V_UNDEF) {
        b = mkSym(1, newVar("undef!" + std::to_string(C->undef_ctr++) + "b", Z3_mk_bool_sort(Z)));
      }
    } else {
      return mkUndef(w);
    }
  }
  if (a.k == V_INT && b.k == V_INT && w <= 64) {
    uint64_t const x = a.i;
    uint64_t const y = b.i;
    auto const sx = [&](uint64_t v) {
      return w >= 64 ? static_cast<int64_t>(v)
                     : static_cast<int64_t>(v << (64 - w)) >> (64 - w);
    };
    switch (op) {
    case Instruction::Add:
      return mkInt(w, x + y);
    case Instruction::Sub:
      return mkInt(w, x - y);
    case Instruction::Mul:
      return mkInt(w, x * y);
    case Instruction::And:
      return mkInt(w, x & y);
    case Instruction::Or:
      return mkInt(w, x | y);
    case Instruction::Xor:
      return mkInt(w, x ^ y);
    case Instruction::Shl:
      return y >= w ? mkUndef(w) : mkInt(w, x << y);
    case Instruction::LShr:
      return y >= w ? mkUndef(w) : mkInt(w, x >> y);
    case Instruction::AShr:
      return y >= w ? mkUndef(w) : mkInt(w, static_cast<uint64_t>(sx(x) >> y));
    case Instruction::UDiv:
    case Instruction::URem:
      if (y == 0) {
        violation("divzero", "integer division by zero", nullptr);
        throw PathEnd{};
      }
      return mkInt(w, op == Instruction::UDiv ? x / y : x % y);
    case Instruction::SDiv:
    case Instruction::SRem: {
      if (y == 0) {
        violation("divzero", "integer division by zero", nullptr);
        throw PathEnd{};
      }
      APInt const ax(w, x);
      APInt const ay(w, y);
      return mkAP(op == Instruction::SDiv ? ax.sdiv(ay) : ax.srem(ay));
    }
    default:
      break;
    }
  }
  if (isConc(a) && isConc(b)) {
    APInt const x = toAP(a);
    APInt const y = toAP(b);
    switch (op) {
    case Instruction::Add:
      return mkAP(x + y);
    case Instruction::Sub:
      return mkAP(x - y);
    case Instruction::Mul:
      return mkAP(x * y);
    case Instruction::And:
      return mkAP(x & y);
    case Instruction::Or:
      return mkAP(x | y);
    case Instruction::Xor:
      return mkAP(x ^ y);
    case Instruction::Shl:
      return mkAP(x.shl(y));
    case Instruction::LShr:
      return mkAP(x.lshr(y));
    case Instruction::AShr:
      return mkAP(x.ashr(y));
    default:
      fail("wide integer division");
    }
  }
  if (w == 1) {
    Z3_ast const x = boolOf(a);
    Z3_ast const y = boolOf(b);
    switch (op) {
    case Instruction::And:
      return fromBool(zAnd(x, y));
    case Instruction::Or:
      return fromBool(zOr(x, y));
    case Instruction::Xor:
    case Instruction::Add:
    case Instruction::Sub:
      if (y == zTrue) {
        return fromBool(zNot(x));
      }
      if (y == zFalse) {
        return fromBool(x);
      }
      if (x == zTrue) {
        return fromBool(zNot(y));
      }
      if (x == zFalse) {
        return fromBool(y);
      }
      return fromBool(Z3_mk_xor(Z, x, y));
    default:
      break;
    }
  }
  // cheap algebraic folds
  auto const isC = [](Val const & v, uint64_t k) { return v.k == V_INT && v.i == k; };
  switch (op) {
  case Instruction::And:
    if (isC(a, 0) || isC(b, 0)) {
      return mkInt(w, 0);
    }
    break;
  case Instruction::Mul:
    if (isC(a, 0) || isC(b, 0)) {
      return mkInt(w, 0);
    }
    if (isC(a, 1)) {
      return b;
    }
    if (isC(b, 1)) {
      return a;
    }
    break;
  case Instruction::Add:
  case Instruction::Or:
  case Instruction::Xor:
    if (isC(a, 0)) {
      return b;
    }
    if (isC(b, 0)) {
      return a;
    }
    break;
  case Instruction::Sub:
  case Instruction::Shl:
  case Instruction::LShr:
  case Instruction::AShr:
    if (isC(b, 0)) {
      return a;
    }
    break;
  default:
    break;
  }
  if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem ||
      op == Instruction::SRem) {
    if (decide(Z3_mk_eq(Z, bvOf(b), zBV(w, 0)))) {
      violation("divzero", "integer division by zero", nullptr);
      throw PathEnd{};
    }
  }
  Z3_ast const x = bvOf(a);
  Z3_ast const y = bvOf(b);
  Z3_ast r = nullptr;
  switch (op) {
  case Instruction::Add:
    r = Z3_mk_bvadd(Z, x, y);
    break;
  case Instruction::Sub:
    r = Z3_mk_bvsub(Z, x, y);
    break;
  case Instruction::Mul:
    r = Z3_mk_bvmul(Z, x, y);
    break;
  case Instruction::And:
    r = Z3_mk_bvand(Z, x, y);
    break;
  case Instruction::Or:
    r = Z3_mk_bvor(Z, x, y);
    break;
  case Instruction::Xor:
    r = Z3_mk_bvxor(Z, x, y);
    break;
  case Instruction::Shl:
    r = Z3_mk_bvshl(Z, x, y);
    break;
  case Instruction::LShr:
    r = Z3_mk_bvlshr(Z, x, y);
    break;
  case Instruction::AShr:
    r = Z3_mk_bvashr(Z, x, y);
    break;
  case Instruction::UDiv:
    r = Z3_mk_bvudiv(Z, x, y);
    break;
  case Instruction::SDiv:
    r = Z3_mk_bvsdiv(Z, x, y);
    break;
  case Instruction::URem:
    r = Z3_mk_bvurem(Z, x, y);
    break;
  case Instruction::SRem:
    r = Z3_mk_bvsrem(Z, x, y);
    break;
  default:
    fail("integer op");
  }
  return fromBV(w, r);
}

static Val icmp(CmpInst::Predicate p, Val a, Val b)
{
  if (a.k == V_REAL || a.k == V_FPC || a.k == V_FPS) {
    a = toIntVal(a);
  }
  if (b.k == V_REAL || b.k == V_FPC || b.k == V_FPS) {
    b = toIntVal(b);
  }
  if (a.k == V_UNDEF || b.k == V_UNDEF) {
    return mkUndef(1);
  }
  if (isConc(a) && isConc(b)) {
    return mkInt(1, ICmpInst::compare(toAP(a), toAP(b), p) ? 1 : 0);
  }
  if (a.w == 1 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) {
    Z3_ast const x = boolOf(a);
    Z3_ast const y = boolOf(b);
    Z3_ast e = nullptr;
    if (y == zTrue) {
      e = x;
    } else if (y == zFalse) {
      e = zNot(x);
    } else {
      e = Z3_mk_iff(Z, x, y);
    }
    return fromBool(p == CmpInst::ICMP_EQ ? e : zNot(e));
  }
  Z3_ast const x = bvOf(a);
  Z3_ast const y = bvOf(b);
  Z3_ast r = nullptr;
  switch (p) {
  case CmpInst::ICMP_EQ:
    r = Z3_mk_eq(Z, x, y);
    break;
  case CmpInst::ICMP_NE:
    r = zNot(Z3_mk_eq(Z, x, y));
    break;
  case CmpInst::ICMP_UGT:
    r = Z3_mk_bvugt(Z, x, y);
    break;
  case CmpInst::ICMP_UGE:
    r = Z3_mk_bvuge(Z, x, y);
    break;
  case CmpInst::ICMP_ULT:
    r = Z3_mk_bvult(Z, x, y);
    break;
  case CmpInst::ICMP_ULE:
    r = Z3_mk_bvule(Z, x, y);
    break;
  case CmpInst::ICMP_SGT:
    r = Z3_mk_bvsgt(Z, x, y);
    break;
  case CmpInst::ICMP_SGE:
    r = Z3_mk_bvsge(Z, x, y);
    break;
  case CmpInst::ICMP_SLT:
    r = Z3_mk_bvslt(Z, x, y);
    break;
  case CmpInst::ICMP_SLE:
    r = Z3_mk_bvsle(Z, x, y);
    break;
  default:
    fail("icmp predicate");
  }
  return fromBool(zSimp(r));
}

// ------------------------------------------------------------------------------------------------
// Floating point operations
// ------------------------------------------------------------------------------------------------
static bool isFlt(Val const & v) { return v.k == V_REAL || v.k == V_FPC || v.k == V_FPS; }

static Val fltBin(unsigned op, Val const & a, Val const & b, unsigned w)
{
  if (a.k == V_UNDEF || b.k == V_UNDEF) {
    return mkUndef(w);
  }
  if (g_real) {
    Val r;
    switch (op) {
    case Instruction::FAdd:
      r = rAdd(a, b, false);
      break;
    case Instruction::FSub:
      r = rAdd(a, b, true);
      break;
    case Instruction::FMul:
      r = rMul(a, b);
      break;
    case Instruction::FDiv:
      r = rDiv(a, b);
      break;
    default:
      fail("frem in real mode");
    }
    r.w = static_cast<uint16_t>(w);
    return r;
  }
  if (a.k == V_FPC && b.k == V_FPC) {
    if (w == 32) {
      float const x = static_cast<float>(a.d);
      float const y = static_cast<float>(b.d);
      switch (op) {
      case Instruction::FAdd:
        return mkFPC(32, static_cast<double>(x + y));
      case Instruction::FSub:
        return mkFPC(32, static_cast<double>(x - y));
      case Instruction::FMul:
        return mkFPC(32, static_cast<double>(x * y));
      case Instruction::FDiv:
        return mkFPC(32, static_cast<double>(x / y));
      default:
        return mkFPC(32, static_cast<double>(std::fmod(x, y)));
      }
    }
    switch (op) {
    case Instruction::FAdd:
      return mkFPC(64, a.d + b.d);
    case Instruction::FSub:
      return mkFPC(64, a.d - b.d);
    case Instruction::FMul:
      return mkFPC(64, a.d * b.d);
    case Instruction::FDiv:
      return mkFPC(64, a.d / b.d);
    default:
      return mkFPC(64, std::fmod(a.d, b.d));
    }
  }
  if (op == Instruction::FMul && (a.k == V_FPC || b.k == V_FPC)) {
    // exact products
    Val const & k = a.k == V_FPC ? a : b;
    Val const & v = a.k == V_FPC ? b : a;
    if (k.d == 1) {
      return v;
    }
    if (k.d == -1) {
      return mkFPS(w, Z3_mk_fpa_neg(Z, v.a));
    }
    if (std::isinf(k.d)) {
      Z3_ast const bad = zOr(Z3_mk_fpa_is_nan(Z, v.a), Z3_mk_fpa_is_zero(Z, v.a));
      Z3_ast const neg = Z3_mk_fpa_is_negative(Z, v.a);
      Z3_ast const pi = Z3_mk_fpa_inf(Z, fpSort(w), false);
      Z3_ast const ni = Z3_mk_fpa_inf(Z, fpSort(w), true);
      Z3_ast const r = Z3_mk_ite(Z, neg, k.d > 0 ? ni : pi, k.d > 0 ? pi : ni);
      return mkFPS(w, Z3_mk_ite(Z, bad, Z3_mk_fpa_nan(Z, fpSort(w)), r));
    }
  }
  Z3_ast const x = fpOf(a);
  Z3_ast const y = fpOf(b);
  switch (op) {
  case Instruction::FAdd:
    return mkFPS(w, Z3_mk_fpa_add(Z, fpRNE(), x, y));
  case Instruction::FSub:
    return mkFPS(w, Z3_mk_fpa_sub(Z, fpRNE(), x, y));
  case Instruction::FMul:
    return mkFPS(w, Z3_mk_fpa_mul(Z, fpRNE(), x, y));
  case Instruction::FDiv:
    return mkFPS(w, Z3_mk_fpa_div(Z, fpRNE(), x, y));
  default:
    fail("frem");
  }
}
static Val fltNeg(Val const & a)
{
  if (a.k == V_UNDEF) {
    return a;
  }
  if (a.k == V_REAL) {
    Val r = rNeg(a);
    r.w = a.w;
    return r;
  }
  if (a.k == V_FPC) {
    return mkFPC(a.w, -a.d);
  }
  return mkFPS(a.w, Z3_mk_fpa_neg(Z, a.a));
}
// ordered lt/le/eq
static Z3_ast fltCmp(Val const & a, Val const & b, int op)
{
  if (g_real) {
    if (a.sp == 3 || b.sp == 3) {
      return zFalse;
    }
    return rCmp(a, b, op);
  }
  if (a.k == V_FPC && b.k == V_FPC) {
    bool const r = op == 0 ? a.d == b.d : op == 1 ? a.d < b.d : a.d <= b.d;
    return r ? zTrue : zFalse;
  }
  Z3_ast const x = fpOf(a);
  Z3_ast const y = fpOf(b);
  return op == 0 ? Z3_mk_fpa_eq(Z, x, y) : op == 1 ? Z3_mk_fpa_lt(Z, x, y) : Z3_mk_fpa_leq(Z, x, y);
}
static Z3_ast fltIsNan(Val const & a)
{
  if (g_real) {
    return a.sp == 3 ? zTrue : zFalse;
  }
  if (a.k == V_FPC) {
    return std::isnan(a.d) ? zTrue : zFalse;
  }
  return Z3_mk_fpa_is_nan(Z, a.a);
}
static Val fcmp(CmpInst::Predicate p, Val const & a, Val const & b)
{
  if (a.k == V_UNDEF || b.k == V_UNDEF) {
    return mkUndef(1);
  }
  auto const uno = [&] { return zOr(fltIsNan(a), fltIsNan(b)); };
  switch (p) {
  case CmpInst::FCMP_FALSE:
    return mkInt(1, 0);
  case CmpInst::FCMP_TRUE:
    return mkInt(1, 1);
  case CmpInst::FCMP_OEQ:
    return fromBool(fltCmp(a, b, 0));
  case CmpInst::FCMP_OLT:
    return fromBool(fltCmp(a, b, 1));
  case CmpInst::FCMP_OLE:
    return fromBool(fltCmp(a, b, 2));
  case CmpInst::FCMP_OGT:
    return fromBool(fltCmp(b, a, 1));
  case CmpInst::FCMP_OGE:
    return fromBool(fltCmp(b, a, 2));
  case CmpInst::FCMP_ONE:
    return fromBool(zAnd(zNot(uno()), zNot(fltCmp(a, b, 0))));
  case CmpInst::FCMP_ORD:
    return fromBool(zNot(uno()));
  case CmpInst::FCMP_UNO:
    return fromBool(uno());
  case CmpInst::FCMP_UEQ:
    return fromBool(zOr(uno(), fltCmp(a, b, 0)));
  case CmpInst::FCMP_UNE:
    return fromBool(zNot(fltCmp(a, b, 0)));
  case CmpInst::FCMP_ULT:
    return fromBool(zNot(fltCmp(b, a, 2)));
  case CmpInst::FCMP_ULE:
    return fromBool(zNot(fltCmp(b, a, 1)));
  case CmpInst::FCMP_UGT:
    return fromBool(zNot(fltCmp(a, b, 2)));
  case CmpInst::FCMP_UGE:
    return fromBool(zNot(fltCmp(a, b, 1)));
  default:
    fail("fcmp predicate");
  }
}

static Val selectVal(Val const & c, Val const & a, Val const & b, Type * t)
{
  if (c.k == V_INT) {
    return c.i != 0 ? a : b;
  }
  if (a.k == V_AGG || b.k == V_AGG) {
    if (c.k == V_UNDEF) {
      return a;
    }
    return decide(boolOf(c)) ? a : b;
  }
  if (c.k == V_UNDEF) {
    C->used_undef = true;
    Val const m = materialize(c, Type::getInt1Ty(M->getContext()));
    return selectVal(m, a, b, t);
  }
  if (a.k == V_UNDEF || b.k == V_UNDEF) {
    return decide(boolOf(c)) ? a : b;
  }
  Z3_ast const cc = boolOf(c);
  if (isFlt(a) || isFlt(b)) {
    if (a.k == V_REAL && b.k == V_REAL) {
      Val r = rIte(cc, a, b);
      r.w = a.w;
      return r;
    }
    if (isFlt(a) && isFlt(b)) {
      if (a.k == V_FPC && b.k == V_FPC && memcmp(&a.d, &b.d, 8) == 0) {
        return a;
      }
      return mkFPS(a.w, Z3_mk_ite(Z, cc, fpOf(a), fpOf(b)));
    }
    return decide(cc) ? a : b;
  }
  if (isConc(a) && isConc(b) && toAP(a) == toAP(b)) {
    return a;
  }
  if (t->isPointerTy()) {
    return decide(cc) ? a : b;
  }
  if (a.w == 1) {
    return fromBool(zSimp(Z3_mk_ite(Z, cc, boolOf(a), boolOf(b))));
  }
  return mkSym(a.w, Z3_mk_ite(Z, cc, bvOf(a), bvOf(b)));
}

static Val intToFlt(Val const & a, bool sgn, unsigned w)
{
  if (a.k == V_UNDEF) {
    return mkUndef(w);
  }
  if (a.k == V_INT) {
    if (g_real) {
      APInt const x(a.w, a.i);
      SmallString<40> s;
      x.toString(s, 10, sgn);
      Val r = mkReal(PX.constant(mpq_class(s.c_str())));
      r.w = static_cast<uint16_t>(w);
      return r;
    }
    double d = 0;
    if (sgn) {
      d = static_cast<double>(APInt(a.w, a.i).getSExtValue());
      if (w == 32) {
        d = static_cast<double>(static_cast<float>(APInt(a.w, a.i).getSExtValue()));
      }
    } else {
      d = w == 32 ? static_cast<double>(static_cast<float>(a.i)) : static_cast<double>(a.i);
    }
    return mkFPC(w, d);
  }
  if (a.k == V_SYM) {
    if (g_real) {
      if (a.w == 1) {
        Val const one = mkReal(sgn ? PX.constant(-1) : PX.one);
        return rIte(a.a, one, mkReal(PX.zero));
      }
      Val r = mkReal(PX.atom(Z3_mk_int2real(Z, Z3_mk_bv2int(Z, zSimp(bvOf(a)), sgn))));
      r.w = static_cast<uint16_t>(w);
      return r;
    }
    return mkFPS(w, sgn ? Z3_mk_fpa_to_fp_signed(Z, fpRNE(), bvOf(a), fpSort(w))
                        : Z3_mk_fpa_to_fp_unsigned(Z, fpRNE(), bvOf(a), fpSort(w)));
  }
  fail("intToFlt");
}
static Val fltToInt(Val const & a, bool sgn, unsigned w)
{
  if (a.k == V_UNDEF) {
    return mkUndef(w);
  }
  if (a.k == V_REAL) {
    if (a.sp != 0) {
      return mkAP(APInt::getSignedMinValue(w));
    }
    mpz_class const k = rRoundInt(a, 2);
    mpz_class lim = 1;
    lim <<= (sgn ? w - 1 : w);
    if (k >= lim || k < (sgn ? mpz_class(-lim) : mpz_class(0))) {
      return mkAP(APInt::getSignedMinValue(w));
    }
    mpz_class m = k;
    if (m < 0) {
      mpz_class two = 1;
      two <<= w;
      m += two;
    }
    return mkAP(APInt(w, m.get_str(), 10));
  }
  if (a.k == V_FPC) {
    if (std::isnan(a.d) || std::fabs(a.d) >= 18446744073709551616.0) {
      return mkAP(APInt::getSignedMinValue(w));
    }
    if (sgn) {
      double const lim = std::ldexp(1.0, static_cast<int>(w) - 1);
      if (a.d >= lim || a.d < -lim) {
        return mkAP(APInt::getSignedMinValue(w));
      }
      return mkInt(w, static_cast<uint64_t>(static_cast<int64_t>(a.d)));
    }
    return mkInt(w, a.d < 0 ? static_cast<uint64_t>(static_cast<int64_t>(a.d))
                            : static_cast<uint64_t>(a.d));
  }
  Z3_ast const rtz = Z3_mk_fpa_rtz(Z);
  return fromBV(w, sgn ? Z3_mk_fpa_to_sbv(Z, rtz, a.a, w) : Z3_mk_fpa_to_ubv(Z, rtz, a.a, w));
}

static Val fltAbs(Val const & a)
{
  if (a.k == V_UNDEF) {
    return a;
  }
  if (a.k == V_REAL) {
    Val r = rAbs(a);
    r.w = a.w;
    return r;
  }
  if (a.k == V_FPC) {
    return mkFPC(a.w, std::fabs(a.d));
  }
  return mkFPS(a.w, Z3_mk_fpa_abs(Z, a.a));
}
static Val fltSqrt(Val const & a)
{
  if (a.k == V_UNDEF) {
    return a;
  }
  if (a.k == V_REAL) {
    Val r = rSqrt(a);
    r.w = a.w;
    return r;
  }
  if (a.k == V_FPC) {
    return mkFPC(a.w, a.w == 32 ? static_cast<double>(std::sqrt(static_cast<float>(a.d)))
                                : std::sqrt(a.d));
  }
  return mkFPS(a.w, Z3_mk_fpa_sqrt(Z, fpRNE(), a.a));
}
static Val fltRound(Val const & a, int mode) // 0 floor 1 ceil 2 trunc 3 round 4 rint
{
  if (a.k == V_UNDEF) {
    return a;
  }
  if (a.k == V_REAL) {
    if (a.sp != 0) {
      return a;
    }
    if (mode == 4 && realIsConst(a)) {
      return mkReal(PX.constant(mpq_class(std::nearbyint(realToDouble(a)))));
    }
    if (mode == 3 && !realIsConst(a)) {
      // away from zero by a half, then towards it
      Val const half = mkReal(PX.constant(mpq_class(1, 2)));
      Val const zero = mkReal(PX.constant(mpq_class(0)));
      Z3_ast const neg = zSimp(rCmp(a, zero, 1));
      return fltRound(rIte(neg, fltBin(Instruction::FSub, a, half, a.w), fltBin(Instruction::FAdd, a, half, a.w)), 2);
    }
    Val r = mkReal(PX.constant(mpq_class(rRoundInt(a, mode))));
    r.w = a.w;
    return r;
  }
  if (a.k == V_FPC) {
    double const d = a.d;
    return mkFPC(a.w, mode == 0   ? std::floor(d)
                      : mode == 1 ? std::ceil(d)
                      : mode == 2 ? std::trunc(d)
                      : mode == 3 ? std::round(d)
                                  : std::nearbyint(d));
  }
  Z3_ast const rm = mode == 0   ? Z3_mk_fpa_rtn(Z)
                    : mode == 1 ? Z3_mk_fpa_rtp(Z)
                    : mode == 2 ? Z3_mk_fpa_rtz(Z)
                    : mode == 3 ? Z3_mk_fpa_rna(Z)
                                : Z3_mk_fpa_rne(Z);
  return mkFPS(a.w, Z3_mk_fpa_round_to_integral(Z, rm, a.a));
}
static Val fltMinMax(Val const & a, Val const & b, bool mx)
{
  if (a.k == V_UNDEF || b.k == V_UNDEF) {
    return mkUndef(a.w);
  }
  if (g_real) {
    if (a.sp == 3) {
      return b;
    }
    if (b.sp == 3) {
      return a;
    }
    Z3_ast const c = zSimp(mx ? rCmp(a, b, 1) : rCmp(b, a, 1));
    Val r = rIte(c, b, a);
    r.w = a.w;
    return r;
  }
  if (a.k == V_FPC && b.k == V_FPC) {
    return mkFPC(a.w, mx ? std::fmax(a.d, b.d) : std::fmin(a.d, b.d));
  }
  return mkFPS(a.w, mx ? Z3_mk_fpa_max(Z, fpOf(a), fpOf(b)) : Z3_mk_fpa_min(Z, fpOf(a), fpOf(b)));
}
static Val fltCopysign(Val const & a, Val const & b)
{
  if (a.k == V_UNDEF || b.k == V_UNDEF) {
    return mkUndef(a.w);
  }
  if (g_real) {
    Val const m = rAbs(a);
    if (b.sp != 0) {
      return b.sp == 2 ? rNeg(m) : m;
    }
    Z3_ast const c = zSimp(rCmp(b, mkReal(PX.zero), 1));
    return rIte(c, rNeg(m), m);
  }
  if (a.k == V_FPC && b.k == V_FPC) {
    return mkFPC(a.w, std::copysign(a.d, b.d));
  }
  Z3_ast const m = Z3_mk_fpa_abs(Z, fpOf(a));
  Z3_ast const bv = Z3_mk_fpa_to_ieee_bv(Z, fpOf(b));
  Z3_ast const sg = Z3_mk_eq(Z, Z3_mk_extract(Z, a.w - 1U, a.w - 1U, bv), zBV(1, 1));
  return mkFPS(a.w, Z3_mk_ite(Z, sg, Z3_mk_fpa_neg(Z, m), m));
}
static Val fltUnary(std::string const & nm, Val const & a)
{
  if (a.k == V_UNDEF) {
    return a;
  }
  auto const nat = [&](double x) -> double {
    if (nm == "sin") {
      return std::sin(x);
    }
    if (nm == "cos") {
      return std::cos(x);
    }
    if (nm == "tan") {
      return std::tan(x);
    }
    if (nm == "atan") {
      return std::atan(x);
    }
    if (nm == "asin") {
      return std::asin(x);
    }
    if (nm == "acos") {
      return std::acos(x);
    }
    if (nm == "exp") {
      return std::exp(x);
    }
    if (nm == "log") {
      return std::log(x);
    }
    if (nm == "cbrt") {
      return std::cbrt(x);
    }
    if (nm == "sinh") {
      return std::sinh(x);
    }
    if (nm == "cosh") {
      return std::cosh(x);
    }
    if (nm == "tanh") {
      return std::tanh(x);
    }
    fail("math function " + nm);
  };
  if (a.k == V_REAL) {
    if (a.sp != 0) {
      return realFromDouble(nat(realToDouble(a)), false);
    }
    if (realIsConst(a)) {
      if (realConst(a) == 0 && nm != "cos" && nm != "exp" && nm != "cosh" && nm != "acos" && nm != "log") {
        return mkReal(PX.zero);
      }
      Val r = realFromDouble(nat(realToDouble(a)), nm == "cbrt");
      r.w = a.w;
      return r;
    }
    if (nm == "sin") {
      return rTrig(a).s;
    }
    if (nm == "cos") {
      return rTrig(a).c;
    }
    if (nm == "tan") {
      TrigPair const t = rTrig(a);
      return rDiv(t.s, t.c);
    }
    if (nm == "atan") {
      return rAtan(a);
    }
    if (nm == "acos" || nm == "asin") {
      if (decide(rCmp(mkReal(PX.one), a, 1)) || decide(rCmp(a, mkReal(PX.constant(mpq_class(-1))), 1))) {
        return mkSpecial(3);
      }
    }
    if (nm == "cbrt") {
      // r^3 = x
      auto const key = std::make_pair(a.n, denOf(a));
      static std::map<std::pair<PP, PP>, PP> cache;
      auto it = cache.find(key);
      if (it != cache.end()) {
        return mkReal(it->second);
      }
      std::string const name = "cbrt!" + std::to_string(g_auxn++);
      Z3_ast const r = newVar(name, PX.real);
      PP const v = PX.var(PX.newVar(r, name));
      Z3_ast m[4] = {r, r, r, PX.toZ3(denOf(a))};
      g_vars[g_varix[r]].defs.push_back(Z3_mk_eq(Z, Z3_mk_mul(Z, 4, m), PX.toZ3(a.n)));
      cache[key] = v;
      return mkReal(v);
    }
    // contract-only function: unconstrained result, same argument gives the same result
    static std::map<std::pair<std::string, std::pair<PP, PP>>, PP> uf;
    auto const key = std::make_pair(nm, std::make_pair(a.n, denOf(a)));
    auto it = uf.find(key);
    if (it != uf.end()) {
      return mkReal(it->second);
    }
    std::string const name = nm + "!" + std::to_string(g_auxn++);
    Z3_ast const r = newVar(name, PX.real);
    PP const v = PX.var(PX.newVar(r, name));
    if (nm == "acos") {
      g_vars[g_varix[r]].defs.push_back(Z3_mk_ge(Z, r, PX.numeral(0)));
      g_vars[g_varix[r]].defs.push_back(Z3_mk_le(Z, r, PX.numeral(mpq_class("31415926536/10000000000"))));
      // cos(acos x) = x is recorded so that a later cosine of this angle is x
      TrigPair tp;
      tp.c = a;
      tp.s = rSqrt(rAdd(mkReal(PX.one), rMul(a, a), true));
      g_trig[std::make_pair(v, PX.one)] = tp;
    }
    uf[key] = v;
    return mkReal(v);
  }
  if (a.k == V_FPC) {
    double const d = nat(a.d);
    return mkFPC(a.w, d);
  }
  static std::map<std::pair<std::string, Z3_ast>, Z3_ast> uf2;
  auto & u = uf2[{nm, a.a}];
  if (u == nullptr) {
    u = newVar(nm + "!" + std::to_string(g_auxn++), fpSort(a.w));
  }
  return mkFPS(a.w, u);
}

// ------------------------------------------------------------------------------------------------
// Assertions
// ------------------------------------------------------------------------------------------------
static void assertCond(Val v, std::string const & label, std::vector<Z3_ast> const & robust = {})
{
  ++S.asserts;
  ++g_reached[label];
  if (v.k == V_UNDEF) {
    v = materialize(v, Type::getInt1Ty(M->getContext()));
  }
  if (v.k == V_INT) {
    if (v.i != 0) {
      ++S.asserts_trivial;
      ++g_label_ok[label];
      return;
    }
    violation("assert", label, nullptr);
    throw PathEnd{};
  }
  Z3_ast const c = zSimp(boolOf(v));
  if (c == zTrue) {
    ++S.asserts_trivial;
    ++g_label_ok[label];
    return;
  }
  Z3_ast const nc = zNot(c);
  for (auto r : robust) {
    if (g_vcount["assert|" + label] > 0) {
      break;
    }
    QRes const q = check(C->pc, {r}, 2.0);
    if (q.r == R_SAT) {
      violation("assert", label, r);
      break;
    }
  }
  QRes const q = check(C->pc, {nc});
  if (q.r == R_UNSAT) {
    ++S.asserts_solver;
    ++g_label_ok[label];
    return;
  }
  if (q.r == R_UNKNOWN) {
    emit("{\"t\":\"inconclusive\",\"why\":\"solver unknown for assertion " + jesc(label) +
         "\",\"where\":\"" + jesc(whereAmI()) + "\"}");
    return;
  }
  violation("assert", label, nc);
  assume(c);
}
// Equalities that hold as polynomial identities are handed to the solver as well, many in one query:
// the two sides are cross-multiplied and their difference must be unsatisfiable.
static std::vector<Z3_ast> g_ident;
static std::set<std::array<PP, 4>> g_ident_seen;
static void flushIdentities()
{
  if (g_ident.empty()) {
    return;
  }
  double const t0 = now();
  Z3_solver const s = Z3_mk_simple_solver(Z);
  Z3_solver_inc_ref(Z, s);
  Z3_params const ps = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, ps);
  Z3_params_set_uint(Z, ps, Z3_mk_string_symbol(Z, "timeout"), 2000);
  Z3_solver_set_params(Z, s, ps);
  Z3_solver_assert(Z, s, Z3_mk_or(Z, static_cast<unsigned>(g_ident.size()), g_ident.data()));
  Z3_lbool const r = Z3_solver_check(Z, s);
  ++S.queries;
  if (r == Z3_L_FALSE) {
    ++S.q_unsat;
    S.ident_solver += g_ident.size();
  } else {
    // needs the defining equation of a root or an angle: decided by the normal form
    ++(r == Z3_L_TRUE ? S.q_sat : S.q_unknown);
    S.ident_nf += g_ident.size();
  }
  Z3_params_dec_ref(Z, ps);
  Z3_solver_dec_ref(Z, s);
  S.solver_s += now() - t0;
  g_ident.clear();
}
static void noteIdentity(Val const & a, Val const & b)
{
  if (!g_ident_seen.insert({a.n, denOf(a), b.n, denOf(b)}).second) {
    return;
  }
  if (realIsConst(a) && realIsConst(b)) {
    return;
  }
  if (a.n->t.size() + b.n->t.size() + denOf(a)->t.size() + denOf(b)->t.size() > 400) {
    ++S.ident_nf;
    return;
  }
  Z3_ast l[2] = {PX.toZ3(a.n), PX.toZ3(denOf(b))};
  Z3_ast r[2] = {PX.toZ3(b.n), PX.toZ3(denOf(a))};
  Z3_ast const e = Z3_mk_eq(Z, Z3_mk_mul(Z, 2, l), Z3_mk_mul(Z, 2, r));
  Z3_ast const ne = Z3_mk_not(Z, e);
  Z3_inc_ref(Z, ne);
  g_ident.push_back(ne);
  if (g_ident.size() >= 40) {
    flushIdentities();
  }
}
static void assertDiff(Val const & a, Val const & b, double tol, std::string const & label,
                       bool onesided)
{
  if (a.k == V_UNDEF || b.k == V_UNDEF) {
    assertCond(mkUndef(1), label);
    return;
  }
  if (!g_real) {
    Val const d = fltBin(Instruction::FSub, a, b, a.w);
    Val const x = onesided ? d : fltAbs(d);
    Z3_ast ok = fltCmp(x, mkFPC(a.w, tol), 2);
    ok = zOr(ok, fltCmp(a, b, onesided ? 2 : 0));
    assertCond(fromBool(zSimp(ok)), label);
    return;
  }
  if (a.sp != 0 || b.sp != 0) {
    bool ok = false;
    if (a.sp != 3 && b.sp != 3) {
      ok = onesided ? rCmp(a, b, 2) == zTrue : a.sp == b.sp;
    }
    assertCond(mkInt(1, ok ? 1 : 0), label);
    return;
  }
  Val const d = rAdd(a, b, true);
  if (d.n->isZero()) {
    noteIdentity(a, b);
    assertCond(mkInt(1, 1), label);
    return;
  }
  auto const within = [&](mpq_class const & t) -> Z3_ast {
    Val const tv = mkReal(PX.constant(t));
    Z3_ast const hi = rCmp(d, tv, 2);
    if (onesided) {
      return hi;
    }
    return zAnd(hi, rCmp(rNeg(tv), d, 2));
  };
  Val const ok = fromBool(zSimp(within(mpq_class(ratOfConst(tol, false)))));
  std::vector<Z3_ast> robust;
  if (ok.k == V_SYM) {
    for (double const m : {0.1, 1e-3, 1e-5}) {
      if (m > tol) {
        robust.push_back(zNot(zSimp(within(mpq_class(m)))));
      }
    }
  }
  // prove first (cheap when it holds); look for robust counterexamples only on failure
  if (ok.k == V_SYM) {
    QRes const q = check(C->pc, {zNot(ok.a)});
    if (q.r != R_SAT) {
      robust.clear();
    }
  }
  assertCond(ok, label, robust);
}

#include "symx_calls.inc"
