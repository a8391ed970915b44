// Calls, instruction stepping and main (included by symx_exec.inc)

static Val lanes(Val const & a, std::function<Val(Val const &)> const & f)
{
  if (isPacked(a)) {
    fail("arithmetic on the bits of a symbolic real");
  }
  if (a.k == V_AGG) {
    Agg r;
    for (auto const & x : *a.agg) {
      r.push_back(f(x));
    }
    return mkAgg(std::move(r));
  }
  return f(a);
}
static Val lanes2(Val const & a, Val const & b, std::function<Val(Val const &, Val const &)> const & f)
{
  if (isPacked(a) || isPacked(b)) {
    fail("arithmetic on the bits of a symbolic real");
  }
  if (a.k == V_AGG) {
    Agg r;
    for (size_t i = 0; i < a.agg->size(); ++i) {
      r.push_back(f((*a.agg)[i], (*b.agg)[i]));
    }
    return mkAgg(std::move(r));
  }
  return f(a, b);
}

// bits [lo, lo + len) of a packed integer, zero extended to w bits
static Val packedPart(Val const & v, unsigned lo, unsigned len, unsigned w)
{
  Agg r;
  unsigned b = 0;
  for (auto const & x : *v.agg) {
    unsigned const e = b + x.w;
    if (b >= lo && e <= lo + len) {
      r.push_back(x);
    } else if (e > lo && b < lo + len) {
      fail("bits of a symbolic real are needed");
    }
    b = e;
  }
  if (len < w) {
    r.push_back(mkInt(w - len, 0));
  }
  if (r.size() == 1) {
    return r[0];
  }
  return mkPacked(std::move(r), w);
}
static Val packedBin(unsigned op, Val const & x, Val const & y, unsigned w)
{
  if (op == Instruction::LShr && y.k == V_INT && isPacked(x)) {
    return packedPart(x, static_cast<unsigned>(y.i), w - static_cast<unsigned>(y.i), w);
  }
  if (op == Instruction::Shl && y.k == V_INT && isPacked(x)) {
    Agg r;
    r.push_back(mkInt(static_cast<unsigned>(y.i), 0));
    Val const lo = packedPart(x, 0, w - static_cast<unsigned>(y.i), w - static_cast<unsigned>(y.i));
    if (isPacked(lo)) {
      r.insert(r.end(), lo.agg->begin(), lo.agg->end());
    } else {
      r.push_back(lo);
    }
    return mkPacked(std::move(r), w);
  }
  if (op == Instruction::Or && isPacked(x) && isPacked(y) && x.agg->size() == y.agg->size()) {
    Agg r;
    for (size_t i = 0; i < x.agg->size(); ++i) {
      Val const & a = (*x.agg)[i];
      Val const & b = (*y.agg)[i];
      bool const az = a.k == V_INT && a.i == 0;
      bool const bz = b.k == V_INT && b.i == 0;
      if (a.w != b.w || (!az && !bz)) {
        fail("bits of a symbolic real are needed");
      }
      r.push_back(az ? b : a);
    }
    return mkPacked(std::move(r), w);
  }
  fail("arithmetic on the bits of a symbolic real");
}
// powers: of known numbers, or of a real to a small whole or half exponent
static Val fltPow(Val const & x, Val const & e)
{
  bool const cx = x.k == V_FPC || (x.k == V_REAL && realIsConst(x));
  bool const ce = e.k == V_FPC || (e.k == V_REAL && realIsConst(e));
  if (!ce) {
    fail("symbolic exponent");
  }
  double const n = e.k == V_FPC ? e.d : realToDouble(e);
  if (cx) {
    double const d = std::pow(x.k == V_FPC ? x.d : realToDouble(x), n);
    return g_real ? realFromDouble(d, false) : mkFPC(x.w, x.w == 32 ? static_cast<double>(static_cast<float>(d)) : d);
  }
  if (!g_real || x.k != V_REAL || std::floor(std::fabs(n) * 2) != std::fabs(n) * 2 || std::fabs(n) > 16) {
    fail("symbolic power");
  }
  Val r = realFromDouble(1, false);
  for (int i = 0; i < static_cast<int>(std::fabs(n)); ++i) {
    r = fltBin(Instruction::FMul, r, x, x.w);
  }
  if (std::floor(std::fabs(n)) != std::fabs(n)) {
    r = fltBin(Instruction::FMul, r, fltSqrt(x), x.w);
  }
  return n < 0 ? fltBin(Instruction::FDiv, realFromDouble(1, false), r, x.w) : r;
}
static bool symReal(Val const & v) { return v.k == V_REAL && v.sp == 0 && !realIsConst(v); }

static Val zextTo(Val const & v, unsigned w)
{
  if (symReal(v) && v.w < w) {
    Agg r;
    r.push_back(v);
    r.push_back(mkInt(w - v.w, 0));
    return mkPacked(std::move(r), w);
  }
  if (v.k == V_UNDEF) {
    return mkUndef(w);
  }
  if (isConc(v)) {
    return mkAP(toAP(v).zext(w));
  }
  if (v.w == w) {
    return v;
  }
  if (v.w == 1) {
    return mkSym(w, Z3_mk_ite(Z, v.a, zBV(w, 1), zBV(w, 0)));
  }
  return mkSym(w, Z3_mk_zero_ext(Z, w - v.w, bvOf(v)));
}
static Val truncTo(Val const & v0, unsigned w)
{
  Val v = v0;
  if (isFlt(v)) {
    v = toIntVal(v);
  }
  if (v.k == V_UNDEF) {
    return mkUndef(w);
  }
  if (isConc(v)) {
    return mkAP(toAP(v).trunc(w));
  }
  return fromBV(w, Z3_mk_extract(Z, w - 1, 0, bvOf(v)));
}
static Val sextTo(Val const & v, unsigned w)
{
  if (v.k == V_UNDEF) {
    return mkUndef(w);
  }
  if (isConc(v)) {
    return mkAP(toAP(v).sext(w));
  }
  if (v.w == 1) {
    return mkSym(w, Z3_mk_ite(Z, v.a, zBV(w, ~0ULL), zBV(w, 0)));
  }
  return mkSym(w, Z3_mk_sign_ext(Z, w - v.w, bvOf(v)));
}

static Val funnel(Val const & a, Val const & b, Val const & s, bool left)
{
  unsigned const w = a.w;
  if (s.k != V_INT) {
    fail("funnel shift by a symbolic amount");
  }
  auto const k = static_cast<unsigned>(s.i % w);
  if (k == 0) {
    return left ? a : b;
  }
  unsigned const l = left ? k : w - k;
  Val const hi = intBin(Instruction::Shl, a, mkInt(w, l), w);
  Val const lo = intBin(Instruction::LShr, b, mkInt(w, w - l), w);
  return intBin(Instruction::Or, hi, lo, w);
}
static Val pdepext(Val const & src, Val const & mask, bool dep)
{
  unsigned const w = src.w;
  if (mask.k != V_INT) {
    fail("pdep/pext with symbolic mask");
  }
  if (src.k == V_INT) {
    uint64_t r = 0;
    unsigned k = 0;
    for (unsigned i = 0; i < w; ++i) {
      if (((mask.i >> i) & 1) != 0) {
        if (dep) {
          r |= ((src.i >> k) & 1) << i;
        } else {
          r |= ((src.i >> i) & 1) << k;
        }
        ++k;
      }
    }
    return mkInt(w, r);
  }
  if (src.k != V_SYM) {
    return mkUndef(w);
  }
  std::vector<Z3_ast> bits(w, zBV(1, 0));
  unsigned k = 0;
  for (unsigned i = 0; i < w; ++i) {
    if (((mask.i >> i) & 1) != 0) {
      if (dep) {
        bits[i] = Z3_mk_extract(Z, k, k, src.a);
      } else {
        bits[k] = Z3_mk_extract(Z, i, i, src.a);
      }
      ++k;
    }
  }
  Z3_ast acc = bits[0];
  for (unsigned i = 1; i < w; ++i) {
    acc = Z3_mk_concat(Z, bits[i], acc);
  }
  return mkSym(w, zSimp(acc));
}
static Val popcnt(Val const & a)
{
  if (a.k == V_INT) {
    return mkInt(a.w, static_cast<uint64_t>(__builtin_popcountll(a.i)));
  }
  Z3_ast acc = zBV(a.w, 0);
  for (unsigned i = 0; i < a.w; ++i) {
    acc = Z3_mk_bvadd(Z, acc, Z3_mk_zero_ext(Z, a.w - 1U, Z3_mk_extract(Z, i, i, bvOf(a))));
  }
  return mkSym(a.w, acc);
}
static Val clz(Val const & a, bool trailing)
{
  if (a.k == V_INT) {
    APInt const x(a.w, a.i);
    return mkInt(a.w, trailing ? x.countr_zero() : x.countl_zero());
  }
  Z3_ast acc = zBV(a.w, a.w);
  for (unsigned j = 0; j < a.w; ++j) {
    unsigned const i = trailing ? a.w - 1U - j : j;
    Z3_ast const bit = Z3_mk_eq(Z, Z3_mk_extract(Z, i, i, bvOf(a)), zBV(1, 1));
    acc = Z3_mk_ite(Z, bit, zBV(a.w, trailing ? i : a.w - 1U - i), acc);
  }
  return mkSym(a.w, acc);
}
static Val minmaxInt(Val const & a, Val const & b, CmpInst::Predicate p)
{
  return selectVal(icmp(p, a, b), a, b, Type::getIntNTy(M->getContext(), a.w));
}

// returns true if handled
static bool intrinsic(CallBase const & cb, Function const * f, std::vector<Val> & a, Val & r)
{
  auto const id = f->getIntrinsicID();
  Type * t = cb.getType();
  unsigned w = 0;
  if (t->getScalarType()->isIntegerTy()) {
    w = t->getScalarType()->getIntegerBitWidth();
  }
  switch (id) {
  case Intrinsic::vastart:
    C->valists[ptrOf(a[0], "va_start")] = C->fr.back().varargs;
    return true;
  case Intrinsic::vaend:
    return true;
  case Intrinsic::lifetime_start:
  case Intrinsic::lifetime_end:
  case Intrinsic::dbg_declare:
  case Intrinsic::dbg_value:
  case Intrinsic::dbg_label:
  case Intrinsic::assume:
  case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::prefetch:
  case Intrinsic::donothing:
  case Intrinsic::invariant_start:
  case Intrinsic::invariant_end:
  case Intrinsic::stackrestore:
  case Intrinsic::sideeffect:
    r = mkInt(64, 0);
    return true;
  case Intrinsic::stacksave:
    r = mkInt(64, 0);
    return true;
  case Intrinsic::memcpy:
  case Intrinsic::memcpy_inline:
  case Intrinsic::memmove: {
    uint64_t const n = concretize(a[2], "memcpy size");
    if (n != 0) {
      memMove(ptrOf(a[0], "memcpy"), ptrOf(a[1], "memcpy"), n);
    }
    return true;
  }
  case Intrinsic::memset: {
    uint64_t const n = concretize(a[2], "memset size");
    if (n != 0) {
      memSet(ptrOf(a[0], "memset"), a[1], n);
    }
    return true;
  }
  case Intrinsic::expect:
  case Intrinsic::launder_invariant_group:
  case Intrinsic::strip_invariant_group:
  case Intrinsic::threadlocal_address:
  case Intrinsic::ssa_copy:
    r = a[0];
    return true;
  case Intrinsic::is_constant:
    r = mkInt(1, 0);
    return true;
  case Intrinsic::objectsize:
    r = mkInt(w, ~0ULL);
    return true;
  case Intrinsic::trap:
  case Intrinsic::ubsantrap:
  case Intrinsic::debugtrap:
    violation("trap", "llvm.trap reached", nullptr);
    throw PathEnd{};
  case Intrinsic::fabs:
    r = lanes(a[0], fltAbs);
    return true;
  case Intrinsic::sqrt:
    r = lanes(a[0], fltSqrt);
    return true;
  case Intrinsic::floor:
    r = lanes(a[0], [](Val const & x) { return fltRound(x, 0); });
    return true;
  case Intrinsic::ceil:
    r = lanes(a[0], [](Val const & x) { return fltRound(x, 1); });
    return true;
  case Intrinsic::trunc:
    r = lanes(a[0], [](Val const & x) { return fltRound(x, 2); });
    return true;
  case Intrinsic::round:
    r = lanes(a[0], [](Val const & x) { return fltRound(x, 3); });
    return true;
  case Intrinsic::rint:
  case Intrinsic::nearbyint:
  case Intrinsic::roundeven:
    r = lanes(a[0], [](Val const & x) { return fltRound(x, 4); });
    return true;
  case Intrinsic::minnum:
  case Intrinsic::minimum:
    r = lanes2(a[0], a[1], [](Val const & x, Val const & y) { return fltMinMax(x, y, false); });
    return true;
  case Intrinsic::maxnum:
  case Intrinsic::maximum:
    r = lanes2(a[0], a[1], [](Val const & x, Val const & y) { return fltMinMax(x, y, true); });
    return true;
  case Intrinsic::copysign:
    r = lanes2(a[0], a[1], fltCopysign);
    return true;
  case Intrinsic::fmuladd:
  case Intrinsic::fma: {
    auto const fm = [&](Val const & x, Val const & y, Val const & z) {
      if (x.k == V_UNDEF || y.k == V_UNDEF || z.k == V_UNDEF) {
        return mkUndef(64);
      }
      if (g_real || id == Intrinsic::fmuladd) {
        return fltBin(Instruction::FAdd, fltBin(Instruction::FMul, x, y, x.w), z, x.w);
      }
      if (x.k == V_FPC && y.k == V_FPC && z.k == V_FPC) {
        return mkFPC(x.w, x.w == 32 ? static_cast<double>(std::fma(static_cast<float>(x.d), static_cast<float>(y.d), static_cast<float>(z.d)))
                                    : std::fma(x.d, y.d, z.d));
      }
      return mkFPS(x.w, Z3_mk_fpa_fma(Z, fpRNE(), fpOf(x), fpOf(y), fpOf(z)));
    };
    if (a[0].k == V_AGG) {
      Agg g;
      for (size_t i = 0; i < a[0].agg->size(); ++i) {
        g.push_back(fm((*a[0].agg)[i], (*a[1].agg)[i], (*a[2].agg)[i]));
      }
      r = mkAgg(std::move(g));
    } else {
      r = fm(a[0], a[1], a[2]);
    }
    return true;
  }
  case Intrinsic::pow:
    r = lanes2(a[0], a[1], fltPow);
    return true;
  case Intrinsic::powi: {
    int const n = static_cast<int>(static_cast<int32_t>(concretize(a[1], "exponent")));
    r = lanes(a[0], [&](Val const & x) { return fltPow(x, g_real ? realFromDouble(n, false) : mkFPC(64, n)); });
    return true;
  }
  case Intrinsic::lround:
  case Intrinsic::llround:
    r = fltToInt(fltRound(a[0], 3), true, w);
    return true;
  case Intrinsic::lrint:
  case Intrinsic::llrint:
    r = fltToInt(fltRound(a[0], 4), true, w);
    return true;
  case Intrinsic::sin:
    r = lanes(a[0], [](Val const & x) { return fltUnary("sin", x); });
    return true;
  case Intrinsic::cos:
    r = lanes(a[0], [](Val const & x) { return fltUnary("cos", x); });
    return true;
  case Intrinsic::exp:
    r = lanes(a[0], [](Val const & x) { return fltUnary("exp", x); });
    return true;
  case Intrinsic::log:
    r = lanes(a[0], [](Val const & x) { return fltUnary("log", x); });
    return true;
  case Intrinsic::smin:
    r = lanes2(a[0], a[1], [](Val const & x, Val const & y) { return minmaxInt(x, y, CmpInst::ICMP_SLT); });
    return true;
  case Intrinsic::smax:
    r = lanes2(a[0], a[1], [](Val const & x, Val const & y) { return minmaxInt(x, y, CmpInst::ICMP_SGT); });
    return true;
  case Intrinsic::umin:
    r = lanes2(a[0], a[1], [](Val const & x, Val const & y) { return minmaxInt(x, y, CmpInst::ICMP_ULT); });
    return true;
  case Intrinsic::umax:
    r = lanes2(a[0], a[1], [](Val const & x, Val const & y) { return minmaxInt(x, y, CmpInst::ICMP_UGT); });
    return true;
  case Intrinsic::abs:
    r = lanes(a[0], [&](Val const & x) {
      if (x.k == V_UNDEF) {
        return x;
      }
      return selectVal(icmp(CmpInst::ICMP_SLT, x, mkInt(x.w, 0)),
                       intBin(Instruction::Sub, mkInt(x.w, 0), x, x.w), x,
                       Type::getIntNTy(M->getContext(), x.w));
    });
    return true;
  case Intrinsic::usub_sat:
    r = lanes2(a[0], a[1], [&](Val const & x, Val const & y) {
      return selectVal(icmp(CmpInst::ICMP_ULT, x, y), mkInt(x.w, 0),
                       intBin(Instruction::Sub, x, y, x.w), Type::getIntNTy(M->getContext(), x.w));
    });
    return true;
  case Intrinsic::uadd_with_overflow:
  case Intrinsic::sadd_with_overflow:
  case Intrinsic::usub_with_overflow:
  case Intrinsic::ssub_with_overflow:
  case Intrinsic::umul_with_overflow:
  case Intrinsic::smul_with_overflow: {
    bool const sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow ||
                    id == Intrinsic::smul_with_overflow;
    unsigned const op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow)
                            ? Instruction::Add
                        : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow)
                            ? Instruction::Sub
                            : Instruction::Mul;
    unsigned const sw = a[0].w;
    Val const x = sg ? sextTo(a[0], 2 * sw) : zextTo(a[0], 2 * sw);
    Val const y = sg ? sextTo(a[1], 2 * sw) : zextTo(a[1], 2 * sw);
    Val const full = intBin(op, x, y, 2 * sw);
    Val const res = truncTo(full, sw);
    Val const back = sg ? sextTo(res, 2 * sw) : zextTo(res, 2 * sw);
    r = mkAgg({res, icmp(CmpInst::ICMP_NE, back, full)});
    return true;
  }
  case Intrinsic::ctpop:
    r = lanes(a[0], popcnt);
    return true;
  case Intrinsic::ctlz:
    r = lanes(a[0], [](Val const & x) { return clz(x, false); });
    return true;
  case Intrinsic::cttz:
    r = lanes(a[0], [](Val const & x) { return clz(x, true); });
    return true;
  case Intrinsic::bswap: {
    if (a[0].k == V_INT) {
      r = mkAP(toAP(a[0]).byteSwap());
    } else {
      Z3_ast acc = nullptr;
      for (unsigned i = 0; i < a[0].w; i += 8) {
        Z3_ast const e = Z3_mk_extract(Z, i + 7, i, bvOf(a[0]));
        acc = acc == nullptr ? e : Z3_mk_concat(Z, acc, e);
      }
      r = mkSym(a[0].w, acc);
    }
    return true;
  }
  case Intrinsic::fshl:
    r = funnel(a[0], a[1], a[2], true);
    return true;
  case Intrinsic::fshr:
    r = funnel(a[0], a[1], a[2], false);
    return true;
  case Intrinsic::x86_bmi_pdep_32:
  case Intrinsic::x86_bmi_pdep_64:
    r = pdepext(a[0], a[1], true);
    return true;
  case Intrinsic::x86_bmi_pext_32:
  case Intrinsic::x86_bmi_pext_64:
    r = pdepext(a[0], a[1], false);
    return true;
  case Intrinsic::vector_reduce_add:
  case Intrinsic::vector_reduce_mul:
  case Intrinsic::vector_reduce_and:
  case Intrinsic::vector_reduce_or:
  case Intrinsic::vector_reduce_xor: {
    unsigned const op = id == Intrinsic::vector_reduce_add   ? Instruction::Add
                        : id == Intrinsic::vector_reduce_mul ? Instruction::Mul
                        : id == Intrinsic::vector_reduce_and ? Instruction::And
                        : id == Intrinsic::vector_reduce_or  ? Instruction::Or
                                                             : Instruction::Xor;
    r = (*a[0].agg)[0];
    for (size_t i = 1; i < a[0].agg->size(); ++i) {
      r = intBin(op, r, (*a[0].agg)[i], w);
    }
    return true;
  }
  case Intrinsic::vector_reduce_smin:
  case Intrinsic::vector_reduce_smax:
  case Intrinsic::vector_reduce_umin:
  case Intrinsic::vector_reduce_umax: {
    auto const p = id == Intrinsic::vector_reduce_smin   ? CmpInst::ICMP_SLT
                   : id == Intrinsic::vector_reduce_smax ? CmpInst::ICMP_SGT
                   : id == Intrinsic::vector_reduce_umin ? CmpInst::ICMP_ULT
                                                         : CmpInst::ICMP_UGT;
    r = (*a[0].agg)[0];
    for (size_t i = 1; i < a[0].agg->size(); ++i) {
      r = minmaxInt(r, (*a[0].agg)[i], p);
    }
    return true;
  }
  case Intrinsic::vector_reduce_fadd:
  case Intrinsic::vector_reduce_fmul: {
    r = a[0];
    for (auto const & x : *a[1].agg) {
      r = fltBin(id == Intrinsic::vector_reduce_fadd ? Instruction::FAdd : Instruction::FMul, r, x, x.w);
    }
    return true;
  }
  case Intrinsic::vector_reduce_fmin:
  case Intrinsic::vector_reduce_fmax: {
    r = (*a[0].agg)[0];
    for (size_t i = 1; i < a[0].agg->size(); ++i) {
      r = fltMinMax(r, (*a[0].agg)[i], id == Intrinsic::vector_reduce_fmax);
    }
    return true;
  }
  case Intrinsic::ptrmask:
    r = intBin(Instruction::And, a[0], a[1], 64);
    return true;
  case Intrinsic::is_fpclass: {
    Val const x = a[0];
    auto const m = static_cast<unsigned>(a[1].i);
    if (x.k == V_UNDEF) {
      r = mkUndef(1);
      return true;
    }
    if (x.k == V_REAL) {
      if (x.sp == 3) {
        r = mkInt(1, (m & 3U) != 0 ? 1 : 0);
      } else if (x.sp == 1) {
        r = mkInt(1, (m & 0x200U) != 0 ? 1 : 0);
      } else if (x.sp == 2) {
        r = mkInt(1, (m & 4U) != 0 ? 1 : 0);
      } else {
        Z3_ast c = zFalse;
        if ((m & 0x18U) != 0) {
          c = zOr(c, rCmp(x, mkReal(PX.zero), 1));
        }
        if ((m & 0x60U) != 0) {
          c = zOr(c, rCmp(x, mkReal(PX.zero), 0));
        }
        if ((m & 0x180U) != 0) {
          c = zOr(c, rCmp(mkReal(PX.zero), x, 1));
        }
        r = fromBool(zSimp(c));
      }
      return true;
    }
    Z3_ast const f = fpOf(x);
    Z3_ast c = zFalse;
    Z3_ast const neg = Z3_mk_fpa_is_negative(Z, f);
    Z3_ast const pos = Z3_mk_fpa_is_positive(Z, f);
    if ((m & 3U) != 0) {
      c = zOr(c, Z3_mk_fpa_is_nan(Z, f));
    }
    if ((m & 4U) != 0) {
      c = zOr(c, zAnd(Z3_mk_fpa_is_infinite(Z, f), neg));
    }
    if ((m & 8U) != 0) {
      c = zOr(c, zAnd(Z3_mk_fpa_is_normal(Z, f), neg));
    }
    if ((m & 0x10U) != 0) {
      c = zOr(c, zAnd(Z3_mk_fpa_is_subnormal(Z, f), neg));
    }
    if ((m & 0x20U) != 0) {
      c = zOr(c, zAnd(Z3_mk_fpa_is_zero(Z, f), neg));
    }
    if ((m & 0x40U) != 0) {
      c = zOr(c, zAnd(Z3_mk_fpa_is_zero(Z, f), pos));
    }
    if ((m & 0x80U) != 0) {
      c = zOr(c, zAnd(Z3_mk_fpa_is_subnormal(Z, f), pos));
    }
    if ((m & 0x100U) != 0) {
      c = zOr(c, zAnd(Z3_mk_fpa_is_normal(Z, f), pos));
    }
    if ((m & 0x200U) != 0) {
      c = zOr(c, zAnd(Z3_mk_fpa_is_infinite(Z, f), pos));
    }
    r = fromBool(zSimp(c));
    return true;
  }
  default:
    break;
  }
  return false;
}

static std::string uniqName(std::string const & n)
{
  int const k = C->name_count[n]++;
  return n + "#" + std::to_string(k);
}
static void addAssign(Z3_ast v, Z3_ast val)
{
  unsigned const ix = g_varix[v];
  if (C->assign.size() <= ix) {
    C->assign.resize(ix + 1, nullptr);
  }
  C->assign[ix] = val;
}

static void freeObj(uint64_t p, int how)
{
  if (p == 0) {
    return;
  }
  auto it = C->mem.find(p);
  if (it == C->mem.end()) {
    memErr("free of a pointer that is not the start of an allocation");
  }
  Obj * o = it->second.p;
  if (o->kind != O_HEAP) {
    memErr("free of non-heap memory");
  }
  if (!o->alive) {
    memErr("double free");
  }
  if (o->how != how) {
    memErr("allocation and deallocation functions do not match");
  }
  Obj * w = writable(p, 0);
  w->alive = false;
  w->bytes.clear();
  w->tag.clear();
  w->cells.clear();
}
static uint64_t heapAlloc(uint64_t n, int how)
{
  if (n > (1ULL << 28)) {
    violation("memory", "allocation of an absurd size", nullptr);
    throw PathEnd{};
  }
  uint64_t const p = allocObj(n, O_HEAP, "");
  C->mem[p].p->how = static_cast<uint8_t>(how);
  return p;
}
static void doExit(std::string const & what)
{
  if (C->allow_exit) {
    ++S.exits_ok;
    ++S.paths;
    witness();
    throw PathEnd{};
  }
  violation("exit", what, nullptr);
  throw PathEnd{};
}

static bool isMath1(StringRef n, std::string & base, unsigned & w)
{
  static std::set<std::string> const s = {"sin", "cos", "tan", "atan", "asin", "acos", "exp",
                                          "log", "cbrt", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp2", "log2", "log10", "expm1", "log1p"};
  std::string nm = n.str();
  w = 64;
  if (s.count(nm) != 0) {
    base = nm;
    return true;
  }
  if (!nm.empty() && nm.back() == 'f') {
    nm.pop_back();
    if (s.count(nm) != 0) {
      base = nm;
      w = 32;
      return true;
    }
  }
  return false;
}

// symbolic decimal digits of a bit-vector; forks over the digit count. Returns bytes.
static std::vector<Val> decDigits(Val v, bool sgn)
{
  std::vector<Val> out;
  unsigned const w = v.w;
  bool neg = false;
  if (sgn) {
    neg = decide(boolOf(icmp(CmpInst::ICMP_SLT, v, mkInt(w, 0))));
    if (neg) {
      v = intBin(Instruction::Sub, mkInt(w, 0), v, w);
    }
  }
  int nd = 1;
  uint64_t p10 = 10;
  while (nd < (w == 32 ? 10 : 19)) {
    if (decide(boolOf(icmp(CmpInst::ICMP_ULT, v, mkInt(w, p10))))) {
      break;
    }
    ++nd;
    p10 *= 10;
  }
  if (neg) {
    out.push_back(mkInt(8, '-'));
  }
  uint64_t d = 1;
  for (int i = 1; i < nd; ++i) {
    d *= 10;
  }
  for (int i = 0; i < nd; ++i) {
    Val const q = intBin(Instruction::URem, intBin(Instruction::UDiv, v, mkInt(w, d), w), mkInt(w, 10), w);
    out.push_back(intBin(Instruction::Add, truncTo(q, 8), mkInt(8, '0'), 8));
    d /= 10;
  }
  return out;
}

static int64_t snprintfModel(uint64_t buf, uint64_t size, std::string const & fmt,
                             std::vector<Val> const & a, size_t ai)
{
  std::vector<Val> out;
  for (size_t i = 0; i < fmt.size(); ++i) {
    if (fmt[i] != '%') {
      out.push_back(mkInt(8, static_cast<uint8_t>(fmt[i])));
      continue;
    }
    std::string spec = "%";
    ++i;
    while (i < fmt.size() && strchr("0123456789.-+ #lhzj", fmt[i]) != nullptr) {
      spec += fmt[i++];
    }
    char const cv = fmt[i];
    spec += cv;
    if (cv == '%') {
      out.push_back(mkInt(8, '%'));
      continue;
    }
    Val const v = a[ai++];
    char b[512];
    int n = 0;
    if (cv == 's') {
      std::string const s = readCStr(ptrOf(v, "snprintf %s"));
      for (char const ch : s) {
        out.push_back(mkInt(8, static_cast<uint8_t>(ch)));
      }
      continue;
    }
    if (cv == 'd' || cv == 'i' || cv == 'u' || cv == 'x' || cv == 'c') {
      if (v.k == V_INT) {
        if (v.w == 64) {
          n = snprintf(b, sizeof b, spec.c_str(), v.i);
        } else {
          n = snprintf(b, sizeof b, spec.c_str(), static_cast<uint32_t>(v.i));
        }
      } else if (v.k == V_SYM && (spec == "%d" || spec == "%u" || spec == "%li" || spec == "%i" ||
                                  spec == "%ld" || spec == "%lu" || spec == "%zu")) {
        auto const d = decDigits(v, cv != 'u');
        out.insert(out.end(), d.begin(), d.end());
        continue;
      } else {
        fail("snprintf of a symbolic integer with " + spec);
      }
    } else if (cv == 'f' || cv == 'e' || cv == 'g') {
      double d = 0;
      if (v.k == V_FPC) {
        d = v.d;
      } else if (realIsConst(v) || (v.k == V_REAL && v.sp != 0)) {
        d = realToDouble(v);
      } else if (spec == "%f") {
        // contract: [-] digits . 6 digits, the number of integer digits follows the magnitude
        Val const zero = g_real ? mkReal(PX.zero) : mkFPC(64, 0);
        if (!g_real) {
          if (decide(Z3_mk_fpa_is_nan(Z, v.a))) {
            for (char const ch : {'n', 'a', 'n'}) {
              out.push_back(mkInt(8, static_cast<uint8_t>(ch)));
            }
            continue;
          }
        }
        bool const neg = decide(fltCmp(v, zero, 1));
        Val const m = neg ? fltNeg(v) : v;
        if (!g_real && decide(Z3_mk_fpa_is_infinite(Z, fpOf(m)))) {
          if (neg) {
            out.push_back(mkInt(8, '-'));
          }
          for (char const ch : {'i', 'n', 'f'}) {
            out.push_back(mkInt(8, static_cast<uint8_t>(ch)));
          }
          continue;
        }
        int nd = 1;
        mpz_class p10 = 10;
        while (nd < 309) {
          // the smallest double that is not below 10^nd
          double p = mpz_get_d(p10.get_mpz_t());
          while (mpq_class(p) < mpq_class(p10)) {
            p = std::nextafter(p, HUGE_VAL);
          }
          Val const pv = g_real ? mkReal(PX.constant(mpq_class(p))) : mkFPC(64, p);
          if (decide(fltCmp(m, pv, 1))) {
            break;
          }
          ++nd;
          p10 *= 10;
        }
        if (neg) {
          out.push_back(mkInt(8, '-'));
        }
        // the same value has the same digits, whoever asks
        auto & memo = C->fdigits[{v.k == V_REAL ? static_cast<void const *>(v.n) : static_cast<void const *>(v.a),
                                  static_cast<void const *>(v.den)}];
        if (memo.size() == static_cast<size_t>(nd) + 7) {
          out.insert(out.end(), memo.begin(), memo.end());
          continue;
        }
        size_t const start = out.size();
        for (int k = 0; k < nd + 7; ++k) {
          if (k == nd) {
            out.push_back(mkInt(8, '.'));
          } else {
            Z3_ast const d8 = newVar("fdig!" + std::to_string(C->undef_ctr++), Z3_mk_bv_sort(Z, 8));
            C->pc.push_back(Z3_mk_bvuge(Z, d8, zBV(8, '0')));
            C->pc.push_back(Z3_mk_bvule(Z, d8, zBV(8, '9')));
            addAssign(d8, zBV(8, '0'));
            out.push_back(mkSym(8, d8));
          }
        }
        memo.assign(out.begin() + static_cast<std::ptrdiff_t>(start), out.end());
        C->printed.emplace_back(out[start].a, m, nd + 7);
        continue;
      } else {
        fail("snprintf of a symbolic floating point value with " + spec);
      }
      n = snprintf(b, sizeof b, spec.c_str(), d);
    } else {
      fail("snprintf conversion " + spec);
    }
    for (int k = 0; k < n; ++k) {
      out.push_back(mkInt(8, static_cast<uint8_t>(b[k])));
    }
  }
  if (size > 0) {
    size_t const m = std::min<size_t>(out.size(), size - 1);
    for (size_t k = 0; k < m; ++k) {
      storeScalar(buf + k, out[k], 1);
    }
    storeScalar(buf + m, mkInt(8, 0), 1);
  }
  return static_cast<int64_t>(out.size());
}

static bool g_ended_ok = false;

// external (body-less) functions
static bool external(CallBase const & cb, Function const * f, std::vector<Val> & a, Val & r)
{
  StringRef const n = f->getName();
  unsigned w = 64;
  std::string base;
  if (n.starts_with("vx_")) {
    if (n == "vx_int" || n == "vx_i64" || n == "vx_u64" || n == "vx_u32") {
      bool const sgn = n == "vx_int" || n == "vx_i64";
      unsigned const bw = (n == "vx_int" || n == "vx_u32") ? 32 : 64;
      std::string const nm = uniqName(readCStr(a[0].i));
      Z3_ast const v = newVar(nm, Z3_mk_bv_sort(Z, bw));
      Val const lo = a[1];
      Val const hi = a[2];
      if (lo.k != V_INT || hi.k != V_INT) {
        fail("bounds of an input must be concrete");
      }
      if (lo.i == hi.i) {
        C->inputs.push_back({nm, 'c', bw, sgn, nullptr,
                             sgn ? APInt(bw, lo.i).getSExtValue() : static_cast<int64_t>(lo.i)});
        r = lo;
        return true;
      }
      C->inputs.push_back({nm, 'i', bw, sgn, v, 0});
      if (sgn) {
        C->pc.push_back(Z3_mk_bvsge(Z, v, bvOf(lo)));
        C->pc.push_back(Z3_mk_bvsle(Z, v, bvOf(hi)));
      } else {
        C->pc.push_back(Z3_mk_bvuge(Z, v, bvOf(lo)));
        C->pc.push_back(Z3_mk_bvule(Z, v, bvOf(hi)));
      }
      uint64_t span = 0;
      span = hi.i - lo.i;
      uint64_t off = 0;
      if (span > 0) {
        off = (static_cast<uint64_t>(g_seed) * 7919U + C->inputs.size() * 104729U) % (span == ~0ULL ? span : span + 1);
      }
      addAssign(v, zBV(bw, bw == 32 ? ((lo.i + off) & 0xffffffffULL) : lo.i + off));
      r = mkSym(bw, v);
      return true;
    }
    if (n == "vx_real") {
      std::string const nm = uniqName(readCStr(a[0].i));
      if (g_real) {
        mpq_class const lo = realConst(a[1]);
        mpq_class const hi = realConst(a[2]);
        Z3_ast const v = newVar(nm + "[" + lo.get_str() + "," + hi.get_str() + "]", PX.real);
        C->inputs.push_back({nm, 'r', 64, true, v, 0});
        // bounds travel with the variable and are added to every query that mentions it
        auto & vd = g_vars[g_varix[v]];
        if (vd.defs.empty()) {
          vd.defs.push_back(Z3_mk_ge(Z, v, PX.numeral(lo)));
          vd.defs.push_back(Z3_mk_le(Z, v, PX.numeral(hi)));
        }
        // spread initial values
        mpq_class const frac(static_cast<long>((g_seed * 37 + C->inputs.size() * 61) % 97 + 1), 99);
        mpq_class iv = lo + (hi - lo) * frac;
        iv = roundBits(iv, 6);
        if (iv < lo || iv > hi) {
          iv = lo;
        }
        addAssign(v, PX.numeral(iv));
        r = mkReal(PX.atom(v));
      } else {
        Z3_ast const v = newVar(nm, fpSort(64));
        C->inputs.push_back({nm, 'f', 64, true, v, 0});
        C->pc.push_back(Z3_mk_fpa_geq(Z, v, fpOf(a[1])));
        C->pc.push_back(Z3_mk_fpa_leq(Z, v, fpOf(a[2])));
        addAssign(v, fpOf(a[1]));
        r = mkFPS(64, v);
      }
      return true;
    }
    if (n == "vx_fp" || n == "vx_fp32") {
      unsigned const bw = n == "vx_fp" ? 64 : 32;
      std::string const nm = uniqName(readCStr(a[0].i));
      if (g_real) {
        fail("vx_fp needs mode=fp");
      }
      Z3_ast const v = newVar(nm, fpSort(bw));
      C->inputs.push_back({nm, bw == 64 ? 'f' : 'g', bw, true, v, 0});
      addAssign(v, fpOf(mkFPC(bw, 1.5)));
      r = mkFPS(bw, v);
      return true;
    }
    if (n == "vx_choice") {
      // concrete choice 0..k-1: fork without the solver
      auto const k = static_cast<int>(a[1].i);
      std::string const nm0 = readCStr(a[0].i);
      int pick = 0;
      if (!C->choices_forced.empty()) {
        pick = C->choices_forced.back();
        C->choices_forced.pop_back();
      } else {
        for (int c = k - 1; c >= 1; --c) {
          auto o = cloneState(*C);
          o->choices_forced.push_back(c);
          g_work.push_back(std::move(o));
        }
      }
      std::string const nm = uniqName(nm0);
      C->inputs.push_back({nm, 'c', 32, true, nullptr, pick});
      r = mkInt(32, static_cast<uint64_t>(pick));
      return true;
    }
    if (n == "vx_concrete") {
      r = mkInt(32, concretize(a[0], "vx_concrete"));
      return true;
    }
    if (n == "vx_assume") {
      Val v = a[0];
      if (v.k == V_UNDEF) {
        v = materialize(v, Type::getInt1Ty(M->getContext()));
      }
      assume(boolOf(v));
      return true;
    }
    if (n == "vx_assert") {
      assertCond(a[0], readCStr(a[1].i));
      return true;
    }
    if (n == "vx_near" || n == "vx_le") {
      double tol = 0;
      if (a[2].k == V_FPC) {
        tol = a[2].d;
      } else {
        tol = realToDouble(a[2]);
      }
      assertDiff(a[0], a[1], tol, readCStr(a[3].i), n == "vx_le");
      return true;
    }
    if (n == "vx_reach") {
      ++g_reached[readCStr(a[0].i)];
      ++g_label_ok[readCStr(a[0].i)];
      return true;
    }
    if (n == "vx_obs_i" || n == "vx_obs_f") {
      C->obs.push_back({readCStr(a[0].i), a[1], n == "vx_obs_f"});
      return true;
    }
    if (n == "vx_printed") {
      // the unsigned number printed at an address, and its length
      uint64_t const p = ptrOf(a[0], "vx_printed");
      Val const c = loadScalar(p, 1);
      int len = 0;
      if (c.k == V_SYM) {
        for (auto const & [digit, value, length] : C->printed) {
          if (digit == c.a) {
            r = value;
            len = length;
          }
        }
        if (len == 0) {
          fail("vx_printed of something else");
        }
      } else {
        std::string t;
        for (Val d = c; d.k == V_INT && (isdigit(static_cast<int>(d.i)) != 0 || d.i == '.'); d = loadScalar(p + t.size(), 1)) {
          t += static_cast<char>(d.i);
        }
        len = static_cast<int>(t.size());
        double const d = strtod(t.c_str(), nullptr);
        r = g_real ? mkReal(PX.constant(mpq_class(d))) : mkFPC(64, d);
      }
      storeScalar(ptrOf(a[1], "vx_printed"), mkInt(32, static_cast<uint64_t>(len)), 4);
      return true;
    }
    if (n == "vx_known") {
      r = mkInt(32, a[0].k == V_INT ? 1 : 0);
      return true;
    }
    if (n == "vx_tier") {
      r = mkInt(32, static_cast<uint64_t>(g_tier));
      return true;
    }
    if (n == "vx_live") {
      uint64_t s = 0;
      for (auto const & [b, o] : C->mem) {
        if (o.p->kind == O_HEAP && o.p->alive) {
          s += o.p->size;
        }
      }
      r = mkInt(64, s);
      return true;
    }
    if (n == "vx_allow_exit") {
      C->allow_exit = a[0].i != 0;
      return true;
    }
    if (n == "vx_is_const") {
      r = mkInt(1, (a[0].k == V_INT || realIsConst(a[0]) || a[0].k == V_FPC) ? 1 : 0);
      return true;
    }
    if (n == "vx_end") {
      throw EngineError{"vx_end"};
    }
    fail("unknown harness primitive " + n.str());
  }
  if (isMath1(n, base, w)) {
    r = fltUnary(base, a[0]);
    r.w = static_cast<uint16_t>(w);
    return true;
  }
  if (n == "sqrt" || n == "sqrtf") {
    r = fltSqrt(a[0]);
    return true;
  }
  if (n == "fabs" || n == "fabsf") {
    r = fltAbs(a[0]);
    return true;
  }
  if (n == "floor" || n == "floorf") {
    r = fltRound(a[0], 0);
    return true;
  }
  if (n == "ceil" || n == "ceilf") {
    r = fltRound(a[0], 1);
    return true;
  }
  if (n == "trunc" || n == "truncf") {
    r = fltRound(a[0], 2);
    return true;
  }
  if (n == "round" || n == "roundf") {
    r = fltRound(a[0], 3);
    return true;
  }
  if (n == "fmax" || n == "fmaxf") {
    r = fltMinMax(a[0], a[1], true);
    return true;
  }
  if (n == "fmin" || n == "fminf") {
    r = fltMinMax(a[0], a[1], false);
    return true;
  }
  if (n == "lround" || n == "llround" || n == "lroundf") {
    r = fltToInt(fltRound(a[0], 3), true, 64);
    return true;
  }
  if (n == "lrint" || n == "llrint") {
    r = fltToInt(fltRound(a[0], 4), true, 64);
    return true;
  }
  if (n == "rint" || n == "nearbyint") {
    r = fltRound(a[0], 4);
    return true;
  }
  if (n == "hypot" && g_real && !(realIsConst(a[0]) && realIsConst(a[1]))) {
    r = fltSqrt(fltBin(Instruction::FAdd, fltBin(Instruction::FMul, a[0], a[0], 64), fltBin(Instruction::FMul, a[1], a[1], 64), 64));
    return true;
  }
  if (n == "pow") {
    r = fltPow(a[0], a[1]);
    return true;
  }
  if (n == "atan2" || n == "hypot" || n == "fmod") {
    bool const c0 = a[0].k == V_FPC || realIsConst(a[0]);
    bool const c1 = a[1].k == V_FPC || realIsConst(a[1]);
    if (!c0 || !c1) {
      fail("symbolic " + n.str());
    }
    double const x = a[0].k == V_FPC ? a[0].d : realToDouble(a[0]);
    double const y = a[1].k == V_FPC ? a[1].d : realToDouble(a[1]);
    double const d = n == "atan2" ? std::atan2(x, y) : n == "hypot" ? std::hypot(x, y) : std::fmod(x, y);
    r = g_real ? realFromDouble(d, false) : mkFPC(64, d);
    return true;
  }
  if (n == "malloc") {
    r = mkInt(64, heapAlloc(concretize(a[0], "malloc size"), 0));
    return true;
  }
  if (n == "calloc") {
    uint64_t const sz = concretize(a[0], "calloc") * concretize(a[1], "calloc");
    uint64_t const p = heapAlloc(sz, 0);
    memSet(p, mkInt(8, 0), sz);
    r = mkInt(64, p);
    return true;
  }
  if (n == "realloc") {
    uint64_t const p = ptrOf(a[0], "realloc");
    uint64_t const sz = concretize(a[1], "realloc");
    uint64_t const q = heapAlloc(sz, 0);
    if (p != 0) {
      auto it = C->mem.find(p);
      if (it == C->mem.end() || !it->second.p->alive || it->second.p->kind != O_HEAP) {
        memErr("realloc of an invalid pointer");
      }
      memMove(q, p, std::min(sz, it->second.p->size));
      freeObj(p, 0);
    }
    r = mkInt(64, q);
    return true;
  }
  if (n == "free") {
    freeObj(ptrOf(a[0], "free"), 0);
    return true;
  }
  if (n == "_Znwm" || n == "_ZnwmSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t") {
    r = mkInt(64, heapAlloc(concretize(a[0], "new size"), 1));
    return true;
  }
  if (n == "_Znam" || n == "_ZnamSt11align_val_t" || n == "_ZnamRKSt9nothrow_t") {
    r = mkInt(64, heapAlloc(concretize(a[0], "new[] size"), 2));
    return true;
  }
  if (n.starts_with("_ZdlPv")) {
    freeObj(ptrOf(a[0], "delete"), 1);
    return true;
  }
  if (n.starts_with("_ZdaPv")) {
    freeObj(ptrOf(a[0], "delete[]"), 2);
    return true;
  }
  if (n == "exit" || n == "_exit" || n == "_Exit" || n == "quick_exit") {
    doExit("exit(" + (a[0].k == V_INT ? std::to_string(static_cast<int32_t>(a[0].i)) : std::string("?")) + ") called");
    return true;
  }
  if (n == "abort" || n == "__assert_fail" || n == "_ZSt9terminatev" ||
      n.starts_with("_ZSt") || n == "__cxa_pure_virtual" || n == "__stack_chk_fail") {
    if (n.starts_with("_ZSt") && !n.contains("throw") && n != "_ZSt9terminatev") {
      fail("external function " + n.str());
    }
    violation("abort", n.str() + " called", nullptr);
    throw PathEnd{};
  }
  if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fputs" ||
      n == "fputc" || n == "fflush" || n == "fwrite" || n == "perror" || n == "vprintf" ||
      n == "__printf_chk" || n == "__fprintf_chk" || n == "setvbuf") {
    r = mkInt(cb.getType()->isIntegerTy() ? cb.getType()->getIntegerBitWidth() : 64, 1);
    return true;
  }
  if (n == "vsnprintf") {
    auto const it = C->valists.find(ptrOf(a[3], "vsnprintf"));
    if (it == C->valists.end()) {
      fail("vsnprintf with an unknown argument list");
    }
    int64_t const k = snprintfModel(ptrOf(a[0], "vsnprintf"), concretize(a[1], "vsnprintf size"), readCStr(ptrOf(a[2], "vsnprintf format")), it->second, 0);
    r = mkInt(32, static_cast<uint64_t>(k));
    return true;
  }
  if (n == "snprintf" || n == "sprintf") {
    bool const sn = n == "snprintf";
    uint64_t const sz = sn ? concretize(a[1], "snprintf size") : (1U << 20);
    size_t const fi = sn ? 2 : 1;
    std::string const fmt = readCStr(ptrOf(a[fi], "snprintf format"));
    int64_t const k = snprintfModel(ptrOf(a[0], "snprintf"), sz, fmt, a, fi + 1);
    r = mkInt(32, static_cast<uint64_t>(k));
    return true;
  }
  if (n == "memcpy" || n == "memmove") {
    uint64_t const k = concretize(a[2], "memcpy");
    memMove(ptrOf(a[0], "memcpy"), ptrOf(a[1], "memcpy"), k);
    r = a[0];
    return true;
  }
  if (n == "memset") {
    uint64_t const k = concretize(a[2], "memset");
    memSet(ptrOf(a[0], "memset"), truncTo(a[1], 8), k);
    r = a[0];
    return true;
  }
  if (n == "__cxa_atexit" || n == "atexit" || n == "__cxa_finalize" || n == "__cxa_thread_atexit") {
    r = mkInt(32, 0);
    return true;
  }
  if (n == "__cxa_guard_acquire") {
    Val const g = loadScalar(a[0].i, 1);
    r = mkInt(32, g.k == V_INT && g.i != 0 ? 0 : 1);
    return true;
  }
  if (n == "__cxa_guard_release") {
    storeScalar(a[0].i, mkInt(8, 1), 1);
    return true;
  }
  if (n == "__cxa_guard_abort") {
    return true;
  }
  if (n == "omp_get_max_threads" || n == "omp_get_num_threads") {
    r = mkInt(32, 1);
    return true;
  }
  if (n == "omp_get_thread_num") {
    r = mkInt(32, 0);
    return true;
  }
  if (n == "clock_gettime") {
    // environment stub: a fixed instant
    memSet(ptrOf(a[1], "clock_gettime"), mkInt(8, 0), 16);
    r = mkInt(32, 0);
    return true;
  }
  if (n == "_ZNSt6chrono3_V212system_clock3nowEv" || n == "_ZNSt6chrono3_V212steady_clock3nowEv") {
    // environment stub: an arbitrary non-negative number of nanoseconds, monotone is not needed
    r = mkInt(64, 1000000000ULL);
    return true;
  }
  return false;
}

static void pushCall(CallBase const * cb, Function const * f, std::vector<Val> const & args)
{
  if (C->fr.size() > 400) {
    violation("stack", "call depth over 400 frames", nullptr);
    throw PathEnd{};
  }
  g_funcs.insert(f);
  Frame nf;
  nf.f = f;
  nf.fi = finfo(f);
  nf.bb = &f->getEntryBlock();
  nf.it = nf.bb->begin();
  nf.call = cb;
  nf.regs.resize(nf.fi->n);
  unsigned i = 0;
  for (auto const & arg : f->args()) {
    Val v = args[i];
    if (arg.hasByValAttr()) {
      Type * bt = arg.getParamByValType();
      uint64_t const sz = DLp->getTypeAllocSize(bt).getFixedValue();
      uint64_t const p = allocObj(sz, O_STACK, "byval", 32);
      memMove(p, ptrOf(v, "byval"), sz);
      nf.allocas.push_back(p);
      v = mkInt(64, p);
    }
    nf.regs[nf.fi->num[&arg]] = v;
    ++i;
  }
  nf.varargs.assign(args.begin() + i, args.end());
  C->fr.push_back(std::move(nf));
}

static void killFrame(Frame & f)
{
  for (uint64_t const p : f.allocas) {
    C->mem.erase(p);
  }
}

static void branchTo(BasicBlock const * bb)
{
  Frame & f = C->fr.back();
  f.prev = f.bb;
  f.bb = bb;
  f.it = bb->begin();
  // phis in parallel
  std::vector<std::pair<unsigned, Val>> up;
  while (auto * ph = dyn_cast<PHINode>(&*f.it)) {
    up.emplace_back(f.fi->num.find(ph)->second, V(ph->getIncomingValueForBlock(f.prev)));
    ++f.it;
  }
  for (auto & [k, v] : up) {
    f.regs[k] = v;
  }
}

static void doCall(CallBase const & cb)
{
  Frame & fr = C->fr.back();
  Function const * f = cb.getCalledFunction();
  if (f == nullptr) {
    if (cb.isInlineAsm()) {
      ++fr.it;
      return;
    }
    Val const fp = V(cb.getCalledOperand());
    uint64_t const addr = ptrOf(fp, "indirect call");
    auto it = g_faddr.find(addr);
    if (it == g_faddr.end()) {
      memErr("call through an invalid function pointer");
    }
    f = it->second;
  }
  std::vector<Val> args;
  args.reserve(cb.arg_size());
  for (auto const & u : cb.args()) {
    args.push_back(V(u.get()));
  }
  Val r;
  if (f->isIntrinsic()) {
    if (!intrinsic(cb, f, args, r)) {
      fail("intrinsic " + f->getName().str());
    }
  } else if (f->isDeclaration()) {
    if (!external(cb, f, args, r)) {
      fail("external function " + f->getName().str());
    }
  } else if (f->getName() == "_ZN3um212failedAssertEPKcS1_i" ||
             f->getName().contains("failedAssert")) {
    std::string msg;
    for (auto const & v : args) {
      if (v.k == V_INT && v.w == 64 && v.i > 0xffff) {
        msg += readCStr(v.i) + " ";
      } else if (v.k == V_INT) {
        msg += std::to_string(v.i) + " ";
      }
    }
    if (C->allow_exit) {
      doExit("assert");
    }
    violation("libassert", msg, nullptr);
    throw PathEnd{};
  } else {
    ++fr.it;
    pushCall(&cb, f, args);
    return;
  }
  if (!cb.getType()->isVoidTy()) {
    setReg(cb, r);
  }
  if (auto * iv = dyn_cast<InvokeInst>(&cb)) {
    branchTo(iv->getNormalDest());
  } else {
    ++C->fr.back().it;
  }
}

static Val gepVal(GEPOperator const & g, std::function<Val(Value const *)> const & get)
{
  DataLayout const & DL = *DLp;
  Val p = get(g.getPointerOperand());
  if (p.k == V_AGG) {
    fail("vector GEP");
  }
  int64_t off = 0;
  Val symoff;
  bool hs = false;
  for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
    Value const * op = gi.getOperand();
    if (StructType * st = gi.getStructTypeOrNull()) {
      auto const ix = static_cast<unsigned>(cast<ConstantInt>(op)->getZExtValue());
      off += static_cast<int64_t>(DL.getStructLayout(st)->getElementOffset(ix).getFixedValue());
      continue;
    }
    auto const es = static_cast<int64_t>(DL.getTypeAllocSize(gi.getIndexedType()).getFixedValue());
    Val iv = get(op);
    if (iv.k == V_INT) {
      off += APInt(iv.w, iv.i).getSExtValue() * es;
    } else if (iv.k == V_UNDEF) {
      return mkUndef(64);
    } else {
      iv = iv.w == 64 ? iv : iv.w < 64 ? sextTo(iv, 64) : truncTo(iv, 64);
      Val const m = intBin(Instruction::Mul, iv, mkInt(64, static_cast<uint64_t>(es)), 64);
      symoff = hs ? intBin(Instruction::Add, symoff, m, 64) : m;
      hs = true;
    }
  }
  if (p.k == V_UNDEF) {
    return p;
  }
  Val r = intBin(Instruction::Add, p, mkInt(64, static_cast<uint64_t>(off)), 64);
  if (hs) {
    r = intBin(Instruction::Add, r, symoff, 64);
  }
  return r;
}

static void step()
{
  Frame & f = C->fr.back();
  Instruction const & in = *f.it;
  ++S.insts;
  ++C->insts;
  unsigned const op = in.getOpcode();
  Type * t = in.getType();
  switch (op) {
  case Instruction::Ret: {
    Val rv;
    if (in.getNumOperands() > 0) {
      rv = V(in.getOperand(0));
    }
    killFrame(f);
    CallBase const * call = f.call;
    C->fr.pop_back();
    if (C->fr.empty()) {
      g_ended_ok = true;
      throw PathEnd{};
    }
    if (call != nullptr && !call->getType()->isVoidTy()) {
      setReg(*call, rv);
    }
    if (call != nullptr && isa<InvokeInst>(call)) {
      branchTo(cast<InvokeInst>(call)->getNormalDest());
    }
    return;
  }
  case Instruction::Br: {
    auto const & br = cast<BranchInst>(in);
    if (br.isUnconditional()) {
      branchTo(br.getSuccessor(0));
      return;
    }
    Val c = V(br.getCondition());
    if (c.k == V_UNDEF) {
      c = materialize(c, Type::getInt1Ty(M->getContext()));
      // keep the materialised value so that a re-execution sees the same symbol
      if (auto * ci = dyn_cast<Instruction>(br.getCondition())) {
        setReg(*ci, c);
      }
    }
    bool const b = c.k == V_INT ? c.i != 0 : decide(boolOf(c));
    branchTo(br.getSuccessor(b ? 0 : 1));
    return;
  }
  case Instruction::Switch: {
    auto const & sw = cast<SwitchInst>(in);
    Val c = V(sw.getCondition());
    if (c.k == V_UNDEF) {
      c = materialize(c, sw.getCondition()->getType());
      if (auto * ci = dyn_cast<Instruction>(sw.getCondition())) {
        setReg(*ci, c);
      }
    }
    if (c.k == V_INT) {
      for (auto const & cs : sw.cases()) {
        if (cs.getCaseValue()->getZExtValue() == c.i) {
          branchTo(cs.getCaseSuccessor());
          return;
        }
      }
      branchTo(sw.getDefaultDest());
      return;
    }
    for (auto const & cs : sw.cases()) {
      if (decide(boolOf(icmp(CmpInst::ICMP_EQ, c, mkAP(cs.getCaseValue()->getValue()))))) {
        branchTo(cs.getCaseSuccessor());
        return;
      }
    }
    branchTo(sw.getDefaultDest());
    return;
  }
  case Instruction::Unreachable:
    violation("unreachable", "unreachable code reached", nullptr);
    throw PathEnd{};
  case Instruction::Call:
  case Instruction::Invoke: {
    doCall(cast<CallBase>(in));
    return;
  }
  case Instruction::Alloca: {
    auto const & al = cast<AllocaInst>(in);
    uint64_t n = 1;
    if (al.isArrayAllocation()) {
      n = concretize(V(al.getArraySize()), "alloca size");
    }
    uint64_t const sz = DLp->getTypeAllocSize(al.getAllocatedType()).getFixedValue() * n;
    uint64_t const p = allocObj(sz, O_STACK, al.getName().str(), al.getAlign().value());
    f.allocas.push_back(p);
    setReg(in, mkInt(64, p));
    break;
  }
  case Instruction::Load: {
    auto const & ld = cast<LoadInst>(in);
    uint64_t const p = ptrOf(V(ld.getPointerOperand()), "load address");
    setReg(in, loadT(p, t));
    break;
  }
  case Instruction::Store: {
    auto const & stI = cast<StoreInst>(in);
    uint64_t const p = ptrOf(V(stI.getPointerOperand()), "store address");
    storeT(p, V(stI.getValueOperand()), stI.getValueOperand()->getType());
    break;
  }
  case Instruction::GetElementPtr:
    setReg(in, gepVal(cast<GEPOperator>(in), [](Value const * v) { return V(v); }));
    break;
  case Instruction::Add:
  case Instruction::Sub:
  case Instruction::Mul:
  case Instruction::UDiv:
  case Instruction::SDiv:
  case Instruction::URem:
  case Instruction::SRem:
  case Instruction::Shl:
  case Instruction::LShr:
  case Instruction::AShr:
  case Instruction::And:
  case Instruction::Or:
  case Instruction::Xor: {
    unsigned const w = t->getScalarType()->getIntegerBitWidth();
    Val const x = V(in.getOperand(0));
    Val const y = V(in.getOperand(1));
    if (isPacked(x) || isPacked(y)) {
      setReg(in, packedBin(op, x, y, w));
      break;
    }
    setReg(in, lanes2(x, y, [&](Val const & a, Val const & b) { return intBin(op, a, b, w); }));
    break;
  }
  case Instruction::FAdd:
  case Instruction::FSub:
  case Instruction::FMul:
  case Instruction::FDiv:
  case Instruction::FRem: {
    unsigned const w = t->getScalarType()->isFloatTy() ? 32 : 64;
    setReg(in, lanes2(V(in.getOperand(0)), V(in.getOperand(1)),
                      [&](Val const & a, Val const & b) { return fltBin(op, a, b, w); }));
    break;
  }
  case Instruction::FNeg:
    setReg(in, lanes(V(in.getOperand(0)), fltNeg));
    break;
  case Instruction::ICmp: {
    auto const p = cast<ICmpInst>(in).getPredicate();
    setReg(in, lanes2(V(in.getOperand(0)), V(in.getOperand(1)), [&](Val const & a, Val const & b) {
             // the sign bit of a real: reals have no negative zero
             if (symReal(a) && isConc(b) && p == CmpInst::ICMP_SLT && toAP(b).isZero()) {
               return fcmp(CmpInst::FCMP_OLT, a, realFromDouble(0, false));
             }
             if (symReal(a) && isConc(b) && p == CmpInst::ICMP_SGT && toAP(b).isAllOnes()) {
               return fcmp(CmpInst::FCMP_OGE, a, realFromDouble(0, false));
             }
             return icmp(p, a, b);
           }));
    break;
  }
  case Instruction::FCmp: {
    auto const p = cast<FCmpInst>(in).getPredicate();
    setReg(in, lanes2(V(in.getOperand(0)), V(in.getOperand(1)),
                      [&](Val const & a, Val const & b) { return fcmp(p, a, b); }));
    break;
  }
  case Instruction::Select: {
    Val const c = V(in.getOperand(0));
    Val const a = V(in.getOperand(1));
    Val const b = V(in.getOperand(2));
    if (c.k == V_AGG) {
      Agg r;
      for (size_t i = 0; i < c.agg->size(); ++i) {
        r.push_back(selectVal((*c.agg)[i], (*a.agg)[i], (*b.agg)[i], t->getScalarType()));
      }
      setReg(in, mkAgg(std::move(r)));
    } else {
      setReg(in, selectVal(c, a, b, t));
    }
    break;
  }
  case Instruction::ZExt: {
    unsigned const w = t->getScalarType()->getIntegerBitWidth();
    setReg(in, lanes(V(in.getOperand(0)), [&](Val const & a) { return zextTo(a, w); }));
    break;
  }
  case Instruction::SExt: {
    unsigned const w = t->getScalarType()->getIntegerBitWidth();
    setReg(in, lanes(V(in.getOperand(0)), [&](Val const & a) { return sextTo(a, w); }));
    break;
  }
  case Instruction::Trunc: {
    unsigned const w = t->getScalarType()->getIntegerBitWidth();
    Val const x = V(in.getOperand(0));
    if (isPacked(x)) {
      setReg(in, packedPart(x, 0, w, w));
      break;
    }
    setReg(in, lanes(x, [&](Val const & a) { return truncTo(a, w); }));
    break;
  }
  case Instruction::PtrToInt: {
    Val const v = V(in.getOperand(0));
    unsigned const w = t->getIntegerBitWidth();
    setReg(in, w == 64 ? v : w < 64 ? truncTo(v, w) : zextTo(v, w));
    break;
  }
  case Instruction::IntToPtr: {
    Val const v = V(in.getOperand(0));
    setReg(in, v.w == 64 ? v : zextTo(v, 64));
    break;
  }
  case Instruction::BitCast: {
    Value const * o = in.getOperand(0);
    Val const v = V(o);
    Type * s = o->getType();
    if (s == t || (s->isPointerTy() && t->isPointerTy())) {
      setReg(in, v);
      break;
    }
    auto const conv = [&](Val const & x, Type * to) -> Val {
      if (to->isFloatTy() || to->isDoubleTy()) {
        return toFloatVal(x, to->isFloatTy() ? 32 : 64);
      }
      return x; // opaque: bits requested only when used as an integer
    };
    bool const sv = s->isVectorTy();
    bool const tv = t->isVectorTy();
    if (!sv && !tv) {
      setReg(in, conv(v, t));
      break;
    }
    // go through memory for shape changes
    uint64_t const sz = DLp->getTypeAllocSize(s).getFixedValue();
    if (s->getScalarType()->isIntegerTy(1) || t->getScalarType()->isIntegerTy(1)) {
      // <N x i1> to iN
      if (sv && !tv) {
        Z3_ast acc = nullptr;
        bool conc = true;
        uint64_t bits = 0;
        for (size_t i = 0; i < v.agg->size(); ++i) {
          Val const & x = (*v.agg)[i];
          conc = conc && x.k == V_INT;
          if (x.k == V_INT) {
            bits |= (x.i & 1U) << i;
          }
        }
        auto const n = static_cast<unsigned>(v.agg->size());
        if (conc) {
          setReg(in, mkInt(n, bits));
        } else {
          for (size_t i = 0; i < v.agg->size(); ++i) {
            Val const x = materialize((*v.agg)[i], Type::getInt1Ty(M->getContext()));
            Z3_ast const b = bvOf(x);
            acc = acc == nullptr ? b : Z3_mk_concat(Z, b, acc);
          }
          setReg(in, fromBV(n, zSimp(acc)));
        }
        break;
      }
      fail("bitcast to i1 vector");
    }
    uint64_t const p = allocObj(sz, O_STACK, "bitcast", 64);
    storeT(p, v, s);
    setReg(in, loadT(p, t));
    C->mem.erase(p);
    break;
  }
  case Instruction::SIToFP:
  case Instruction::UIToFP: {
    unsigned const w = t->getScalarType()->isFloatTy() ? 32 : 64;
    setReg(in, lanes(V(in.getOperand(0)),
                     [&](Val const & a) { return intToFlt(a, op == Instruction::SIToFP, w); }));
    break;
  }
  case Instruction::FPToSI:
  case Instruction::FPToUI: {
    unsigned const w = t->getScalarType()->getIntegerBitWidth();
    setReg(in, lanes(V(in.getOperand(0)),
                     [&](Val const & a) { return fltToInt(a, op == Instruction::FPToSI, w); }));
    break;
  }
  case Instruction::FPExt:
  case Instruction::FPTrunc: {
    unsigned const w = t->getScalarType()->isFloatTy() ? 32 : 64;
    setReg(in, lanes(V(in.getOperand(0)), [&](Val const & a) {
             Val r = a;
             if (a.k == V_FPC) {
               return mkFPC(w, a.d);
             }
             if (a.k == V_FPS) {
               return mkFPS(w, Z3_mk_fpa_to_fp_float(Z, fpRNE(), a.a, fpSort(w)));
             }
             r.w = static_cast<uint16_t>(w);
             return r;
           }));
    break;
  }
  case Instruction::Freeze: {
    Val const v = V(in.getOperand(0));
    if (v.k == V_UNDEF && !t->isPointerTy()) {
      setReg(in, materialize(v, t));
    } else {
      setReg(in, v);
    }
    break;
  }
  case Instruction::ExtractElement: {
    Val const v = V(in.getOperand(0));
    auto const ix = concretize(V(in.getOperand(1)), "extractelement index");
    if (v.k == V_UNDEF) {
      setReg(in, v);
    } else if (ix >= v.agg->size()) {
      setReg(in, mkUndef(64));
    } else {
      setReg(in, (*v.agg)[ix]);
    }
    break;
  }
  case Instruction::InsertElement: {
    Val const v = V(in.getOperand(0));
    auto const ix = concretize(V(in.getOperand(2)), "insertelement index");
    Agg a;
    if (v.k == V_AGG) {
      a = *v.agg;
    } else {
      a.resize(cast<FixedVectorType>(t)->getNumElements());
    }
    if (ix < a.size()) {
      a[ix] = V(in.getOperand(1));
    }
    setReg(in, mkAgg(std::move(a)));
    break;
  }
  case Instruction::ShuffleVector: {
    auto const & sv = cast<ShuffleVectorInst>(in);
    Val const a = V(in.getOperand(0));
    Val const b = V(in.getOperand(1));
    auto const n = static_cast<int>(cast<FixedVectorType>(in.getOperand(0)->getType())->getNumElements());
    Agg r;
    for (int const m : sv.getShuffleMask()) {
      if (m < 0) {
        r.push_back(mkUndef(64));
      } else {
        Val const & s = m < n ? a : b;
        r.push_back(s.k == V_UNDEF ? Val() : (*s.agg)[static_cast<size_t>(m < n ? m : m - n)]);
      }
    }
    setReg(in, mkAgg(std::move(r)));
    break;
  }
  case Instruction::ExtractValue: {
    Val v = V(in.getOperand(0));
    for (unsigned const ix : cast<ExtractValueInst>(in).indices()) {
      v = v.k == V_UNDEF ? Val() : (*v.agg)[ix];
    }
    setReg(in, v);
    break;
  }
  case Instruction::InsertValue: {
    auto const & iv = cast<InsertValueInst>(in);
    std::function<Val(Val const &, Type *, size_t)> ins = [&](Val const & base, Type * bt,
                                                             size_t d) -> Val {
      if (d == iv.getNumIndices()) {
        return V(in.getOperand(1));
      }
      Agg a;
      if (base.k == V_AGG) {
        a = *base.agg;
      } else {
        a.resize(bt->isStructTy() ? bt->getStructNumElements() : bt->getArrayNumElements());
      }
      unsigned const ix = iv.getIndices()[d];
      Type * et = bt->isStructTy() ? bt->getStructElementType(ix) : bt->getArrayElementType();
      a[ix] = ins(a[ix], et, d + 1);
      return mkAgg(std::move(a));
    };
    setReg(in, ins(V(in.getOperand(0)), t, 0));
    break;
  }
  case Instruction::Fence:
    break;
  default:
    fail(std::string("instruction ") + in.getOpcodeName());
  }
  ++f.it;
}

// ------------------------------------------------------------------------------------------------
// Process-level parallelism
// ------------------------------------------------------------------------------------------------
static std::vector<pid_t> g_kids;
static bool g_child = false;
static void finish();

static void maybeSplit()
{
  if (g_work.size() < 2) {
    return;
  }
  int32_t const cur = __atomic_load_n(g_pool, __ATOMIC_RELAXED);
  if (cur >= g_maxprocs) {
    return;
  }
  if (__atomic_add_fetch(g_pool, 1, __ATOMIC_SEQ_CST) > g_maxprocs) {
    __atomic_sub_fetch(g_pool, 1, __ATOMIC_SEQ_CST);
    return;
  }
  pid_t const p = fork();
  if (p < 0) {
    __atomic_sub_fetch(g_pool, 1, __ATOMIC_SEQ_CST);
    return;
  }
  size_t const h = g_work.size() / 2;
  if (p == 0) {
    // child takes the older half (larger subtrees)
    g_child = true;
    hardStop();
    g_kids.clear();
    S = Stats();
    g_reached.clear();
    g_label_ok.clear();
    g_ident.clear();
    g_work.resize(h == 0 ? 1 : h);
    C = nullptr;
    __atomic_add_fetch(&g_sh->procs, 1, __ATOMIC_SEQ_CST);
  } else {
    g_kids.push_back(p);
    g_work.erase(g_work.begin(), g_work.begin() + static_cast<long>(h == 0 ? 1 : h));
  }
}

static void emitStats()
{
  std::string s = "{\"t\":\"stat\"";
  auto const add = [&](char const * k, uint64_t v) {
    s += std::string(",\"") + k + "\":" + std::to_string(v);
  };
  add("paths", S.paths);
  add("forks", S.forks);
  add("insts", S.insts);
  add("queries", S.queries);
  add("sat", S.q_sat);
  add("unsat", S.q_unsat);
  add("unknown", S.q_unknown);
  add("cached", S.q_cached);
  add("by_model", S.q_model);
  add("asserts", S.asserts);
  add("asserts_trivial", S.asserts_trivial);
  add("ident_solver", S.ident_solver);
  add("ident_nf", S.ident_nf);
  add("asserts_solver", S.asserts_solver);
  add("pruned", S.pruned);
  add("memchecks", S.memchecks);
  add("exits_ok", S.exits_ok);
  char b[64];
  snprintf(b, sizeof b, ",\"solver_s\":%.3f", S.solver_s);
  s += b;
  s += ",\"reach\":{";
  bool first = true;
  for (auto const & [l, n] : g_reached) {
    s += (first ? "" : ",") + std::string("\"") + jesc(l) + "\":" + std::to_string(n);
    first = false;
  }
  s += "},\"ok\":{";
  first = true;
  for (auto const & [l, n] : g_label_ok) {
    s += (first ? "" : ",") + std::string("\"") + jesc(l) + "\":" + std::to_string(n);
    first = false;
  }
  s += "},\"funcs\":[";
  first = true;
  std::set<std::string> names;
  for (auto const * f : g_funcs) {
    for (auto const & bb : *f) {
      for (auto const & in : bb) {
        DILocation const * dl = in.getDebugLoc().get();
        while (dl != nullptr) {
          DISubprogram const * sp = dl->getScope()->getSubprogram();
          if (sp != nullptr && sp->getFilename().contains("/repo/")) {
            names.insert(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str());
          }
          dl = dl->getInlinedAt();
        }
      }
    }
  }
  for (auto const & m : names) {
    std::string nm = demangle(m);
    if (nm.size() > 160) {
      nm = nm.substr(0, 157) + "...";
    }
    s += (first ? "" : ",") + std::string("\"") + jesc(nm) + "\"";
    first = false;
  }
  s += "]}";
  emit(s);
}

static void runAll()
{
  auto const timeUp = [] {
    return now() > g_deadline;
  };
  while (!g_work.empty()) {
    if (__atomic_load_n(&g_sh->stop, __ATOMIC_RELAXED) != 0) {
      break;
    }
    if (timeUp()) {
      emit("{\"t\":\"inconclusive\",\"why\":\"time budget exhausted with " +
           std::to_string(g_work.size()) + " states pending\",\"where\":\"\"}");
      __atomic_store_n(&g_sh->stop, 1, __ATOMIC_SEQ_CST);
      break;
    }
    maybeSplit();
    if (g_work.empty()) {
      break;
    }
    std::unique_ptr<State> st = std::move(g_work.back());
    g_work.pop_back();
    C = st.get();
    g_ended_ok = false;
    try {
      int k = 0;
      for (;;) {
        step();
        if (((++k) & 1023) == 0) {
          if (__atomic_load_n(&g_sh->stop, __ATOMIC_RELAXED) != 0) {
            break;
          }
          if (timeUp()) {
            if (C->insts > g_long_inst) {
              // perhaps endless: the native run of these inputs tells
              violation("endless", "a path did not end within the time limit", nullptr);
            }
            g_work.push_back(std::move(st));
            break;
          }
          if (C->insts > g_max_inst) {
            violation("endless", "a path did not end within the instruction limit", nullptr);
            __atomic_store_n(&g_sh->stop, 1, __ATOMIC_SEQ_CST);
            throw PathEnd{};
          }
          if (g_work.size() >= 2 && __atomic_load_n(g_pool, __ATOMIC_RELAXED) < g_maxprocs) {
            g_work.push_back(std::move(st));
            break;
          }
        }
      }
    } catch (PathEnd const &) {
      if (g_ended_ok) {
        ++S.paths;
        flushIdentities();
        witness();
      }
    } catch (EngineError const & e) {
      emit("{\"t\":\"error\",\"msg\":\"" + jesc(e.msg) + "\",\"where\":\"" + jesc(whereAmI()) + "\"}");
      __atomic_store_n(&g_sh->stop, 1, __ATOMIC_SEQ_CST);
    }
  }
}
static void finish()
{
  emitStats();
  if (g_child) {
    __atomic_sub_fetch(g_pool, 1, __ATOMIC_SEQ_CST);
  } else {
    __atomic_sub_fetch(g_pool, 1, __ATOMIC_SEQ_CST);
  }
  for (pid_t const p : g_kids) {
    int stt = 0;
    waitpid(p, &stt, 0);
    if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) {
      emit("{\"t\":\"error\",\"msg\":\"worker died with status " + std::to_string(stt) +
           "\",\"where\":\"\"}");
    }
  }
}

static void initGlobals(State & st)
{
  C = &st;
  uint64_t addr = 0x1000000ULL;
  DataLayout const & DL = *DLp;
  for (auto const & f : *M) {
    g_gaddr[&f] = addr;
    g_faddr[addr] = &f;
    addr += 16;
  }
  addr = 0x10000000ULL;
  for (auto const & g : M->globals()) {
    uint64_t const sz = DL.getTypeAllocSize(g.getValueType()).getFixedValue();
    uint64_t const al = std::max<uint64_t>(16, g.getAlign() ? g.getAlign()->value() : 16);
    addr = (addr + 64 + al - 1) / al * al;
    auto * o = new Obj;
    o->base = addr;
    o->size = sz;
    o->name = g.getName().str();
    o->bytes.assign(sz, 0);
    o->tag.assign(sz, g.hasInitializer() ? 0 : 1);
    st.mem[addr] = ObjRef(o);
    g_gaddr[&g] = addr;
    addr += sz + 64;
  }
  for (auto const & g : M->globals()) {
    if (g.hasInitializer()) {
      uint64_t const p = g_gaddr[&g];
      if (isa<ConstantAggregateZero>(g.getInitializer())) {
        memSet(p, mkInt(8, 0), st.mem[p].p->size);
      } else if (auto * cds = dyn_cast<ConstantDataSequential>(g.getInitializer());
                 cds != nullptr && cds->getElementType()->isIntegerTy()) {
        StringRef const raw = cds->getRawDataValues();
        Obj * o = st.mem[p].p;
        memcpy(o->bytes.data(), raw.data(), raw.size());
        memset(o->tag.data(), 1, raw.size());
      } else {
        storeT(p, evalConst(g.getInitializer()), g.getValueType());
      }
    }
  }
  for (auto const & g : M->globals()) {
    if (g.isConstant() && g.hasInitializer()) {
      uint64_t const p = g_gaddr[&g];
      st.mem[p].p->ro = true;
      g_globmem[p] = st.mem[p];
      st.mem.erase(p);
    }
  }
}

int main(int argc, char ** argv)
{
  std::string bc;
  std::string entry;
  std::string out = "/dev/stdout";
  std::string pool;
  double tlimit = 120;
  for (int i = 1; i < argc; ++i) {
    std::string const a = argv[i];
    auto const nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") {
      entry = nx();
    } else if (a == "--mode") {
      g_real = nx() == "real";
    } else if (a == "--tier") {
      g_tier = std::stoi(nx());
    } else if (a == "--seed") {
      g_seed = std::stoi(nx());
    } else if (a == "--time") {
      tlimit = std::stod(nx());
    } else if (a == "--qto") {
      g_qto = std::stod(nx());
    } else if (a == "--out") {
      out = nx();
    } else if (a == "--pool") {
      pool = nx();
    } else if (a == "--procs") {
      g_maxprocs = std::stoi(nx());
    } else if (a == "--tmp") {
      g_tmp = nx();
    } else if (a == "--witness") {
      g_witness = std::stoi(nx());
    } else if (a == "--maxviol") {
      g_max_viol = std::stoi(nx());
    } else if (a == "--dump") {
      g_dump = strdup(nx().c_str());
    } else {
      bc = a;
    }
  }
  if (g_tmp.empty()) {
    g_tmp = "/tmp";
  }
  g_out = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  g_deadline = now() + tlimit;
  hardStop();
  rlimit rl;
  rl.rlim_cur = rl.rlim_max = 4ULL << 30;
  setrlimit(RLIMIT_AS, &rl);
  g_sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                    MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset(g_sh, 0, sizeof(Shared));
  if (!pool.empty()) {
    int const fd = open(pool.c_str(), O_RDWR | O_CREAT, 0644);
    int const rr = ftruncate(fd, 4096);
    (void)rr;
    g_pool = static_cast<int32_t *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  } else {
    g_pool = static_cast<int32_t *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    *g_pool = 0;
  }
  __atomic_add_fetch(g_pool, 1, __ATOMIC_SEQ_CST);
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(bc, err, ctx);
  if (!mod) {
    emit("{\"t\":\"error\",\"msg\":\"cannot parse IR\",\"where\":\"\"}");
    __atomic_sub_fetch(g_pool, 1, __ATOMIC_SEQ_CST);
    return 3;
  }
  M = mod.get();
  DLp = &M->getDataLayout();
  Z3_global_param_set("memory_max_size", "3500");
  Z3_config const cfg = Z3_mk_config();
  Z = Z3_mk_context(cfg);
  Z3_set_error_handler(Z, z3err);
  zTrue = Z3_mk_true(Z);
  zFalse = Z3_mk_false(Z);
  PX.init(Z);
  Function const * ef = M->getFunction(entry);
  if (ef == nullptr) {
    emit("{\"t\":\"error\",\"msg\":\"no entry " + entry + "\",\"where\":\"\"}");
    __atomic_sub_fetch(g_pool, 1, __ATOMIC_SEQ_CST);
    return 3;
  }
  try {
    auto st = std::make_unique<State>();
    initGlobals(*st);
    C = st.get();
    // static constructors first
    pushCall(nullptr, ef, {});
    if (auto * gc = M->getNamedGlobal("llvm.global_ctors"); gc != nullptr && gc->hasInitializer()) {
      if (auto * ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<uint64_t, Function *>> fs;
        for (auto const & u : ca->operands()) {
          auto * cs = cast<ConstantStruct>(u.get());
          auto const pr = cast<ConstantInt>(cs->getOperand(0))->getZExtValue();
          if (auto * fn = dyn_cast<Function>(cs->getOperand(1))) {
            fs.emplace_back(pr, fn);
          }
        }
        std::stable_sort(fs.begin(), fs.end(), [](auto const & x, auto const & y) { return x.first > y.first; });
        std::reverse(fs.begin(), fs.end());
        std::stable_sort(fs.begin(), fs.end(), [](auto const & x, auto const & y) { return x.first < y.first; });
        for (auto it = fs.rbegin(); it != fs.rend(); ++it) {
          pushCall(nullptr, it->second, {});
        }
      }
    }
    g_work.push_back(std::move(st));
    runAll();
  } catch (EngineError const & e) {
    emit("{\"t\":\"error\",\"msg\":\"" + jesc(e.msg) + "\",\"where\":\"init\"}");
  }
  finish();
  _exit(0);
}
