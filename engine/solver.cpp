#include "solver.hpp"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <set>
#include <stdexcept>
#include <unordered_set>

SolverOptions sopt;
SolverStats sstat;

namespace {
Z3_context C;
bool z3err = false;
std::string z3msg;
void onErr(Z3_context c, Z3_error_code ec) {
  z3err = true;
  z3msg = Z3_get_error_msg(c, ec);
}
struct Unsupported : std::runtime_error {
  using std::runtime_error::runtime_error;
};
Z3_ast R(Z3_ast a) {
  if (z3err || !a) {
    z3err = false;
    throw Unsupported("z3: " + z3msg);
  }
  Z3_inc_ref(C, a);
  return a;
}
Z3_sort bvSort(unsigned w) {
  static std::unordered_map<unsigned, Z3_sort> m;
  auto &s = m[w];
  if (!s) {
    s = Z3_mk_bv_sort(C, w);
    Z3_inc_ref(C, Z3_sort_to_ast(C, s));
  }
  return s;
}
Z3_sort fpSort(unsigned w) {
  static std::unordered_map<unsigned, Z3_sort> m;
  auto &s = m[w];
  if (!s) {
    switch (w) {
    case 16: s = Z3_mk_fpa_sort_half(C); break;
    case 32: s = Z3_mk_fpa_sort_single(C); break;
    case 64: s = Z3_mk_fpa_sort_double(C); break;
    case 128: s = Z3_mk_fpa_sort_quadruple(C); break;
    case 80: s = Z3_mk_fpa_sort(C, 15, 64); break;
    default: throw Unsupported("fp width");
    }
    Z3_inc_ref(C, Z3_sort_to_ast(C, s));
  }
  return s;
}
Z3_ast rne() {
  static Z3_ast r = R(Z3_mk_fpa_rne(C));
  return r;
}
Z3_ast rtz() {
  static Z3_ast r = R(Z3_mk_fpa_rtz(C));
  return r;
}
Z3_ast mkNum(const APInt &v, Z3_sort s) {
  llvm::SmallString<80> str;
  v.toString(str, 10, false);
  return R(Z3_mk_numeral(C, str.c_str(), s));
}
Z3_ast T() { static Z3_ast t = R(Z3_mk_true(C)); return t; }
Z3_ast F() { static Z3_ast t = R(Z3_mk_false(C)); return t; }
Z3_ast And2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return R(Z3_mk_and(C, 2, x)); }
Z3_ast Or2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return R(Z3_mk_or(C, 2, x)); }

// ---------------------------------------------------------------- BV view
std::unordered_map<uint32_t, Z3_ast> bvC, blC, fpC;
Z3_ast bv(E e);
Z3_ast bl(E e);
Z3_ast fp(E e);
bool isCmp(Op o) { return (o >= Op::Eq && o <= Op::Sle) || (o >= Op::FOeq && o <= Op::FUno); }

Z3_ast blRaw(E e) {
  switch (e->op) {
  case Op::Const: return e->isTrue() ? T() : F();
  case Op::Eq:
    if (e->k[0]->width == 1) return R(Z3_mk_eq(C, bl(e->k[0]), bl(e->k[1])));
    return R(Z3_mk_eq(C, bv(e->k[0]), bv(e->k[1])));
  case Op::Ult: return R(Z3_mk_bvult(C, bv(e->k[0]), bv(e->k[1])));
  case Op::Ule: return R(Z3_mk_bvule(C, bv(e->k[0]), bv(e->k[1])));
  case Op::Slt: return R(Z3_mk_bvslt(C, bv(e->k[0]), bv(e->k[1])));
  case Op::Sle: return R(Z3_mk_bvsle(C, bv(e->k[0]), bv(e->k[1])));
  case Op::FOeq: return R(Z3_mk_fpa_eq(C, fp(e->k[0]), fp(e->k[1])));
  case Op::FOlt: return R(Z3_mk_fpa_lt(C, fp(e->k[0]), fp(e->k[1])));
  case Op::FOle: return R(Z3_mk_fpa_leq(C, fp(e->k[0]), fp(e->k[1])));
  case Op::FUno: return Or2(R(Z3_mk_fpa_is_nan(C, fp(e->k[0]))), R(Z3_mk_fpa_is_nan(C, fp(e->k[1]))));
  case Op::And: return And2(bl(e->k[0]), bl(e->k[1]));
  case Op::Or: return Or2(bl(e->k[0]), bl(e->k[1]));
  case Op::Xor:
    if (e->k[1]->isTrue()) return R(Z3_mk_not(C, bl(e->k[0])));
    return R(Z3_mk_xor(C, bl(e->k[0]), bl(e->k[1])));
  case Op::Ite: return R(Z3_mk_ite(C, bl(e->k[0]), bl(e->k[1]), bl(e->k[2])));
  default: return R(Z3_mk_eq(C, bv(e), mkNum(APInt(1, 1), bvSort(1))));
  }
}
Z3_ast bl(E e) {
  auto it = blC.find(e->id);
  if (it != blC.end()) return it->second;
  Z3_ast r = blRaw(e);
  blC[e->id] = r;
  return r;
}
Z3_ast bvRaw(E e) {
  unsigned w = e->width;
  auto k = [&](int i) { return bv(e->k[i]); };
  if (w == 1 && e->op != Op::Const && e->op != Op::Sym && e->op != Op::Extract)
    if (isCmp(e->op) || e->op == Op::And || e->op == Op::Or || e->op == Op::Xor || e->op == Op::Ite)
      return R(Z3_mk_ite(C, bl(e), mkNum(APInt(1, 1), bvSort(1)), mkNum(APInt(1, 0), bvSort(1))));
  switch (e->op) {
  case Op::Const: return mkNum(e->val, bvSort(w));
  case Op::Sym: return R(Z3_mk_const(C, Z3_mk_string_symbol(C, ("s" + std::to_string(e->id)).c_str()), bvSort(w)));
  case Op::Add: return R(Z3_mk_bvadd(C, k(0), k(1)));
  case Op::Sub: return R(Z3_mk_bvsub(C, k(0), k(1)));
  case Op::Mul: return R(Z3_mk_bvmul(C, k(0), k(1)));
  case Op::UDiv: return R(Z3_mk_bvudiv(C, k(0), k(1)));
  case Op::SDiv: return R(Z3_mk_bvsdiv(C, k(0), k(1)));
  case Op::URem: return R(Z3_mk_bvurem(C, k(0), k(1)));
  case Op::SRem: return R(Z3_mk_bvsrem(C, k(0), k(1)));
  case Op::And: return R(Z3_mk_bvand(C, k(0), k(1)));
  case Op::Or: return R(Z3_mk_bvor(C, k(0), k(1)));
  case Op::Xor: return R(Z3_mk_bvxor(C, k(0), k(1)));
  case Op::Shl: return R(Z3_mk_bvshl(C, k(0), k(1)));
  case Op::LShr: return R(Z3_mk_bvlshr(C, k(0), k(1)));
  case Op::AShr: return R(Z3_mk_bvashr(C, k(0), k(1)));
  case Op::Ite: return R(Z3_mk_ite(C, bl(e->k[0]), k(1), k(2)));
  case Op::Concat: return R(Z3_mk_concat(C, k(0), k(1)));
  case Op::Extract: return R(Z3_mk_extract(C, e->lo + w - 1, e->lo, k(0)));
  case Op::ZExt: return R(Z3_mk_zero_ext(C, w - e->k[0]->width, k(0)));
  case Op::SExt: return R(Z3_mk_sign_ext(C, w - e->k[0]->width, k(0)));
  case Op::FToSI: return R(Z3_mk_fpa_to_sbv(C, rtz(), fp(e->k[0]), w));
  case Op::FToUI: return R(Z3_mk_fpa_to_ubv(C, rtz(), fp(e->k[0]), w));
  case Op::FUnk: return R(Z3_mk_const(C, Z3_mk_string_symbol(C, ("u" + std::to_string(e->id)).c_str()), bvSort(w)));
  default:
    if (e->isFloat) {
      if (w == 80) throw Unsupported("x87 bits");
      return R(Z3_mk_fpa_to_ieee_bv(C, fp(e)));
    }
    throw Unsupported("bv op");
  }
}
Z3_ast bv(E e) {
  auto it = bvC.find(e->id);
  if (it != bvC.end()) return it->second;
  Z3_ast r = bvRaw(e);
  bvC[e->id] = r;
  return r;
}
Z3_ast fpRaw(E e) {
  unsigned w = e->width;
  auto k = [&](int i) { return fp(e->k[i]); };
  switch (e->op) {
  case Op::FAdd: return R(Z3_mk_fpa_add(C, rne(), k(0), k(1)));
  case Op::FSub: return R(Z3_mk_fpa_sub(C, rne(), k(0), k(1)));
  case Op::FMul: return R(Z3_mk_fpa_mul(C, rne(), k(0), k(1)));
  case Op::FDiv: return R(Z3_mk_fpa_div(C, rne(), k(0), k(1)));
  case Op::FNeg: return R(Z3_mk_fpa_neg(C, k(0)));
  case Op::FAbs: return R(Z3_mk_fpa_abs(C, k(0)));
  case Op::FSqrt: return R(Z3_mk_fpa_sqrt(C, rne(), k(0)));
  case Op::FFma: return R(Z3_mk_fpa_fma(C, rne(), k(0), k(1), k(2)));
  case Op::FMin: return R(Z3_mk_fpa_min(C, k(0), k(1)));
  case Op::FMax: return R(Z3_mk_fpa_max(C, k(0), k(1)));
  case Op::FFloor: return R(Z3_mk_fpa_round_to_integral(C, R(Z3_mk_fpa_rtn(C)), k(0)));
  case Op::FCeil: return R(Z3_mk_fpa_round_to_integral(C, R(Z3_mk_fpa_rtp(C)), k(0)));
  case Op::FTruncI: return R(Z3_mk_fpa_round_to_integral(C, rtz(), k(0)));
  case Op::FRoundEven: return R(Z3_mk_fpa_round_to_integral(C, rne(), k(0)));
  case Op::FRoundAway: return R(Z3_mk_fpa_round_to_integral(C, R(Z3_mk_fpa_rna(C)), k(0)));
  case Op::SIToF: return R(Z3_mk_fpa_to_fp_signed(C, rne(), bv(e->k[0]), fpSort(w)));
  case Op::UIToF: return R(Z3_mk_fpa_to_fp_unsigned(C, rne(), bv(e->k[0]), fpSort(w)));
  case Op::FExt: case Op::FTrunc: return R(Z3_mk_fpa_to_fp_float(C, rne(), k(0), fpSort(w)));
  case Op::Ite: return R(Z3_mk_ite(C, bl(e->k[0]), k(1), k(2)));
  case Op::FRem: throw Unsupported("frem");
  default:
    if (w == 80) {
      if (e->op == Op::Const) {
        double d = toDouble(e->val, 80);
        return R(Z3_mk_fpa_to_fp_float(C, rne(), R(Z3_mk_fpa_numeral_double(C, d, fpSort(64))), fpSort(80)));
      }
      throw Unsupported("x87 bits");
    }
    return R(Z3_mk_fpa_to_fp_bv(C, bv(e), fpSort(w)));
  }
}
Z3_ast fp(E e) {
  auto it = fpC.find(e->id);
  if (it != fpC.end()) return it->second;
  Z3_ast r = fpRaw(e);
  fpC[e->id] = r;
  return r;
}

// ---------------------------------------------------------------- Int / Real view
const unsigned BW = 400;
struct IV {
  Z3_ast t = nullptr;
  APInt lo{BW, 0}, hi{BW, 0};
};
std::unordered_map<uint32_t, IV> inC;
std::unordered_map<uint32_t, Z3_ast> ibC, rlC;
std::unordered_map<uint32_t, std::vector<Z3_ast>> side; // side constraints introduced by a node
Z3_sort IS() { static Z3_sort s = Z3_mk_int_sort(C); return s; }
Z3_sort RS() { static Z3_sort s = Z3_mk_real_sort(C); return s; }
Z3_ast inum(const APInt &v) {
  llvm::SmallString<120> s;
  v.toStringSigned(s);
  return R(Z3_mk_numeral(C, s.c_str(), IS()));
}
APInt P2(unsigned n) { return APInt(BW, 1).shl(n); }
Z3_ast iadd(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return R(Z3_mk_add(C, 2, x)); }
Z3_ast isub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return R(Z3_mk_sub(C, 2, x)); }
Z3_ast imul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return R(Z3_mk_mul(C, 2, x)); }
Z3_ast idiv(Z3_ast a, const APInt &c) { return R(Z3_mk_div(C, a, inum(c))); }
Z3_ast imod(Z3_ast a, const APInt &c) { return R(Z3_mk_mod(C, a, inum(c))); }
Z3_ast ite(Z3_ast c, Z3_ast a, Z3_ast b) { return R(Z3_mk_ite(C, c, a, b)); }
Z3_ast ilt(Z3_ast a, Z3_ast b) { return R(Z3_mk_lt(C, a, b)); }
Z3_ast ile(Z3_ast a, Z3_ast b) { return R(Z3_mk_le(C, a, b)); }
Z3_ast ineg(Z3_ast a) { return R(Z3_mk_unary_minus(C, a)); }
IV in(E e);
Z3_ast ib(E e);
Z3_ast rl(E e);

// signed interpretation
IV sgn(E e) {
  IV a = in(e);
  APInt half = P2(e->width - 1), full = P2(e->width);
  if (a.hi.slt(half)) return a;
  if (a.lo.sge(half)) {
    IV r;
    r.t = isub(a.t, inum(full));
    r.lo = a.lo - full;
    r.hi = a.hi - full;
    return r;
  }
  // a signed wrap of a possibly negative term: recognise ite(t<0,t+2^w,t)
  IV r;
  r.t = ite(ilt(a.t, inum(half)), a.t, isub(a.t, inum(full)));
  r.lo = -half;
  r.hi = half - 1;
  return r;
}
// wrap a (possibly out of range) integer term to [0,2^w)
IV wrap(Z3_ast t, APInt lo, APInt hi, unsigned w) {
  APInt full = P2(w);
  IV r;
  if (!lo.isNegative() && hi.slt(full)) { r.t = t; r.lo = lo; r.hi = hi; return r; }
  r.lo = APInt(BW, 0);
  r.hi = full - 1;
  if (lo.sge(-full) && hi.slt(full)) { r.t = ite(ilt(t, inum(APInt(BW, 0))), iadd(t, inum(full)), t); return r; }
  if (!lo.isNegative() && hi.slt(full + full)) { r.t = ite(ilt(t, inum(full)), t, isub(t, inum(full))); return r; }
  r.t = imod(t, full);
  return r;
}
IV bits(IV a, unsigned lo, unsigned n, unsigned w) {
  IV r = a;
  if (lo) {
    r.t = idiv(r.t, P2(lo));
    r.lo = r.lo.lshr(lo);
    r.hi = r.hi.lshr(lo);
  }
  if (lo + n < w || r.hi.sge(P2(n))) {
    if (r.hi.sge(P2(n))) {
      r.t = imod(r.t, P2(n));
      r.lo = APInt(BW, 0);
      r.hi = P2(n) - 1;
    }
  }
  return r;
}
IV bitwise(E e) {
  unsigned w = e->width;
  E a = e->k[0], b = e->k[1];
  auto C0 = APInt(BW, 0);
  if (w == 1) {
    IV r;
    r.t = ite(ib(e), inum(APInt(BW, 1)), inum(C0));
    r.lo = C0;
    r.hi = APInt(BW, 1);
    return r;
  }
  if (e->op == Op::And && b->isConst()) {
    IV x = in(a), r;
    r.t = nullptr;
    unsigned i = 0;
    while (i < w) {
      if (!b->val[i]) { i++; continue; }
      unsigned j = i;
      while (j < w && b->val[j]) j++;
      IV p = bits(x, i, j - i, w);
      Z3_ast t = i ? imul(p.t, inum(P2(i))) : p.t;
      r.t = r.t ? iadd(r.t, t) : t;
      i = j;
    }
    r.lo = C0;
    r.hi = b->val.zext(BW);
    return r;
  }
  if (e->op == Op::Xor && b->isConst() && b->val.isAllOnes()) {
    IV x = in(a), r;
    APInt m = P2(w) - 1;
    r.t = isub(inum(m), x.t);
    r.lo = m - x.hi;
    r.hi = m - x.lo;
    return r;
  }
  if (e->op == Op::Xor && b->isConst() && b->val.isSignMask()) {
    IV x = in(a);
    return wrap(iadd(x.t, inum(P2(w - 1))), x.lo + P2(w - 1), x.hi + P2(w - 1), w);
  }
  if ((e->op == Op::Or || e->op == Op::Xor) && (a->kz | b->kz).isAllOnes()) {
    IV x = in(a), y = in(b), r;
    r.t = iadd(x.t, y.t);
    r.lo = x.lo + y.lo;
    r.hi = x.hi + y.hi;
    if (r.hi.sge(P2(w))) r.hi = P2(w) - 1;
    return r;
  }
  // bit by bit
  if (w <= 16 || b->isConst()) {
    IV x = in(a), y = in(b), r;
    Z3_ast sum = nullptr;
    for (unsigned i = 0; i < w; i++) {
      Z3_ast p = R(Z3_mk_eq(C, bits(x, i, 1, w).t, inum(APInt(BW, 1))));
      Z3_ast q = b->isConst() ? (b->val[i] ? T() : F()) : R(Z3_mk_eq(C, bits(y, i, 1, w).t, inum(APInt(BW, 1))));
      Z3_ast o = e->op == Op::And ? And2(p, q) : e->op == Op::Or ? Or2(p, q) : R(Z3_mk_xor(C, p, q));
      Z3_ast t = ite(o, inum(P2(i)), inum(C0));
      sum = sum ? iadd(sum, t) : t;
    }
    r.t = sum;
    r.lo = C0;
    r.hi = P2(w) - 1;
    return r;
  }
  throw Unsupported("int bitwise");
}
IV inRaw(E e) {
  unsigned w = e->width;
  if (w > BW / 2 - 8) throw Unsupported("wide integer");
  IV r;
  APInt Z(BW, 0), full = P2(w);
  r.lo = Z;
  r.hi = full - 1;
  if (w == 1 && (isCmp(e->op) || e->op == Op::And || e->op == Op::Or || e->op == Op::Xor || e->op == Op::Ite)) {
    r.t = ite(ib(e), inum(APInt(BW, 1)), inum(Z));
    return r;
  }
  switch (e->op) {
  case Op::Const:
    r.lo = r.hi = e->val.zext(BW);
    r.t = inum(r.lo);
    return r;
  case Op::Sym:
    if (e->isFloat) throw Unsupported("float bits");
    r.t = R(Z3_mk_const(C, Z3_mk_string_symbol(C, ("i" + std::to_string(e->id)).c_str()), IS()));
    side[e->id] = {ile(inum(Z), r.t), ilt(r.t, inum(full))};
    return r;
  case Op::Add: {
    // treat "negative" constants as subtraction
    IV a = in(e->k[0]);
    if (e->k[1]->isConst() && e->k[1]->val.isNegative()) {
      APInt c = e->k[1]->val.sext(BW);
      return wrap(iadd(a.t, inum(c)), a.lo + c, a.hi + c, w);
    }
    IV b = in(e->k[1]);
    return wrap(iadd(a.t, b.t), a.lo + b.lo, a.hi + b.hi, w);
  }
  case Op::Sub: {
    IV a = in(e->k[0]), b = in(e->k[1]);
    return wrap(isub(a.t, b.t), a.lo - b.hi, a.hi - b.lo, w);
  }
  case Op::Mul: {
    IV a = in(e->k[0]);
    if (e->k[1]->isConst() && e->k[1]->val.isNegative()) {
      APInt c = e->k[1]->val.sext(BW);
      return wrap(imul(a.t, inum(c)), a.hi * c, a.lo * c, w);
    }
    IV b = in(e->k[1]);
    return wrap(imul(a.t, b.t), a.lo * b.lo, a.hi * b.hi, w);
  }
  case Op::UDiv: {
    if (!e->k[1]->isConst() || e->k[1]->val.isZero()) throw Unsupported("int udiv");
    IV a = in(e->k[0]);
    APInt c = e->k[1]->val.zext(BW);
    r.t = idiv(a.t, c);
    r.lo = a.lo.udiv(c);
    r.hi = a.hi.udiv(c);
    return r;
  }
  case Op::URem: {
    if (!e->k[1]->isConst() || e->k[1]->val.isZero()) throw Unsupported("int urem");
    IV a = in(e->k[0]);
    APInt c = e->k[1]->val.zext(BW);
    if (a.hi.slt(c)) return a;
    r.t = imod(a.t, c);
    r.hi = c - 1;
    return r;
  }
  case Op::SDiv: case Op::SRem: {
    if (!e->k[1]->isConst() || e->k[1]->val.isZero()) throw Unsupported("int sdiv");
    IV a = sgn(e->k[0]);
    APInt c = e->k[1]->val.sext(BW), ac = c.abs();
    // truncated quotient by |c|
    Z3_ast q = a.lo.isNegative() ? ite(ile(inum(Z), a.t), idiv(a.t, ac), ineg(idiv(ineg(a.t), ac))) : idiv(a.t, ac);
    APInt qlo = a.lo.sdiv(ac), qhi = a.hi.sdiv(ac);
    if (e->op == Op::SDiv) {
      if (c.isNegative()) { q = ineg(q); std::swap(qlo, qhi); qlo = -qlo; qhi = -qhi; }
      return wrap(q, qlo, qhi, w);
    }
    Z3_ast rem = isub(a.t, imul(q, inum(ac)));
    APInt lo = a.lo.isNegative() ? -(ac - 1) : Z, hi = a.hi.isStrictlyPositive() ? ac - 1 : Z;
    return wrap(rem, lo, hi, w);
  }
  case Op::And: case Op::Or: case Op::Xor: return bitwise(e);
  case Op::Shl: case Op::LShr: case Op::AShr: {
    // symbolic shift amount (constant ones were rewritten): case split
    IV s = in(e->k[1]);
    if (w > 64) throw Unsupported("int shift");
    Z3_ast res = inum(Z);
    E a = e->k[0];
    for (int i = (int)w - 1; i >= 0; i--) {
      if (APInt(BW, i).sgt(s.hi) || APInt(BW, i).slt(s.lo)) continue;
      E c = mkConst(w, i);
      IV v = in(mkBin(e->op, a, c));
      res = ite(R(Z3_mk_eq(C, s.t, inum(APInt(BW, i)))), v.t, res);
    }
    r.t = res;
    return r;
  }
  case Op::Ite: {
    IV a = in(e->k[1]), b = in(e->k[2]);
    r.t = ite(ib(e->k[0]), a.t, b.t);
    r.lo = a.lo.slt(b.lo) ? a.lo : b.lo;
    r.hi = a.hi.sgt(b.hi) ? a.hi : b.hi;
    return r;
  }
  case Op::Concat: {
    IV a = in(e->k[0]), b = in(e->k[1]);
    APInt m = P2(e->k[1]->width);
    r.t = iadd(imul(a.t, inum(m)), b.t);
    r.lo = a.lo * m + b.lo;
    r.hi = a.hi * m + b.hi;
    return r;
  }
  case Op::Extract: return bits(in(e->k[0]), e->lo, w, e->k[0]->width);
  case Op::ZExt: return in(e->k[0]);
  case Op::SExt: {
    IV a = sgn(e->k[0]);
    return wrap(a.t, a.lo, a.hi, w);
  }
  case Op::FToSI: case Op::FToUI: {
    Z3_ast x = rl(e->k[0]);
    Z3_ast zero = R(Z3_mk_real(C, 0, 1));
    Z3_ast t = ite(ile(zero, x), R(Z3_mk_real2int(C, x)), ineg(R(Z3_mk_real2int(C, ineg(x)))));
    FInt fi = fpInterval(e->k[0]);
    if (std::isfinite(fi.lo) && std::isfinite(fi.hi) && fabs(fi.lo) < 1e30 && fabs(fi.hi) < 1e30) {
      auto big = [&](double d) {
        llvm::APSInt s(BW, false);
        bool ex;
        APFloat(d).convertToInteger(s, APFloat::rmTowardZero, &ex);
        return APInt(s);
      };
      return wrap(t, big(fi.lo) - 1, big(fi.hi) + 1, w);
    }
    r.t = imod(t, full);
    return r;
  }
  default: throw Unsupported("int op");
  }
}
IV in(E e) {
  auto it = inC.find(e->id);
  if (it != inC.end()) return it->second;
  IV r = inRaw(e);
  inC[e->id] = r;
  return r;
}
// signed comparison helper: use signed view of both
Z3_ast ibRaw(E e) {
  switch (e->op) {
  case Op::Const: return e->isTrue() ? T() : F();
  case Op::Eq:
    if (e->k[0]->width == 1) return R(Z3_mk_eq(C, ib(e->k[0]), ib(e->k[1])));
    if (e->k[0]->isFloat && e->k[1]->isFloat) return R(Z3_mk_eq(C, rl(e->k[0]), rl(e->k[1])));
    return R(Z3_mk_eq(C, in(e->k[0]).t, in(e->k[1]).t));
  case Op::Ult: return ilt(in(e->k[0]).t, in(e->k[1]).t);
  case Op::Ule: return ile(in(e->k[0]).t, in(e->k[1]).t);
  case Op::Slt: return ilt(sgn(e->k[0]).t, sgn(e->k[1]).t);
  case Op::Sle: return ile(sgn(e->k[0]).t, sgn(e->k[1]).t);
  case Op::FOeq: return R(Z3_mk_eq(C, rl(e->k[0]), rl(e->k[1])));
  case Op::FOlt: return ilt(rl(e->k[0]), rl(e->k[1]));
  case Op::FOle: return ile(rl(e->k[0]), rl(e->k[1]));
  case Op::FUno: return F();
  case Op::And: return And2(ib(e->k[0]), ib(e->k[1]));
  case Op::Or: return Or2(ib(e->k[0]), ib(e->k[1]));
  case Op::Xor:
    if (e->k[1]->isTrue()) return R(Z3_mk_not(C, ib(e->k[0])));
    return R(Z3_mk_xor(C, ib(e->k[0]), ib(e->k[1])));
  case Op::Ite: return ite(ib(e->k[0]), ib(e->k[1]), ib(e->k[2]));
  default: return R(Z3_mk_eq(C, in(e).t, inum(APInt(BW, 1))));
  }
}
Z3_ast ib(E e) {
  auto it = ibC.find(e->id);
  if (it != ibC.end()) return it->second;
  Z3_ast r = ibRaw(e);
  ibC[e->id] = r;
  return r;
}
std::string ratOf(double d) {
  // exact rational of a finite double as "a/b" decimal strings
  if (d == 0) return "0";
  int ex;
  double m = frexp(d, &ex);
  int64_t mi = (int64_t)ldexp(m, 53);
  ex -= 53;
  while (mi % 2 == 0 && ex < 0) { mi /= 2; ex++; }
  APInt n(2400, (uint64_t)llabs(mi)), dn(2400, 1);
  if (ex > 0) n = n.shl(ex); else dn = dn.shl(-ex);
  llvm::SmallString<200> a, b;
  n.toString(a, 10, false);
  dn.toString(b, 10, false);
  return (mi < 0 ? "-" : "") + std::string(a.str()) + "/" + std::string(b.str());
}
Z3_ast rnum(double d) {
  if (!std::isfinite(d)) throw Unsupported("non-finite real constant");
  return R(Z3_mk_numeral(C, ratOf(d).c_str(), RS()));
}
Z3_ast withErr(E e, Z3_ast t, double ulps = 1.0, const FInt *given = nullptr) {
  if (!sopt.fpErr) return t;
  FInt f = given ? *given : fpInterval(e);
  double M = std::max(fabs(f.lo), fabs(f.hi));
  if (!std::isfinite(M)) throw Unsupported("unbounded fp magnitude");
  if (M == 0) return t;
  double u = ulps * ldexp(1.0, e->width == 32 ? -24 : e->width == 80 ? -64 : -53);
  // round M up to a power of two for compact numerals
  int ex;
  frexp(M * u, &ex);
  double B = ldexp(1.0, ex);
  Z3_ast v = R(Z3_mk_const(C, Z3_mk_string_symbol(C, ("e" + std::to_string(e->id)).c_str()), RS()));
  auto &s = side[e->id];
  s.push_back(ile(rnum(-B), v));
  s.push_back(ile(v, rnum(B)));
  Z3_ast r = iadd(t, v); // rounding never crosses zero
  if (f.lo >= 0) s.push_back(ile(rnum(0), r));
  else if (f.hi <= 0) s.push_back(ile(r, rnum(0)));
  else if (e->op == Op::FMul && (e->k[0]->isConst() || e->k[1]->isConst())) {
    s.push_back(R(Z3_mk_implies(C, ile(rnum(0), t), ile(rnum(0), r))));
    s.push_back(R(Z3_mk_implies(C, ile(t, rnum(0)), ile(r, rnum(0)))));
  }
  return r;
}
// an integer that fits the mantissa is exact
Z3_ast intErr(E e, Z3_ast t) {
  if (!sopt.fpErr) return t;
  double lim = ldexp(1.0, e->width == 32 ? 24 : 53);
  FInt f = fpInterval(e);
  if (f.lo >= -lim && f.hi <= lim) return t;
  Z3_ast r = withErr(e, t);
  side[e->id].push_back(R(Z3_mk_implies(C, And2(ile(rnum(-lim), t), ile(t, rnum(lim))), R(Z3_mk_eq(C, r, t)))));
  return r;
}
// x - (double)(long)x is exact
bool fracPart(E e) {
  E t = e->k[1];
  if (t->op == Op::FTruncI) return t->k[0] == e->k[0];
  if (t->op != Op::SIToF || t->k[0]->op != Op::FToSI || t->k[0]->k[0] != e->k[0]) return false;
  FInt f = fpInterval(e->k[0]);
  double lim = ldexp(1.0, (int)std::min(t->k[0]->width, e->width == 32 ? 24u : 53u) - 1);
  return f.lo > -lim && f.hi < lim;
}
bool isPow2(E c) {
  if (!c->isConst()) return false;
  double d = fabs(toDouble(c->val, c->width));
  if (d == 0 || !std::isfinite(d)) return false;
  int ex;
  return frexp(d, &ex) == 0.5;
}
bool isZeroC(E c) { return c->isConst() && toDouble(c->val, c->width) == 0; }
Z3_ast rlRaw(E e) {
  auto k = [&](int i) { return rl(e->k[i]); };
  unsigned w = e->width;
  Z3_ast zero = rnum(0);
  switch (e->op) {
  case Op::Const: return rnum(toDouble(e->val, w));
  case Op::Sym: {
    Z3_ast v = R(Z3_mk_const(C, Z3_mk_string_symbol(C, ("r" + std::to_string(e->id)).c_str()), RS()));
    if (e->hasRange) side[e->id] = {ile(rnum(e->flo), v), ile(v, rnum(e->fhi))};
    return v;
  }
  case Op::FAdd:
    if (isZeroC(e->k[0])) return k(1);
    if (isZeroC(e->k[1])) return k(0);
    return withErr(e, iadd(k(0), k(1)));
  case Op::FSub:
    if (isZeroC(e->k[1])) return k(0);
    if (isZeroC(e->k[0])) return ineg(k(1));
    return fracPart(e) ? isub(k(0), k(1)) : withErr(e, isub(k(0), k(1)));
  case Op::FMul:
    if (isZeroC(e->k[0]) || isZeroC(e->k[1])) return zero;
    if (isPow2(e->k[0]) || isPow2(e->k[1])) return imul(k(0), k(1));
    return withErr(e, imul(k(0), k(1)));
  case Op::FDiv:
    if (e->k[1]->isConst()) {
      double d = toDouble(e->k[1]->val, w);
      if (d == 0) throw Unsupported("division by constant zero");
      Z3_ast inv = R(Z3_mk_div(C, rnum(1), rnum(d)));
      Z3_ast q = imul(k(0), R(Z3_simplify(C, inv)));
      return isPow2(e->k[1]) ? q : withErr(e, q);
    } else {
      Z3_ast q = R(Z3_mk_const(C, Z3_mk_string_symbol(C, ("q" + std::to_string(e->id)).c_str()), RS()));
      side[e->id].push_back(R(Z3_mk_implies(C, R(Z3_mk_not(C, R(Z3_mk_eq(C, k(1), zero)))), R(Z3_mk_eq(C, imul(q, k(1)), k(0))))));
      return withErr(e, q);
    }
  case Op::FNeg: return ineg(k(0));
  case Op::FAbs: return ite(ile(zero, k(0)), k(0), ineg(k(0)));
  case Op::FMin: return ite(ile(k(0), k(1)), k(0), k(1));
  case Op::FMax: return ite(ile(k(0), k(1)), k(1), k(0));
  case Op::FFma: return withErr(e, iadd(imul(k(0), k(1)), k(2)));
  case Op::FSqrt: {
    Z3_ast q = R(Z3_mk_const(C, Z3_mk_string_symbol(C, ("q" + std::to_string(e->id)).c_str()), RS()));
    auto &s = side[e->id];
    s.push_back(ile(zero, q));
    s.push_back(R(Z3_mk_implies(C, ile(zero, k(0)), R(Z3_mk_eq(C, imul(q, q), k(0))))));
    return withErr(e, q);
  }
  case Op::FRem: {
    if (!e->k[1]->isConst()) throw Unsupported("frem by symbolic");
    double c = fabs(toDouble(e->k[1]->val, w));
    if (c == 0) throw Unsupported("frem by zero");
    Z3_ast n = R(Z3_mk_const(C, Z3_mk_string_symbol(C, ("n" + std::to_string(e->id)).c_str()), IS()));
    Z3_ast r = isub(k(0), imul(rnum(c), R(Z3_mk_int2real(C, n))));
    auto &s = side[e->id];
    s.push_back(ite(ile(zero, k(0)), And2(ile(zero, r), ilt(r, rnum(c))), And2(ile(r, zero), ilt(rnum(-c), r))));
    return r;
  }
  case Op::FFloor: return R(Z3_mk_int2real(C, R(Z3_mk_real2int(C, k(0)))));
  case Op::FCeil: return ineg(R(Z3_mk_int2real(C, R(Z3_mk_real2int(C, ineg(k(0)))))));
  case Op::FTruncI: {
    Z3_ast x = k(0);
    return ite(ile(zero, x), R(Z3_mk_int2real(C, R(Z3_mk_real2int(C, x)))), ineg(R(Z3_mk_int2real(C, R(Z3_mk_real2int(C, ineg(x)))))));
  }
  case Op::FRoundAway: {
    Z3_ast x = k(0), h = rnum(0.5);
    return ite(ile(zero, x), R(Z3_mk_int2real(C, R(Z3_mk_real2int(C, iadd(x, h))))), ineg(R(Z3_mk_int2real(C, R(Z3_mk_real2int(C, isub(h, x)))))));
  }
  case Op::SIToF: {
    Z3_ast t = R(Z3_mk_int2real(C, sgn(e->k[0]).t));
    if (e->k[0]->width <= (w == 32 ? 24u : 53u)) return t;
    return intErr(e, t);
  }
  case Op::UIToF: {
    IV a = in(e->k[0]);
    Z3_ast t = R(Z3_mk_int2real(C, a.t));
    if (a.hi.getActiveBits() <= (w == 32 ? 24u : 53u)) return t;
    return intErr(e, t);
  }
  case Op::FExt: return k(0);
  case Op::FTrunc: return withErr(e, k(0));
  case Op::Ite: return ite(ib(e->k[0]), k(1), k(2));
  case Op::And:
    if (e->k[1]->isConst() && (~e->k[1]->val).isSignMask()) {
      Z3_ast x = k(0);
      return ite(ile(zero, x), x, ineg(x));
    }
    throw Unsupported("real and");
  case Op::Xor:
    if (e->k[1]->isConst() && e->k[1]->val.isSignMask()) return ineg(k(0));
    throw Unsupported("real xor");
  case Op::FUnk: {
    Z3_ast u = R(Z3_mk_const(C, Z3_mk_string_symbol(C, ("u" + std::to_string(e->id)).c_str()), RS()));
    auto &s = side[e->id];
    std::string n = e->name;
    if (n == "sin" || n == "cos") {
      s.push_back(ile(rnum(-1), u));
      s.push_back(ile(u, rnum(1)));
      // Pythagorean identity with the partner
      E o = mkUnk(n == "sin" ? "cos" : "sin", e->k, w);
      Z3_ast v = R(Z3_mk_const(C, Z3_mk_string_symbol(C, ("u" + std::to_string(o->id)).c_str()), RS()));
      s.push_back(R(Z3_mk_eq(C, iadd(imul(u, u), imul(v, v)), rnum(1))));
    } else if (n == "exp" || n == "cosh") {
      s.push_back(ilt(zero, u));
    }
    FInt f = fpInterval(e);
    if (std::isfinite(f.lo) && std::isfinite(f.hi)) {
      s.push_back(ile(rnum(f.lo), u));
      s.push_back(ile(u, rnum(f.hi)));
      return withErr(e, u, 4.0);
    }
    return u;
  }
  default: throw Unsupported("real op " + std::to_string((int)e->op));
  }
}
Z3_ast rl(E e) {
  auto it = rlC.find(e->id);
  if (it != rlC.end()) return it->second;
  Z3_ast r = rlRaw(e);
  rlC[e->id] = r;
  return r;
}
void reach(E e, std::unordered_set<uint32_t> &seen, std::vector<E> &out) {
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    st.pop_back();
    if (!seen.insert(x->id).second) continue;
    out.push_back(x);
    for (E k : x->k) st.push_back(k);
  }
}
} // namespace

// ---------------------------------------------------------------- FP intervals
static std::unordered_map<uint32_t, FInt> fiC;
static FInt widen(double lo, double hi, unsigned w) {
  if (std::isnan(lo) || std::isnan(hi)) return {-INFINITY, INFINITY};
  double u = w == 32 ? 1.2e-7 : 2.3e-16;
  double m = std::max(fabs(lo), fabs(hi));
  double d = m * u + 1e-300;
  FInt r{lo - d, hi + d}; // rounding never crosses zero
  if (lo >= 0) r.lo = std::max(r.lo, 0.0);
  if (hi <= 0) r.hi = std::min(r.hi, 0.0);
  return r;
}
static FInt intRange(E e, bool sgned) {
  unsigned w = e->width;
  // conservative, refined by known zero bits
  APInt mx = ~e->kz;
  if (!sgned && !e->kz.isSignBitSet()) return {0, mx.roundToDouble(false) * (1 + 1e-15)};
  if (e->op == Op::SExt) return intRange(e->k[0], true);
  double h = ldexp(1.0, w - 1);
  static std::unordered_map<uint32_t, FInt> memo;
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  FInt full{-h, h}, r = full;
  auto k = [&](int i) { return intRange(e->k[i], true); };
  switch (e->op) {
  case Op::FToSI: {
    FInt f = fpInterval(e->k[0]);
    r = {std::trunc(f.lo), std::trunc(f.hi)};
    break;
  }
  case Op::Const: { double d = e->val.signedRoundToDouble(); r = {d, d}; break; }
  case Op::ZExt: r = intRange(e->k[0], false); break;
  case Op::Add: { FInt a = k(0), b = k(1); r = {a.lo + b.lo, a.hi + b.hi}; break; }
  case Op::Sub: { FInt a = k(0), b = k(1); r = {a.lo - b.hi, a.hi - b.lo}; break; }
  case Op::Mul: {
    FInt a = k(0), b = k(1);
    double c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
    r = {*std::min_element(c, c + 4), *std::max_element(c, c + 4)};
    break;
  }
  case Op::Ite: { FInt a = k(1), b = k(2); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
  case Op::SDiv: case Op::SRem:
    if (e->k[1]->isConst()) {
      double c = fabs(e->k[1]->val.signedRoundToDouble());
      if (c == 0) break;
      FInt a = k(0);
      if (e->op == Op::SRem) r = {a.lo >= 0 ? 0 : -c, a.hi <= 0 ? 0 : c};
      else { double m = std::max(fabs(a.lo), fabs(a.hi)) / c; r = {a.lo >= 0 && !e->k[1]->val.isNegative() ? 0 : -m, m}; }
    }
    break;
  case Op::UDiv: case Op::URem:
    if (e->k[1]->isConst() && !e->k[1]->val.isNegative()) {
      FInt a = k(0);
      double c = e->k[1]->val.signedRoundToDouble();
      if (a.lo >= 0 && c > 0) r = e->op == Op::URem ? FInt{0, c} : FInt{0, a.hi / c};
    }
    break;
  default: break;
  }
  r.lo -= fabs(r.lo) * 1e-15;
  r.hi += fabs(r.hi) * 1e-15;
  if (!(r.lo >= -h) || !(r.hi < h)) r = e->op == Op::FToSI ? FInt{std::max(-h, r.lo), std::min(h, r.hi)} : full;
  if (e->kz.isSignBitSet()) { // not negative
    r.lo = std::max(r.lo, 0.0);
    r.hi = std::min(r.hi, mx.roundToDouble(false) * (1 + 1e-15));
  }
  return memo[e->id] = r;
}
FInt fpInterval(E e) {
  auto it = fiC.find(e->id);
  if (it != fiC.end()) return it->second;
  FInt r{-INFINITY, INFINITY};
  auto k = [&](int i) { return fpInterval(e->k[i]); };
  unsigned w = e->width;
  auto mul = [&](FInt a, FInt b) -> FInt {
    double c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
    double lo = INFINITY, hi = -INFINITY;
    for (double x : c) {
      if (std::isnan(x)) return {-INFINITY, INFINITY};
      lo = std::min(lo, x);
      hi = std::max(hi, x);
    }
    return widen(lo, hi, w);
  };
  switch (e->op) {
  case Op::Const: {
    if (w != 32 && w != 64 && w != 80) break;
    double d = toDouble(e->val, w);
    if (std::isfinite(d)) r = {d, d};
    break;
  }
  case Op::Sym: if (e->hasRange) r = {e->flo, e->fhi}; break;
  case Op::FAdd: { FInt a = k(0), b = k(1); r = widen(a.lo + b.lo, a.hi + b.hi, w); break; }
  case Op::FSub: {
    FInt a = k(0), b = k(1);
    r = widen(a.lo - b.hi, a.hi - b.lo, w);
    if (fracPart(e)) {
      r.lo = a.lo >= 0 ? 0 : std::max(r.lo, -1.0);
      r.hi = a.hi <= 0 ? 0 : std::min(r.hi, 1.0);
    }
    break;
  }
  case Op::FMul: {
    if (e->k[0] == e->k[1]) {
      FInt a = k(0);
      double m = std::max(fabs(a.lo), fabs(a.hi));
      double n = a.lo > 0 ? a.lo : a.hi < 0 ? a.hi : 0;
      r = widen(n * n, m * m, w);
    } else r = mul(k(0), k(1));
    break;
  }
  case Op::FDiv: {
    FInt b = k(1);
    if (b.lo > 0 || b.hi < 0) {
      FInt inv = widen(1 / b.hi, 1 / b.lo, w);
      r = mul(k(0), inv);
    }
    break;
  }
  case Op::FFma: {
    FInt p = mul(k(0), k(1)), c = k(2);
    r = widen(p.lo + c.lo, p.hi + c.hi, w);
    break;
  }
  case Op::FNeg: { FInt a = k(0); r = {-a.hi, -a.lo}; break; }
  case Op::FAbs: {
    FInt a = k(0);
    if (a.lo >= 0) r = a;
    else if (a.hi <= 0) r = {-a.hi, -a.lo};
    else r = {0, std::max(-a.lo, a.hi)};
    break;
  }
  case Op::FSqrt: { FInt a = k(0); r = widen(sqrt(std::max(0.0, a.lo)), sqrt(std::max(0.0, a.hi)), w); if (r.lo < 0) r.lo = 0; break; }
  case Op::FMin: { FInt a = k(0), b = k(1); r = {std::min(a.lo, b.lo), std::min(a.hi, b.hi)}; break; }
  case Op::FMax: { FInt a = k(0), b = k(1); r = {std::max(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
  case Op::FRem: {
    FInt b = k(1), a = k(0);
    double m = std::max(fabs(b.lo), fabs(b.hi));
    r = {a.lo >= 0 ? 0 : -m, a.hi <= 0 ? 0 : m};
    break;
  }
  case Op::FFloor: case Op::FCeil: case Op::FTruncI: case Op::FRoundEven: case Op::FRoundAway: {
    FInt a = k(0);
    r = {floor(a.lo), ceil(a.hi)};
    break;
  }
  case Op::SIToF: r = intRange(e->k[0], true); break;
  case Op::UIToF: r = intRange(e->k[0], false); break;
  case Op::FExt: r = k(0); break;
  case Op::FTrunc: { FInt a = k(0); r = widen(a.lo, a.hi, 32); break; }
  case Op::Ite: {
    FInt a = k(1), b = k(2);
    // clamp pattern: ite(x<c, a, b) is not refined; plain union
    r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)};
    break;
  }
  case Op::FUnk: {
    const std::string &n = e->name;
    if (n == "sin" || n == "cos" || n == "sinf" || n == "cosf" || n == "tanh") r = {-1, 1};
    else if (n == "atan2" || n == "atan2f") r = {-3.1415926535897936, 3.1415926535897936};
    else if (n == "atan" || n == "asin" || n == "atanf" || n == "asinf") r = {-1.5707963267948968, 1.5707963267948968};
    else if (n == "acos" || n == "acosf") r = {0, 3.1415926535897936};
    else if (n == "exp") { FInt a = k(0); r = widen(exp(a.lo), exp(a.hi), 32); }
    break;
  }
  default: break;
  }
  return fiC[e->id] = r;
}

// ---------------------------------------------------------------- queries
void solverInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  C = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(C, onErr);
  Z3_global_param_set("smt.random_seed", getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1");
}

static std::vector<E> slice(const std::vector<E> &pc, E cond) {
  std::unordered_set<uint32_t> syms(cond->syms.begin(), cond->syms.end());
  std::vector<char> used(pc.size(), 0);
  std::vector<E> out;
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (uint32_t s : pc[i]->syms)
        if (syms.count(s)) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1;
      ch = true;
      out.push_back(pc[i]);
      for (uint32_t s : pc[i]->syms) syms.insert(s);
    }
  }
  out.push_back(cond);
  std::sort(out.begin(), out.end(), [](E a, E b) { return a->id < b->id; });
  out.erase(std::unique(out.begin(), out.end()), out.end());
  return out;
}

struct VecHash {
  size_t operator()(const std::vector<uint32_t> &v) const {
    size_t h = 1469598103934665603ull;
    for (auto x : v) h = (h ^ x) * 1099511628211ull;
    return h;
  }
};
static std::unordered_map<std::vector<uint32_t>, std::pair<Sat, Assignment>, VecHash> cache;
static std::vector<Assignment> recent;

static bool modelSatisfies(const std::vector<E> &cs, const Assignment &a) {
  Evaluator ev(a);
  for (E c : cs)
    if (ev.eval(c).isZero()) return false;
  return true;
}

enum View { VBV, VIR };
static Sat runZ3(const std::vector<E> &cs, View v, unsigned ms, Assignment *model) {
  std::vector<Z3_ast> as;
  bool fpq = false, hasReal = false;
  try {
    for (E c : cs) {
      fpq |= c->hasFP;
      as.push_back(v == VBV ? bl(c) : ib(c));
    }
    if (v == VIR) {
      std::unordered_set<uint32_t> seen;
      std::vector<E> nodes;
      for (E c : cs) reach(c, seen, nodes);
      for (E n : nodes) {
        auto it = side.find(n->id);
        if (it != side.end())
          for (Z3_ast s : it->second) as.push_back(s);
      }
      hasReal = fpq;
    }
  } catch (Unsupported &u) {
    if (getenv("SYMX_DEBUG")) fprintf(stderr, "unsupported in view %d: %s\n", v, u.what());
    return Sat::Unknown;
  }
  Z3_solver s;
  if (v == VBV) s = fpq ? Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BVFP")) : Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  else s = Z3_mk_solver(C);
  (void)hasReal;
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
  Z3_solver_set_params(C, s, p);
  for (Z3_ast a : as) Z3_solver_assert(C, s, a);
  if (const char *d = getenv("SYMX_DUMP")) {
    static int n = 0;
    FILE *f = fopen((std::string(d) + "/q" + std::to_string(n++) + ".smt2").c_str(), "w");
    if (f) { fputs(Z3_solver_to_string(C, s), f); fputs("(check-sat)\n", f); fclose(f); }
  }
  auto t0 = std::chrono::steady_clock::now();
  Z3_lbool r = Z3_solver_check(C, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  sstat.time += dt;
  sstat.maxTime = std::max(sstat.maxTime, dt);
  sstat.z3calls++;
  if (z3err) { z3err = false; r = Z3_L_UNDEF; }
  Sat res = r == Z3_L_TRUE ? Sat::Yes : r == Z3_L_FALSE ? Sat::No : Sat::Unknown;
  if (res == Sat::Yes && model) {
    Z3_model m = Z3_solver_get_model(C, s);
    Z3_model_inc_ref(C, m);
    std::set<uint32_t> syms;
    for (E c : cs) syms.insert(c->syms.begin(), c->syms.end());
    for (uint32_t id : syms) {
      E sy = symById(id);
      Z3_ast val = nullptr;
      bool ok = false;
      if (v == VBV) {
        ok = Z3_model_eval(C, m, bv(sy), true, &val);
        if (ok) {
          const char *str = Z3_get_numeral_string(C, val);
          if (z3err || !str || !*str) { z3err = false; continue; }
          model->v[id] = APInt(std::max(sy->width, 64u) + 1, str, 10).trunc(sy->width);
        }
      } else if (rlC.count(id) && sy->isFloat) {
        ok = Z3_model_eval(C, m, rlC[id], true, &val);
        if (ok) {
          const char *str = Z3_get_numeral_decimal_string(C, val, 30);
          if (z3err || !str || !*str) { z3err = false; continue; }
          double d = strtod(str, nullptr);
          if (sy->width == 64) model->v[id] = APFloat(d).bitcastToAPInt();
          else if (sy->width == 32) model->v[id] = APFloat((float)d).bitcastToAPInt();
        }
      } else if (inC.count(id)) {
        ok = Z3_model_eval(C, m, inC[id].t, true, &val);
        if (ok) {
          const char *str = Z3_get_numeral_string(C, val);
          if (z3err || !str || !*str) { z3err = false; continue; }
          model->v[id] = APInt(std::max(sy->width, 64u) + 64, str, 10).trunc(sy->width);
        }
      }
    }
    Z3_model_dec_ref(C, m);
  }
  Z3_params_dec_ref(C, p);
  Z3_solver_dec_ref(C, s);
  return res;
}

// does the term contain division / remainder by a constant that bit-blasting handles badly?
static bool divHeavy(E e) {
  static std::unordered_map<uint32_t, bool> memo;
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  bool r = (e->op == Op::UDiv || e->op == Op::URem || e->op == Op::SDiv || e->op == Op::SRem) && e->width >= 16 && e->k[1]->isConst();
  for (E k : e->k) r = divHeavy(k) || r;
  return memo[e->id] = r;
}

Sat solveQuery(const std::vector<E> &pc, E cond, Assignment *model, unsigned scale) {
  if (cond->isFalse()) return Sat::No;
  sstat.queries++;
  std::vector<E> cs = slice(pc, cond);
  if (cs.size() == 1 && cond->isTrue()) {
    return Sat::Yes;
  }
  std::vector<uint32_t> key;
  bool fpq = false;
  uint64_t cost = 0;
  for (E c : cs) {
    key.push_back(c->id);
    fpq |= c->hasFP;
    cost += c->cost;
  }
  auto it = cache.find(key);
  if (it != cache.end() && !(it->second.first == Sat::Unknown && scale > 1)) {
    sstat.cacheHits++;
    if (model && it->second.first == Sat::Yes)
      for (auto &p : it->second.second.v) model->v[p.first] = p.second;
    return it->second.first;
  }
  bool real = sopt.theory == Theory::Real && fpq;
  Assignment m;
  Sat r = Sat::Unknown;
  if (!real) {
    for (auto &a : recent)
      if (modelSatisfies(cs, a)) {
        for (E c : cs)
          for (uint32_t s : c->syms) {
            auto j = a.v.find(s);
            m.v[s] = j == a.v.end() ? APInt(symById(s)->width, 0) : j->second;
          }
        r = Sat::Yes;
        sstat.modelHits++;
        break;
      }
  }
  if (r == Sat::Unknown) {
    auto bvq = [&](unsigned ms) { r = runZ3(cs, VBV, ms * scale, &m); if (r != Sat::Unknown) sstat.byBV++; };
    auto irq = [&](unsigned ms) { r = runZ3(cs, VIR, ms * scale, &m); if (r != Sat::Unknown) (fpq ? sstat.byReal : sstat.byInt)++; };
    if (real) {
      irq(sopt.t3);
    } else if (sopt.theory == Theory::Int) {
      irq(sopt.t2);
      if (r == Sat::Unknown) bvq(sopt.t3);
    } else if (sopt.theory == Theory::BV) {
      bvq(sopt.t3);
    } else if (!fpq && std::any_of(cs.begin(), cs.end(), divHeavy)) {
      irq(sopt.t2);
      if (r == Sat::Unknown) bvq(sopt.t3);
    } else {
      bvq(sopt.t1);
      if (r == Sat::Unknown && !fpq) irq(sopt.t2);
      if (r == Sat::Unknown) bvq(sopt.t3);
    }
    if (r == Sat::Yes && !real) {
      // the Int view must agree with the bit-vector semantics
      if (!modelSatisfies(cs, m)) {
        if (getenv("SYMX_DEBUG")) {
          fprintf(stderr, "model does not satisfy constraints\n");
          Evaluator ev(m);
          for (E c : cs) if (ev.eval(c).isZero()) fprintf(stderr, "   %s\n", exprStr(c, 8).c_str());
        }
        r = Sat::Unknown;
      } else {
        recent.insert(recent.begin(), m);
        if (recent.size() > 12) recent.pop_back();
      }
    }
  }
  if (r == Sat::Yes) sstat.sat++;
  else if (r == Sat::No) sstat.unsat++;
  else sstat.unknown++;
  if (r == Sat::Unknown && getenv("SYMX_DEBUG")) {
    fprintf(stderr, "UNKNOWN query:\n");
    for (E c : cs) fprintf(stderr, "   %s\n", exprStr(c, 6).c_str());
  }
  cache[key] = {r, r == Sat::Yes ? m : Assignment()};
  if (model && r == Sat::Yes)
    for (auto &p : m.v) model->v[p.first] = p.second;
  return r;
}
