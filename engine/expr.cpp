#include "expr.hpp"
#include "solver.hpp"
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstring>
#include <deque>
#include <set>
#include <unordered_set>

using llvm::APSInt;

static std::deque<Expr> pool;
struct HK {
  size_t operator()(E e) const {
    size_t h = (size_t)e->op * 1000003u + e->width * 131u + e->lo * 7919u;
    if (e->op == Op::Const) h ^= llvm::hash_value(e->val);
    for (E c : e->k) h = h * 1000003u ^ (size_t)c->id;
    if (!e->name.empty()) h ^= std::hash<std::string>()(e->name);
    return h;
  }
};
struct HE {
  bool operator()(E a, E b) const {
    if (a->op != b->op || a->width != b->width || a->lo != b->lo || a->k != b->k || a->name != b->name) return false;
    if (a->op == Op::Const) return a->val == b->val;
    return true;
  }
};
static std::unordered_set<E, HK, HE> table;
static std::vector<E> symTab; // by id lookups
static std::unordered_map<uint32_t, E> symMap;
static uint32_t nextId = 1;

static bool isFPOp(Op o) { return o >= Op::FAdd; }
static bool yieldsFP(Op o) {
  switch (o) {
  case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem: case Op::FNeg: case Op::FAbs:
  case Op::FSqrt: case Op::FFma: case Op::FMin: case Op::FMax: case Op::SIToF: case Op::UIToF: case Op::FExt: case Op::FTrunc:
  case Op::FFloor: case Op::FCeil: case Op::FTruncI: case Op::FRoundEven: case Op::FRoundAway: case Op::FUnk:
    return true;
  default: return false;
  }
}

static APInt knownZero(const Expr &e) {
  unsigned w = e.width;
  APInt z(w, 0);
  auto K = [&](int i) -> const APInt & { return e.k[i]->kz; };
  switch (e.op) {
  case Op::Const: return ~e.val;
  case Op::And: return K(0) | K(1);
  case Op::Or: case Op::Xor: return K(0) & K(1);
  case Op::Ite: return e.k[1]->kz & e.k[2]->kz;
  case Op::ZExt: {
    APInt r = K(0).zext(w);
    r.setBitsFrom(e.k[0]->width);
    return r;
  }
  case Op::Extract: return K(0).extractBits(w, e.lo);
  case Op::Concat: {
    APInt r = K(0).zext(w).shl(e.k[1]->width) | K(1).zext(w);
    return r;
  }
  case Op::Shl:
    if (e.k[1]->isConst() && e.k[1]->val.ult(w)) {
      unsigned s = e.k[1]->val.getZExtValue();
      APInt r = K(0).shl(s);
      r.setLowBits(s);
      return r;
    }
    return z;
  case Op::LShr:
    if (e.k[1]->isConst() && e.k[1]->val.ult(w)) {
      unsigned s = e.k[1]->val.getZExtValue();
      APInt r = K(0).lshr(s);
      if (s) r.setHighBits(s);
      return r;
    }
    return z;
  case Op::Add: case Op::Sub: {
    unsigned tz = std::min(K(0).countTrailingOnes(), K(1).countTrailingOnes());
    z.setLowBits(tz);
    if (e.op == Op::Add) {
      unsigned lz = std::min(K(0).countLeadingOnes(), K(1).countLeadingOnes());
      if (lz > 1) z.setHighBits(lz - 1);
    }
    return z;
  }
  case Op::Mul: {
    unsigned tz = std::min(w, K(0).countTrailingOnes() + K(1).countTrailingOnes());
    z.setLowBits(tz);
    unsigned lz = K(0).countLeadingOnes() + K(1).countLeadingOnes();
    if (lz > w) z.setHighBits(lz - w);
    return z;
  }
  case Op::UDiv: {
    unsigned lz = K(0).countLeadingOnes();
    if (lz) z.setHighBits(lz);
    return z;
  }
  case Op::URem: {
    // result <= both operands (if divisor non zero)
    unsigned lz = K(0).countLeadingOnes();
    if (e.k[1]->isConst() && !e.k[1]->val.isZero()) lz = std::max(lz, (unsigned)(e.k[1]->val - 1).countLeadingZeros());
    if (lz) z.setHighBits(std::min(lz, w));
    return z;
  }
  default: return z;
  }
}

static E intern(Expr &&e) {
  auto it = table.find(&e);
  if (it != table.end()) return *it;
  e.id = nextId++;
  e.hasFP = isFPOp(e.op) || (e.op == Op::Sym && e.isFloat);
  if (yieldsFP(e.op)) e.isFloat = true;
  uint64_t cost = 1;
  for (E c : e.k) {
    e.hasFP |= c->hasFP;
    cost += c->cost;
  }
  if (e.op == Op::Ite && e.k[1]->isFloat && e.k[2]->isFloat) e.isFloat = true;
  e.cost = (uint32_t)std::min<uint64_t>(cost, 1u << 30);
  if (e.op == Op::Sym) e.syms = {e.id};
  else if (e.k.size() == 1) e.syms = e.k[0]->syms;
  else if (!e.k.empty()) {
    std::vector<uint32_t> s = e.k[0]->syms, t;
    for (size_t i = 1; i < e.k.size(); i++) {
      if (e.k[i]->syms.empty()) continue;
      t.clear();
      std::set_union(s.begin(), s.end(), e.k[i]->syms.begin(), e.k[i]->syms.end(), std::back_inserter(t));
      s.swap(t);
    }
    e.syms = std::move(s);
  }
  e.kz = knownZero(e);
  pool.push_back(std::move(e));
  E r = &pool.back();
  table.insert(r);
  if (r->op == Op::Sym) symMap[r->id] = r;
  return r;
}
E symById(uint32_t id) { return symMap.at(id); }
size_t exprCount() { return pool.size(); }

E mkConst(const APInt &v) {
  Expr e;
  e.op = Op::Const;
  e.width = v.getBitWidth();
  e.val = v;
  return intern(std::move(e));
}
E mkConst(unsigned w, uint64_t v) { return mkConst(APInt(w, v)); }
E mkBool(bool b) {
  static E t = mkConst(1, 1), f = mkConst(1, 0);
  return b ? t : f;
}
E mkSym(unsigned w, const std::string &name, bool isFloat, bool uninit) {
  Expr e;
  e.op = Op::Sym;
  e.width = w;
  e.name = name;
  e.isFloat = isFloat;
  e.uninit = uninit;
  return intern(std::move(e));
}
E mkSymRange(unsigned w, const std::string &name, double lo, double hi) {
  Expr e;
  e.op = Op::Sym;
  e.width = w;
  e.name = name;
  e.isFloat = true;
  e.hasRange = true;
  e.flo = lo;
  e.fhi = hi;
  return intern(std::move(e));
}
static E mk(Op op, unsigned w, std::vector<E> k, unsigned lo = 0, const std::string &name = "") {
  Expr e;
  e.op = op;
  e.width = w;
  e.k = std::move(k);
  e.lo = lo;
  e.name = name;
  return intern(std::move(e));
}

static APInt foldBin(Op op, const APInt &a, const APInt &b) {
  unsigned w = a.getBitWidth();
  switch (op) {
  case Op::Add: return a + b;
  case Op::Sub: return a - b;
  case Op::Mul: return a * b;
  case Op::UDiv: return b.isZero() ? APInt::getAllOnes(w) : a.udiv(b);
  case Op::URem: return b.isZero() ? a : a.urem(b);
  case Op::SDiv: return b.isZero() ? (a.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : a.sdiv(b);
  case Op::SRem: return b.isZero() ? a : a.srem(b);
  case Op::And: return a & b;
  case Op::Or: return a | b;
  case Op::Xor: return a ^ b;
  case Op::Shl: return b.uge(w) ? APInt(w, 0) : a.shl(b);
  case Op::LShr: return b.uge(w) ? APInt(w, 0) : a.lshr(b);
  case Op::AShr: return b.uge(w) ? (a.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : a.ashr(b);
  case Op::Eq: return APInt(1, a == b);
  case Op::Ult: return APInt(1, a.ult(b));
  case Op::Ule: return APInt(1, a.ule(b));
  case Op::Slt: return APInt(1, a.slt(b));
  case Op::Sle: return APInt(1, a.sle(b));
  default: abort();
  }
}
E mkNot(E a) {
  if (a->isConst()) return mkConst(~a->val);
  if (a->op == Op::Xor && a->k[1]->isConst() && a->k[1]->val.isAllOnes()) return a->k[0];
  if (a->width == 1) {
    // push through integer comparisons
    switch (a->op) {
    case Op::Ult: return mkBin(Op::Ule, a->k[1], a->k[0]);
    case Op::Ule: return mkBin(Op::Ult, a->k[1], a->k[0]);
    case Op::Slt: return mkBin(Op::Sle, a->k[1], a->k[0]);
    case Op::Sle: return mkBin(Op::Slt, a->k[1], a->k[0]);
    default: break;
    }
  }
  return mkBin(Op::Xor, a, mkConst(APInt::getAllOnes(a->width)));
}
E mkLAnd(E a, E b) { return mkBin(Op::And, a, b); }
E mkLOr(E a, E b) { return mkBin(Op::Or, a, b); }
E mkEq(E a, E b) { return mkBin(Op::Eq, a, b); }

static bool isNotOf(E a, E b) { return a->op == Op::Xor && a->width == 1 && a->k[1]->isTrue() && a->k[0] == b; }

static APInt umaxOf(E e) { return ~e->kz; }

E mkBin(Op op, E a, E b) {
  assert(a->width == b->width);
  unsigned w = a->width;
  if (a->isConst() && b->isConst()) return mkConst(foldBin(op, a->val, b->val));
  bool comm = op == Op::Add || op == Op::Mul || op == Op::And || op == Op::Or || op == Op::Xor || op == Op::Eq;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  switch (op) {
  case Op::Add:
    if (b->isConst()) {
      if (b->val.isZero()) return a;
      if (a->op == Op::Add && a->k[1]->isConst()) return mkBin(Op::Add, a->k[0], mkConst(a->k[1]->val + b->val));
      if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
        return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    }
    // (x + c) + y -> (x+y)+c
    if (a->op == Op::Add && a->k[1]->isConst() && !b->isConst())
      return mkBin(Op::Add, mkBin(Op::Add, a->k[0], b), a->k[1]);
    if (b->op == Op::Add && b->k[1]->isConst() && !a->isConst())
      return mkBin(Op::Add, mkBin(Op::Add, a, b->k[0]), b->k[1]);
    if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
    if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
    break;
  case Op::Sub:
    if (a == b) return mkConst(w, 0);
    if (b->isConst()) return mkBin(Op::Add, a, mkConst(-b->val));
    if (a->op == Op::Add) {
      if (a->k[0] == b) return a->k[1];
      if (a->k[1] == b) return a->k[0];
      if (a->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Sub, a->k[0], b), a->k[1]);
    }
    if (b->op == Op::Add && b->k[1]->isConst()) return mkBin(Op::Add, mkBin(Op::Sub, a, b->k[0]), mkConst(-b->k[1]->val));
    if (b->op == Op::Add && b->k[0] == a) return mkBin(Op::Sub, mkConst(w, 0), b->k[1]);
    break;
  case Op::Mul:
    if (b->isConst()) {
      if (b->val.isZero()) return b;
      if (b->val.isOne()) return a;
      if (a->op == Op::Mul && a->k[1]->isConst()) return mkBin(Op::Mul, a->k[0], mkConst(a->k[1]->val * b->val));
      if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
        return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    }
    break;
  case Op::UDiv:
    if (b->isConst() && b->val.isOne()) return a;
    if (b->isConst() && b->val.isPowerOf2()) return mkBin(Op::LShr, a, mkConst(w, b->val.logBase2()));
    break;
  case Op::SDiv:
    if (b->isConst() && b->val.isOne() && w > 1) return a;
    break;
  case Op::URem:
    if (b->isConst() && b->val.isOne()) return mkConst(w, 0);
    if (b->isConst() && b->val.isPowerOf2()) return mkBin(Op::And, a, mkConst(b->val - 1));
    break;
  case Op::SRem: break;
  case Op::And:
    if (a == b) return a;
    if (b->isConst()) {
      if (b->val.isZero()) return b;
      if (b->val.isAllOnes()) return a;
      APInt useful = b->val & ~a->kz;
      if (useful.isZero()) return mkConst(w, 0);
      if ((b->val | a->kz).isAllOnes()) return a;
      if (a->op == Op::And && a->k[1]->isConst()) return mkBin(Op::And, a->k[0], mkConst(a->k[1]->val & b->val));
      // low mask -> zext(extract)
      if (b->val.isMask() && w > 1) {
        unsigned n = b->val.countTrailingOnes();
        return mkZExt(mkExtract(a, 0, n), w);
      }
      if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
        return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    }
    if (w == 1 && (isNotOf(a, b) || isNotOf(b, a))) return mkBool(false);
    break;
  case Op::Or:
    if (a == b) return a;
    if (b->isConst()) {
      if (b->val.isZero()) return a;
      if (b->val.isAllOnes()) return b;
    }
    if (w == 1 && (isNotOf(a, b) || isNotOf(b, a))) return mkBool(true);
    // disjoint zext / shl-zext -> concat
    {
      E lo = a, hi = b;
      for (int t = 0; t < 2; t++, std::swap(lo, hi)) {
        if (lo->op == Op::ZExt && hi->op == Op::Shl && hi->k[1]->isConst()) {
          unsigned s = hi->k[1]->val.getZExtValue();
          if (lo->k[0]->width <= s && s < w)
            return mkConcat(mkExtract(hi->k[0], 0, w - s), mkZExt(lo->k[0], s));
        }
        // concat(x,0) | zext
        if (lo->op == Op::ZExt && hi->op == Op::Concat && hi->k[1]->isFalse() && lo->k[0]->width <= hi->k[1]->width)
          return mkConcat(hi->k[0], mkZExt(lo->k[0], hi->k[1]->width));
      }
    }
    break;
  case Op::Xor:
    if (a == b) return mkConst(w, 0);
    if (b->isConst()) {
      if (b->val.isZero()) return a;
      if (a->op == Op::Xor && a->k[1]->isConst()) return mkBin(Op::Xor, a->k[0], mkConst(a->k[1]->val ^ b->val));
      if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
        return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
      if (w == 1) {
        switch (a->op) {
        case Op::Ult: case Op::Ule: case Op::Slt: case Op::Sle: return mkNot(a);
        default: break;
        }
      }
    }
    break;
  case Op::Shl:
    if (b->isConst()) {
      if (b->val.isZero()) return a;
      if (b->val.uge(w)) return mkConst(w, 0);
      unsigned s = b->val.getZExtValue();
      return mkConcat(mkExtract(a, 0, w - s), mkConst(s, 0));
    }
    if (a->isFalse()) return a;
    break;
  case Op::LShr:
    if (b->isConst()) {
      if (b->val.isZero()) return a;
      if (b->val.uge(w)) return mkConst(w, 0);
      unsigned s = b->val.getZExtValue();
      return mkZExt(mkExtract(a, s, w - s), w);
    }
    if (a->isFalse()) return a;
    break;
  case Op::AShr:
    if (b->isConst()) {
      if (b->val.isZero()) return a;
      unsigned s = b->val.uge(w) ? w - 1 : (unsigned)b->val.getZExtValue();
      return mkSExt(mkExtract(a, s, w - s), w);
    }
    break;
  case Op::Eq:
    if (a == b) return mkBool(true);
    if (b->isConst()) {
      if (w == 1) return b->val.isOne() ? a : mkNot(a);
      if (!(b->val & a->kz).isZero()) return mkBool(false);
      if (a->op == Op::ZExt) {
        if (b->val.getActiveBits() > a->k[0]->width) return mkBool(false);
        return mkEq(a->k[0], mkConst(b->val.trunc(a->k[0]->width)));
      }
      if (a->op == Op::SExt) {
        APInt t = b->val.trunc(a->k[0]->width);
        if (t.sext(w) != b->val) return mkBool(false);
        return mkEq(a->k[0], mkConst(t));
      }
      if (a->op == Op::Add && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->val - a->k[1]->val));
      if (a->op == Op::Sub && a->k[0]->isConst()) return mkEq(a->k[1], mkConst(a->k[0]->val - b->val));
      if (a->op == Op::Xor && a->k[1]->isConst()) return mkEq(a->k[0], mkConst(b->val ^ a->k[1]->val));
      if (a->op == Op::Ite) {
        bool t1 = a->k[1]->isConst(), t2 = a->k[2]->isConst();
        if (t1 || t2)
          return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
      }
      if (a->op == Op::Concat)
        return mkLAnd(mkEq(a->k[0], mkExtract(b, a->k[1]->width, a->k[0]->width)), mkEq(a->k[1], mkExtract(b, 0, a->k[1]->width)));
    }
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width) return mkEq(a->k[0], b->k[0]);
    if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width) return mkEq(a->k[0], b->k[0]);
    break;
  case Op::Ult:
    if (a == b) return mkBool(false);
    if (b->isConst() && b->val.isZero()) return mkBool(false);
    if (b->isConst() && umaxOf(a).ult(b->val)) return mkBool(true);
    if (a->isConst() && umaxOf(b).ule(a->val)) return mkBool(false);
    if (b->isConst() && b->val.isOne()) return mkEq(a, mkConst(w, 0));
    if (a->isConst() && a->val.isZero()) return mkNot(mkEq(b, a));
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width) return mkBin(op, a->k[0], b->k[0]);
    if (a->op == Op::ZExt && b->isConst()) return mkBin(op, a->k[0], mkConst(b->val.trunc(a->k[0]->width)));
    if (b->op == Op::ZExt && a->isConst()) return mkBin(op, mkConst(a->val.trunc(b->k[0]->width)), b->k[0]);
    break;
  case Op::Ule:
    if (a == b) return mkBool(true);
    if (a->isConst() && a->val.isZero()) return mkBool(true);
    if (b->isConst() && umaxOf(a).ule(b->val)) return mkBool(true);
    if (a->isConst() && umaxOf(b).ult(a->val)) return mkBool(false);
    if (b->isConst() && b->val.isZero()) return mkEq(a, b);
    if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->width == b->k[0]->width) return mkBin(op, a->k[0], b->k[0]);
    if (a->op == Op::ZExt && b->isConst()) return mkBin(op, a->k[0], mkConst(b->val.trunc(a->k[0]->width)));
    if (b->op == Op::ZExt && a->isConst()) return mkBin(op, mkConst(a->val.trunc(b->k[0]->width)), b->k[0]);
    break;
  case Op::Slt: case Op::Sle: {
    if (a == b) return mkBool(op == Op::Sle);
    // both non negative -> unsigned
    bool na = a->kz.isSignBitSet(), nb = b->kz.isSignBitSet();
    if (na && nb) return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
    if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->width == b->k[0]->width) return mkBin(op, a->k[0], b->k[0]);
    if (a->op == Op::SExt && b->isConst()) {
      unsigned n = a->k[0]->width;
      APInt t = b->val.trunc(n);
      if (t.sext(w) == b->val) return mkBin(op, a->k[0], mkConst(t));
      return mkBool(!b->val.isNegative());
    }
    if (b->op == Op::SExt && a->isConst()) {
      unsigned n = b->k[0]->width;
      APInt t = a->val.trunc(n);
      if (t.sext(w) == a->val) return mkBin(op, mkConst(t), b->k[0]);
      return mkBool(a->val.isNegative());
    }
    if (a->op == Op::Ite && b->isConst() && a->k[1]->isConst() && a->k[2]->isConst())
      return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    break;
  }
  default: break;
  }
  bool cmp = op >= Op::Eq && op <= Op::Sle;
  return mk(op, cmp ? 1 : w, {a, b});
}

E mkIte(E c, E a, E b) {
  assert(a->width == b->width && c->width == 1);
  if (c->isConst()) return c->isTrue() ? a : b;
  if (a == b) return a;
  if (c->op == Op::Xor && c->k[1]->isTrue()) return mkIte(c->k[0], b, a);
  if (a->width == 1) {
    if (a->isTrue() && b->isFalse()) return c;
    if (a->isFalse() && b->isTrue()) return mkNot(c);
    if (a->isTrue()) return mkLOr(c, b);
    if (a->isFalse()) return mkLAnd(mkNot(c), b);
    if (b->isTrue()) return mkLOr(mkNot(c), a);
    if (b->isFalse()) return mkLAnd(c, a);
  }
  if (a->op == Op::Ite && a->k[0] == c) a = a->k[1];
  if (b->op == Op::Ite && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return mk(Op::Ite, a->width, {c, a, b});
}
E mkExtract(E a, unsigned lo, unsigned w) {
  assert(lo + w <= a->width && w > 0);
  if (lo == 0 && w == a->width) return a;
  if (a->isConst()) return mkConst(a->val.extractBits(w, lo));
  if (a->kz.extractBits(w, lo).isAllOnes()) return mkConst(w, 0);
  switch (a->op) {
  case Op::Extract: return mkExtract(a->k[0], a->lo + lo, w);
  case Op::Concat: {
    unsigned lw = a->k[1]->width;
    if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
    return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
  }
  case Op::ZExt: {
    unsigned n = a->k[0]->width;
    if (lo + w <= n) return mkExtract(a->k[0], lo, w);
    if (lo >= n) return mkConst(w, 0);
    return mkZExt(mkExtract(a->k[0], lo, n - lo), w);
  }
  case Op::SExt: {
    unsigned n = a->k[0]->width;
    if (lo + w <= n) return mkExtract(a->k[0], lo, w);
    if (lo == 0) return mkSExt(a->k[0], w);
    if (lo < n) return mkSExt(mkExtract(a->k[0], lo, n - lo), w);
    break;
  }
  case Op::And: case Op::Or: case Op::Xor:
    return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
  case Op::Add: case Op::Sub: case Op::Mul:
    if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
    break;
  case Op::Ite:
    if (a->k[1]->isConst() || a->k[2]->isConst() || lo == 0)
      return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    break;
  default: break;
  }
  return mk(Op::Extract, w, {a}, lo);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (hi->isConst() && lo->isConst()) return mkConst(hi->val.zext(w).shl(lo->width) | lo->val.zext(w));
  if (hi->isFalse()) return mkZExt(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && hi->lo == lo->lo + lo->width)
    return mkExtract(hi->k[0], lo->lo, w);
  // the low part may have been rewritten by mkExtract: concat(extract(a+b), a'+b')
  if (hi->op == Op::Extract && lo->op != Op::Extract && hi->lo == lo->width && mkExtract(hi->k[0], 0, lo->width) == lo)
    return mkExtract(hi->k[0], 0, w);
  if (hi->op == lo->op && (hi->op == Op::And || hi->op == Op::Or || hi->op == Op::Xor)) {
    E x = mkConcat(hi->k[0], lo->k[0]), y = mkConcat(hi->k[1], lo->k[1]);
    if (x->op != Op::Concat && y->op != Op::Concat) return mkBin(hi->op, x, y);
  }
  // concat(extract(x..), concat(extract(x adj), y))
  if (lo->op == Op::Concat && hi->op == Op::Extract && lo->k[0]->op == Op::Extract && hi->k[0] == lo->k[0]->k[0] &&
      hi->lo == lo->k[0]->lo + lo->k[0]->width)
    return mkConcat(mkExtract(hi->k[0], lo->k[0]->lo, hi->width + lo->k[0]->width), lo->k[1]);
  // sign-extension pieces: concat(extract hi of sext, lo part)
  if (hi->op == Op::Extract && hi->k[0]->op == Op::SExt && hi->k[0]->k[0] == lo && hi->lo == lo->width) return mkSExt(lo, w);
  if (lo->isConst() && hi->op == Op::Concat && hi->k[1]->isConst()) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (hi->op == Op::ZExt) return mkZExt(mkConcat(hi->k[0], lo), w);
  if (hi->op == Op::Ite && lo->op == Op::Ite && hi->k[0] == lo->k[0])
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  return mk(Op::Concat, w, {hi, lo});
}
E mkZExt(E a, unsigned w) {
  assert(w >= a->width);
  if (w == a->width) return a;
  if (a->isConst()) return mkConst(a->val.zext(w));
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
    return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return mk(Op::ZExt, w, {a});
}
E mkSExt(E a, unsigned w) {
  assert(w >= a->width);
  if (w == a->width) return a;
  if (a->isConst()) return mkConst(a->val.sext(w));
  if (a->op == Op::SExt) return mkSExt(a->k[0], w);
  if (a->kz.isSignBitSet()) return mkZExt(a, w);
  if (a->op == Op::Ite && a->k[1]->isConst() && a->k[2]->isConst())
    return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return mk(Op::SExt, w, {a});
}
E mkTrunc(E a, unsigned w) { return mkExtract(a, 0, w); }

const llvm::fltSemantics &semOf(unsigned w) {
  switch (w) {
  case 16: return APFloat::IEEEhalf();
  case 32: return APFloat::IEEEsingle();
  case 64: return APFloat::IEEEdouble();
  case 80: return APFloat::x87DoubleExtended();
  case 128: return APFloat::IEEEquad();
  }
  abort();
}
double toDouble(const APInt &bits, unsigned w) {
  APFloat f(semOf(w), bits);
  bool li;
  f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
  return f.convertToDouble();
}
static const auto RNE = APFloat::rmNearestTiesToEven;

static APInt foldF1(Op op, const APInt &a) {
  unsigned w = a.getBitWidth();
  APFloat f(semOf(w), a);
  switch (op) {
  case Op::FNeg: f.changeSign(); break;
  case Op::FAbs: f.clearSign(); break;
  case Op::FSqrt: {
    if (w == 64) f = APFloat(std::sqrt(f.convertToDouble()));
    else if (w == 32) f = APFloat(std::sqrt(f.convertToFloat()));
    else {
      long double ld = 0;
      memcpy(&ld, a.getRawData(), 10);
      ld = sqrtl(ld);
      uint64_t raw[2] = {0, 0};
      memcpy(raw, &ld, 10);
      return APInt(80, llvm::ArrayRef<uint64_t>(raw, 2));
    }
    break;
  }
  case Op::FFloor: f.roundToIntegral(APFloat::rmTowardNegative); break;
  case Op::FCeil: f.roundToIntegral(APFloat::rmTowardPositive); break;
  case Op::FTruncI: f.roundToIntegral(APFloat::rmTowardZero); break;
  case Op::FRoundEven: f.roundToIntegral(RNE); break;
  case Op::FRoundAway: f.roundToIntegral(APFloat::rmNearestTiesToAway); break;
  default: abort();
  }
  return f.bitcastToAPInt();
}
static APInt foldF2(Op op, const APInt &a, const APInt &b) {
  unsigned w = a.getBitWidth();
  APFloat f(semOf(w), a), g(semOf(w), b);
  switch (op) {
  case Op::FAdd: f.add(g, RNE); break;
  case Op::FSub: f.subtract(g, RNE); break;
  case Op::FMul: f.multiply(g, RNE); break;
  case Op::FDiv: f.divide(g, RNE); break;
  case Op::FRem: f.mod(g); break;
  case Op::FMin: f = llvm::minnum(f, g); break;
  case Op::FMax: f = llvm::maxnum(f, g); break;
  case Op::FOeq: return APInt(1, f.compare(g) == APFloat::cmpEqual);
  case Op::FOlt: return APInt(1, f.compare(g) == APFloat::cmpLessThan);
  case Op::FOle: {
    auto c = f.compare(g);
    return APInt(1, c == APFloat::cmpLessThan || c == APFloat::cmpEqual);
  }
  case Op::FUno: return APInt(1, f.isNaN() || g.isNaN());
  default: abort();
  }
  return f.bitcastToAPInt();
}
static APInt foldFCast(Op op, const APInt &a, unsigned w) {
  unsigned sw = a.getBitWidth();
  bool li, ex;
  switch (op) {
  case Op::FToSI: case Op::FToUI: {
    APFloat f(semOf(sw), a);
    llvm::APSInt r(w, op == Op::FToUI);
    f.convertToInteger(r, APFloat::rmTowardZero, &ex);
    return r;
  }
  case Op::SIToF: case Op::UIToF: {
    APFloat f(semOf(w), 0);
    f.convertFromAPInt(a, op == Op::SIToF, RNE);
    return f.bitcastToAPInt();
  }
  case Op::FExt: case Op::FTrunc: {
    APFloat f(semOf(sw), a);
    f.convert(semOf(w), RNE, &li);
    return f.bitcastToAPInt();
  }
  default: abort();
  }
}
E mkF1(Op op, E a) {
  if (a->isConst()) return mkConst(foldF1(op, a->val));
  if (op == Op::FNeg && a->op == Op::FNeg) return a->k[0];
  if (op == Op::FAbs && (a->op == Op::FAbs || a->op == Op::FSqrt)) return a;
  if (op == Op::FAbs && a->op == Op::FNeg) return mkF1(Op::FAbs, a->k[0]);
  return mk(op, a->width, {a});
}
static bool isFConst(E a, double v) { return a->isConst() && toDouble(a->val, a->width) == v; }
bool gRealTheory = false;
E mkF2(Op op, E a, E b) {
  assert(a->width == b->width);
  if (a->isConst() && b->isConst()) return mkConst(foldF2(op, a->val, b->val));
  bool cmp = op >= Op::FOeq && op <= Op::FUno;
  if (op == Op::FMul) {
    // x*1 == x for every value (NaN payload aside)
    if (isFConst(a, 1.0)) return b;
    if (isFConst(b, 1.0)) return a;
    if (isFConst(a, -1.0)) return mkF1(Op::FNeg, b);
    if (isFConst(b, -1.0)) return mkF1(Op::FNeg, a);
  }
  if (op == Op::FDiv && isFConst(b, 1.0)) return a;
  if ((op == Op::FAdd || op == Op::FMul || op == Op::FOeq || op == Op::FUno) && a->id > b->id) std::swap(a, b);
  if (op == Op::FUno && a->isConst() && !APFloat(semOf(a->width), a->val).isNaN()) a = b;
  else if (op == Op::FUno && b->isConst() && !APFloat(semOf(b->width), b->val).isNaN()) b = a;
  if (op == Op::FOlt && a == b) return mkBool(false);
  if ((op == Op::FOeq || op == Op::FOle) && a == b) return mkNot(mkF2(Op::FUno, a, a));
  if (gRealTheory && cmp && op != Op::FUno && (a->isConst() || b->isConst())) {
    // real numbers of bounded magnitude against an infinity
    E c = a->isConst() ? a : b, x = a->isConst() ? b : a;
    APFloat f(semOf(c->width), c->val);
    if (f.isInfinity()) {
      FInt i = fpInterval(x);
      if (std::isfinite(i.lo) && std::isfinite(i.hi)) {
        if (op == Op::FOeq) return mkBool(false);
        return mkBool((c == b) != f.isNegative());
      }
    }
  }
  if (op == Op::FUno) {
    auto noNaN = [](E x) { return x->op == Op::SIToF || x->op == Op::UIToF || (x->op == Op::Sym && x->hasRange); };
    if (noNaN(a) && noNaN(b)) return mkBool(false);
  }
  return mk(op, cmp ? 1 : a->width, {a, b});
}
E mkFma(E a, E b, E c) {
  if (a->isConst() && b->isConst() && c->isConst()) {
    APFloat f(semOf(a->width), a->val), g(semOf(a->width), b->val), h(semOf(a->width), c->val);
    f.fusedMultiplyAdd(g, h, RNE);
    return mkConst(f.bitcastToAPInt());
  }
  return mk(Op::FFma, a->width, {a, b, c});
}
E mkFCast(Op op, E a, unsigned w) {
  if ((op == Op::FExt || op == Op::FTrunc) && a->width == w) return a;
  if (a->isConst()) return mkConst(foldFCast(op, a->val, w));
  if (op == Op::SIToF && a->kz.isSignBitSet()) op = Op::UIToF;
  if (op == Op::UIToF && a->op == Op::ZExt) a = a->k[0];
  if (op == Op::SIToF && a->op == Op::SExt) a = a->k[0];
  return mk(op, w, {a});
}
bool evalMathFn(const std::string &n, const std::vector<double> &x, double &o) {
  if (n == "sin") o = sin(x[0]); else if (n == "cos") o = cos(x[0]); else if (n == "tan") o = tan(x[0]);
  else if (n == "asin") o = asin(x[0]); else if (n == "acos") o = acos(x[0]); else if (n == "atan") o = atan(x[0]);
  else if (n == "atan2") o = atan2(x[0], x[1]); else if (n == "sinh") o = sinh(x[0]); else if (n == "cosh") o = cosh(x[0]);
  else if (n == "tanh") o = tanh(x[0]); else if (n == "exp") o = exp(x[0]); else if (n == "log") o = log(x[0]);
  else if (n == "log10") o = log10(x[0]); else if (n == "pow") o = pow(x[0], x[1]); else if (n == "hypot") o = hypot(x[0], x[1]);
  else if (n == "cbrt") o = cbrt(x[0]);
  else if (n == "sinf") o = sinf(x[0]); else if (n == "cosf") o = cosf(x[0]); else if (n == "tanf") o = tanf(x[0]);
  else if (n == "atan2f") o = atan2f(x[0], x[1]); else if (n == "expf") o = expf(x[0]); else if (n == "logf") o = logf(x[0]);
  else if (n == "powf") o = powf(x[0], x[1]); else if (n == "atanf") o = atanf(x[0]); else if (n == "acosf") o = acosf(x[0]);
  else if (n == "asinf") o = asinf(x[0]);
  else return false;
  return true;
}
static APInt foldUnk(const std::string &name, const std::vector<APInt> &args, unsigned w) {
  std::vector<double> x;
  for (auto &a : args) x.push_back(toDouble(a, a.getBitWidth()));
  double o = 0;
  if (!evalMathFn(name, x, o)) return APInt(w, 0);
  APFloat f(o);
  bool li;
  f.convert(semOf(w), RNE, &li);
  return f.bitcastToAPInt();
}
E mkUnk(const std::string &name, const std::vector<E> &args, unsigned w) {
  bool all = true;
  for (E a : args) all &= a->isConst();
  if (all) {
    std::vector<APInt> v;
    for (E a : args) v.push_back(a->val);
    return mkConst(foldUnk(name, v, w));
  }
  // odd and even functions of the C library are exactly so
  if (args.size() == 1 && args[0]->op == Op::FNeg) {
    static const std::set<std::string> odd = {"sin", "sinf", "tan", "tanf", "asin", "asinf", "atan", "atanf", "sinh"};
    if (odd.count(name)) return mkF1(Op::FNeg, mkUnk(name, {args[0]->k[0]}, w));
    if (name == "cos" || name == "cosf" || name == "cosh") return mkUnk(name, {args[0]->k[0]}, w);
  }
  return mk(Op::FUnk, w, args, 0, name);
}

const APInt &Evaluator::eval(E e) {
  auto it = memo.find(e->id);
  if (it != memo.end()) return it->second;
  APInt r(e->width, 0);
  switch (e->op) {
  case Op::Const: r = e->val; break;
  case Op::Sym: {
    auto j = a.v.find(e->id);
    if (j != a.v.end()) r = j->second;
    break;
  }
  case Op::Ite: r = eval(e->k[0]).isOne() ? eval(e->k[1]) : eval(e->k[2]); break;
  case Op::Concat: {
    APInt h = eval(e->k[0]), l = eval(e->k[1]);
    r = h.zext(e->width).shl(l.getBitWidth()) | l.zext(e->width);
    break;
  }
  case Op::Extract: r = eval(e->k[0]).extractBits(e->width, e->lo); break;
  case Op::ZExt: r = eval(e->k[0]).zext(e->width); break;
  case Op::SExt: r = eval(e->k[0]).sext(e->width); break;
  case Op::FNeg: case Op::FAbs: case Op::FSqrt: case Op::FFloor: case Op::FCeil: case Op::FTruncI: case Op::FRoundEven: case Op::FRoundAway:
    r = foldF1(e->op, eval(e->k[0]));
    break;
  case Op::FAdd: case Op::FSub: case Op::FMul: case Op::FDiv: case Op::FRem: case Op::FMin: case Op::FMax:
  case Op::FOeq: case Op::FOlt: case Op::FOle: case Op::FUno: {
    APInt x = eval(e->k[0]);
    r = foldF2(e->op, x, eval(e->k[1]));
    break;
  }
  case Op::FFma: {
    APFloat f(semOf(e->width), eval(e->k[0])), g(semOf(e->width), eval(e->k[1])), h(semOf(e->width), eval(e->k[2]));
    f.fusedMultiplyAdd(g, h, RNE);
    r = f.bitcastToAPInt();
    break;
  }
  case Op::FToSI: case Op::FToUI: case Op::SIToF: case Op::UIToF: case Op::FExt: case Op::FTrunc:
    r = foldFCast(e->op, eval(e->k[0]), e->width);
    break;
  case Op::FUnk: {
    std::vector<APInt> v;
    for (E k : e->k) v.push_back(eval(k));
    r = foldUnk(e->name, v, e->width);
    break;
  }
  default: {
    APInt x = eval(e->k[0]);
    r = foldBin(e->op, x, eval(e->k[1]));
  }
  }
  return memo.emplace(e->id, std::move(r)).first->second;
}
APInt evalExpr(E e, const Assignment &a) {
  if (e->isConst()) return e->val;
  Evaluator ev(a);
  return ev.eval(e);
}
static const char *opn[] = {"const", "sym", "+", "-", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", ">>", "a>>", "==", "u<", "u<=", "s<", "s<=",
                            "ite", "cat", "ext", "zx", "sx", "f+", "f-", "f*", "f/", "f%", "fneg", "fabs", "fsqrt", "fma", "fmin", "fmax", "f==", "f<", "f<=", "funo",
                            "ftosi", "ftoui", "sitof", "uitof", "fext", "ftrunc", "floor", "ceil", "trunc", "rint", "round", "unk"};
std::string exprStr(E e, int d) {
  if (e->op == Op::Const) {
    llvm::SmallString<40> s;
    e->val.toStringSigned(s);
    return std::string(s.str()) + ":" + std::to_string(e->width);
  }
  if (e->op == Op::Sym) return e->name;
  if (d == 0) return "...";
  std::string r = "(" + std::string(opn[(int)e->op]) + e->name;
  if (e->op == Op::Extract) r += "[" + std::to_string(e->lo) + "," + std::to_string(e->width) + "]";
  for (E k : e->k) r += " " + exprStr(k, d - 1);
  return r + ")";
}
