#include "exec.hpp"
#include <chrono>
#include <cmath>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <algorithm>

using namespace llvm;

double nowS() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static bool dbg = getenv("SYMX_TRACE") != nullptr;

Executor::Executor(llvm::Module &m, ExecOptions o) : opt(std::move(o)), M(m), DL(m.getDataLayout()) {
  t0 = nowS();
  registerBuiltins();
}

unsigned Executor::width(Type *t) const {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  if (t->isHalfTy()) return 16;
  if (t->isFP128Ty()) return 128;
  return 0;
}

FnInfo *Executor::info(Function *F) {
  auto &p = fns[F];
  if (p) return p.get();
  p = std::make_unique<FnInfo>();
  FnInfo *fi = p.get();
  fi->F = F;
  for (auto &a : F->args()) fi->idx[&a] = fi->nloc++;
  unsigned n = 0;
  for (auto &bb : *F) {
    fi->bbIdx[&bb] = n++;
    for (auto &I : bb)
      if (!I.getType()->isVoidTy()) fi->idx[&I] = fi->nloc++;
  }
  for (auto &bb : *F) {
    fi->bbs.emplace_back();
    for (auto &I : bb) {
      DInst d;
      d.I = &I;
      d.op = I.getOpcode();
      auto it = fi->idx.find(&I);
      if (it != fi->idx.end()) d.dest = it->second;
      for (auto &u : I.operands()) {
        Value *v = u.get();
        if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) {
          d.ops.push_back(INT32_MIN);
          continue;
        }
        if (auto *c = dyn_cast<Constant>(v)) {
          fi->consts.push_back(evalConst(c));
          d.ops.push_back(-(int)fi->consts.size());
        } else
          d.ops.push_back(fi->idx.at(v));
      }
      fi->bbs.back().push_back(std::move(d));
    }
  }
  return fi;
}

static Val undefOf(Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) {
    std::vector<Val> v;
    for (auto *e : st->elements()) v.push_back(undefOf(e));
    return Val(std::move(v));
  }
  if (auto *at = dyn_cast<ArrayType>(t)) return Val(std::vector<Val>(at->getNumElements(), undefOf(at->getElementType())));
  if (auto *vt = dyn_cast<FixedVectorType>(t)) return Val(std::vector<Val>(vt->getNumElements(), undefOf(vt->getElementType())));
  return Val();
}

Val Executor::evalConst(const Constant *c) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) return mkConst(ci->getValue());
  if (auto *cf = dyn_cast<ConstantFP>(c)) return mkConst(cf->getValueAPF().bitcastToAPInt());
  if (isa<ConstantPointerNull>(c)) return mkConst(64, 0);
  if (isa<UndefValue>(c)) return undefOf(t);
  if (isa<ConstantTokenNone>(c)) return Val();
  if (isa<ConstantAggregateZero>(c)) {
    std::vector<Val> v;
    if (auto *st = dyn_cast<StructType>(t)) {
      for (auto *e : st->elements()) v.push_back(evalConst(Constant::getNullValue(e)));
    } else if (auto *at = dyn_cast<ArrayType>(t)) {
      v.assign(at->getNumElements(), at->getNumElements() ? evalConst(Constant::getNullValue(at->getElementType())) : Val());
    } else {
      auto *vt = cast<FixedVectorType>(t);
      v.assign(vt->getNumElements(), evalConst(Constant::getNullValue(vt->getElementType())));
    }
    return Val(std::move(v));
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    std::vector<Val> v;
    for (unsigned i = 0; i < cd->getNumElements(); ++i) v.push_back(evalConst(cd->getElementAsConstant(i)));
    return Val(std::move(v));
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    std::vector<Val> v;
    for (auto &o : ca->operands()) v.push_back(evalConst(cast<Constant>(o)));
    return Val(std::move(v));
  }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee());
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) { errs() << "no address for " << gv->getName() << "\n"; abort(); }
    return mkConst(64, it->second);
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0);
      auto *g = cast<GEPOperator>(ce);
      if (!g->accumulateConstantOffset(DL, off)) abort();
      return mkBin(Op::Add, evalConst(cast<Constant>(g->getPointerOperand())).e, mkConst(off));
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: {
      E v = evalConst(ce->getOperand(0)).e;
      unsigned w = width(t);
      return v->width >= w ? mkTrunc(v, w) : mkZExt(v, w);
    }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0));
    case Instruction::Sub: return mkBin(Op::Sub, evalConst(ce->getOperand(0)).e, evalConst(ce->getOperand(1)).e);
    case Instruction::Add: return mkBin(Op::Add, evalConst(ce->getOperand(0)).e, evalConst(ce->getOperand(1)).e);
    case Instruction::ICmp: {
      E a = evalConst(ce->getOperand(0)).e, b = evalConst(ce->getOperand(1)).e;
      switch (ce->getPredicate()) {
      case CmpInst::ICMP_EQ: return mkEq(a, b);
      case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
      default: break;
      }
      break;
    }
    default: break;
    }
    errs() << "unsupported constant expression " << *ce << "\n";
    abort();
  }
  errs() << "unsupported constant " << *c << "\n";
  abort();
}

void Executor::storeConst(Obj *o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<UndefValue>(c)) {
    for (uint64_t i = 0; i < DL.getTypeAllocSize(t); ++i) o->b[off + i] = mkConst(8, 0);
    return;
  }
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = DL.getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) storeConst(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    uint64_t es = DL.getTypeAllocSize(et);
    if (isa<ConstantAggregateZero>(c)) return;
    for (uint64_t i = 0; i < n; ++i) storeConst(o, off + i * es, c->getAggregateElement(i));
    return;
  }
  if (c->isNullValue()) return;
  E e = evalConst(c).e;
  unsigned n = DL.getTypeStoreSize(t);
  if (e->width < n * 8) e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; ++i) o->b[off + i] = mkExtract(e, i * 8, 8);
}

void Executor::initGlobals(State &s) {
  std::vector<Obj *> objs;
  for (auto &F : M) {
    Obj *o = s.mem.add(OK::Func, 0);
    o->ro = true;
    o->name = F.getName().str();
    gaddr[&F] = baseOf(o->id);
    fnById[o->id] = &F;
  }
  for (auto &g : M.globals()) {
    Type *t = g.getValueType();
    uint64_t sz = t->isSized() ? (uint64_t)DL.getTypeAllocSize(t) : 0;
    bool ext = !g.hasInitializer();
    if (ext && sz < 64) sz = 64;
    Obj *o = s.mem.add(ext ? OK::Extern : OK::Global, sz);
    o->name = g.getName().str();
    o->site = &g;
    gaddr[&g] = baseOf(o->id);
  }
  E zero = mkConst(8, 0);
  for (auto &g : M.globals()) {
    Obj *o = s.mem.write(gaddr[&g] >> 32);
    if (g.hasInitializer()) {
      for (auto &b : o->b) b = zero;
      storeConst(o, 0, g.getInitializer());
      o->ro = g.isConstant();
    } else {
      StringRef n = g.getName();
      if (n == "stdin" || n == "stdout" || n == "stderr") {
        Obj *f = s.mem.add(OK::Extern, 256);
        f->name = "FILE:" + n.str();
        o = s.mem.write(gaddr[&g] >> 32);
        E a = mkConst(64, baseOf(f->id));
        for (int i = 0; i < 8; ++i) o->b[i] = mkExtract(a, i * 8, 8);
      }
    }
  }
  Obj *e = s.mem.add(OK::Global, 4);
  e->name = "errno";
  for (auto &b : e->b) b = zero;
  errnoObj = e->id;
}

// ---------------------------------------------------------------- evaluation
const Val &Executor::opv(State &s, const DInst &d, unsigned k) {
  int i = d.ops[k];
  if (i >= 0) return s.F().loc[i];
  return s.F().fn->consts[-i - 1];
}
E Executor::uninit(State &s, unsigned w) {
  unsigned k = s.symCount["uninit"]++;
  return mkSym(w, "uninit#" + std::to_string(k), false, true);
}
E Executor::matw(State &s, E e, unsigned w) { return e ? e : uninit(s, w); }
E Executor::mat(State &s, const Val &v, Type *t) { return v.e ? v.e : uninit(s, width(t)); }
E Executor::ope(State &s, const DInst &d, unsigned k) {
  const Val &v = opv(s, d, k);
  if (v.e) return v.e;
  E e = uninit(s, width(d.I->getOperand(k)->getType()));
  // a register keeps the value it was given
  if (d.ops[k] >= 0 && !v.a) s.F().loc[d.ops[k]] = Val(e);
  return e;
}
E Executor::fresh(State &s, unsigned w, const std::string &name, bool flt) {
  unsigned k = s.symCount[name]++;
  std::string n = name + "#" + std::to_string(k);
  E e = mkSym(w, n, flt);
  s.inputs.push_back({n, e});
  s.model.v.emplace(e->id, APInt(w, 0));
  return e;
}
E Executor::freshRange(State &s, unsigned w, const std::string &name, double lo, double hi) {
  unsigned k = s.symCount[name]++;
  std::string n = name + "#" + std::to_string(k);
  E e = mkSymRange(w, n, lo, hi);
  s.inputs.push_back({n, e});
  return e;
}

// ---------------------------------------------------------------- paths
State *Executor::clone(State &s) {
  auto n = std::make_unique<State>(s);
  n->id = nextState++;
  State *p = n.get();
  work.push_back(std::move(n));
  st.forks++;
  return p;
}
void Executor::addPc(State &s, E c) {
  if (c->isConst()) return;
  if (c->op == Op::And && c->width == 1) {
    addPc(s, c->k[0]);
    addPc(s, c->k[1]);
    return;
  }
  s.pc.push_back(c);
}
static bool pcHasFP(const State &s) {
  for (E c : s.pc)
    if (c->hasFP) return true;
  return false;
}
bool Executor::branchOn(State &s, E c) {
  if (c->isConst()) return c->isTrue();
  E nc = mkNot(c);
  for (E p : s.pc) {
    if (p == c) return true;
    if (p == nc) return false;
  }
  Assignment mt, mf;
  Sat t, f;
  bool useModel = s.modelOk && !(real() && (c->hasFP || pcHasFP(s)));
  if (useModel) {
    Evaluator ev(s.model);
    if (ev.eval(c).isOne()) {
      t = Sat::Yes;
      f = solveQuery(s.pc, nc, &mf);
    } else {
      f = Sat::Yes;
      t = solveQuery(s.pc, c, &mt);
    }
  } else {
    t = solveQuery(s.pc, c, &mt);
    f = t == Sat::No ? Sat::Yes : solveQuery(s.pc, nc, &mf);
  }
  if (t == Sat::No) return false; // pc implies !c
  if (f == Sat::No) return true;
  State *o = clone(s);
  addPc(*o, nc);
  for (auto &p : mf.v) o->model.v[p.first] = p.second;
  if (f == Sat::Unknown) o->modelOk = false;
  addPc(s, c);
  for (auto &p : mt.v) s.model.v[p.first] = p.second;
  if (t == Sat::Unknown) s.modelOk = false;
  return true;
}
void Executor::assume(State &s, E c) {
  if (c->isTrue()) return;
  if (c->isFalse()) { st.infeasible++; kill(s, ""); }
  bool useModel = s.modelOk && !(real() && (c->hasFP || pcHasFP(s)));
  if (useModel && evalExpr(c, s.model).isOne()) {
    addPc(s, c);
    return;
  }
  Assignment m;
  Sat r = solveQuery(s.pc, c, &m);
  if (r == Sat::No) { st.infeasible++; kill(s, ""); }
  addPc(s, c);
  for (auto &p : m.v) s.model.v[p.first] = p.second;
  if (r == Sat::Unknown) s.modelOk = false;
}
APInt Executor::value(State &s, E e) {
  if (e->isConst()) return e->val;
  bool useModel = s.modelOk && !(real() && (e->hasFP || pcHasFP(s)));
  if (useModel) return evalExpr(e, s.model);
  E f = mkSym(e->width, "val#" + std::to_string(e->id));
  Assignment m;
  Sat r = solveQuery(s.pc, mkEq(e, f), &m);
  if (r == Sat::Yes && m.v.count(f->id)) return m.v[f->id];
  if (r == Sat::No) { st.infeasible++; kill(s, ""); }
  inconclusive(s, "cannot find a value");
}
APInt Executor::concretize(State &s, E e) {
  if (e->isConst()) return e->val;
  for (;;) {
    APInt v = value(s, e);
    if (branchOn(s, mkEq(e, mkConst(v)))) return v;
    // pc excludes v although the model suggested it: the model was stale
    s.modelOk = false;
    if (++s.forks > 100000) inconclusive(s, "concretisation");
  }
}
void Executor::kill(State &s, const std::string &why) {
  s.dead = true;
  throw PathDead{};
}
void Executor::inconclusive(State &s, const std::string &why) {
  st.inconclusive[why + " @ " + locOf(s)]++;
  kill(s, why);
}

// ---------------------------------------------------------------- reporting
static std::string diLoc(const DILocation *l) {
  if (!l) return "?";
  return (l->getFilename() + ":" + std::to_string(l->getLine())).str();
}
std::string Executor::locOf(State &s) {
  if (s.th.empty() || s.T().st.empty()) return "end";
  // innermost frame with a location in the code under test, else innermost
  std::string first;
  for (int i = (int)s.T().st.size() - 1; i >= 0; --i) {
    Frame &f = s.T().st[i];
    auto &bb = f.fn->bbs[f.bb];
    if (f.ip >= bb.size()) continue;
    const DILocation *l = bb[f.ip].I->getDebugLoc();
    for (const DILocation *x = l; x; x = x->getInlinedAt()) {
      std::string z = diLoc(x);
      if (first.empty() && x->getLine()) first = z;
      if (x->getFilename().contains("/repo/") || x->getFilename().contains("/ecl_")) return z;
    }
  }
  return first.empty() ? "?" : first;
}
std::vector<std::string> Executor::stackOf(State &s) {
  std::vector<std::string> r;
  if (s.th.empty()) return r;
  for (int i = (int)s.T().st.size() - 1; i >= 0 && r.size() < 20; --i) {
    Frame &f = s.T().st[i];
    auto &bb = f.fn->bbs[f.bb];
    std::string fnm = f.fn->F->getName().str();
    if (f.ip >= bb.size()) { r.push_back(fnm); continue; }
    for (const DILocation *x = bb[f.ip].I->getDebugLoc(); x; x = x->getInlinedAt())
      r.push_back(x->getScope()->getSubprogram()->getName().str() + " " + diLoc(x));
  }
  return r;
}
static std::string hexOf(const APInt &v) {
  SmallString<40> b;
  v.toStringUnsigned(b, 16);
  return std::string(b.str());
}
void Executor::fillInputs(State &s, const Assignment &m, std::vector<std::pair<std::string, std::pair<unsigned, std::string>>> &out) {
  Evaluator ev(m);
  for (auto &p : s.inputs) {
    APInt v = ev.eval(p.second);
    if (p.second->op == Op::Sym && p.second->hasRange && !m.v.count(p.second->id)) {
      double mid = (p.second->flo <= 0 && p.second->fhi >= 0) ? 0.0 : p.second->flo;
      APFloat f(mid);
      bool li;
      f.convert(semOf(p.second->width), APFloat::rmNearestTiesToEven, &li);
      v = f.bitcastToAPInt();
    }
    out.push_back({p.first, {p.second->width, hexOf(v)}});
  }
}
// A real-theory model treats sin, cos and the like as uninterpreted, so its
// values need not exhibit the failure it stands for.  Look for values that do,
// within the symbols' ranges, so that the native replay has something to show.
bool Executor::concretise(State &s, E cond, Assignment &m) {
  std::vector<E> cs = s.pc;
  cs.push_back(cond);
  std::set<uint32_t> ids;
  for (E c : cs)
    for (uint32_t y : c->syms) ids.insert(y);
  bool any = false;
  for (uint32_t y : ids) any = any || symById(y)->hasRange;
  if (!any) return false;
  auto setF = [&](Assignment &a, E sy, double d) {
    APFloat f(d);
    bool li;
    f.convert(semOf(sy->width), APFloat::rmNearestTiesToEven, &li);
    double back = toDouble(f.bitcastToAPInt(), sy->width);
    if (back < sy->flo || back > sy->fhi) return;
    a.v[sy->id] = f.bitcastToAPInt();
  };
  uint64_t x = 0x9E3779B97F4A7C15ull;
  auto rnd = [&]() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (double)(x >> 11) / 9007199254740992.0; };
  for (int round = 0; round < 400; ++round) {
    Assignment a = m;
    for (uint32_t y : ids) {
      E sy = symById(y);
      if (!sy->hasRange) continue;
      if (round == 0 && a.v.count(y)) continue;
      if (round > 0 && round % 4 == 1 && rnd() < 0.5 && a.v.count(y)) continue; // keep some of the model
      double d = sy->flo + (sy->fhi - sy->flo) * rnd();
      if (round % 4 == 2) d = sy->flo + (sy->fhi - sy->flo) * ((int)(rnd() * 9)) / 8.0;
      if (round % 4 == 3) d = std::floor(d);
      setF(a, sy, d);
      if (!a.v.count(y)) setF(a, sy, sy->flo);
    }
    Evaluator ev(a);
    bool ok = true;
    for (E c : cs)
      if (!ev.eval(c).isOne()) { ok = false; break; }
    if (ok) { m = a; return true; }
  }
  return false;
}
bool Executor::report(State &s, const std::string &kind, const std::string &id, E cond, const std::string &detail, bool candidate) {
  std::string key = kind + "|" + id + "|" + locOf(s);
  unsigned &n = vcount[key];
  if (n >= opt.maxCexPerKey) return true;
  std::vector<E> pc = s.pc;
  Assignment m;
  // prefer uninitialised bytes that replay can reproduce
  std::set<uint32_t> un;
  std::vector<E> cs = pc;
  cs.push_back(cond);
  for (E c : cs)
    for (uint32_t y : c->syms)
      if (symById(y)->uninit) un.insert(y);
  Violation v;
  bool have = false;
  if (!un.empty()) {
    v.uninit = true;
    for (unsigned fill : {0xFEu, 0x00u, 0xFFu, 0x7Fu, 0x01u}) {
      std::vector<E> pc2 = pc;
      for (uint32_t y : un) {
        E u = symById(y);
        APInt a(u->width, 0);
        for (unsigned i = 0; i < u->width; i += 8) a |= APInt(u->width, fill).shl(i);
        pc2.push_back(mkEq(u, mkConst(a)));
      }
      Assignment mm;
      // each slice must hold
      bool ok = true;
      for (E c : cs) {
        if (solveQuery(pc2, c, &mm) != Sat::Yes) { ok = false; break; }
      }
      if (ok) { m = mm; have = true; v.fill = fill; break; }
    }
  }
  if (!have) {
    m = s.model;
    Assignment mm;
    Sat r = solveQuery(pc, cond, &mm);
    if (r == Sat::No) return false;
    if (r == Sat::Unknown && real() && concretise(s, cond, mm)) {
      r = Sat::Yes;
    }
    if (r == Sat::Unknown) {
      st.inconclusive["solver gave no answer for " + kind + " " + id]++;
      return true;
    }
    for (auto &p : mm.v) m.v[p.first] = p.second;
    if (!s.modelOk || real()) {
      pc.push_back(cond);
      for (E c : s.pc) {
        Assignment x;
        if (solveQuery(pc, c, &x) == Sat::Yes)
          for (auto &p : x.v) m.v[p.first] = p.second;
      }
    }
  }
  if (real()) concretise(s, cond, m);
  n++;
  v.kind = kind;
  v.id = id;
  v.where = locOf(s);
  v.detail = detail;
  v.stack = stackOf(s);
  v.candidate = candidate || real();
  v.trail = s.trail;
  fillInputs(s, m, v.inputs);
  viols.push_back(std::move(v));
  return true;
}
void Executor::fatal(State &s, const std::string &kind, const std::string &id, const std::string &detail) {
  report(s, kind, id, mkBool(true), detail);
  st.killedByViolation++;
  kill(s, kind);
}
void Executor::check(State &s, E bad, const std::string &kind, const std::string &id, bool candidate) {
  if (bad->isFalse()) return;
  if (bad->isTrue()) {
    if (candidate) { report(s, kind, id, bad, "", true); st.candidatePaths++; kill(s, kind); }
    fatal(s, kind, id);
  }
  Assignment m;
  Sat r = solveQuery(s.pc, bad, &m);
  if (r == Sat::No) return;
  if (r == Sat::Unknown) st.inconclusive["solver gave no answer for " + kind + " " + id + " @ " + locOf(s)]++;
  else {
    report(s, kind, id, bad, "", candidate);
    if (candidate) st.candidatePaths++; else st.killedByViolation++;
  }
  assume(s, mkNot(bad));
}

// ---------------------------------------------------------------- memory
int64_t Executor::constBase(E e, bool &amb) {
  switch (e->op) {
  case Op::Const: return e->width == 64 ? (int64_t)(e->val.getZExtValue() >> 32) : 0;
  case Op::Add: return constBase(e->k[0], amb) + constBase(e->k[1], amb);
  case Op::Ite: {
    int64_t a = constBase(e->k[1], amb), b = constBase(e->k[2], amb);
    if (a != b) amb = true;
    return a;
  }
  default: return 0;
  }
}
bool Executor::splitIte(State &s, E e) {
  switch (e->op) {
  case Op::Ite: {
    bool amb = false;
    int64_t a = constBase(e->k[1], amb), b = constBase(e->k[2], amb);
    if (amb || a != b) {
      branchOn(s, e->k[0]);
      return true;
    }
    return false;
  }
  case Op::Add: return splitIte(s, e->k[0]) || splitIte(s, e->k[1]);
  default: return false;
  }
}
// rebuild an address under the branch decisions already in the path condition
static E simplifyUnder(const State &s, E e, int depth = 0) {
  if (depth > 40) return e;
  if (e->op == Op::Ite) {
    E c = e->k[0], nc = mkNot(c);
    for (E p : s.pc) {
      if (p == c) return simplifyUnder(s, e->k[1], depth + 1);
      if (p == nc) return simplifyUnder(s, e->k[2], depth + 1);
    }
    return e;
  }
  if (e->op == Op::Add) {
    E a = simplifyUnder(s, e->k[0], depth + 1), b = simplifyUnder(s, e->k[1], depth + 1);
    if (a != e->k[0] || b != e->k[1]) return mkBin(Op::Add, a, b);
  }
  return e;
}
Executor::Loc Executor::resolve(State &s, E addr, uint64_t n, bool write) {
  st.memChecks++;
  const char *what = write ? "oob-write" : "oob-read";
  uint32_t id;
  if (!addr->isConst()) {
    for (int i = 0; i < 64; ++i) {
      addr = simplifyUnder(s, addr);
      bool amb = false;
      constBase(addr, amb);
      if (!amb) break;
      // find an ambiguous condition and decide it
      std::function<E(E)> find = [&](E e) -> E {
        if (e->op == Op::Add) {
          if (E r = find(e->k[0])) return r;
          return find(e->k[1]);
        }
        if (e->op == Op::Ite) {
          bool am = false;
          if (constBase(e->k[1], am) != constBase(e->k[2], am) || am) return e->k[0];
        }
        return nullptr;
      };
      E c = find(addr);
      if (!c) break;
      bool d = branchOn(s, c);
      // branchOn may decide without adding to the pc (implied): record it
      E lit = d ? c : mkNot(c);
      bool have = false;
      for (E p : s.pc) have |= p == lit;
      if (!have) s.pc.push_back(lit);
    }
    bool amb = false;
    int64_t b = constBase(addr, amb);
    Obj *o = (b > 0 && !amb) ? s.mem.get((uint32_t)b) : nullptr;
    if (addr->isConst()) id = addr->val.getZExtValue() >> 32;
    else if (o) id = o->id;
    else id = value(s, addr).getZExtValue() >> 32;
    if (!o && !addr->isConst()) {
      // no structural base: split on the object
      E hi = mkExtract(addr, 32, 32);
      if (!hi->isConst()) {
        APInt h = concretize(s, hi);
        id = (uint32_t)h.getZExtValue();
      }
    }
  } else
    id = addr->val.getZExtValue() >> 32;
  Obj *o = s.mem.get(id);
  if (!o) {
    fatal(s, id == 0 ? "null-deref" : "wild-pointer", write ? "write" : "read", addr->isConst() ? hexOf(addr->val) : "");
  }
  if (!o->alive) fatal(s, o->kind == OK::Stack ? "use-after-return" : "use-after-free", write ? "write" : "read", o->name);
  if (o->kind == OK::Func) fatal(s, "wild-pointer", "function");
  if (write && o->ro) fatal(s, "write-to-constant", o->name);
  E off = mkBin(Op::Sub, addr, mkConst(64, baseOf(id)));
  if (n > o->size) fatal(s, what, o->name, "size");
  if (off->isConst()) {
    if (off->val.ugt(o->size - n)) fatal(s, what, o->name, "offset " + hexOf(off->val) + " size " + std::to_string(o->size));
  } else
    check(s, mkBin(Op::Ult, mkConst(64, o->size - n), off), what, o->name);
  return {id, off};
}
E Executor::byteAt(State &s, uint32_t id, uint64_t off) {
  Obj *o = s.mem.get(id);
  if (E b = o->b[off]) return b;
  E u = uninit(s, 8);
  s.mem.write(id)->b[off] = u;
  return u;
}
static bool candidates(E off, uint64_t size, uint64_t n, std::vector<uint64_t> &out) {
  unsigned tz = 0;
  while (tz < 12 && off->kz[tz]) tz++;
  // a constant addend fixes the low bits as well
  uint64_t start = 0, step = 1ull << tz;
  if (tz == 0 && off->op == Op::Add) {
    E c = off->k[0]->isConst() ? off->k[0] : off->k[1]->isConst() ? off->k[1] : nullptr;
    E r = c == off->k[0] ? off->k[1] : off->k[0];
    if (c) {
      unsigned t2 = 0;
      while (t2 < 12 && r->kz[t2]) t2++;
      step = 1ull << t2;
      start = c->val.getLoBits(t2).getZExtValue();
    }
  }
  uint64_t hi = size - n;
  APInt mx = ~off->kz;
  if (mx.ult(hi)) hi = mx.getZExtValue();
  for (uint64_t p = start; p <= hi; p += step) {
    out.push_back(p);
    if (out.size() > 4096) return false;
  }
  return true;
}
E Executor::loadBytes(State &s, const Loc &l, uint64_t n) {
  auto at = [&](uint64_t p) {
    Obj *o = s.mem.get(l.id);
    bool allc = true;
    for (uint64_t i = 0; i < n; ++i)
      if (!o->b[p + i] || !o->b[p + i]->isConst()) { allc = false; break; }
    if (allc) {
      if (n <= 8) {
        uint64_t v = 0;
        for (uint64_t i = 0; i < n; ++i) v |= o->b[p + i]->val.getZExtValue() << (8 * i);
        return mkConst(n * 8, v);
      }
    }
    E r = byteAt(s, l.id, p);
    for (uint64_t i = 1; i < n; ++i) r = mkConcat(byteAt(s, l.id, p + i), r);
    return r;
  };
  if (l.off->isConst()) return at(l.off->val.getZExtValue());
  std::vector<uint64_t> c;
  if (!candidates(l.off, s.mem.get(l.id)->size, n, c)) {
    uint64_t p = concU(s, l.off);
    return at(p);
  }
  if (c.size() > 40) {
    // narrow with the solver
    std::vector<uint64_t> c2;
    uint64_t lo = 0, hi = c.size() - 1;
    while (lo < hi) { // smallest feasible
      uint64_t mid = (lo + hi) / 2;
      if (solveQuery(s.pc, mkBin(Op::Ule, l.off, mkConst(64, c[mid])), nullptr) == Sat::No) lo = mid + 1; else hi = mid;
    }
    uint64_t first = lo;
    hi = c.size() - 1;
    while (lo < hi) {
      uint64_t mid = (lo + hi + 1) / 2;
      if (solveQuery(s.pc, mkBin(Op::Ule, mkConst(64, c[mid]), l.off), nullptr) == Sat::No) hi = mid - 1; else lo = mid;
    }
    for (uint64_t i = first; i <= lo; ++i) c2.push_back(c[i]);
    c.swap(c2);
  }
  if (c.empty()) inconclusive(s, "no candidate offsets");
  E r = at(c.back());
  for (int i = (int)c.size() - 2; i >= 0; --i) r = mkIte(mkEq(l.off, mkConst(64, c[i])), at(c[i]), r);
  return r;
}
void Executor::storeBytes(State &s, const Loc &l, E v) {
  unsigned n = v->width / 8;
  if (l.off->isConst()) {
    uint64_t p = l.off->val.getZExtValue();
    Obj *o = s.mem.write(l.id);
    for (unsigned i = 0; i < n; ++i) o->b[p + i] = mkExtract(v, i * 8, 8);
    return;
  }
  std::vector<uint64_t> c;
  if (!candidates(l.off, s.mem.get(l.id)->size, n, c) || c.size() > 600) {
    uint64_t p = concU(s, l.off);
    storeBytes(s, {l.id, mkConst(64, p)}, v);
    return;
  }
  for (uint64_t p : c) {
    E cnd = mkEq(l.off, mkConst(64, p));
    for (unsigned i = 0; i < n; ++i) {
      E old = byteAt(s, l.id, p + i);
      s.mem.write(l.id)->b[p + i] = mkIte(cnd, mkExtract(v, i * 8, 8), old);
    }
  }
}
static E offAdd(E off, uint64_t d) { return d ? mkBin(Op::Add, off, mkConst(64, d)) : off; }
Val Executor::loadAt(State &s, const Loc &l, Type *t) {
  if (auto *stt = dyn_cast<StructType>(t)) {
    auto *sl = DL.getStructLayout(stt);
    std::vector<Val> v;
    for (unsigned i = 0; i < stt->getNumElements(); ++i)
      v.push_back(loadAt(s, {l.id, offAdd(l.off, sl->getElementOffset(i))}, stt->getElementType(i)));
    return Val(std::move(v));
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    uint64_t es = DL.getTypeAllocSize(et);
    if (t->isVectorTy() && et->isIntegerTy() && et->getIntegerBitWidth() < 8) {
      unsigned nb = DL.getTypeStoreSize(t);
      E x = loadBytes(s, l, nb);
      std::vector<Val> v;
      unsigned ew = et->getIntegerBitWidth();
      for (uint64_t i = 0; i < n; ++i) v.push_back(mkExtract(x, i * ew, ew));
      return Val(std::move(v));
    }
    std::vector<Val> v;
    for (uint64_t i = 0; i < n; ++i) v.push_back(loadAt(s, {l.id, offAdd(l.off, i * es)}, et));
    return Val(std::move(v));
  }
  unsigned w = width(t), n = DL.getTypeStoreSize(t);
  if (l.off->isConst()) {
    // keep wholly uninitialised scalars lazy, so that copying them is harmless
    Obj *o = s.mem.get(l.id);
    uint64_t p = l.off->val.getZExtValue();
    bool any = false;
    for (unsigned i = 0; i < n && !any; ++i) any = o->b[p + i] != nullptr;
    if (!any) {
      E u = uninit(s, n * 8);
      Obj *wo = s.mem.write(l.id);
      for (unsigned i = 0; i < n; ++i) wo->b[p + i] = mkExtract(u, i * 8, 8);
      return mkTrunc(u, w);
    }
  }
  E e = loadBytes(s, l, n);
  if (e->width > w) e = mkTrunc(e, w);
  return e;
}
void Executor::storeAt(State &s, const Loc &l, const Val &v, Type *t) {
  if (auto *stt = dyn_cast<StructType>(t)) {
    auto *sl = DL.getStructLayout(stt);
    for (unsigned i = 0; i < stt->getNumElements(); ++i)
      storeAt(s, {l.id, offAdd(l.off, sl->getElementOffset(i))}, v.a ? (*v.a)[i] : Val(), stt->getElementType(i));
    return;
  }
  if (t->isArrayTy() || t->isVectorTy()) {
    Type *et = t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
    uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    uint64_t es = DL.getTypeAllocSize(et);
    for (uint64_t i = 0; i < n; ++i) storeAt(s, {l.id, offAdd(l.off, i * es)}, v.a ? (*v.a)[i] : Val(), et);
    return;
  }
  unsigned n = DL.getTypeStoreSize(t);
  if (!v.e) {
    if (l.off->isConst()) {
      Obj *o = s.mem.write(l.id);
      uint64_t p = l.off->val.getZExtValue();
      for (unsigned i = 0; i < n; ++i) o->b[p + i] = nullptr;
      return;
    }
    storeBytes(s, l, uninit(s, n * 8));
    return;
  }
  E e = v.e;
  if (e->width < n * 8) e = mkZExt(e, n * 8);
  storeBytes(s, l, e);
}
Val Executor::load(State &s, E addr, Type *t) {
  uint64_t n = DL.getTypeStoreSize(t);
  if (n == 0) return undefOf(t);
  return loadAt(s, resolve(s, addr, n, false), t);
}
void Executor::store(State &s, E addr, const Val &v, Type *t) {
  uint64_t n = DL.getTypeStoreSize(t);
  if (n == 0) return;
  storeAt(s, resolve(s, addr, n, true), v, t);
}
std::vector<E> Executor::readRange(State &s, E addr, uint64_t n) {
  std::vector<E> r;
  if (!n) return r;
  Loc l = resolve(s, addr, n, false);
  if (l.off->isConst()) {
    Obj *o = s.mem.get(l.id);
    uint64_t p = l.off->val.getZExtValue();
    r.assign(o->b.begin() + p, o->b.begin() + p + n);
  } else
    for (uint64_t i = 0; i < n; ++i) r.push_back(loadBytes(s, {l.id, offAdd(l.off, i)}, 1));
  return r;
}
void Executor::writeRange(State &s, E addr, const std::vector<E> &b) {
  if (b.empty()) return;
  Loc l = resolve(s, addr, b.size(), true);
  if (l.off->isConst()) {
    Obj *o = s.mem.write(l.id);
    uint64_t p = l.off->val.getZExtValue();
    for (size_t i = 0; i < b.size(); ++i) o->b[p + i] = b[i];
  } else
    for (size_t i = 0; i < b.size(); ++i) storeBytes(s, {l.id, offAdd(l.off, i)}, b[i] ? b[i] : uninit(s, 8));
}
uint64_t Executor::readC(State &s, uint64_t addr, unsigned n) {
  Loc l = resolve(s, mkConst(64, addr), n, false);
  E e = loadBytes(s, l, n);
  return value(s, e).getZExtValue();
}
std::string Executor::readStr(State &s, E addr) {
  std::string r;
  uint64_t a = value(s, addr).getZExtValue();
  for (;;) {
    char c = (char)readC(s, a++, 1);
    if (!c || r.size() > 4096) return r;
    r += c;
  }
}
uint64_t Executor::allocHeap(State &s, OK kind, uint64_t size, const Value *site) {
  if (size > (1ull << 26)) inconclusive(s, "huge allocation");
  Obj *o = s.mem.add(kind, size);
  o->site = site;
  o->name = "heap";
  if (kind != OK::Exc) s.live++;
  return baseOf(o->id);
}
void Executor::freeHeap(State &s, E addr, OK kind, const char *fn) {
  if (!addr->isConst()) addr = simplifyUnder(s, addr);
  if (!addr->isConst()) {
    for (int i = 0; i < 64 && !addr->isConst(); ++i) {
      if (!splitIte(s, addr)) break;
      addr = simplifyUnder(s, addr);
    }
    if (!addr->isConst()) addr = mkConst(concretize(s, addr));
  }
  uint64_t a = addr->val.getZExtValue();
  if (!a) return;
  Obj *o = s.mem.get(a >> 32);
  if (!o) fatal(s, "invalid-free", fn, hexOf(addr->val));
  if (o->kind != OK::Malloc && o->kind != OK::New && o->kind != OK::NewArr) fatal(s, "invalid-free", fn, o->name);
  if (!o->alive) fatal(s, "double-free", fn);
  if (a != baseOf(o->id)) fatal(s, "invalid-free", fn, "interior pointer");
  if (o->kind != kind) fatal(s, "alloc-dealloc-mismatch", fn);
  Obj *w = s.mem.write(o->id);
  w->alive = false;
  w->b.clear();
  w->b.shrink_to_fit();
  s.live--;
}

// ---------------------------------------------------------------- exceptions
std::string Executor::tiKind(State &s, uint64_t ti) {
  Obj *o = s.mem.get(ti >> 32);
  if (!o || o->kind == OK::Extern) return "extern";
  uint64_t v = readC(s, ti, 8);
  Obj *k = s.mem.get(v >> 32);
  return k ? k->name : "";
}
std::string Executor::tiName(State &s, uint64_t ti) {
  Obj *o = s.mem.get(ti >> 32);
  return o ? o->name : "?";
}
bool Executor::upcast(State &s, uint64_t from, uint64_t to, uint64_t obj, uint64_t &out, int depth) {
  if (from == to || tiName(s, from) == tiName(s, to)) { out = obj; return true; }
  if (depth > 20) return false;
  std::string k = tiKind(s, from);
  if (k.find("20__si_class_type_info") != std::string::npos) return upcast(s, readC(s, from + 16, 8), to, obj, out, depth + 1);
  if (k.find("21__vmi_class_type_info") != std::string::npos) {
    uint64_t n = readC(s, from + 20, 4);
    for (uint64_t i = 0; i < n; ++i) {
      uint64_t base = readC(s, from + 24 + 16 * i, 8);
      int64_t of = (int64_t)readC(s, from + 32 + 16 * i, 8);
      bool virt = of & 1, pub = of & 2;
      if (!pub) continue;
      int64_t delta = of >> 8;
      uint64_t sub = obj;
      if (virt) {
        if (!obj) continue;
        uint64_t vptr = readC(s, obj, 8);
        delta = (int64_t)readC(s, vptr + delta, 8);
      }
      sub = obj + delta;
      if (upcast(s, base, to, sub, out, depth + 1)) return true;
    }
  }
  return false;
}
bool Executor::matchCatch(State &s, const ExcInfo &x, uint64_t cti, uint64_t &adj) {
  uint64_t obj = baseOf(x.obj);
  if (!cti) { adj = obj; return true; }
  std::string k = tiKind(s, x.tinfo);
  if (tiName(s, x.tinfo).rfind("_ZTIP", 0) == 0) {
    if (x.tinfo == cti) { adj = readC(s, obj, 8); return true; }
    std::string a = tiName(s, x.tinfo).substr(5), b = tiName(s, cti);
    if (b.rfind("_ZTIP", 0) == 0) {
      b = b.substr(5);
      if (b == "K" + a || b == "v" || (b == "Kv")) { adj = readC(s, obj, 8); return true; }
    }
    return false;
  }
  return upcast(s, x.tinfo, cti, obj, adj);
}
int Executor::lpMatch(State &s, LandingPadInst *lp, uint32_t exc, bool &cleanup, uint64_t &adj) {
  const ExcInfo &x = s.exc[exc];
  cleanup = lp->isCleanup();
  for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
    Constant *c = lp->getClause(i);
    if (lp->isCatch(i)) {
      uint64_t ti = evalConst(c).e->val.getZExtValue();
      if (matchCatch(s, x, ti, adj)) return ti ? (int)(ti >> 32) : 0x7fffffff;
    } else {
      auto *at = cast<ArrayType>(c->getType());
      bool allowed = false;
      for (unsigned j = 0; j < at->getNumElements(); ++j) {
        uint64_t ti = evalConst(c->getAggregateElement(j)).e->val.getZExtValue(), dummy;
        allowed |= matchCatch(s, x, ti, dummy);
      }
      if (!allowed) { adj = baseOf(x.obj); return -1; }
    }
  }
  return 0;
}
void Executor::unwind(State &s, uint32_t exc, bool) {
  Thread &t = s.T();
  // phase 1: is there a handler at all?
  bool found = false;
  for (int i = (int)t.st.size() - 1; i >= 0 && !found; --i) {
    Frame &f = t.st[i];
    if (f.fn->F->getName() == "__clang_call_terminate") break;
    auto *I = f.fn->bbs[f.bb][f.ip].I;
    if (auto *inv = dyn_cast<InvokeInst>(I)) {
      bool cl;
      uint64_t adj;
      if (lpMatch(s, inv->getUnwindDest()->getLandingPadInst(), exc, cl, adj)) found = true;
    } else if (auto *cb = dyn_cast<CallBase>(I)) {
      if (cb->doesNotThrow() && i != (int)t.st.size() - 1) break;
    }
  }
  if (!found) fatal(s, "uncaught-exception", tiName(s, s.exc[exc].tinfo));
  for (;;) {
    Frame &f = t.st.back();
    auto *I = f.fn->bbs[f.bb][f.ip].I;
    if (auto *inv = dyn_cast<InvokeInst>(I)) {
      bool cl;
      uint64_t adj = 0;
      int sel = lpMatch(s, inv->getUnwindDest()->getLandingPadInst(), exc, cl, adj);
      if (sel || cl) {
        if (sel) s.exc[exc].adjusted = adj;
        t.lpPtr = baseOf(exc);
        t.lpSel = sel;
        jump(s, f.fn->bbIdx[inv->getUnwindDest()]);
        return;
      }
    }
    popFrame(s);
  }
}

// ---------------------------------------------------------------- control
void Executor::jump(State &s, unsigned bb) {
  Frame &f = s.F();
  unsigned from = f.bb;
  f.prevbb = from;
  f.bb = bb;
  f.ip = 0;
  auto &ins = f.fn->bbs[bb];
  // phis in parallel
  std::vector<std::pair<int, Val>> upd;
  const BasicBlock *pb = nullptr;
  while (f.ip < ins.size() && ins[f.ip].op == Instruction::PHI) {
    auto *p = cast<PHINode>(ins[f.ip].I);
    if (!pb) {
      pb = ins.size() ? f.fn->bbs[from].back().I->getParent() : nullptr;
    }
    int k = p->getBasicBlockIndex(pb);
    int o = ins[f.ip].ops[k];
    upd.push_back({ins[f.ip].dest, o >= 0 ? f.loc[o] : f.fn->consts[-o - 1]});
    f.ip++;
  }
  for (auto &u : upd) f.loc[u.first] = std::move(u.second);
}
void Executor::advance(State &s) {
  Frame &f = s.F();
  auto *I = f.fn->bbs[f.bb][f.ip].I;
  if (auto *inv = dyn_cast<InvokeInst>(I)) jump(s, f.fn->bbIdx[inv->getNormalDest()]);
  else f.ip++;
}
// deliver the result of the call the top frame is at
void Executor::finishCall(State &s, Val v) {
  Frame &f = s.F();
  const DInst &d = f.fn->bbs[f.bb][f.ip];
  if (d.dest >= 0) f.loc[d.dest] = std::move(v);
  advance(s);
}
void Executor::pushFrame(State &s, Function *F, std::vector<Val> args, RetAct act, uint32_t actArg) {
  if (s.T().st.size() > opt.maxDepth) fatal(s, "stack-overflow", F->getName().str());
  FnInfo *fi = info(F);
  Frame f;
  f.fn = fi;
  f.loc.resize(fi->nloc);
  f.act = act;
  f.actArg = actArg;
  unsigned n = F->arg_size();
  for (unsigned i = 0; i < args.size(); ++i) {
    if (i < n) {
      // byval arguments are copied
      if (F->hasParamAttribute(i, Attribute::ByVal)) {
        Type *t = F->getParamByValType(i);
        uint64_t sz = DL.getTypeAllocSize(t);
        auto b = readRange(s, args[i].e, sz);
        Obj *o = s.mem.add(OK::Stack, sz);
        o->name = "byval";
        o->b = b;
        f.allocas.push_back(o->id);
        f.loc[i] = mkConst(64, baseOf(o->id));
      } else
        f.loc[i] = args[i];
    } else
      f.varargs.push_back(args[i]);
  }
  s.T().st.push_back(std::move(f));
}
void Executor::popFrame(State &s) {
  for (uint32_t id : s.F().allocas) {
    Obj *o = s.mem.write(id);
    o->alive = false;
    o->b.clear();
    o->b.shrink_to_fit();
  }
  s.T().st.pop_back();
}
void Executor::doRet(State &s, Val v) {
  RetAct act = s.F().act;
  uint32_t arg = s.F().actArg;
  popFrame(s);
  if (act == RetAct::FreeExc) {
    Obj *o = s.mem.write(arg);
    o->alive = false;
    o->b.clear();
    s.exc.erase(arg);
  }
  if (s.T().st.empty()) return;
  if (act == RetAct::FreeExc) { finishCall(s, Val()); return; }
  finishCall(s, std::move(v));
}
void Executor::schedule(State &s, bool mustSwitch) {
  std::vector<unsigned> run;
  for (unsigned i = 0; i < s.th.size(); ++i)
    if (!s.th[i].done && !s.th[i].blocked) run.push_back(i);
  if (run.empty()) {
    report(s, "deadlock", "all threads blocked", mkBool(true));
    st.killedByViolation++;
    kill(s, "deadlock");
  }
  unsigned k = 0;
  bool choice = run.size() > 1;
  if (choice) k = s.symCount["sched"]++;
  // keep running the current thread first (depth-first order)
  std::stable_sort(run.begin(), run.end(), [&](unsigned a, unsigned b) { return (a == s.cur) > (b == s.cur); });
  std::vector<State *> alt;
  for (size_t i = 1; i < run.size(); ++i) {
    State *o = clone(s);
    o->cur = run[i];
    o->inputs.push_back({"sched#" + std::to_string(k), mkConst(8, run[i])});
  }
  if (choice) s.inputs.push_back({"sched#" + std::to_string(k), mkConst(8, run[0])});
  s.cur = run[0];
}
void Executor::endPath(State &s) {
  st.completed++;
  s.dead = true;
  // keep some completed paths as traces for validation against the real build
  bool unk = false;
  for (E c : s.pc)
    for (uint32_t y : c->syms) unk |= symById(y)->uninit;
  for (auto &o : s.outs)
    for (uint32_t y : o.second->syms) unk |= symById(y)->uninit;
  if (!unk && s.modelOk && !real()) {
    if (traces.size() < opt.traces || (st.completed % 97 == 0 && traces.size() < 4 * opt.traces)) {
      PathTrace t;
      fillInputs(s, s.model, t.inputs);
      Evaluator ev(s.model);
      for (auto &o : s.outs) t.outs.push_back({o.first, hexOf(ev.eval(o.second))});
      traces.push_back(std::move(t));
    }
  }
}

void Executor::step(State &s) {
  if (s.T().st.empty()) {
    if (!s.T().pend.empty()) {
      auto p = s.T().pend.front();
      s.T().pend.erase(s.T().pend.begin());
      Function *F = fnById[p.first >> 32];
      std::vector<Val> a;
      if (F->arg_size() == 1) a.push_back(p.second);
      pushFrame(s, F, a);
      return;
    }
    s.T().done = true;
    if (s.cur == 0) { endPath(s); return; }
    for (auto &t : s.th)
      if (t.blocked && t.waitOn == (0xdead0000ull | s.cur)) t.blocked = false;
    schedule(s, true);
    return;
  }
  Frame &f = s.F();
  const DInst &d = f.fn->bbs[f.bb][f.ip];
  if (++s.instrs > opt.maxInstr) fatal(s, "hang", "instruction limit");
  st.instrs++;
  if (seenI.insert(d.I).second) {
    for (const DILocation *x = d.I->getDebugLoc(); x; x = x->getInlinedAt()) {
      std::string fn = (x->getDirectory() + "/" + x->getFilename()).str();
      if (x->getFilename().starts_with("/")) fn = x->getFilename().str();
      size_t p = fn.find("/repo/");
      if (p != std::string::npos) {
        auto *sp = x->getScope()->getSubprogram();
        st.repoFns.insert(sp->getName().str());
        st.repoLines.insert({fn.substr(p + 6), x->getLine()});
      }
    }
  }
  exec(s, d);
}

static Val mapEl(const Val &a, const std::function<Val(const Val &)> &f) {
  std::vector<Val> r;
  for (auto &x : *a.a) r.push_back(f(x));
  return Val(std::move(r));
}

void Executor::exec(State &s, const DInst &d) {
  Instruction *I = d.I;
  Type *ty = I->getType();
  bool vec = ty->isVectorTy();
  Type *sty = vec ? cast<VectorType>(ty)->getElementType() : ty;
  Frame &f = s.F();
  auto next = [&] { s.F().ip++; };
  auto bin = [&](const std::function<E(E, E)> &op) {
    if (vec || I->getOperand(0)->getType()->isVectorTy()) {
      auto &a = opv(s, d, 0), &b = opv(s, d, 1);
      Type *et = cast<VectorType>(I->getOperand(0)->getType())->getElementType();
      std::vector<Val> r;
      for (size_t i = 0; i < a.a->size(); ++i) {
        E x = mat(s, (*a.a)[i], et), y = mat(s, (*b.a)[i], et);
        r.push_back(op(x, y));
      }
      setDest(s, d, Val(std::move(r)));
    } else {
      E a = ope(s, d, 0), b = ope(s, d, 1);
      setDest(s, d, op(a, b));
    }
    next();
  };
  auto un = [&](const std::function<E(E)> &op) {
    if (vec) {
      auto &a = opv(s, d, 0);
      Type *et = cast<VectorType>(I->getOperand(0)->getType())->getElementType();
      std::vector<Val> r;
      for (auto &x : *a.a) r.push_back(op(mat(s, x, et)));
      setDest(s, d, Val(std::move(r)));
    } else
      setDest(s, d, op(ope(s, d, 0)));
    next();
  };
  switch (d.op) {
  case Instruction::Ret: {
    Val v;
    if (I->getNumOperands()) v = opv(s, d, 0);
    doRet(s, v);
    return;
  }
  case Instruction::Br: {
    auto *b = cast<BranchInst>(I);
    if (b->isUnconditional()) { jump(s, f.fn->bbIdx[b->getSuccessor(0)]); return; }
    E c = ope(s, d, 0);
    bool t = branchOn(s, c);
    jump(s, f.fn->bbIdx[b->getSuccessor(t ? 0 : 1)]);
    return;
  }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(I);
    E v = ope(s, d, 0);
    if (v->isConst()) {
      auto *ci = ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), v->val);
      jump(s, f.fn->bbIdx[sw->findCaseValue(cast<ConstantInt>(ci))->getCaseSuccessor()]);
      return;
    }
    // group the cases by destination
    std::map<unsigned, E> dest;
    E any = mkBool(false);
    std::vector<unsigned> order;
    for (auto &c : sw->cases()) {
      E q = mkEq(v, mkConst(c.getCaseValue()->getValue()));
      unsigned b = f.fn->bbIdx[c.getCaseSuccessor()];
      auto it = dest.find(b);
      if (it == dest.end()) { dest[b] = q; order.push_back(b); }
      else it->second = mkLOr(it->second, q);
      any = mkLOr(any, q);
    }
    for (unsigned b : order)
      if (branchOn(s, dest[b])) { jump(s, b); return; }
    jump(s, f.fn->bbIdx[sw->getDefaultDest()]);
    return;
  }
  case Instruction::Unreachable: fatal(s, "unreachable", "undefined behaviour (end of non-void function or trap)");
  case Instruction::Resume: {
    uint32_t exc = s.T().lpPtr >> 32;
    const Val &v = opv(s, d, 0);
    if (v.a && (*v.a)[0].e && (*v.a)[0].e->isConst()) exc = (*v.a)[0].e->val.getZExtValue() >> 32;
    // leave this frame, continue in the caller
    Thread &t = s.T();
    popFrame(s);
    if (t.st.empty()) fatal(s, "uncaught-exception", tiName(s, s.exc[exc].tinfo));
    unwind(s, exc, false);
    return;
  }
  case Instruction::Invoke: case Instruction::Call: call(s, d); return;
  case Instruction::LandingPad: {
    std::vector<Val> v;
    v.push_back(mkConst(64, s.T().lpPtr));
    v.push_back(mkConst(32, (uint32_t)s.T().lpSel));
    setDest(s, d, Val(std::move(v)));
    next();
    return;
  }
  case Instruction::FNeg: un([](E a) { return mkF1(Op::FNeg, a); }); return;
  case Instruction::Add: bin([](E a, E b) { return mkBin(Op::Add, a, b); }); return;
  case Instruction::Sub: bin([](E a, E b) { return mkBin(Op::Sub, a, b); }); return;
  case Instruction::Mul: bin([](E a, E b) { return mkBin(Op::Mul, a, b); }); return;
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    E b = ope(s, d, 1);
    st.ubChecks++;
    if (!vec) check(s, mkEq(b, mkConst(b->width, 0)), "div-by-zero", "integer division");
    Op o = d.op == Instruction::UDiv ? Op::UDiv : d.op == Instruction::SDiv ? Op::SDiv : d.op == Instruction::URem ? Op::URem : Op::SRem;
    if (!vec && (o == Op::SDiv || o == Op::SRem)) {
      E a = ope(s, d, 0);
      check(s, mkLAnd(mkEq(b, mkConst(APInt::getAllOnes(b->width))), mkEq(a, mkConst(APInt::getSignedMinValue(b->width)))), "ub", "division overflow");
      // on a path where the dividend cannot be negative the unsigned operation is the same and far easier to decide
      if (!a->isConst() && b->isConst() && !b->val.isNegative() && !b->val.isPowerOf2()) {
        E neg = mkBin(Op::Slt, a, mkConst(a->width, 0));
        if (neg->isFalse() || (!neg->isTrue() && solveQuery(s.pc, neg, nullptr) == Sat::No)) o = o == Op::SDiv ? Op::UDiv : Op::URem;
        else if (solveQuery(s.pc, mkNot(neg), nullptr) == Sat::No) {
          // always negative: negate around the unsigned operation
          Op uo = o == Op::SDiv ? Op::UDiv : Op::URem;
          bin([uo](E a, E b) { E z = mkConst(a->width, 0); return mkBin(Op::Sub, z, mkBin(uo, mkBin(Op::Sub, z, a), b)); });
          return;
        }
      }
    }
    bin([o](E a, E b) { return mkBin(o, a, b); });
    return;
  }
  case Instruction::And: bin([](E a, E b) { return mkBin(Op::And, a, b); }); return;
  case Instruction::Or: bin([](E a, E b) { return mkBin(Op::Or, a, b); }); return;
  case Instruction::Xor: bin([](E a, E b) { return mkBin(Op::Xor, a, b); }); return;
  case Instruction::Shl: bin([](E a, E b) { return mkBin(Op::Shl, a, b); }); return;
  case Instruction::LShr: bin([](E a, E b) { return mkBin(Op::LShr, a, b); }); return;
  case Instruction::AShr: bin([](E a, E b) { return mkBin(Op::AShr, a, b); }); return;
  case Instruction::FAdd: bin([](E a, E b) { return mkF2(Op::FAdd, a, b); }); return;
  case Instruction::FSub: bin([](E a, E b) { return mkF2(Op::FSub, a, b); }); return;
  case Instruction::FMul: bin([](E a, E b) { return mkF2(Op::FMul, a, b); }); return;
  case Instruction::FDiv: {
    if (real() && !vec) {
      E b = ope(s, d, 1);
      if (!b->isConst()) {
        E z = mkF2(Op::FOeq, b, mkConst(b->width, 0));
        check(s, z, "fdiv-zero", "floating point division by zero", true);
      }
    }
    bin([](E a, E b) { return mkF2(Op::FDiv, a, b); });
    return;
  }
  case Instruction::FRem: bin([](E a, E b) { return mkF2(Op::FRem, a, b); }); return;
  case Instruction::ICmp: {
    auto p = cast<ICmpInst>(I)->getPredicate();
    bin([p](E a, E b) -> E {
      switch (p) {
      case CmpInst::ICMP_EQ: return mkEq(a, b);
      case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
      case CmpInst::ICMP_UGT: return mkBin(Op::Ult, b, a);
      case CmpInst::ICMP_UGE: return mkBin(Op::Ule, b, a);
      case CmpInst::ICMP_ULT: return mkBin(Op::Ult, a, b);
      case CmpInst::ICMP_ULE: return mkBin(Op::Ule, a, b);
      case CmpInst::ICMP_SGT: return mkBin(Op::Slt, b, a);
      case CmpInst::ICMP_SGE: return mkBin(Op::Sle, b, a);
      case CmpInst::ICMP_SLT: return mkBin(Op::Slt, a, b);
      default: return mkBin(Op::Sle, a, b);
      }
    });
    return;
  }
  case Instruction::FCmp: {
    auto p = cast<FCmpInst>(I)->getPredicate();
    bin([p](E a, E b) -> E {
      auto uno = [&] { return mkF2(Op::FUno, a, b); };
      switch (p) {
      case CmpInst::FCMP_FALSE: return mkBool(false);
      case CmpInst::FCMP_TRUE: return mkBool(true);
      case CmpInst::FCMP_OEQ: return mkF2(Op::FOeq, a, b);
      case CmpInst::FCMP_OGT: return mkF2(Op::FOlt, b, a);
      case CmpInst::FCMP_OGE: return mkF2(Op::FOle, b, a);
      case CmpInst::FCMP_OLT: return mkF2(Op::FOlt, a, b);
      case CmpInst::FCMP_OLE: return mkF2(Op::FOle, a, b);
      case CmpInst::FCMP_ONE: return mkLAnd(mkNot(mkF2(Op::FOeq, a, b)), mkNot(uno()));
      case CmpInst::FCMP_ORD: return mkNot(uno());
      case CmpInst::FCMP_UNO: return uno();
      case CmpInst::FCMP_UEQ: return mkLOr(mkF2(Op::FOeq, a, b), uno());
      case CmpInst::FCMP_UGT: return mkNot(mkF2(Op::FOle, a, b));
      case CmpInst::FCMP_UGE: return mkNot(mkF2(Op::FOlt, a, b));
      case CmpInst::FCMP_ULT: return mkNot(mkF2(Op::FOle, b, a));
      case CmpInst::FCMP_ULE: return mkNot(mkF2(Op::FOlt, b, a));
      default: return mkNot(mkF2(Op::FOeq, a, b));
      }
    });
    return;
  }
  case Instruction::Trunc: un([&](E a) { return mkTrunc(a, width(sty)); }); return;
  case Instruction::ZExt: un([&](E a) { return mkZExt(a, width(sty)); }); return;
  case Instruction::SExt: un([&](E a) { return mkSExt(a, width(sty)); }); return;
  case Instruction::FPToSI: un([&](E a) { return mkFCast(Op::FToSI, a, width(sty)); }); return;
  case Instruction::FPToUI: un([&](E a) { return mkFCast(Op::FToUI, a, width(sty)); }); return;
  case Instruction::SIToFP: un([&](E a) { return mkFCast(Op::SIToF, a, width(sty)); }); return;
  case Instruction::UIToFP: un([&](E a) { return mkFCast(Op::UIToF, a, width(sty)); }); return;
  case Instruction::FPExt: un([&](E a) { return mkFCast(Op::FExt, a, width(sty)); }); return;
  case Instruction::FPTrunc: un([&](E a) { return mkFCast(Op::FTrunc, a, width(sty)); }); return;
  case Instruction::PtrToInt: case Instruction::IntToPtr:
    un([&](E a) { unsigned w = width(sty); return a->width > w ? mkTrunc(a, w) : mkZExt(a, w); });
    return;
  case Instruction::AddrSpaceCast: setDest(s, d, opv(s, d, 0)); next(); return;
  case Instruction::BitCast: {
    Type *from = I->getOperand(0)->getType();
    if (from->isVectorTy() || vec) {
      // flatten to bits, split again
      E bits = nullptr;
      if (from->isVectorTy()) {
        auto &a = opv(s, d, 0);
        Type *et = cast<VectorType>(from)->getElementType();
        for (auto &x : *a.a) { E y = mat(s, x, et); bits = bits ? mkConcat(y, bits) : y; }
      } else bits = ope(s, d, 0);
      if (vec) {
        std::vector<Val> r;
        unsigned w = width(sty), n = cast<FixedVectorType>(ty)->getNumElements();
        for (unsigned i = 0; i < n; ++i) r.push_back(mkExtract(bits, i * w, w));
        setDest(s, d, Val(std::move(r)));
      } else setDest(s, d, bits);
    } else setDest(s, d, opv(s, d, 0));
    next();
    return;
  }
  case Instruction::Freeze: {
    if (!opv(s, d, 0).a) { E e = ope(s, d, 0); setDest(s, d, e); }
    else setDest(s, d, opv(s, d, 0));
    next();
    return;
  }
  case Instruction::Select: {
    Type *ct = I->getOperand(0)->getType();
    std::function<Val(E, const Val &, const Val &, Type *)> sel = [&](E c, const Val &a, const Val &b, Type *t) -> Val {
      if (c->isConst()) return c->isTrue() ? a : b;
      if (a.a || b.a) {
        std::vector<Val> r;
        size_t n = a.a ? a.a->size() : b.a->size();
        for (size_t i = 0; i < n; ++i) {
          Type *et = t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<VectorType>(t)->getElementType();
          r.push_back(sel(c, a.a ? (*a.a)[i] : Val(), b.a ? (*b.a)[i] : Val(), et));
        }
        return Val(std::move(r));
      }
      if (!a.e && !b.e) return Val();
      E x = mat(s, a, t), y = mat(s, b, t);
      return mkIte(c, x, y);
    };
    if (ct->isVectorTy()) {
      auto &c = opv(s, d, 0), &a = opv(s, d, 1), &b = opv(s, d, 2);
      std::vector<Val> r;
      for (size_t i = 0; i < c.a->size(); ++i) r.push_back(sel(matw(s, (*c.a)[i].e, 1), (*a.a)[i], (*b.a)[i], sty));
      setDest(s, d, Val(std::move(r)));
    } else {
      E c = ope(s, d, 0);
      if (s.split) c = mkBool(branchOn(s, c));
      Val a = opv(s, d, 1), b = opv(s, d, 2);
      setDest(s, d, sel(c, a, b, ty));
    }
    next();
    return;
  }
  case Instruction::Alloca: {
    auto *ai = cast<AllocaInst>(I);
    uint64_t n = DL.getTypeAllocSize(ai->getAllocatedType());
    E cnt = ope(s, d, 0);
    uint64_t c = concU(s, cnt);
    Obj *o = s.mem.add(OK::Stack, n * c);
    o->site = I;
    o->name = ("stack:" + I->getName()).str();
    s.F().allocas.push_back(o->id);
    setDest(s, d, mkConst(64, baseOf(o->id)));
    next();
    return;
  }
  case Instruction::Load: {
    E a = ope(s, d, 0);
    Val v = load(s, a, ty);
    setDest(s, d, std::move(v));
    next();
    return;
  }
  case Instruction::Store: {
    E a = ope(s, d, 1);
    Val v = opv(s, d, 0);
    store(s, a, v, I->getOperand(0)->getType());
    next();
    return;
  }
  case Instruction::GetElementPtr: {
    if (vec) inconclusive(s, "vector gep");
    auto *g = cast<GetElementPtrInst>(I);
    E a = ope(s, d, 0);
    unsigned k = 1;
    for (auto gt = gep_type_begin(g), ge = gep_type_end(g); gt != ge; ++gt, ++k) {
      if (StructType *stt = gt.getStructTypeOrNull()) {
        unsigned fi = cast<ConstantInt>(gt.getOperand())->getZExtValue();
        a = mkBin(Op::Add, a, mkConst(64, DL.getStructLayout(stt)->getElementOffset(fi)));
      } else {
        E i = ope(s, d, k);
        uint64_t es = gt.getSequentialElementStride(DL);
        if (i->width < 64) i = mkSExt(i, 64);
        else if (i->width > 64) i = mkTrunc(i, 64);
        a = mkBin(Op::Add, a, mkBin(Op::Mul, i, mkConst(64, es)));
      }
    }
    setDest(s, d, a);
    next();
    return;
  }
  case Instruction::ExtractValue: {
    Val v = opv(s, d, 0);
    for (unsigned i : cast<ExtractValueInst>(I)->indices()) v = v.a ? Val((*v.a)[i]) : Val();
    setDest(s, d, v);
    next();
    return;
  }
  case Instruction::InsertValue: {
    auto *iv = cast<InsertValueInst>(I);
    std::function<Val(const Val &, Type *, ArrayRef<unsigned>, const Val &)> ins = [&](const Val &a, Type *t, ArrayRef<unsigned> ix, const Val &x) -> Val {
      if (ix.empty()) return x;
      std::vector<Val> r = a.a ? *a.a : *undefOf(t).a;
      Type *et = t->isStructTy() ? t->getStructElementType(ix[0]) : t->getArrayElementType();
      r[ix[0]] = ins(r[ix[0]], et, ix.slice(1), x);
      return Val(std::move(r));
    };
    setDest(s, d, ins(opv(s, d, 0), ty, iv->getIndices(), opv(s, d, 1)));
    next();
    return;
  }
  case Instruction::ExtractElement: {
    E i = ope(s, d, 1);
    auto &v = opv(s, d, 0);
    if (i->isConst()) setDest(s, d, (*v.a)[i->val.getZExtValue()]);
    else {
      Type *et = cast<VectorType>(I->getOperand(0)->getType())->getElementType();
      E r = mat(s, v.a->back(), et);
      for (int k = (int)v.a->size() - 2; k >= 0; --k) r = mkIte(mkEq(i, mkConst(i->width, k)), mat(s, (*v.a)[k], et), r);
      setDest(s, d, r);
    }
    next();
    return;
  }
  case Instruction::InsertElement: {
    E i = ope(s, d, 2);
    if (!i->isConst()) i = mkConst(concretize(s, i));
    std::vector<Val> r = opv(s, d, 0).a ? *opv(s, d, 0).a : *undefOf(ty).a;
    r[i->val.getZExtValue()] = opv(s, d, 1);
    setDest(s, d, Val(std::move(r)));
    next();
    return;
  }
  case Instruction::ShuffleVector: {
    auto *sv = cast<ShuffleVectorInst>(I);
    const Val &a = opv(s, d, 0), &b = opv(s, d, 1);
    int n = cast<FixedVectorType>(I->getOperand(0)->getType())->getNumElements();
    std::vector<Val> r;
    for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? Val() : m < n ? (a.a ? (*a.a)[m] : Val()) : (b.a ? (*b.a)[m - n] : Val()));
    setDest(s, d, Val(std::move(r)));
    next();
    return;
  }
  case Instruction::Fence: next(); return;
  case Instruction::AtomicRMW: {
    auto *rm = cast<AtomicRMWInst>(I);
    E a = ope(s, d, 0), v = ope(s, d, 1);
    E old = mat(s, load(s, a, ty), ty), nv;
    switch (rm->getOperation()) {
    case AtomicRMWInst::Xchg: nv = v; break;
    case AtomicRMWInst::Add: nv = mkBin(Op::Add, old, v); break;
    case AtomicRMWInst::Sub: nv = mkBin(Op::Sub, old, v); break;
    case AtomicRMWInst::And: nv = mkBin(Op::And, old, v); break;
    case AtomicRMWInst::Or: nv = mkBin(Op::Or, old, v); break;
    case AtomicRMWInst::Xor: nv = mkBin(Op::Xor, old, v); break;
    default: inconclusive(s, "atomicrmw");
    }
    store(s, a, nv, ty);
    setDest(s, d, old);
    next();
    return;
  }
  case Instruction::AtomicCmpXchg: {
    E a = ope(s, d, 0), c = ope(s, d, 1), n = ope(s, d, 2);
    Type *et = I->getOperand(1)->getType();
    E old = mat(s, load(s, a, et), et);
    E eq = mkEq(old, c);
    store(s, a, mkIte(eq, n, old), et);
    setDest(s, d, Val(std::vector<Val>{Val(old), Val(eq)}));
    next();
    return;
  }
  default: inconclusive(s, std::string("unsupported instruction ") + I->getOpcodeName());
  }
}

void Executor::callTarget(State &s, Function *F, CallBase *cb, std::vector<Val> &args) {
  auto it = bcache.find(F);
  Builtin *b;
  if (it != bcache.end()) b = it->second;
  else {
    std::string n = F->getName().str();
    b = nullptr;
    auto j = builtins.find(n);
    if (j == builtins.end() && n.rfind("llvm.", 0) == 0) {
      // strip type suffixes
      std::string k = n;
      while (j == builtins.end() && k.rfind('.') > 4) {
        k = k.substr(0, k.rfind('.'));
        j = builtins.find(k);
      }
    }
    if (j != builtins.end()) b = &j->second;
    bcache[F] = b;
  }
  if (b) { (*b)(s, cb, args); return; }
  if (!F->isDeclaration()) { pushFrame(s, F, args); return; }
  externals.insert(F->getName().str());
  inconclusive(s, "external function " + F->getName().str());
}
void Executor::call(State &s, const DInst &d) {
  auto *cb = cast<CallBase>(d.I);
  unsigned n = cb->arg_size();
  std::vector<Val> args;
  args.reserve(n);
  if (cb->isInlineAsm()) {
    auto *ia = cast<InlineAsm>(cb->getCalledOperand());
    if (ia->getAsmString().empty()) {
      if (d.dest >= 0) s.F().loc[d.dest] = n ? opv(s, d, 0) : Val();
      advance(s);
      return;
    }
    inconclusive(s, "inline assembly");
  }
  Value *cv = cb->getCalledOperand()->stripPointerCasts();
  if (auto *ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
  Function *F = dyn_cast<Function>(cv);
  if (!F) {
    E t = ope(s, d, d.ops.size() - 1 - 0);
    // callee is the last operand
    t = simplifyUnder(s, t);
    for (int i = 0; i < 64 && !t->isConst(); ++i) {
      if (!splitIte(s, t)) break;
      t = simplifyUnder(s, t);
    }
    APInt v = t->isConst() ? t->val : concretize(s, t);
    uint64_t a = v.getZExtValue();
    auto it = fnById.find(a >> 32);
    if (it == fnById.end() || (a & 0xffffffff) != OBJ_OFF) fatal(s, "bad-call", "call through an invalid function pointer", hexOf(v));
    F = it->second;
  }
  for (unsigned i = 0; i < n; ++i) {
    if (isa<MetadataAsValue>(cb->getArgOperand(i))) args.push_back(Val());
    else args.push_back(opv(s, d, i));
  }
  callTarget(s, F, cb, args);
}

void Executor::run() {
  auto s0 = std::make_unique<State>();
  s0->th.resize(1);
  initGlobals(*s0);
  // global constructors, then the entry point
  if (auto *gc = M.getNamedGlobal("llvm.global_ctors")) {
    if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<unsigned, Function *>> v;
      for (auto &o : ca->operands()) {
        auto *cs = cast<ConstantStruct>(o);
        v.push_back({(unsigned)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())});
      }
      std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (auto &p : v) s0->th[0].pend.push_back({gaddr[p.second], nullptr});
    }
  }
  Function *ef = M.getFunction(opt.entry);
  if (!ef) { errs() << "no entry " << opt.entry << "\n"; exit(3); }
  s0->th[0].pend.push_back({gaddr[ef], nullptr});
  work.push_back(std::move(s0));
  uint64_t tick = 0;
  while (!work.empty()) {
    auto s = std::move(work.back());
    work.pop_back();
    st.paths++;
    try {
      while (!s->dead) {
        step(*s);
        if ((++tick & 255) == 0 && nowS() - t0 > opt.timeLimit) {
          st.timeout = true;
          st.inconclusive["time limit"]++;
          st.wall = nowS() - t0;
          return;
        }
      }
    } catch (PathDead &) {
    }
    if (st.paths >= opt.maxPaths) {
      st.inconclusive["path limit"]++;
      break;
    }
  }
  st.wall = nowS() - t0;
}
