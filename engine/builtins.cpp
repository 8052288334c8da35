// Library and intrinsic functions interpreted by the executor itself.
#include "exec.hpp"
#include <cmath>
#include <llvm/IR/Instructions.h>
using namespace llvm;

double nowS();

void Executor::registerBuiltins() {
  auto &B = builtins;
  auto cst = [](unsigned w, uint64_t v) { return mkConst(w, v); };
  auto def = [&](std::initializer_list<const char *> names, Builtin f) {
    for (auto n : names) B[n] = f;
  };
  auto A = [this](State &s, CallBase *cb, std::vector<Val> &a, unsigned i) { return mat(s, a[i], cb->getArgOperand(i)->getType()); };
#define BI [=, this](State & s, CallBase * cb, std::vector<Val> & a)
#define ARG(i) A(s, cb, a, i)

  // ---------------------------------------------------------------- harness interface
  def({"sym_bytes"}, BI {
    uint64_t n = concU(s, ARG(1));
    std::string nm = readStr(s, ARG(2));
    E p = ARG(0);
    if (n) {
      E pp = p;
      resolve(s, pp, n, true);
      std::vector<E> b;
      E v = fresh(s, n * 8, nm);
      for (uint64_t i = 0; i < n; ++i) b.push_back(mkExtract(v, i * 8, 8));
      writeRange(s, p, b);
    }
    finishCall(s, Val());
  });
  def({"sym_u64", "sym_u32", "sym_u16", "sym_u8", "sym_bool"}, BI {
    std::string nm = readStr(s, ARG(0));
    unsigned w = width(cb->getType());
    bool isb = cb->getCalledFunction()->getName() == "sym_bool";
    E v = fresh(s, isb ? 1 : w, nm);
    finishCall(s, isb ? mkZExt(v, w) : v);
  });
  def({"sym_f64", "sym_f32"}, BI {
    std::string nm = readStr(s, ARG(0));
    finishCall(s, fresh(s, width(cb->getType()), nm, true));
  });
  def({"sym_real", "sym_realf"}, BI {
    std::string nm = readStr(s, ARG(0));
    E lo = ARG(1), hi = ARG(2);
    double l = toDouble(lo->val, lo->width), h = toDouble(hi->val, hi->width);
    unsigned w = width(cb->getType());
    E v = freshRange(s, w, nm, l, h);
    if (!s.model.v.count(v->id)) {
      double mid = (l <= 0 && h >= 0) ? 0.0 : l;
      APFloat f(mid);
      bool li;
      f.convert(semOf(w), APFloat::rmNearestTiesToEven, &li);
      s.model.v[v->id] = f.bitcastToAPInt();
    }
    // range as a constraint (NaN excluded)
    E c = mkLAnd(mkF2(Op::FOle, lo, v), mkF2(Op::FOle, v, hi));
    addPc(s, c);
    finishCall(s, v);
  });
  def({"sym_assume"}, BI {
    E c = mkTrunc(ARG(0), 1);
    assume(s, c);
    finishCall(s, Val());
  });
  auto doAssert = [this](State &s, E c, const std::string &id) {
    st.assertChecks++;
    st.reached[id]++;
    if (c->isTrue()) { st.discharged[id]++; return; }
    E bad = mkNot(c);
    Assignment m;
    Sat r = bad->isTrue() ? Sat::Yes : solveQuery(s.pc, bad, &m);
    if (r == Sat::No) { st.discharged[id]++; return; }
    Assignment trial = s.model;
    if (r == Sat::Unknown && real() && concretise(s, bad, trial)) r = Sat::Yes;
    if (r == Sat::Unknown) {
      st.unknownAsserts[id]++;
      st.inconclusive["solver gave no answer for assertion " + id]++;
    } else {
      st.failed[id]++;
      report(s, "assert", id, bad);
    }
    if (bad->isTrue()) { st.killedByViolation++; kill(s, "assert"); }
    assume(s, c);
  };
  def({"sym_assert"}, BI {
    std::string id = readStr(s, ARG(1));
    doAssert(s, mkTrunc(ARG(0), 1), id);
    finishCall(s, Val());
  });
  def({"sym_close"}, BI { // |x-y| <= tol
    std::string id = readStr(s, ARG(3));
    E x = ARG(0), y = ARG(1), tol = ARG(2);
    E dlt = mkF1(Op::FAbs, mkF2(Op::FSub, x, y));
    E ok = mkF2(Op::FOle, dlt, tol);
    if (x == y && real()) ok = mkBool(true);
    if (real() && !ok->isConst()) {
      // a large deviation makes the counterexample robust under rounding
      st.assertChecks++;
      st.reached[id]++;
      double t = toDouble(tol->val, tol->width);
      bool seen = false;
      if (tol->isConst() && closeByNormalForm(x, y, t)) {
        sstat.byNormal++;
        st.discharged[id]++;
        finishCall(s, Val());
        return;
      }
      for (double k : {1e6, 1e3, 1.0}) {
        E bad = mkF2(Op::FOlt, mkF2(Op::FMul, tol, mkConst(APFloat(k).bitcastToAPInt())), dlt);
          Sat r = solveQuery(s.pc, bad, nullptr);
        if (r == Sat::Yes) {
          st.failed[id]++;
          Assignment trial = s.model;
          if (k != 1.0 && !concretise(s, bad, trial)) bad = mkF2(Op::FOlt, tol, dlt);
          report(s, "assert", id, bad, "", true);
          st.candidatePaths++;
          seen = true;
          break;
        }
        if (r == Sat::Unknown && k == 1.0) {
          Assignment trial = s.model;
          if (concretise(s, bad, trial)) {
            st.failed[id]++;
            report(s, "assert", id, bad, "", true);
            st.candidatePaths++;
            seen = true;
            break;
          }
          st.unknownAsserts[id]++;
          st.inconclusive["solver gave no answer for assertion " + id]++;
        }
        if (r == Sat::No && k == 1.0) st.discharged[id]++;
      }
      if (seen) assume(s, ok);
    } else
      doAssert(s, ok, id);
    finishCall(s, Val());
  });
  def({"sym_fail"}, BI {
    std::string id = readStr(s, ARG(0));
    st.reached[id]++;
    st.assertChecks++;
    st.failed[id]++;
    fatal(s, "assert", id);
  });
  def({"sym_reach"}, BI { st.tags[readStr(s, ARG(0))]++; finishCall(s, Val()); });
  def({"sym_out"}, BI {
    std::string nm = readStr(s, ARG(0));
    s.outs.push_back({nm, ARG(1)});
    finishCall(s, Val());
  });
  def({"sym_choose"}, BI { // 0..n-1, one path per value
    E n = ARG(0);
    std::string nm = readStr(s, ARG(1));
    uint64_t N = n->val.getZExtValue();
    unsigned k = s.symCount[nm];
    E v = mkSym(32, nm + "#" + std::to_string(k));
    // the symbol is created once per execution of this call: constraints on it
    // are added before the counter moves
    bool have = false;
    E rng = mkBin(Op::Ult, v, mkConst(32, N));
    for (E c : s.pc) have |= c == rng;
    if (!have && !rng->isTrue()) assume(s, rng);
    APInt c = concretize(s, v);
    s.symCount[nm]++;
    s.inputs.push_back({nm + "#" + std::to_string(k), mkConst(c)});
    finishCall(s, mkConst(c));
  });
  def({"sym_concrete"}, BI {
    APInt c = concretize(s, ARG(0));
    finishCall(s, mkConst(c));
  });
  def({"sym_split"}, BI { s.split = ARG(0)->isConst() && !ARG(0)->val.isZero(); finishCall(s, Val()); });
  def({"sym_live"}, BI { finishCall(s, cst(64, s.live)); });
  def({"sym_native"}, BI { finishCall(s, cst(32, 0)); });
  def({"sym_trail"}, BI { s.trail.push_back(readStr(s, ARG(0))); finishCall(s, Val()); });
  def({"sym_stop"}, BI { endPath(s); throw PathDead{}; });
  def({"sym_readable"}, BI { // can n bytes at p be read?
    E p = ARG(0);
    uint64_t n = concU(s, ARG(1));
    bool ok = false;
    if (!p->isConst()) p = mkConst(concretize(s, p));
    uint64_t ad = p->val.getZExtValue();
    if (Obj *o = s.mem.get(ad >> 32)) ok = o->alive && ad >= baseOf(o->id) && ad - baseOf(o->id) + n <= o->size;
    finishCall(s, cst(32, ok));
  });
  // ---------------------------------------------------------------- threads
  def({"sym_thread_create"}, BI {
    uint64_t fa = concU(s, ARG(0));
    Thread t;
    t.pend.push_back({fa, ARG(1)});
    unsigned id = s.th.size();
    finishCall(s, cst(32, id));
    s.th.push_back(std::move(t));
  });
  def({"sym_self"}, BI { finishCall(s, cst(32, s.cur)); });
  def({"sym_yield"}, BI { finishCall(s, Val()); schedule(s, false); });
  def({"sym_block"}, BI {
    uint64_t on = concU(s, ARG(0));
    finishCall(s, Val());
    s.T().blocked = true;
    s.T().waitOn = on;
    schedule(s, true);
  });
  def({"sym_wake"}, BI {
    uint64_t on = concU(s, ARG(0));
    for (auto &t : s.th)
      if (t.blocked && t.waitOn == on) t.blocked = false;
    finishCall(s, Val());
  });
  def({"sym_join"}, BI {
    uint64_t id = concU(s, ARG(0));
    if (id >= s.th.size()) fatal(s, "bad-join", "no such thread");
    finishCall(s, Val());
    if (!s.th[id].done) {
      s.T().blocked = true;
      s.T().waitOn = 0xdead0000ull | id;
      schedule(s, true);
    }
  });
  def({"sym_exit_thread"}, BI {
    while (!s.T().st.empty()) popFrame(s);
    s.T().pend.clear();
  });

  // ---------------------------------------------------------------- heap
  def({"malloc"}, BI { uint64_t n = concU(s, ARG(0)); finishCall(s, cst(64, allocHeap(s, OK::Malloc, n, cb))); });
  def({"calloc"}, BI {
    uint64_t n = concU(s, ARG(0)) , m = concU(s, ARG(1));
    uint64_t p = allocHeap(s, OK::Malloc, n * m, cb);
    Obj *o = s.mem.write(p >> 32);
    for (auto &x : o->b) x = mkConst(8, 0);
    finishCall(s, cst(64, p));
  });
  def({"realloc"}, BI {
    uint64_t p = concU(s, ARG(0)), n = concU(s, ARG(1));
    std::vector<E> old;
    if (p) old = s.mem.get(p >> 32) ? s.mem.get(p >> 32)->b : old;
    uint64_t q = allocHeap(s, OK::Malloc, n, cb);
    Obj *o = s.mem.write(q >> 32);
    for (size_t i = 0; i < n && i < old.size(); ++i) o->b[i] = old[i];
    freeHeap(s, cst(64, p), OK::Malloc, "realloc");
    finishCall(s, cst(64, q));
  });
  def({"free"}, BI { freeHeap(s, ARG(0), OK::Malloc, "free"); finishCall(s, Val()); });
  def({"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t"}, BI { uint64_t n = concU(s, ARG(0)); finishCall(s, cst(64, allocHeap(s, OK::New, n, cb))); });
  def({"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t"}, BI { uint64_t n = concU(s, ARG(0)); finishCall(s, cst(64, allocHeap(s, OK::NewArr, n, cb))); });
  def({"_ZdlPv", "_ZdlPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}, BI { freeHeap(s, ARG(0), OK::New, "delete"); finishCall(s, Val()); });
  def({"_ZdaPv", "_ZdaPvm", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t"}, BI { freeHeap(s, ARG(0), OK::NewArr, "delete[]"); finishCall(s, Val()); });
  def({"posix_memalign"}, BI {
    uint64_t n = concU(s, ARG(2));
    uint64_t p = allocHeap(s, OK::Malloc, n, cb);
    store(s, ARG(0), cst(64, p), cb->getArgOperand(0)->getType());
    finishCall(s, cst(32, 0));
  });

  // ---------------------------------------------------------------- memory blocks
  auto cpy = [this, A](State &s, CallBase *cb, std::vector<Val> &a, bool overlapOk) {
    E d = ARG(0), q = ARG(1);
    uint64_t n = concU(s, ARG(2));
    if (n) {
      if (n > (1u << 24)) { resolve(s, q, n, false); resolve(s, d, n, true); }
      auto b = readRange(s, q, n);
      if (!overlapOk && d->isConst() && q->isConst()) {
        uint64_t x = d->val.getZExtValue(), y = q->val.getZExtValue();
        if (x != y && ((x < y && x + n > y) || (y < x && y + n > x))) fatal(s, "memcpy-overlap", "memcpy");
      }
      writeRange(s, d, b);
    }
  };
  def({"llvm.memcpy", "memcpy", "llvm.memcpy.inline", "__memcpy_chk"}, BI { cpy(s, cb, a, false); finishCall(s, a[0]); });
  def({"llvm.memmove", "memmove", "__memmove_chk"}, BI { cpy(s, cb, a, true); finishCall(s, a[0]); });
  def({"llvm.memset", "memset", "__memset_chk"}, BI {
    E d = ARG(0), v = mkTrunc(ARG(1), 8);
    uint64_t n = concU(s, ARG(2));
    if (n > (1u << 24)) resolve(s, d, n, true);
    writeRange(s, d, std::vector<E>(n, v));
    finishCall(s, a[0]);
  });

  // ---------------------------------------------------------------- exceptions
  def({"__cxa_allocate_exception"}, BI { uint64_t n = concU(s, ARG(0)); finishCall(s, cst(64, allocHeap(s, OK::Exc, n, cb))); });
  def({"__cxa_free_exception"}, BI {
    Obj *o = s.mem.write(concU(s, ARG(0)) >> 32);
    o->alive = false;
    finishCall(s, Val());
  });
  def({"__cxa_throw"}, BI {
    uint32_t id = concU(s, ARG(0)) >> 32;
    ExcInfo x;
    x.obj = id;
    x.tinfo = concU(s, ARG(1));
    x.dtor = concU(s, ARG(2));
    x.adjusted = baseOf(id);
    s.exc[id] = x;
    s.T().uncaught++;
    unwind(s, id, true);
  });
  def({"__cxa_init_primary_exception"}, BI { finishCall(s, a[0]); });
  def({"__cxa_begin_catch", "__cxa_get_exception_ptr"}, BI {
    uint32_t id = concU(s, ARG(0)) >> 32;
    bool begin = cb->getCalledFunction()->getName() == "__cxa_begin_catch";
    auto &x = s.exc[id];
    uint64_t adj = x.adjusted;
    if (begin) {
      if (x.handlers < 0) x.handlers = -x.handlers;
      x.handlers++;
      x.rethrown = false;
      if (s.T().caught.empty() || s.T().caught.back() != id) s.T().caught.push_back(id);
      if (s.T().uncaught) s.T().uncaught--;
    }
    finishCall(s, cst(64, adj));
  });
  def({"__cxa_end_catch"}, BI {
    if (s.T().caught.empty()) fatal(s, "bad-end-catch", "no caught exception");
    uint32_t id = s.T().caught.back();
    auto &x = s.exc[id];
    if (x.handlers < 0) {
      if (++x.handlers == 0) s.T().caught.pop_back();
      finishCall(s, Val());
      return;
    }
    if (--x.handlers == 0) {
      s.T().caught.pop_back();
      if (x.rethrown) { finishCall(s, Val()); return; }
      if (x.dtor) {
        Function *F = fnById[x.dtor >> 32];
        std::vector<Val> da{Val(cst(64, baseOf(id)))};
        if (F && !F->isDeclaration()) {
          pushFrame(s, F, da, RetAct::FreeExc, id);
          return;
        }
      }
      Obj *o = s.mem.write(id);
      o->alive = false;
      s.exc.erase(id);
    }
    finishCall(s, Val());
  });
  def({"__cxa_rethrow"}, BI {
    if (s.T().caught.empty()) fatal(s, "terminate", "rethrow without exception");
    uint32_t id = s.T().caught.back();
    auto &x = s.exc[id];
    x.handlers = -x.handlers;
    s.T().uncaught++;
    unwind(s, id, true);
  });
  def({"llvm.eh.typeid.for"}, BI {
    uint64_t t = concU(s, ARG(0));
    finishCall(s, cst(32, t >> 32));
  });
  def({"_ZSt18uncaught_exceptionv", "_ZSt19uncaught_exceptionsv"}, BI { finishCall(s, cst(width(cb->getType()), s.T().uncaught ? 1 : 0)); });
  def({"_ZSt9terminatev", "__clang_call_terminate"}, BI { fatal(s, "terminate", "std::terminate"); });
  def({"abort", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}, BI { fatal(s, "abort", "abort"); });
  def({"exit", "_exit", "_Exit"}, BI { fatal(s, "exit", "exit called"); });
  def({"__assert_fail"}, BI { fatal(s, "abort", "assert: " + readStr(s, ARG(0))); });
  def({"__cxa_pure_virtual"}, BI { fatal(s, "abort", "pure virtual call"); });
  def({"__cxa_throw_bad_array_new_length", "__cxa_bad_cast", "__cxa_bad_typeid"}, BI { fatal(s, "abort", "bad array new length / cast"); });
  def({"__cxa_guard_acquire"}, BI {
    E g = ARG(0);
    E v = mat(s, load(s, g, Type::getInt8Ty(M.getContext())), Type::getInt8Ty(M.getContext()));
    finishCall(s, mkIte(mkEq(v, cst(8, 0)), cst(32, 1), cst(32, 0)));
  });
  def({"__cxa_guard_release"}, BI { store(s, ARG(0), cst(8, 1), Type::getInt8Ty(M.getContext())); finishCall(s, Val()); });
  def({"__cxa_guard_abort", "__cxa_atexit", "atexit", "__cxa_thread_atexit"}, BI { finishCall(s, cb->getType()->isVoidTy() ? Val() : Val(cst(32, 0))); });
  def({"__dynamic_cast"}, BI {
    uint64_t p = concU(s, ARG(0)), dst = concU(s, ARG(2));
    uint64_t r = 0;
    if (p) {
      uint64_t vptr = readC(s, p, 8);
      int64_t ott = (int64_t)readC(s, vptr - 16, 8);
      uint64_t ti = readC(s, vptr - 8, 8);
      if (!upcast(s, ti, dst, p + ott, r)) r = 0;
    }
    finishCall(s, cst(64, r));
  });
  def({"__errno_location"}, BI { finishCall(s, cst(64, baseOf(errnoObj))); });

  // ---------------------------------------------------------------- LLVM intrinsics
  def({"llvm.lifetime", "llvm.lifetime.start", "llvm.lifetime.end", "llvm.dbg", "llvm.dbg.declare", "llvm.dbg.value", "llvm.dbg.label", "llvm.assume", "llvm.experimental.noalias.scope.decl",
       "llvm.stackrestore", "llvm.donothing", "llvm.prefetch", "llvm.invariant.end", "llvm.sideeffect", "llvm.va_end", "llvm.pseudoprobe"},
      BI { finishCall(s, Val()); });
  def({"llvm.lifetime.start"}, BI {
    // contents become undefined again
    E p = ARG(1);
    if (p->isConst()) {
      uint64_t ad = p->val.getZExtValue();
      Obj *o = s.mem.get(ad >> 32);
      if (o && o->kind == OK::Stack && o->alive) {
        Obj *w = s.mem.write(o->id);
        for (auto &b : w->b) b = nullptr;
      }
    }
    finishCall(s, Val());
  });
  def({"llvm.stacksave", "llvm.invariant.start"}, BI { finishCall(s, cst(64, 0)); });
  def({"llvm.expect", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.expect.with.probability", "llvm.ssa.copy"}, BI { finishCall(s, a[0]); });
  def({"llvm.is.constant"}, BI { finishCall(s, mkBool(false)); });
  def({"llvm.objectsize"}, BI {
    bool mn = ARG(1)->isTrue();
    finishCall(s, cst(width(cb->getType()), mn ? 0 : ~0ull));
  });
  def({"llvm.trap", "llvm.debugtrap"}, BI { fatal(s, "trap", "llvm.trap"); });
  def({"llvm.ubsantrap"}, BI {
    uint64_t k = ARG(0)->val.getZExtValue();
    static const char *names[] = {"add overflow", "builtin unreachable", "cfi", "division", "dynamic type cache", "float cast overflow", "function type", "implicit conversion", "invalid builtin", "invalid objc", "invalid bool/enum load", "missing return", "mul overflow", "negate overflow", "nullability arg", "nullability return", "nonnull arg", "nonnull return", "out of bounds index", "pointer overflow", "shift out of bounds", "sub overflow", "type mismatch", "alignment", "vla bound"};
    fatal(s, "ub", k < sizeof(names) / sizeof(*names) ? names[k] : std::to_string(k));
  });
  auto ovf = [&](const char *n, Op op, bool sgn) {
    def({n}, BI {
      E x = ARG(0), y = ARG(1);
      unsigned w = x->width, ww = op == Op::Mul ? 2 * w : w + 1;
      E r = mkBin(op, x, y);
      st.ubChecks++;
      E xx = sgn ? mkSExt(x, ww) : mkZExt(x, ww), yy = sgn ? mkSExt(y, ww) : mkZExt(y, ww);
      E rr = mkBin(op, xx, yy);
      E o;
      if (sgn && op == Op::Mul && (x->isConst() || y->isConst())) {
        // compare against the exact bounds, which suits every solver view
        E c = x->isConst() ? x : y, v = x->isConst() ? y : x;
        if (c->val.isZero() || c->val.isOne()) o = mkBool(false);
        else if (c->val.isAllOnes()) o = mkEq(v, mkConst(APInt::getSignedMinValue(w)));
        else {
          APInt mx = APInt::getSignedMaxValue(w), mn = APInt::getSignedMinValue(w);
          APInt hi = c->val.isNegative() ? mn.sdiv(c->val) : mx.sdiv(c->val);
          APInt lo = c->val.isNegative() ? mx.sdiv(c->val) : mn.sdiv(c->val);
          o = mkLOr(mkBin(Op::Slt, mkConst(hi), v), mkBin(Op::Slt, v, mkConst(lo)));
        }
      } else if (!sgn && op == Op::Mul && (x->isConst() || y->isConst())) {
        E c = x->isConst() ? x : y, v = x->isConst() ? y : x;
        if (c->val.isZero()) o = mkBool(false);
        else o = mkBin(Op::Ult, mkConst(APInt::getMaxValue(w).udiv(c->val)), v);
      } else if (!sgn && op == Op::Add) o = mkBin(Op::Ult, r, x);
      else if (!sgn && op == Op::Sub) o = mkBin(Op::Ult, x, y);
      else o = mkNot(mkEq(rr, sgn ? mkSExt(r, ww) : mkZExt(r, ww)));
      finishCall(s, Val(std::vector<Val>{Val(r), Val(o)}));
    });
  };
  ovf("llvm.sadd.with.overflow", Op::Add, true);
  ovf("llvm.ssub.with.overflow", Op::Sub, true);
  ovf("llvm.smul.with.overflow", Op::Mul, true);
  ovf("llvm.uadd.with.overflow", Op::Add, false);
  ovf("llvm.usub.with.overflow", Op::Sub, false);
  ovf("llvm.umul.with.overflow", Op::Mul, false);
  auto bin2 = [&](const char *n, std::function<E(E, E)> f) {
    def({n}, BI {
      if (cb->getType()->isVectorTy()) {
        Type *et = cast<VectorType>(cb->getType())->getElementType();
        std::vector<Val> r;
        for (size_t i = 0; i < a[0].a->size(); ++i) r.push_back(f(mat(s, (*a[0].a)[i], et), mat(s, (*a[1].a)[i], et)));
        finishCall(s, Val(std::move(r)));
      } else {
        E x = ARG(0), y = ARG(1);
        finishCall(s, f(x, y));
      }
    });
  };
  bin2("llvm.smax", [](E x, E y) { return mkIte(mkBin(Op::Slt, x, y), y, x); });
  bin2("llvm.smin", [](E x, E y) { return mkIte(mkBin(Op::Slt, y, x), y, x); });
  bin2("llvm.umax", [](E x, E y) { return mkIte(mkBin(Op::Ult, x, y), y, x); });
  bin2("llvm.umin", [](E x, E y) { return mkIte(mkBin(Op::Ult, y, x), y, x); });
  bin2("llvm.usub.sat", [](E x, E y) { return mkIte(mkBin(Op::Ult, x, y), mkConst(x->width, 0), mkBin(Op::Sub, x, y)); });
  bin2("llvm.uadd.sat", [](E x, E y) { E r = mkBin(Op::Add, x, y); return mkIte(mkBin(Op::Ult, r, x), mkConst(APInt::getAllOnes(x->width)), r); });
  bin2("llvm.minnum", [](E x, E y) { return mkF2(Op::FMin, x, y); });
  bin2("llvm.maxnum", [](E x, E y) { return mkF2(Op::FMax, x, y); });
  def({"llvm.abs"}, BI { E x = ARG(0); finishCall(s, mkIte(mkBin(Op::Slt, x, mkConst(x->width, 0)), mkBin(Op::Sub, mkConst(x->width, 0), x), x)); });
  auto fsh = [this, A](State &s, CallBase *cb, std::vector<Val> &a, bool left) {
    E x = ARG(0), y = ARG(1), z = ARG(2);
    unsigned w = x->width;
    E c = mkConcat(x, y);
    E sh = mkZExt(mkBin(Op::URem, z, mkConst(w, w)), 2 * w);
    E r = left ? mkExtract(mkBin(Op::Shl, c, sh), w, w) : mkExtract(mkBin(Op::LShr, c, sh), 0, w);
    finishCall(s, r);
  };
  def({"llvm.fshl"}, BI { fsh(s, cb, a, true); });
  def({"llvm.fshr"}, BI { fsh(s, cb, a, false); });
  def({"llvm.bswap"}, BI {
    E x = ARG(0), r = nullptr;
    for (unsigned i = 0; i < x->width; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; }
    finishCall(s, r);
  });
  def({"llvm.ctpop"}, BI {
    E x = ARG(0), r = mkConst(x->width, 0);
    for (unsigned i = 0; i < x->width; ++i) r = mkBin(Op::Add, r, mkZExt(mkExtract(x, i, 1), x->width));
    finishCall(s, r);
  });
  def({"llvm.ctlz"}, BI {
    E x = ARG(0), r = mkConst(x->width, x->width);
    for (unsigned i = 0; i < x->width; ++i) r = mkIte(mkEq(mkExtract(x, i, 1), mkBool(true)), mkConst(x->width, x->width - 1 - i), r);
    finishCall(s, r);
  });
  def({"llvm.cttz"}, BI {
    E x = ARG(0), r = mkConst(x->width, x->width);
    for (int i = x->width - 1; i >= 0; --i) r = mkIte(mkEq(mkExtract(x, i, 1), mkBool(true)), mkConst(x->width, i), r);
    finishCall(s, r);
  });
  auto reduce = [&](const char *n, Op op) {
    def({n}, BI {
      Type *et = cast<VectorType>(cb->getArgOperand(0)->getType())->getElementType();
      E r = nullptr;
      for (auto &x : *a[0].a) { E y = mat(s, x, et); r = r ? mkBin(op, r, y) : y; }
      finishCall(s, r);
    });
  };
  reduce("llvm.vector.reduce.or", Op::Or);
  reduce("llvm.vector.reduce.and", Op::And);
  reduce("llvm.vector.reduce.add", Op::Add);
  def({"llvm.va_start"}, BI {
    auto &va = s.F().varargs;
    Obj *o = s.mem.add(OK::Stack, va.size() * 8 + 8);
    uint32_t id = o->id;
    o->name = "varargs";
    s.F().allocas.push_back(id);
    for (size_t i = 0; i < va.size(); ++i) {
      E v = matw(s, va[i].e, 64);
      if (v->width < 64) v = mkZExt(v, 64);
      if (v->width > 64) inconclusive(s, "wide vararg");
      storeBytes(s, {id, cst(64, i * 8)}, v);
    }
    E p = ARG(0);
    Type *i32 = Type::getInt32Ty(M.getContext()), *i64 = Type::getInt64Ty(M.getContext());
    store(s, p, cst(32, 48), i32);
    store(s, mkBin(Op::Add, p, cst(64, 4)), cst(32, 176), i32);
    store(s, mkBin(Op::Add, p, cst(64, 8)), cst(64, baseOf(id)), i64);
    store(s, mkBin(Op::Add, p, cst(64, 16)), cst(64, baseOf(id)), i64);
    finishCall(s, Val());
  });
  def({"llvm.va_copy"}, BI {
    auto b = readRange(s, ARG(1), 24);
    writeRange(s, ARG(0), b);
    finishCall(s, Val());
  });

  // ---------------------------------------------------------------- floating point
  auto f1 = [&](std::initializer_list<const char *> n, Op op) {
    def(n, BI {
      if (cb->getType()->isVectorTy()) {
        Type *et = cast<VectorType>(cb->getType())->getElementType();
        std::vector<Val> r;
        for (auto &x : *a[0].a) r.push_back(mkF1(op, mat(s, x, et)));
        finishCall(s, Val(std::move(r)));
        return;
      }
      E x = ARG(0);
      if (op == Op::FSqrt && real() && !x->isConst())
        check(s, mkF2(Op::FOlt, x, mkConst(x->width, 0)), "sqrt-negative", "square root of a negative number", true);
      finishCall(s, mkF1(op, x));
    });
  };
  f1({"llvm.fabs", "fabs", "fabsf", "fabsl"}, Op::FAbs);
  f1({"llvm.sqrt", "sqrt", "sqrtf", "sqrtl"}, Op::FSqrt);
  f1({"llvm.floor", "floor", "floorf"}, Op::FFloor);
  f1({"llvm.ceil", "ceil", "ceilf"}, Op::FCeil);
  f1({"llvm.trunc", "trunc", "truncf"}, Op::FTruncI);
  f1({"llvm.rint", "rint", "rintf", "llvm.nearbyint", "nearbyint", "nearbyintf", "llvm.roundeven"}, Op::FRoundEven);
  f1({"llvm.round", "round", "roundf"}, Op::FRoundAway);
  bin2("fmin", [](E x, E y) { return mkF2(Op::FMin, x, y); });
  bin2("fmax", [](E x, E y) { return mkF2(Op::FMax, x, y); });
  bin2("fminf", [](E x, E y) { return mkF2(Op::FMin, x, y); });
  bin2("fmaxf", [](E x, E y) { return mkF2(Op::FMax, x, y); });
  bin2("fmod", [](E x, E y) { return mkF2(Op::FRem, x, y); });
  bin2("fmodf", [](E x, E y) { return mkF2(Op::FRem, x, y); });
  auto cps = [this](E x, E y) -> E {
    E ax = mkF1(Op::FAbs, x);
    if (real()) return mkIte(mkF2(Op::FOlt, y, mkConst(y->width, 0)), mkF1(Op::FNeg, ax), ax);
    unsigned w = x->width;
    return mkConcat(mkExtract(y, w - 1, 1), mkExtract(x, 0, w - 1));
  };
  bin2("llvm.copysign", cps);
  bin2("copysign", cps);
  bin2("copysignf", cps);
  def({"llvm.fma", "fma", "fmaf"}, BI { E x = ARG(0), y = ARG(1), z = ARG(2); finishCall(s, mkFma(x, y, z)); });
  def({"llvm.fmuladd"}, BI {
    if (cb->getType()->isVectorTy()) inconclusive(s, "vector fmuladd");
    E x = ARG(0), y = ARG(1), z = ARG(2);
    finishCall(s, mkF2(Op::FAdd, mkF2(Op::FMul, x, y), z));
  });
  def({"lround", "llround", "lroundf", "llvm.lround", "llvm.llround"}, BI { E x = ARG(0); finishCall(s, mkFCast(Op::FToSI, mkF1(Op::FRoundAway, x), width(cb->getType()))); });
  def({"lrint", "llrint", "lrintf", "llvm.lrint", "llvm.llrint"}, BI { E x = ARG(0); finishCall(s, mkFCast(Op::FToSI, mkF1(Op::FRoundEven, x), width(cb->getType()))); });
  def({"llvm.is.fpclass"}, BI {
    E x = ARG(0);
    uint64_t m = ARG(1)->val.getZExtValue();
    unsigned w = x->width;
    auto &sem = semOf(w);
    E inf = mkConst(APFloat::getInf(sem).bitcastToAPInt()), zero = mkConst(w, 0), mnn = mkConst(APFloat::getSmallestNormalized(sem).bitcastToAPInt());
    E ax = mkF1(Op::FAbs, x), neg = mkF2(Op::FOlt, x, zero), r = mkBool(false);
    E nan = mkF2(Op::FUno, x, x), isinf = mkF2(Op::FOeq, ax, inf), isz = mkF2(Op::FOeq, x, zero);
    E norm = mkLAnd(mkF2(Op::FOle, mnn, ax), mkF2(Op::FOlt, ax, inf));
    E sub = mkLAnd(mkF2(Op::FOlt, ax, mnn), mkNot(isz));
    if ((m & 3) == 3) r = mkLOr(r, nan);
    else if (m & 3) inconclusive(s, "signalling nan class");
    auto cls = [&](uint64_t nb, uint64_t pb, E is) {
      bool n = m & nb, p = m & pb;
      if (n && p) r = mkLOr(r, is);
      else if (n) r = mkLOr(r, mkLAnd(is, neg));
      else if (p) r = mkLOr(r, mkLAnd(is, mkNot(neg)));
    };
    cls(4, 512, isinf);
    cls(8, 256, norm);
    cls(16, 128, sub);
    if ((m & 96) == 96) r = mkLOr(r, isz);
    else if (m & 96) {
      E sb = mkExtract(x, w - 1, 1);
      r = mkLOr(r, mkLAnd(isz, (m & 32) ? sb : mkNot(sb)));
    }
    finishCall(s, r);
  });
  def({"__isnan", "isnan", "__isnanf"}, BI { E x = ARG(0); finishCall(s, mkZExt(mkF2(Op::FUno, x, x), 32)); });
  def({"frexp"}, BI {
    E x = ARG(0);
    if (!x->isConst()) inconclusive(s, "symbolic frexp");
    int e = 0;
    double r = ::frexp(toDouble(x->val, 64), &e);
    store(s, ARG(1), cst(32, (uint32_t)e), Type::getInt32Ty(M.getContext()));
    finishCall(s, mkConst(APFloat(r).bitcastToAPInt()));
  });
  def({"modf"}, BI {
    E x = ARG(0);
    E t = mkF1(Op::FTruncI, x);
    store(s, ARG(1), t, Type::getDoubleTy(M.getContext()));
    finishCall(s, mkF2(Op::FSub, x, t));
  });
  def({"ldexp"}, BI {
    E x = ARG(0), k = ARG(1);
    if (!k->isConst()) k = mkConst(concretize(s, k));
    finishCall(s, mkF2(Op::FMul, x, mkConst(APFloat(::ldexp(1.0, (int)k->val.getSExtValue())).bitcastToAPInt())));
  });
  for (const char *n : {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "exp", "log", "log10", "pow", "hypot", "cbrt", "sinf", "cosf", "tanf", "asinf", "acosf", "atanf", "atan2f", "expf", "logf", "powf"}) {
    std::string nm = n;
    Builtin f = BI {
      std::vector<E> v;
      for (unsigned i = 0; i < cb->arg_size(); ++i) v.push_back(ARG(i));
      unsigned w = width(cb->getType());
      if ((nm == "pow" || nm == "powf") && v[1]->isConst()) {
        double e = toDouble(v[1]->val, v[1]->width);
        if (e == 0) { finishCall(s, mkConst(APFloat(1.0).bitcastToAPInt())); return; }
        if (w == 64 && (e == 1 || e == 2)) { finishCall(s, e == 1 ? v[0] : mkF2(Op::FMul, v[0], v[0])); return; }
        if (w == 64 && e == 3 && real()) { finishCall(s, mkF2(Op::FMul, v[0], mkF2(Op::FMul, v[0], v[0]))); return; }
        if (w == 64 && e == 0.5 && !v[0]->isConst()) { finishCall(s, mkF1(Op::FSqrt, v[0])); return; }
      }
      finishCall(s, mkUnk(nm, v, w));
    };
    B[nm] = f;
    B["llvm." + nm] = f;
  }
  def({"llvm.powi"}, BI {
    E x = ARG(0), k = ARG(1);
    int64_t n = concretize(s, k).getSExtValue();
    E r = mkConst(APFloat(1.0).bitcastToAPInt());
    bool inv = n < 0;
    if (inv) n = -n;
    for (int64_t i = 0; i < n && i < 64; ++i) r = i ? mkF2(Op::FMul, r, x) : x;
    if (inv) r = mkF2(Op::FDiv, mkConst(APFloat(1.0).bitcastToAPInt()), r);
    finishCall(s, r);
  });
  // ---------------------------------------------------------------- clang defines these as builtins
  def({"__gxx_personality_v0"}, BI { finishCall(s, Val()); });
}
