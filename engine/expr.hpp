// Expression DAG used by the symbolic executor: hash-consed bit-vector terms in
// which IEEE operations appear as operators over bit patterns.  The solver layer
// (solver.cpp) translates the same DAG into BV+FP, Int, or Int+Real terms.
#pragma once
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>
#include <cstdint>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

using llvm::APFloat;
using llvm::APInt;

enum class Op : uint8_t {
  Const, Sym,
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle,
  Ite, Concat, Extract, ZExt, SExt,
  FAdd, FSub, FMul, FDiv, FRem, FNeg, FAbs, FSqrt, FFma, FMin, FMax,
  FOeq, FOlt, FOle, FUno,
  FToSI, FToUI, SIToF, UIToF, FExt, FTrunc,
  FFloor, FCeil, FTruncI, FRoundEven, FRoundAway,
  FUnk,
};

struct Expr;
using E = const Expr *;

struct Expr {
  Op op;
  bool isFloat = false; // Sym: declared as floating point; others: op yields FP
  bool hasFP = false;   // some FP operator / FP symbol below
  bool uninit = false;  // Sym: stands for uninitialised memory
  unsigned width;
  unsigned lo = 0; // Extract
  uint32_t id = 0;
  uint32_t cost = 1; // saturating tree-ish size
  APInt val{1, 0};
  APInt kz{1, 0}; // known-zero bits
  std::vector<E> k;
  std::string name; // Sym, FUnk
  std::vector<uint32_t> syms; // sorted ids of Sym nodes below
  // Sym with declared range for FP intervals
  double flo = 0, fhi = 0;
  bool hasRange = false;
  bool isConst() const { return op == Op::Const; }
  bool isTrue() const { return op == Op::Const && val.isAllOnes(); }
  bool isFalse() const { return op == Op::Const && val.isZero(); }
};

E mkConst(const APInt &v);
E mkConst(unsigned w, uint64_t v);
E mkBool(bool b);
E mkSym(unsigned w, const std::string &name, bool isFloat = false, bool uninit = false);
E mkSymRange(unsigned w, const std::string &name, double lo, double hi);
E mkBin(Op op, E a, E b);
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkTrunc(E a, unsigned w);
E mkEq(E a, E b);
E mkF1(Op op, E a);              // unary FP, same width
E mkF2(Op op, E a, E b);         // binary FP or FP comparison
E mkFma(E a, E b, E c);
E mkFCast(Op op, E a, unsigned w); // FToSI.. FTrunc
E mkUnk(const std::string &name, const std::vector<E> &args, unsigned w);
E mkLAnd(E a, E b);
E mkLOr(E a, E b);

const llvm::fltSemantics &semOf(unsigned w);
double toDouble(const APInt &bits, unsigned w);

struct Assignment {
  std::unordered_map<uint32_t, APInt> v; // Sym id -> value
};
APInt evalExpr(E e, const Assignment &a);
struct Evaluator {
  const Assignment &a;
  std::unordered_map<uint32_t, APInt> memo;
  explicit Evaluator(const Assignment &a) : a(a) {}
  const APInt &eval(E e);
};
E symById(uint32_t id);
std::string exprStr(E e, int depth = 6);
size_t exprCount();
extern bool gRealTheory; // set when terms are decided over the reals
bool evalMathFn(const std::string &name, const std::vector<double> &args, double &out);
