#pragma once
#include "expr.hpp"
#include <string>
#include <vector>

enum class Theory { BV, Int, Real, Auto };
enum class Sat { Yes, No, Unknown };

struct SolverOptions {
  Theory theory = Theory::Auto; // Auto: BV, then Int view when BV times out
  unsigned t1 = 4000;           // ms, first attempt
  unsigned t2 = 20000;          // ms, alternative views
  unsigned t3 = 60000;          // ms, last attempt
  bool fpErr = true;            // Real view: rounding error terms
};
struct SolverStats {
  uint64_t queries = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0;
  uint64_t byBV = 0, byInt = 0, byReal = 0, byNormal = 0;
  double time = 0, maxTime = 0;
};
extern SolverOptions sopt;
extern SolverStats sstat;

void solverInit();
// Is (pc /\ cond) satisfiable?  `model` (if non-null and Sat::Yes) receives values
// for the symbols of the relevant slice only.
Sat solveQuery(const std::vector<E> &pc, E cond, Assignment *model, unsigned timeScale = 1);
// Rational declared bounds for REAL view symbols etc.
struct FInt {
  double lo, hi;
};
FInt fpInterval(E e);
std::string dumpSmt(const std::vector<E> &pc, E cond);
// |x-y| <= tol for all values of the inputs, by comparing normal forms (real theory)
bool closeByNormalForm(E x, E y, double tol);
