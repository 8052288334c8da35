// Roots and extrema: what is returned are the roots, all of them, and the true maximum and minimum on an interval.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_geometry/src/lib/polynomial.cpp ecl_type_traits/src/lib/numeric_limits.cpp
//@ default time=150 theory=real
//@ bound lines and quadratics with leading coefficients from a grid and any other coefficients in [-8,8]; cubics a (x-r)(x-s)(x-t) and a (x-r)((x-s)^2+k) with a, r, s, t, k from grids, of lower degree too; extrema of lines and cubics with coefficients from a grid against every point of the interval
//@ assume real arithmetic with a bound on every rounding error
//@ outside the roots of cubics with coefficients off the grid; cubics whose multiple roots cannot be told apart in floating point from a pair of close roots or none; constants that are zero everywhere
#include <symx.h>
#include <math.h>
#include <unistd.h>
#include <ecl/geometry/polynomial.hpp>
using namespace ecl;

static double coef(const char *n) { return sym_real(n, -8, 8); }
static bool by_static() { return sym_pick(0, 1, "static"); }

// ------------------------------------------------ roots
HARNESS(line_roots) {
  static const double lead[6] = {0, 1, -2, 0.5, 3, -0.25};
  double a = lead[sym_pick(0, 5, "a")], b = coef("b");
  LinearFunction f;
  f.coefficients() << b, a;
  Array<double> r = by_static() ? LinearFunction::Roots(f) : Roots<LinearFunction>()(f);
  CHECK(r.size() == (a != 0 ? 1u : 0u), "a line that is not constant has one root");
  if (r.size() == 1) sym_close(a * r[0] + b, 0, 1e-9, "the value at a root is zero");
}
HARNESS(quadratic_roots) {
  static const double lead[4] = {0, 1, -2, 0.5}, mid[4] = {0, 1, -3, 4};
  double a = lead[sym_pick(0, 3, "a")], b = mid[sym_pick(0, 3, "b")], c;
  int two = 0;
  if (a == 0) c = coef("c");
  else { // either side of a double root
    char range[] = "c00"; // each range is an input of its own
    range[1] += (int)(a * 2) + 8;
    range[2] += (int)b + 8;
    double edge = b * b / (4 * a), gap = 1.0 / 1024;
    two = sym_pick(0, 1, "two");
    if (two == (a > 0)) c = sym_real(range, -8, edge - gap > 8 ? 8 : edge - gap);
    else range[0] = 'd', c = sym_real(range, edge + gap < -8 ? -8 : edge + gap, 8);
  }
  QuadraticPolynomial p;
  p.coefficients() << c, b, a;
  Array<double> r = by_static() ? QuadraticPolynomial::Roots(p) : Roots<QuadraticPolynomial>()(p);
  unsigned want = a == 0 ? (b != 0 ? 1 : 0) : two ? 2 : 0;
  CHECK(r.size() == want, "as many roots as the discriminant tells");
  for (unsigned i = 0; i < r.size() && i < want; ++i)
    sym_close((a * r[i] + b) * r[i] + c, 0, 1e-6, "the value at a root is zero");
  if (want == 2 && r.size() == 2) {
    sym_close(r[0] + r[1], -b / a, 1e-6, "the roots are different");
    sym_close(r[0] * r[1], c / a, 1e-6, "the roots are different");
  }
}
HARNESS(nearly_straight_quadratics) {
  static const double lead[6] = {1e-17, -1e-17, 2e-12, -4e-12, 1e-30, -0x1p-60}, mid[4] = {1, -3, 4, -0.125}, low[4] = {0.25, -1, 3, -7};
  double a = lead[sym_pick(0, 5, "a")], b = mid[sym_pick(0, 3, "b")], c = low[sym_pick(0, 3, "c")];
  QuadraticPolynomial p;
  p.coefficients() << c, b, a;
  Array<double> r = Roots<QuadraticPolynomial>()(p);
  CHECK(r.size() == 2, "a small leading coefficient is not none");
  double want = -c / b, best = 1e300;
  for (unsigned i = 0; i < r.size(); ++i) {
    double d = r[i] < want ? want - r[i] : r[i] - want;
    if (d < best) best = d;
  }
  CHECK(best < 1e-6, "the root of a nearly straight quadratic is that of the line");
}
HARNESS(quadratic_double_roots) {
  static const double lead[4] = {1, -2, 0.5, 3}, at[5] = {0, 1, -1.5, 4, -8};
  double a = lead[sym_pick(0, 3, "a")], r = at[sym_pick(0, 4, "r")];
  QuadraticPolynomial p;
  p.coefficients() << a * r * r, -2 * a * r, a; // exact
  Array<double> x = QuadraticPolynomial::Roots(p);
  CHECK(x.size() == 1, "a double root is found once");
  if (x.size() == 1) sym_close(x[0], r, 1e-9, "the root is the one of the polynomial");
}
static bool near(double a, double b) { double d = a - b; return d < 1e-5 && d > -1e-5; }
static void compare(const Array<double> &x, const double *roots, int n) {
  CHECK(x.size() == (unsigned)n, "as many roots as the polynomial has");
  for (unsigned i = 0; i < x.size(); ++i) {
    bool is = false;
    for (int j = 0; j < n; ++j) is |= near(x[i], roots[j]);
    CHECK(is, "what is returned is a root");
  }
  for (int j = 0; j < n; ++j) {
    bool found = false;
    for (unsigned i = 0; i < x.size(); ++i) found |= near(x[i], roots[j]);
    CHECK(found, "every root is returned");
  }
}
static Array<double> solve(double d, double c, double b, double a) {
  CubicPolynomial p;
  p.coefficients() << d, c, b, a;
  return by_static() ? CubicPolynomial::Roots(p) : Roots<CubicPolynomial>()(p);
}
static const double where[6] = {0, 1, -2, 3, -0.5, 4};
static const double lead[4] = {1, -1, 2, 0.5};
HARNESS(cubics_with_three_roots) {
  double a = lead[sym_pick(0, 3, "a")], r[3];
  int i = sym_pick(0, 5, "r"), j = sym_pick(0, 5, "s"), k = sym_pick(0, 5, "t");
  if (!(i < j && j < k)) return;
  r[0] = where[i], r[1] = where[j], r[2] = where[k];
  compare(solve(-a * r[0] * r[1] * r[2], a * (r[0] * r[1] + r[1] * r[2] + r[0] * r[2]), -a * (r[0] + r[1] + r[2]), a), r, 3);
}
HARNESS(cubics_with_one_root) {
  double a = lead[sym_pick(0, 3, "a")], r = where[sym_pick(0, 5, "r")], s = where[sym_pick(0, 5, "s")];
  static const double ks[4] = {1, 0.5, 3, 7};
  double k = ks[sym_pick(0, 3, "k")];
  // a (x - r) (x^2 - 2 s x + s^2 + k)
  compare(solve(-a * r * (s * s + k), a * (s * s + k + 2 * r * s), -a * (2 * s + r), a), &r, 1);
}
HARNESS(cubics_with_a_triple_root) {
  double a = lead[sym_pick(0, 3, "a")];
  static const double rs[4] = {0, 1, -2, 3};
  double r = rs[sym_pick(0, 3, "r")];
  compare(solve(-a * r * r * r, 3 * a * r * r, -3 * a * r, a), &r, 1);
}
HARNESS(cubics_with_a_double_root) {
  double a = lead[sym_pick(0, 3, "a")];
  // (x - 2 m)(x + m)^2, which has no rounding
  static const double ms[4] = {1, -1, 2, -3};
  double m = ms[sym_pick(0, 3, "m")], r[2] = {2 * m, -m};
  compare(solve(-2 * a * m * m * m, -3 * a * m * m, 0, a), r, 2);
}
// here rounding decides whether one, two or three roots are found
HARNESS(cubics_with_rounded_double_roots) {
  double a = lead[sym_pick(0, 3, "a")], r = sym_pick(-20, 20, "r") / 7.0, s = sym_pick(-20, 20, "s") / 7.0;
  double d = -a * r * s * s, c = a * (s * s + 2 * r * s), b = -a * (2 * s + r);
  Array<double> x = solve(d, c, b, a);
  CHECK(x.size() >= 1 && x.size() <= 3, "a cubic has one to three roots");
  bool simple = near(r, s);
  for (unsigned i = 0; i < x.size(); ++i) {
    double v = ((a * x[i] + b) * x[i] + c) * x[i] + d;
    CHECK(v < 1e-8 && v > -1e-8, "the value at a root is zero");
    simple |= near(x[i], r);
  }
  CHECK(simple, "the single root is returned");
}
HARNESS(cubics_of_lower_degree) {
  double b = sym_pick(0, 2, "b") - 1, c = sym_pick(0, 4, "c") - 2, d = sym_pick(0, 4, "d") - 2;
  ASSUME(b != 0 || c != 0 || d != 0);
  double r[2];
  int n = 0;
  if (b == 0) {
    if (c != 0) r[n++] = -d / c;
  } else {
    double D = c * c - 4 * b * d;
    if (D == 0) r[n++] = -c / (2 * b);
    if (D > 0) r[n++] = (-c + sqrt(D)) / (2 * b), r[n++] = (-c - sqrt(D)) / (2 * b);
  }
  compare(solve(d, c, b, 0), r, n);
}

// ------------------------------------------------ extrema
static const double lo[3] = {-2, 0, 0.5}, width[4] = {0, 0.75, 2, 4};
HARNESS(line_extrema) {
  double xb = lo[sym_pick(0, 2, "begin")], xe = xb + width[sym_pick(0, 3, "width")];
  double a = coef("a"), b = coef("b");
  LinearFunction f;
  f.coefficients() << b, a;
  bool s = by_static();
  double mx = s ? LinearFunction::Maximum(xb, xe, f) : Maximum<LinearFunction>()(xb, xe, f);
  double mn = s ? LinearFunction::Minimum(xb, xe, f) : Minimum<LinearFunction>()(xb, xe, f);
  double l = f(xb), r = f(xe);
  CHECK(mx >= l && mx >= r && (mx == l || mx == r), "the maximum of a line is at an end");
  CHECK(mn <= l && mn <= r && (mn == l || mn == r), "the minimum of a line is at an end");
}
static void cubic_extrema(double a) {
  static const double g[4] = {0, 1, -3, 2};
  double xb = lo[sym_pick(0, 2, "begin")], xe = xb + width[sym_pick(0, 3, "width")];
  double b = g[sym_pick(0, 3, "b")], c = g[sym_pick(0, 3, "c")], d = sym_pick(0, 1, "d") ? -1.5 : 0;
  CubicPolynomial f;
  f.coefficients() << d, c, b, a;
  bool s = sym_pick(0, 1, "static");
  double mx = s ? CubicPolynomial::Maximum(xb, xe, f) : Maximum<CubicPolynomial>()(xb, xe, f);
  double mn = s ? CubicPolynomial::Minimum(xb, xe, f) : Minimum<CubicPolynomial>()(xb, xe, f);
  double x = sym_real("x", -2, 4.5);
  ASSUME(x >= xb);
  ASSUME(x <= xe);
  double v = ((a * x + b) * x + c) * x + d;
  CHECK(v <= mx + 1e-6, "no value in the interval is above the maximum");
  CHECK(v >= mn - 1e-6, "no value in the interval is below the minimum");
  // attained: at an end or where the derivative vanishes
  double at[4] = {xb, xe, xb, xb};
  if (a == 0) {
    if (b != 0) at[2] = -c / (2 * b);
  } else {
    double D = 4 * b * b - 12 * a * c;
    if (D >= 0) at[2] = (-2 * b + sqrt(D)) / (6 * a), at[3] = (-2 * b - sqrt(D)) / (6 * a);
  }
  bool top = false, bottom = false;
  for (int i = 0; i < 4; ++i) {
    if (at[i] < xb || at[i] > xe) continue;
    double w = ((a * at[i] + b) * at[i] + c) * at[i] + d;
    top |= near(w, mx);
    bottom |= near(w, mn);
  }
  CHECK(top, "the maximum is a value in the interval");
  CHECK(bottom, "the minimum is a value in the interval");
}
HARNESS(cubic_extrema_a) { cubic_extrema(1); }
HARNESS(cubic_extrema_b) { cubic_extrema(-2); }
HARNESS(cubic_extrema_c) { cubic_extrema(0); }
HARNESS(cubic_extrema_d) { cubic_extrema(0.5); }
