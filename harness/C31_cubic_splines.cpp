// Cubic splines: they go through their data, as smoothly and with the boundary conditions asked for.
//@ config rel,dbg
//@ src ecl_type_traits/src/lib/numeric_limits.cpp ecl_exceptions/src/lib/standard_exception.cpp ecl_geometry/src/lib/polynomial.cpp ecl_geometry/src/lib/polynomial_blueprints.cpp ecl_geometry/src/lib/pascals_triangle.cpp ecl_geometry/src/lib/cubic_spline.cpp ecl_geometry/src/lib/cubic_spline_blueprints.cpp
//@ default time=150 theory=real
//@ bound 2 to 5 (thorough: 6) points at 4 patterns of unequal abscissas, any ordinates and boundary slopes in [-8,8]; values read at every knot and between all of them
//@ assume real arithmetic with a bound on every rounding error; results are compared to 1e-6
//@ outside abscissas that do not increase; data of different lengths and reads outside the domain in release builds; points of other magnitudes
#include <symx.h>
#include <unistd.h>
#include <ecl/geometry/cubic_spline.hpp>
#include <ecl/geometry/spline_function.hpp>
using namespace ecl;
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif
#ifdef SYMX_THOROUGH
static const int MAX = 6;
#else
static const int MAX = 5;
#endif
static const double TOL = 1e-6;
static const double knots[4][6] = {{0, 1, 2, 3, 4, 5}, {-1, -0.5, 1, 1.5, 4, 4.5}, {2, 3.5, 4, 6, 6.25, 7}, {-3, -1, -0.25, 0, 0.5, 2}};
enum Kind { NATURAL, CLAMPED, HEURISTIC };
struct Data {
  int n;
  const double *x;
  double y[6], d0, df;
  Array<double> xs, ys;
  Data(int lo = 2) {
    n = sym_pick(lo, MAX, "points");
    x = knots[sym_pick(0, 3, "pattern")];
    xs.resize(n);
    ys.resize(n);
    for (int i = 0; i < n; ++i) xs[i] = x[i], ys[i] = y[i] = sym_real("y", -8, 8);
    d0 = sym_real("d0", -8, 8);
    df = sym_real("df", -8, 8);
  }
};
template <class B> static void build(CubicSpline &s, B b, int how) {
  if (how == 0) s = CubicSpline(b);
  else if (how == 1) s = b.instantiate();
  else b.apply(s);
}
static void make(CubicSpline &s, Kind kind, const Data &d) {
  int how = sym_pick(0, 2, "how");
  bool factory = sym_pick(0, 1, "factory");
  if (how == 2 && sym_pick(0, 1, "used")) { // applied to a spline of other data
    Array<double> x(3), y(3);
    x << 0, 1, 5;
    y << 1, 2, 3;
    CubicSpline::Natural(x, y).apply(s);
  }
  switch (kind) {
  case NATURAL: build(s, factory ? CubicSpline::Natural(d.xs, d.ys) : blueprints::C2CubicSpline(d.xs, d.ys), how); break;
  case CLAMPED: build(s, factory ? CubicSpline::ContinuousDerivatives(d.xs, d.ys, d.d0, d.df) : blueprints::C2CubicSpline(d.xs, d.ys, d.d0, d.df), how); break;
  default: build(s, factory ? CubicSpline::DerivativeHeuristic(d.xs, d.ys, d.d0, d.df) : blueprints::DerivativeHeuristicCubicSpline(d.xs, d.ys, d.d0, d.df), how); break;
  }
}
static void run(Kind kind) {
  Data d;
  CubicSpline s;
  make(s, kind, d);
  const Array<CubicPolynomial> &p = s.polynomials();
  CHECK(s.domain().size() == (unsigned)d.n, "the domain has every abscissa");
  CHECK(p.size() == (unsigned)d.n - 1, "there is a polynomial between every two points");
  for (int i = 0; i < d.n; ++i) CHECK(s.domain()[i] == d.x[i], "the domain is the abscissas");
  const CubicSpline &k = s;
  for (int i = 0; i < d.n; ++i) sym_close(k(d.x[i]), d.y[i], TOL, "the spline goes through its points");
  for (int i = 0; i + 1 < d.n; ++i) {
    sym_close(p[i](d.x[i]), d.y[i], TOL, "every polynomial starts at its point");
    sym_close(p[i](d.x[i + 1]), d.y[i + 1], TOL, "every polynomial ends at its point");
  }
  for (int i = 1; i + 1 < d.n; ++i) {
    sym_close(p[i - 1].derivative(d.x[i]), p[i].derivative(d.x[i]), TOL, "the slope is continuous");
    if (kind != HEURISTIC) sym_close(p[i - 1].dderivative(d.x[i]), p[i].dderivative(d.x[i]), 1e-5, "the curvature is continuous");
    else
      sym_close(p[i].derivative(d.x[i]),
                (d.y[i] - d.y[i - 1]) / (2 * (d.x[i] - d.x[i - 1])) + (d.y[i + 1] - d.y[i]) / (2 * (d.x[i + 1] - d.x[i])), TOL,
                "the heuristic slope is the mean of its neighbours'");
  }
  double b = d.x[0], e = d.x[d.n - 1];
  if (kind == NATURAL) {
    sym_close(k.dderivative(b), 0, 1e-5, "a natural spline does not bend at its ends");
    sym_close(k.dderivative(e), 0, 1e-5, "a natural spline does not bend at its ends");
  } else {
    sym_close(k.derivative(b), d.d0, TOL, "the spline starts with the slope asked for");
    sym_close(k.derivative(e), d.df, TOL, "the spline ends with the slope asked for");
  }
}
HARNESS(natural) { run(NATURAL); }
HARNESS(clamped) { run(CLAMPED); }
HARNESS(heuristic) { run(HEURISTIC); }

// reading anywhere gives the polynomial of that interval
HARNESS(reading) {
  Data d;
  CubicSpline s(CubicSpline::DerivativeHeuristic(d.xs, d.ys, d.d0, d.df));
  const CubicSpline k(s);
  int i = sym_pick(0, d.n - 2, "interval"), q = sym_pick(0, 4, "quarter");
  double x = d.x[i] + (d.x[i + 1] - d.x[i]) * q / 4;
  const CubicPolynomial &p = s.polynomials()[i];
  sym_close(k(x), p(x), 1e-8, "the value is that of the polynomial of the interval");
  sym_close(k.derivative(x), p.derivative(x), 1e-5, "the slope is that of the polynomial of the interval");
  if (q > 0 && q < 4) sym_close(k.dderivative(x), p.dderivative(x), 1e-8, "the curvature is that of the polynomial of the interval");
}
// any abscissa at all, for fixed ordinates
HARNESS(reading_anywhere) {
  Array<double> xs(4), ys(4);
  xs << -1, -0.5, 1, 4;
  ys << 2, -1, 0, 3;
  CubicSpline s = CubicSpline::Natural(xs, ys);
  double x = sym_real("x", -1.5, 4.5), v = 0;
  bool inside = x >= -1 && x <= 4;
  if (!inside && !debug) return;
  int what = sym_pick(0, 2, "what");
  try {
    v = what == 0 ? s(x) : what == 1 ? s.derivative(x) : s.dderivative(x);
    CHECK(inside, "reads outside the domain are refused");
    int i = x <= -0.5 ? 0 : x <= 1 ? 1 : 2;
    const CubicPolynomial::Coefficients &c = s.polynomials()[i].coefficients();
    double want = what == 0 ? ((c[3] * x + c[2]) * x + c[1]) * x + c[0] : what == 1 ? (3 * c[3] * x + 2 * c[2]) * x + c[1] : 6 * c[3] * x + 2 * c[2];
    sym_close(v, want, 1e-5, "the value is that of the polynomial of the interval");
  } catch (const StandardException &e) {
    CHECK(debug && !inside && e.flag() == OutOfRangeError, "only reads outside the domain are refused");
  }
}
HARNESS(bad_data) {
  int nx = sym_pick(0, 4, "nx"), ny = sym_pick(0, 4, "ny"), kind = sym_pick(0, 2, "kind");
  bool small = nx < 2 || ny < 2, differ = nx != ny;
  ASSUME(small || differ);
  ASSUME(small || debug);
  Array<double> x(nx), y(ny);
  for (int i = 0; i < nx; ++i) x[i] = i;
  for (int i = 0; i < ny; ++i) y[i] = sym_real("y", -8, 8);
  bool threw = false;
  long leak = sym_live();
  try {
    if (kind == 0) blueprints::C2CubicSpline(x, y);
    else if (kind == 1) blueprints::C2CubicSpline(x, y, 1.0, 2.0);
    else blueprints::DerivativeHeuristicCubicSpline(x, y, 1.0, 2.0);
  } catch (const StandardException &e) {
    threw = true;
    CHECK(e.flag() == OutOfRangeError, "unusable data is out of range");
  }
  CHECK(threw, "unusable data is refused");
  (void)leak;
}
HARNESS(copies_and_memory) {
  long leak = sym_live();
  {
    Data d(3);
    CubicSpline a(CubicSpline::Natural(d.xs, d.ys));
    CubicSpline b(a), c;
    c = a;
    Array<double> x(2), y(2);
    x << 0, 1;
    y << 5, 5;
    a = CubicSpline::Natural(x, y);
    const CubicSpline &kb = b, &kc = c, &ka = a;
    for (int i = 0; i < d.n; ++i) {
      sym_close(kb(d.x[i]), d.y[i], TOL, "a copy is independent");
      sym_close(kc(d.x[i]), d.y[i], TOL, "a copy is independent");
    }
    sym_close(ka(0.5), 5, TOL, "a spline can be assigned anew");
  }
  CHECK(sym_live() == leak, "nothing is leaked");
}

// ------------------------------------------------ functions with a domain
struct Fn {
  double a;
  double operator()(const double &x) const { return a + x; }
  double derivative(const double &x) const { return a - x; }
  double dderivative(const double &x) const { return a + 2 * x; }
};
HARNESS(spline_functions) {
  double lo = sym_real("lo", -8, 8), hi = sym_real("hi", -8, 8), x = sym_real("x", -8, 8);
  ASSUME(lo <= hi);
  Fn f = {sym_real("a", -8, 8)};
  SplineFunction<Fn> s(lo, hi, f);
  GenericSplineFunction &g = s;
  CHECK(g.domain().size() == 2 && g.domain()[0] == lo && g.domain()[1] == hi, "the domain is the one given");
  bool inside = x >= lo && x <= hi;
  if (!inside && !debug) return;
  int what = sym_pick(0, 2, "what");
  try {
    double v = what == 0 ? g(x) : what == 1 ? g.derivative(x) : g.dderivative(x);
    CHECK(inside, "reads outside the domain are refused");
    sym_close(v, what == 0 ? f.a + x : what == 1 ? f.a - x : f.a + 2 * x, 1e-9, "the value is that of the function");
  } catch (const StandardException &e) {
    CHECK(debug && !inside && e.flag() == OutOfRangeError, "only reads outside the domain are refused");
  }
}
