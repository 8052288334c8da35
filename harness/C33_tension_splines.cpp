// Tension splines: they go through their data, twice continuously differentiable, pulled straight by their tension.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_formatters/src/lib/strings.cpp ecl_geometry/src/lib/tension_function.cpp ecl_geometry/src/lib/tension_spline.cpp ecl_geometry/src/lib/tension_spline_blueprints.cpp
//@ default time=150 theory=real
//@ bound 2 to 5 (thorough: 6) points (smoothness: up to 4, thorough: 5) at 4 patterns of unequal abscissas, 4 tensions, any ordinates and second derivatives in [-8,8]; values read at every knot and between all of them
//@ assume real arithmetic with a bound on every rounding error; results are compared to 1e-6; sinh and cosh of constants as computed by the C library
//@ outside abscissas that do not increase; a tension of zero; data of different lengths and reads outside the domain in release builds
#include <symx.h>
#include <math.h>
#include <unistd.h>
#include <ecl/geometry/tension_function.hpp>
#include <ecl/geometry/tension_spline.hpp>
using namespace ecl;
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif
#ifdef SYMX_THOROUGH
static const int MAX = 6;
#else
static const int MAX = 5;
#endif
static const double TOL = 1e-6;
static const double knots[4][6] = {{0, 1, 2, 3, 4, 5}, {-1, -0.5, 1, 1.5, 4, 4.5}, {2, 3.5, 4, 6, 6.25, 7}, {-3, -1, -0.25, 0, 0.5, 2}};
static const double tensions[4] = {1, 0.5, 3, 5};

// The function with f'''' = tau^2 f'' through (x0,y0,z0) and (xf,yf,zf): coefficients of y0, z0, yf, zf in f, f', f''
static double shape(double tau, double x0, double xf, double x, int order, double y0, double z0, double yf, double zf) {
  double h = xf - x0, e = exp(tau * h), den = (e - 1 / e) / 2;
  double l = exp(tau * (xf - x)), r = exp(tau * (x - x0));
  double sl = (l - 1 / l) / 2, cl = (l + 1 / l) / 2, sr = (r - 1 / r) / 2, cr = (r + 1 / r) / 2, t2 = tau * tau;
  if (order == 0) return y0 * ((xf - x) / h) + yf * ((x - x0) / h) + z0 * ((sl / den - (xf - x) / h) / t2) + zf * ((sr / den - (x - x0) / h) / t2);
  if (order == 1) return y0 * (-1 / h) + yf * (1 / h) + z0 * ((-tau * cl / den + 1 / h) / t2) + zf * ((tau * cr / den - 1 / h) / t2);
  return z0 * (sl / den) + zf * (sr / den);
}
HARNESS(functions) {
  double y0 = sym_real("y0", -8, 8), yf = sym_real("yf", -8, 8), z0 = sym_real("z0", -8, 8), zf = sym_real("zf", -8, 8);
  double tau = tensions[sym_pick(0, 3, "tension")];
  const double *k = knots[sym_pick(0, 3, "pattern")];
  double x0 = k[0], xf = k[sym_pick(1, 3, "end")];
  TensionFunction f;
  switch (sym_pick(0, 3, "how")) {
  case 0: f = TensionFunction(TensionFunction::Interpolation(x0, y0, z0, xf, yf, zf)); break;
  case 1: f = blueprints::TensionSecondDerivativeInterpolation(x0, y0, z0, xf, yf, zf).instantiate(); break;
  case 2: f = blueprints::TensionSecondDerivativeInterpolation(x0, y0, z0, xf, yf, zf); break;
  default:
    f = TensionFunction::Interpolation(1, 2, 3, 4, 5, 6);
    TensionFunction::Interpolation(x0, y0, z0, xf, yf, zf).apply(f);
  }
  const TensionFunction g(f);
  sym_close(g(tau, x0), y0, TOL, "the function starts at its first point");
  sym_close(g(tau, xf), yf, TOL, "the function ends at its last point");
  sym_close(g.dderivative(tau, x0), z0, TOL, "the function starts with its first curvature");
  sym_close(g.dderivative(tau, xf), zf, TOL, "the function ends with its last curvature");
  double x = x0 + (xf - x0) * sym_pick(0, 4, "quarter") / 4;
  sym_close(g(tau, x), shape(tau, x0, xf, x, 0, y0, z0, yf, zf), TOL, "the value is that of the tension function");
  sym_close(g.derivative(tau, x), shape(tau, x0, xf, x, 1, y0, z0, yf, zf), TOL, "the slope is that of the tension function");
  sym_close(g.dderivative(tau, x), shape(tau, x0, xf, x, 2, y0, z0, yf, zf), TOL, "the curvature is that of the tension function");
}
struct Data {
  int n;
  const double *x;
  double y[6], tau;
  Array<double> xs, ys;
  Data(int lo = 2, int hi = MAX, bool few = false) {
    n = sym_pick(lo, hi, "points");
    x = knots[sym_pick(0, 3, "pattern")];
    tau = tensions[few ? 2 * sym_pick(0, 1, "tension") : sym_pick(0, 3, "tension")];
    xs.resize(n);
    ys.resize(n);
    for (int i = 0; i < n; ++i) xs[i] = x[i], ys[i] = y[i] = sym_real("y", -8, 8);
  }
};
static void make(TensionSpline &s, const Data &d) {
  switch (sym_pick(0, 3, "how")) {
  case 0: s = TensionSpline(TensionSpline::Natural(d.xs, d.ys, d.tau)); break;
  case 1: s = blueprints::C2TensionSpline(d.xs, d.ys, d.tau).instantiate(); break;
  case 2: s = blueprints::C2TensionSpline(d.xs, d.ys, d.tau); break;
  default: {
    Array<double> x(3), y(3);
    x << 0, 1, 5;
    y << 1, 2, 3;
    TensionSpline::Natural(x, y, 2.0).apply(s);
    TensionSpline::Natural(d.xs, d.ys, d.tau).apply(s);
  }
  }
}
HARNESS(natural_splines) {
  Data d;
  TensionSpline t;
  make(t, d);
  const TensionSpline &s = t;
  CHECK(s.domain().size() == (unsigned)d.n, "the domain has every abscissa");
  for (int i = 0; i < d.n; ++i) {
    CHECK(s.domain()[i] == d.x[i], "the domain is the abscissas");
    sym_close(s(d.x[i]), d.y[i], TOL, "the spline goes through its points");
  }
  sym_close(s.dderivative(d.x[0]), 0, TOL, "a natural spline does not bend at its ends");
  sym_close(s.dderivative(d.x[d.n - 1]), 0, TOL, "a natural spline does not bend at its ends");
}
// smoothness: between its knots the spline is the tension function with the curvatures found at the knots, and
// these make the slope continuous
static void smooth(int n) {
  Data d(n, n, n > 3);
  TensionSpline t(TensionSpline::Natural(d.xs, d.ys, d.tau));
  const TensionSpline &s = t;
  double z[6];
  for (int i = 0; i < d.n; ++i) z[i] = s.dderivative(d.x[i]);
  int i = sym_pick(0, d.n - 2, "interval"), q = n > 3 ? 1 : sym_pick(1, 3, "quarter");
  double x = d.x[i] + (d.x[i + 1] - d.x[i]) * q / 4;
  sym_close(s(x), shape(d.tau, d.x[i], d.x[i + 1], x, 0, d.y[i], z[i], d.y[i + 1], z[i + 1]), TOL, "the value is that of the tension function");
  sym_close(s.derivative(x), shape(d.tau, d.x[i], d.x[i + 1], x, 1, d.y[i], z[i], d.y[i + 1], z[i + 1]), TOL, "the slope is that of the tension function");
  sym_close(s.dderivative(x), shape(d.tau, d.x[i], d.x[i + 1], x, 2, d.y[i], z[i], d.y[i + 1], z[i + 1]), TOL, "the curvature is that of the tension function");
  if (i > 0)
    sym_close(shape(d.tau, d.x[i - 1], d.x[i], d.x[i], 1, d.y[i - 1], z[i - 1], d.y[i], z[i]),
              shape(d.tau, d.x[i], d.x[i + 1], d.x[i], 1, d.y[i], z[i], d.y[i + 1], z[i + 1]), 1e-5, "the slope is continuous");
}
HARNESS(smooth_2) { smooth(2); }
HARNESS(smooth_3) { smooth(3); }
HARNESS(smooth_4) { smooth(4); }
#ifdef SYMX_THOROUGH
static const int LONG = 5;
#else
static const int LONG = 3;
#endif
HARNESS(smooth_long) { smooth(LONG); }
HARNESS(domain) {
  Array<double> xs(4), ys(4);
  xs << -1, -0.5, 1, 4;
  ys << 2, -1, 0, 3;
  TensionSpline s(TensionSpline::Natural(xs, ys, 1.5));
  static const double at[6] = {-1.25, -1, 0, 4, 4.000001, 9};
  double x = at[sym_pick(0, 5, "x")];
  bool inside = x >= -1 && x <= 4;
  if (!inside && !debug) return;
  int what = sym_pick(0, 2, "what");
  try {
    what == 0 ? s(x) : what == 1 ? s.derivative(x) : s.dderivative(x);
    CHECK(inside, "reads outside the domain are refused");
  } catch (const StandardException &e) {
    CHECK(debug && !inside && e.flag() == OutOfRangeError, "only reads outside the domain are refused");
  }
}
HARNESS(bad_data) {
  int nx = sym_pick(0, 4, "nx"), ny = sym_pick(0, 4, "ny");
  bool small = nx < 2 || ny < 2, differ = nx != ny;
  ASSUME(small || differ);
  ASSUME(small || debug);
  Array<double> x(nx), y(ny);
  for (int i = 0; i < nx; ++i) x[i] = i;
  for (int i = 0; i < ny; ++i) y[i] = i;
  bool threw = false;
  try {
    blueprints::C2TensionSpline b(x, y, 1.0);
  } catch (const StandardException &e) {
    threw = true;
    CHECK(e.flag() == OutOfRangeError, "unusable data is out of range");
  }
  CHECK(threw, "unusable data is refused");
}
HARNESS(copies_and_memory) {
  long leak = sym_live();
  {
    Data d(3, 3);
    TensionSpline a(TensionSpline::Natural(d.xs, d.ys, d.tau));
    TensionSpline b(a), c;
    c = a;
    Array<double> x(2), y(2);
    x << 0, 1;
    y << 5, 5;
    a = TensionSpline::Natural(x, y, 2.0);
    const TensionSpline &kb = b, &kc = c, &ka = a;
    for (int i = 0; i < d.n; ++i) {
      sym_close(kb(d.x[i]), d.y[i], TOL, "a copy is independent");
      sym_close(kc(d.x[i]), d.y[i], TOL, "a copy is independent");
    }
    sym_close(ka(0.5), 5, TOL, "a spline can be assigned anew");
  }
  CHECK(sym_live() == leak, "nothing is leaked");
}
