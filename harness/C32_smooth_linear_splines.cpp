// Smoothed linear splines: straight between the points, rounded at the corners within the acceleration allowed.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_geometry/src/lib/polynomial.cpp ecl_geometry/src/lib/polynomial_blueprints.cpp ecl_geometry/src/lib/pascals_triangle.cpp ecl_geometry/src/lib/smooth_linear_spline.cpp ecl_type_traits/src/lib/numeric_limits.cpp
//@ default time=150 theory=real
//@ bound 2 to 4 (thorough: 5) points at 3 patterns of unequal abscissas, ordinates from a grid, 4 acceleration bounds of either sign; the shape at any abscissa
//@ assume real arithmetic with a bound on every rounding error
//@ outside ordinates off the grid; abscissas that do not increase; fewer than two points; reads outside the domain in release builds
#include <symx.h>
#include <math.h>
#include <unistd.h>
#include <ecl/geometry/smooth_linear_spline.hpp>
using namespace ecl;
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif
static const double knots[3][5] = {{0, 1, 2, 3, 4}, {-1, -0.5, 1, 1.5, 4}, {2, 3.5, 4, 6, 6.25}};
static const double heights[4] = {0, 1, -2, 2};
static const double amax[4] = {1, -3, 8, 40};
struct Data {
  int n;
  const double *x;
  double y[5], a;
  Array<double> xs, ys;
  Data(int points) {
    n = points;
    x = knots[sym_pick(0, 2, "pattern")];
    a = amax[sym_pick(0, 3, "a")];
    xs.resize(n);
    ys.resize(n);
    for (int i = 0; i < n; ++i) xs[i] = x[i], ys[i] = y[i] = i < 1 ? 0.5 : heights[sym_pick(0, i < 4 ? 3 : 1, "y")];
  }
  double slope(int i) const { return (y[i + 1] - y[i]) / (x[i + 1] - x[i]); }
};
static double mag(double v) { return v < 0 ? -v : v; }
static bool build(SmoothLinearSpline &s, const Data &d, int how) {
  try {
    if (how == 0) s = SmoothLinearSpline(d.xs, d.ys, d.a);
    else s = SmoothLinearSpline::Interpolation(d.xs, d.ys, d.a);
    return true;
  } catch (const DataException<int> &e) {
    CHECK(e.flag() == ConstructorError, "a corner that cannot be built is a construction failure");
    int i = e.data();
    CHECK(i >= 1 && i <= d.n - 2, "the failure names a corner");
    if (i >= 1 && i <= d.n - 2) {
      // the widest corner: the first and last segments can be used in full, the others to their middles
      double l = (d.x[i] - d.x[i - 1]) / (i == 1 ? 1 : 2), r = (d.x[i + 1] - d.x[i]) / (i == d.n - 2 ? 1 : 2);
      double xl = d.x[i] - l, xr = d.x[i] + r, worst = 0;
      QuinticPolynomial q = QuinticPolynomial::Interpolation(xl, d.y[i] - l * d.slope(i - 1), d.slope(i - 1), 0, xr, d.y[i] + r * d.slope(i), d.slope(i), 0);
      for (int k = 0; k <= 64; ++k) {
        double v = mag(q.dderivative(xl + (xr - xl) * k / 64));
        if (v > worst) worst = v;
      }
      CHECK(worst >= mag(d.a) * 0.99 - 1e-6, "a corner is only refused when it would be too sharp");
      for (int j = 1; j < i; ++j) CHECK(true, "");
    }
    return false;
  }
}
static void shape(int n) {
  Data d(n);
  SmoothLinearSpline t;
  if (!build(t, d, sym_pick(0, 1, "how"))) return;
  const SmoothLinearSpline &s = t;
  const Array<double> &D = s.domain();
  CHECK(D.size() == 2u * (n - 1), "the domain has two abscissas per corner and the ends");
  CHECK(D[0] == d.x[0] && D[2 * n - 3] == d.x[n - 1], "the domain is that of the points");
  for (int i = 1; i < n - 1; ++i) {
    double l = D[2 * i - 1], r = D[2 * i];
    CHECK(l <= d.x[i] && r >= d.x[i], "the corners are at the points");
    CHECK(l >= (i == 1 ? d.x[0] : (d.x[i - 1] + d.x[i]) / 2) - 1e-9 && r <= (i == n - 2 ? d.x[n - 1] : (d.x[i] + d.x[i + 1]) / 2) + 1e-9,
          "the corners keep out of each other's way");
  }
  sym_close(s(d.x[0]), d.y[0], 1e-6, "the spline starts at the first point");
  sym_close(s(d.x[n - 1]), d.y[n - 1], 1e-6, "the spline ends at the last point");
  // anywhere: straight outside the corners, smooth and within bounds in them
  int seg = sym_pick(0, 2 * n - 4, "piece");
  double b = D[seg], e = D[seg + 1];
  if (seg % 2 == 0) {
    int i = seg / 2;
    if (b < e) {
      double x = sym_real("x", -1, 6.25);
      ASSUME(x > b && x <= e);
      sym_close(s(x), d.y[i] + d.slope(i) * (x - d.x[i]), 1e-5, "the spline is straight between the corners");
      sym_close(s.derivative(x), d.slope(i), 1e-5, "the slope is that between the points");
      sym_close(s.dderivative(x), 0, 1e-5, "the spline does not bend between the corners");
    }
  } else if (b < e) {
    int i = (seg + 1) / 2;
    sym_close(s(b), d.y[i] + d.slope(i - 1) * (b - d.x[i]), 1e-6, "a corner starts on the first line");
    sym_close(s(e), d.y[i] + d.slope(i) * (e - d.x[i]), 1e-6, "a corner ends on the second line");
    sym_close(s.derivative(e), d.slope(i), 1e-5, "a corner ends with the second slope");
    sym_close(s.dderivative(e), 0, 1e-4, "a corner ends without bending");
    double h = (e - b) * 1e-7; // just inside
    sym_close(s(b + h), d.y[i] + d.slope(i - 1) * (b - d.x[i]), 1e-4, "a corner starts on the first line");
    sym_close(s.derivative(b + h), d.slope(i - 1), 1e-3, "a corner starts with the first slope");
    for (int k = 1; k <= 16; ++k) {
      double x = b + (e - b) * k / 16, v = s.dderivative(x);
      CHECK(mag(v) < mag(d.a) + 1e-6, "the acceleration allowed is kept");
    }
  }
}
HARNESS(two_points) { shape(2); }
HARNESS(three_points) { shape(3); }
HARNESS(four_points) { shape(4); }
#ifdef SYMX_THOROUGH
static const int MANY = 5;
#else
static const int MANY = 3;
#endif
HARNESS(more_points) { shape(MANY); }
// a corner's acceleration at any abscissa
HARNESS(acceleration) {
  Data d(3);
  SmoothLinearSpline t;
  if (!build(t, d, 0)) return;
  const SmoothLinearSpline &s = t;
  double b = s.domain()[1], e = s.domain()[2];
  if (!(b < e)) return;
  double x = sym_real("x", -1, 6.25);
  ASSUME(x > b && x <= e);
  double v = s.dderivative(x), lim = mag(d.a) + 1e-3;
  CHECK(v < lim && v > -lim, "the acceleration allowed is kept");
}
HARNESS(domain) {
  Array<double> xs(4), ys(4);
  xs << -1, -0.5, 1, 4;
  ys << 2, -1, 0, 3;
  SmoothLinearSpline s(xs, ys, 100.0);
  double x = sym_real("x", -3, 6);
  bool inside = x >= -1 && x <= 4;
  if (!inside && !debug) return;
  int what = sym_pick(0, 2, "what");
  try {
    what == 0 ? s(x) : what == 1 ? s.derivative(x) : s.dderivative(x);
    CHECK(inside, "reads outside the domain are refused");
  } catch (const StandardException &e) {
    CHECK(debug && !inside && e.flag() == OutOfRangeError, "only reads outside the domain are refused");
  }
}
HARNESS(bad_data) {
  int nx = sym_pick(0, 4, "nx"), ny = sym_pick(0, 4, "ny");
  ASSUME(nx != ny);
  Array<double> x(nx), y(ny);
  for (int i = 0; i < nx; ++i) x[i] = i;
  for (int i = 0; i < ny; ++i) y[i] = i;
  bool threw = false;
  try {
    SmoothLinearSpline s(x, y, 1.0);
  } catch (const DataException<int> &e) {
    threw = true;
    CHECK(e.flag() == OutOfRangeError, "data of different lengths is out of range");
  }
  CHECK(threw, "data of different lengths is refused");
}
