// Polynomials: evaluation, derivatives, shifting, division and interpolation obey their algebra.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_formatters/src/lib/strings.cpp ecl_geometry/src/lib/polynomial.cpp ecl_geometry/src/lib/polynomial_blueprints.cpp ecl_geometry/src/lib/pascals_triangle.cpp ecl_type_traits/src/lib/numeric_limits.cpp
//@ default time=150 theory=real
//@ bound degrees 0 to 6; all coefficients, values and derivatives in [-8,8] with shifts, factors and abscissas from a grid of 5 to 9 values of either sign
//@ assume real arithmetic with a bound on every rounding error; results are compared to 1e-9
//@ outside coefficients of other magnitudes, infinities and not-a-numbers; interpolation between equal abscissas
#include <symx.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <ecl/geometry/polynomial.hpp>
#include <ecl/geometry/pascals_triangle.hpp>
using namespace ecl;

static const double TOL = 1e-9;
static const double grid[9] = {0.0, 1.0, -1.5, 2.0, 0.25, -0.75, 3.0, -2.0, 1.25};
static double coef(const char *n) { return sym_real(n, -8, 8); }
static double at(int n, const char *name) { return grid[sym_pick(0, n - 1, name)]; }

// sum of c[i] x^i, and its derivatives
static double value(const double *c, int n, double x, int order = 0) {
  double sum = 0, p = 1;
  for (int i = order; i <= n; ++i) {
    double f = 1;
    for (int k = 0; k < order; ++k) f *= i - k;
    sum += c[i] * (f * p);
    p *= x;
  }
  return sum;
}

template <unsigned int N> struct Poly {
  static void fill(Polynomial<N> &p, double *c) {
    for (unsigned i = 0; i <= N; ++i) p.coefficients()[i] = c[i] = coef("c");
  }
  static void run(int what) {
    double c[N + 1];
    Dirty<Polynomial<N> > d;
    Polynomial<N> &p = d.make();
    for (unsigned i = 0; i <= N; ++i) CHECK(p.coefficients()[i] == 0, "a new polynomial is zero");
    fill(p, c);
    const Polynomial<N> &k = p;
    for (unsigned i = 0; i <= N; ++i) CHECK(k.coefficients()[i] == c[i], "the coefficients read back");
    if (what == 0) {
      double x = at(9, "x");
      sym_close(k(x), value(c, N, x), TOL, "the value is that of the polynomial");
      sym_close(k.derivative(x), value(c, N, x, 1), TOL, "the derivative is that of the polynomial");
      sym_close(k.dderivative(x), value(c, N, x, 2), TOL, "the second derivative is that of the polynomial");
    } else {
      double s = at(9, "shift");
      p.shift_horizontal(s);
      for (int i = 0; i < 4; ++i)
        sym_close(k(grid[i]), value(c, N, grid[i] - s), 1e-8, "a shifted polynomial has the values of the original, shifted");
    }
    d.kill();
  }
};
HARNESS(values_1) { Poly<1>::run(0); }
HARNESS(values_2) { Poly<2>::run(0); }
HARNESS(values_3) { Poly<3>::run(0); }
HARNESS(values_4) { Poly<4>::run(0); }
HARNESS(values_5) { Poly<5>::run(0); }
HARNESS(values_6) { Poly<6>::run(0); }
HARNESS(shift_1) { Poly<1>::run(1); }
HARNESS(shift_2) { Poly<2>::run(1); }
HARNESS(shift_3) { Poly<3>::run(1); }
HARNESS(shift_4) { Poly<4>::run(1); }
HARNESS(shift_5) { Poly<5>::run(1); }
HARNESS(shift_6) { Poly<6>::run(1); }
HARNESS(constants) {
  Dirty<Polynomial<0> > d;
  Polynomial<0> &p = d.make();
  CHECK(p.coefficients()[0] == 0, "a new polynomial is zero");
  double c = coef("c"), x = at(9, "x");
  p.coefficients()[0] = c;
  p.shift_horizontal(x);
  const Polynomial<0> &k = p;
  CHECK(k.coefficients()[0] == c && k(x) == c, "a constant has its value everywhere");
  CHECK(k.derivative(x) == 0 && k.dderivative(x) == 0 && k.derivative()(x) == 0, "the derivative of a constant is zero");
}
HARNESS(derivative_polynomials) {
  Polynomial<5> p;
  double c[6];
  Poly<5>::fill(p, c);
  Polynomial<4> q = p.derivative();
  Polynomial<3> r = q.derivative();
  for (int i = 0; i < 5; ++i) sym_close(q.coefficients()[i], (i + 1) * c[i + 1], TOL, "the derivative polynomial has the derived coefficients");
  for (int i = 0; i < 4; ++i) sym_close(r.coefficients()[i], (i + 1) * (i + 2) * c[i + 2], TOL, "the second derivative polynomial has the derived coefficients");
  for (int i = 0; i < 6; ++i) CHECK(p.coefficients()[i] == c[i], "deriving leaves the polynomial alone");
}

// ------------------------------------------------ division by (x - f)
HARNESS(quadratic_division) {
  QuadraticPolynomial p;
  double c[3], f = at(9, "factor"), rem = coef("before");
  Poly<2>::fill(p, c);
  LinearFunction q;
  if (sym_pick(0, 1, "static")) q = QuadraticPolynomial::Division(p, f, rem);
  else q = Division<QuadraticPolynomial>()(p, f, rem);
  // q(x) (x - f) + rem
  sym_close(q.coefficients()[1], c[2], TOL, "quotient times factor plus remainder is the polynomial");
  sym_close(q.coefficients()[0] - f * q.coefficients()[1], c[1], TOL, "quotient times factor plus remainder is the polynomial");
  sym_close(rem - f * q.coefficients()[0], c[0], TOL, "quotient times factor plus remainder is the polynomial");
}
HARNESS(cubic_division) {
  CubicPolynomial p;
  double c[4], f = at(9, "factor"), rem = coef("before");
  Poly<3>::fill(p, c);
  QuadraticPolynomial q;
  if (sym_pick(0, 1, "static")) q = CubicPolynomial::Division(p, f, rem);
  else q = Division<CubicPolynomial>()(p, f, rem);
  sym_close(q.coefficients()[2], c[3], TOL, "quotient times factor plus remainder is the polynomial");
  sym_close(q.coefficients()[1] - f * q.coefficients()[2], c[2], TOL, "quotient times factor plus remainder is the polynomial");
  sym_close(q.coefficients()[0] - f * q.coefficients()[1], c[1], TOL, "quotient times factor plus remainder is the polynomial");
  sym_close(rem - f * q.coefficients()[0], c[0], TOL, "quotient times factor plus remainder is the polynomial");
}

// ------------------------------------------------ interpolation
template <class P, class B> static P create(B blueprint) {
  switch (sym_pick(0, 2, "how")) {
  case 0: return P(blueprint);
  case 1: return blueprint.instantiate();
  default: {
    P p;
    for (unsigned i = 0; i < p.coefficients().size(); ++i) p.coefficients()[i] = 7.5; // a used polynomial
    blueprint.apply(p);
    return p;
  }
  }
}
static bool by_factory() { return sym_pick(0, 1, "factory"); }
struct Ends {
  double xi, xf, yi, yf, di, df, ai, af;
  Ends() {
    xi = at(6, "xi");
    xf = at(7, "xf");
    ASSUME(xi != xf);
    yi = coef("yi"), yf = coef("yf"), di = coef("di"), df = coef("df"), ai = coef("ai"), af = coef("af");
  }
};
static const double ITOL = 1e-6; // the shortest distance is a quarter
HARNESS(linear_interpolation) {
  Ends e;
  LinearFunction p = create<LinearFunction>(by_factory() ? LinearFunction::Interpolation(e.xi, e.yi, e.xf, e.yf)
                                                         : blueprints::LinearInterpolation(e.xi, e.yi, e.xf, e.yf));
  sym_close(p(e.xi), e.yi, ITOL, "the line starts at the first point");
  sym_close(p(e.xf), e.yf, ITOL, "the line ends at the last point");
}
HARNESS(point_slope_form) {
  Ends e;
  double slope = e.xi;
  LinearFunction p = create<LinearFunction>(by_factory() ? LinearFunction::PointSlopeForm(e.xf, e.yf, slope)
                                                         : blueprints::LinearPointSlopeForm(e.xf, e.yf, slope));
  sym_close(p(e.xf), e.yf, ITOL, "the line goes through the point");
  sym_close(p.derivative(e.xf), slope, ITOL, "the line has the slope");
}
HARNESS(cubic_derivative_interpolation) {
  Ends e;
  CubicPolynomial p = create<CubicPolynomial>(by_factory() ? CubicPolynomial::DerivativeInterpolation(e.xi, e.yi, e.di, e.xf, e.yf, e.df)
                                                           : blueprints::CubicDerivativeInterpolation(e.xi, e.yi, e.di, e.xf, e.yf, e.df));
  sym_close(p(e.xi), e.yi, ITOL, "the cubic starts at the first point");
  sym_close(p(e.xf), e.yf, ITOL, "the cubic ends at the last point");
  sym_close(p.derivative(e.xi), e.di, ITOL, "the cubic starts with the first slope");
  sym_close(p.derivative(e.xf), e.df, ITOL, "the cubic ends with the last slope");
}
HARNESS(cubic_second_derivative_interpolation) {
  Ends e;
  CubicPolynomial p = create<CubicPolynomial>(by_factory() ? CubicPolynomial::SecondDerivativeInterpolation(e.xi, e.yi, e.ai, e.xf, e.yf, e.af)
                                                           : blueprints::CubicSecondDerivativeInterpolation(e.xi, e.yi, e.ai, e.xf, e.yf, e.af));
  sym_close(p(e.xi), e.yi, ITOL, "the cubic starts at the first point");
  sym_close(p(e.xf), e.yf, ITOL, "the cubic ends at the last point");
  sym_close(p.dderivative(e.xi), e.ai, ITOL, "the cubic starts with the first curvature");
  sym_close(p.dderivative(e.xf), e.af, ITOL, "the cubic ends with the last curvature");
}
static void quintic(bool factory) {
  Ends e;
  QuinticPolynomial p = create<QuinticPolynomial>(factory ? QuinticPolynomial::Interpolation(e.xi, e.yi, e.di, e.ai, e.xf, e.yf, e.df, e.af)
                                                          : blueprints::QuinticInterpolation(e.xi, e.yi, e.di, e.ai, e.xf, e.yf, e.df, e.af));
  sym_close(p(e.xi), e.yi, 1e-5, "the quintic starts at the first point");
  sym_close(p(e.xf), e.yf, 1e-5, "the quintic ends at the last point");
  sym_close(p.derivative(e.xi), e.di, 1e-5, "the quintic starts with the first slope");
  sym_close(p.derivative(e.xf), e.df, 1e-5, "the quintic ends with the last slope");
  sym_close(p.dderivative(e.xi), e.ai, 1e-5, "the quintic starts with the first curvature");
  sym_close(p.dderivative(e.xf), e.af, 1e-5, "the quintic ends with the last curvature");
}
HARNESS(quintic_interpolation) { quintic(false); }
HARNESS(quintic_interpolation_by_factory) { quintic(true); }

// ------------------------------------------------ intersections
HARNESS(intersections) {
  Intersection<LinearFunction> meet;
  CHECK(!meet.fail(), "nothing has failed yet");
  for (int k = 0; k < 2; ++k) {
    LinearFunction f, g;
    double a = coef("a"), c = coef("c"), b = at(3, "b"), d = at(3, "d");
    f.coefficients() << a, b;
    g.coefficients() << c, d;
    bool threw = false;
    CartesianPoint2d p;
    try {
      p = k == 1 && sym_pick(0, 1, "static") ? LinearFunction::Intersection(f, g) : meet(f, g);
      if (b == d) continue;
    } catch (const StandardException &e) {
      threw = true;
      CHECK(e.flag() == OutOfRangeError, "parallel lines do not intersect");
    }
    CHECK(threw == (b == d), "lines intersect unless they are parallel");
    if (!threw) {
      sym_close(p.y(), a + b * p.x(), 1e-8, "the intersection lies on the first line");
      sym_close(p.y(), c + d * p.x(), 1e-8, "the intersection lies on the second line");
    }
  }
}
HARNESS(intersection_status) {
  Dirty<Intersection<LinearFunction> > m;
  Intersection<LinearFunction> &meet = m.make();
  CHECK(!meet.fail(), "nothing has failed yet");
  LinearFunction f, g, h;
  f.coefficients() << 1, 2;
  g.coefficients() << 3, 2;
  h.coefficients() << 0, -1;
  for (int k = 0; k < 3; ++k) {
    bool parallel = sym_pick(0, 1, "parallel");
    try { meet(f, parallel ? g : h); } catch (const StandardException &) {}
    CHECK(meet.fail() == parallel, "the status is that of the last operation");
  }
  m.kill();
}

// ------------------------------------------------ Pascal's triangle
template <int N> static void pascal() {
  Dirty<PascalsTriangle<N> > d;
  const PascalsTriangle<N> &t = d.make();
  long binom[N + 2][N + 2];
  for (int n = 0; n <= N + 1; ++n)
    for (int k = 0; k <= n; ++k) binom[n][k] = k == 0 || k == n ? 1 : binom[n - 1][k - 1] + binom[n - 1][k];
  int row = sym_pick(0, N, "row");
  CHECK(t.end(row) - t.begin(row) == N + 1 - row, "every row is one shorter than the one before");
  if (row) CHECK(t.begin(row) == t.end(row - 1), "the rows follow each other");
  else CHECK(t.begin() == t.begin(0) && t.end() == t.end(0), "the first row is the default");
  int i = 0;
  typename PascalsTriangle<N>::const_iterator it = t.begin(row);
  for (; it != t.end(row) && i <= N - row; ++it, ++i) CHECK(*it == binom[row + i][row], "the entries are binomial coefficients");
  CHECK(it == t.end(row), "the row ends at its end");
  d.kill();
}
HARNESS(pascals_triangles) {
  switch (sym_pick(1, 8, "size")) {
  case 1: pascal<1>(); break;
  case 2: pascal<2>(); break;
  case 3: pascal<3>(); break;
  case 4: pascal<4>(); break;
  case 5: pascal<5>(); break;
  case 6: pascal<6>(); break;
  case 7: pascal<7>(); break;
  default: pascal<8>(); break;
  }
}

// ------------------------------------------------ printing
static double printed[8];
static int nprinted;
extern "C" int fk_snprintf(char *o, size_t n, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  if (strchr(f, '*')) va_arg(ap, int);
  double x = va_arg(ap, double);
  va_end(ap);
  if (nprinted < 8) printed[nprinted++] = x;
  if (n > 1) o[0] = '#', o[1] = 0;
  return 1;
}
struct Sink {
  char text[200];
  int n = 0;
  bool flushed = false;
  Sink &operator<<(const char *s) { while (*s) text[n++] = *s++; return *this; }
  Sink &operator<<(const std::string &s) { return *this << s.c_str(); }
  Sink &operator<<(char c) { text[n++] = c; return *this; }
  Sink &operator<<(unsigned char c) { return *this << (char)c; }
  template <class T> Sink &num(T v) { char b[24]; int k = 0; if (v < 0) { text[n++] = '-'; v = -v; } do b[k++] = '0' + (int)(v % 10); while (v /= 10); while (k) text[n++] = b[--k]; return *this; }
  Sink &operator<<(int v) { return num(v); }
  Sink &operator<<(unsigned int v) { return num(v); }
  Sink &operator<<(long v) { return num(v); }
  Sink &operator<<(unsigned long v) { return num(v); }
  Sink &operator<<(short v) { return num((int)v); }
  Sink &operator<<(unsigned short v) { return num((unsigned)v); }
  Sink &operator<<(bool v) { return num((int)v); }
  Sink &operator<<(float) { return *this << "?"; }
  Sink &operator<<(double) { return *this << "?"; }
  void flush() { flushed = true; }
};
HARNESS(printing) {
  Sink s;
  CubicPolynomial p;
  double c[4];
  Poly<3>::fill(p, c);
  s << p;
  s.text[s.n] = 0;
  CHECK(nprinted == 4, "every coefficient is printed once");
  for (int i = 0; i < 4; ++i) CHECK(printed[i] == c[i], "the coefficients are printed in order");
  const char *want[4] = {"#", "x^1", "x^2", "x^3"};
  const char *q = s.text;
  for (int i = 0; i < 4 && q; ++i) q = strstr(q, want[i]);
  CHECK(q != 0, "every power is printed");
  CHECK(s.flushed, "the stream is flushed");
}
HARNESS(printing_pascals_triangle) {
  Sink s;
  switch (sym_pick(3, 5, "size")) {
  case 3: s << PascalsTriangle<3>(); break;
  case 4: s << PascalsTriangle<4>(); break;
  default: s << PascalsTriangle<5>(); break;
  }
  int rows = 0, ones = 0;
  for (int i = 0; i < s.n; ++i) {
    rows += s.text[i] == '\n';
    ones += s.text[i] == '1' && (i == 0 || s.text[i - 1] == ' ' || s.text[i - 1] == '\n') && s.text[i + 1] == ' ';
  }
  CHECK(rows >= 4 && ones == 2 * rows - 1, "every row is printed");
}
