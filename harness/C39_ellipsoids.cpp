// Covariance ellipsoids: lengths and axes are those of the matrix.
//@ config rel,dbg
//@ src ecl_statistics/src/lib/covariance_ellipsoid.cpp
//@ default time=90 theory=real
//@ bound 2x2: variances anywhere in [0.5,8], covariances anywhere up to 0.45 either way (at least 0.1 for the axes) or none; nearly round and nearly flat matrices, intercepts and rotations from grids; 3x3: a grid of matrices, because their solver is Eigen's iteration
//@ assume real arithmetic with a bound on every rounding error, compared to 1e-7 (1e-2 for floats; 1e-3 for intercepts of floats)
//@ outside matrices that are not symmetric and positive definite; other magnitudes
#include <symx.h>
#include <unistd.h>
#include <cmath>
#include <ecl/statistics/covariance_ellipsoid.hpp>
using namespace ecl;

template <class T> struct Two {
  typedef CovarianceEllipsoid<T, 2> El;
  typedef Eigen::Matrix<T, 2, 2> M;
  typedef Eigen::Matrix<T, 2, 1> V;
  static T any(const char *n, double lo, double hi) { return sizeof(T) == 4 ? (T)sym_realf(n, lo, hi) : (T)sym_real(n, lo, hi); }
  static double tol() { return sizeof(T) == 4 ? 1e-2 : 1e-7; }
  static M of(T a, T b, T d) {
    M m;
    m << a, b, b, d;
    return m;
  }
  static void made(El &e, const M &m) { // built or computed, over and over
    if (sym_choose(2, "again")) {
      e.compute(of((T)3, (T)1, (T)5));
      e.compute(m);
    } else
      e = El(m);
  }
  static void start() {
    El e;
    CHECK(e.lengths()(0) == 1 && e.lengths()(1) == 1, "an ellipse is a unit circle until computed");
    CHECK(e.axes()(0, 0) == 1 && e.axes()(1, 0) == 0 && e.axes()(0, 1) == 0 && e.axes()(1, 1) == 1, "an ellipse has the usual axes until computed");
  }
  static void lengths() {
    sym_split(1);
    T a = any("a", 0.5, 8), d = any("d", 0.5, 8), b = any("b", -0.45, 0.45);
    if (sym_choose(2, "covariance") == 0) b = 0;
    M m = of(a, b, d);
    El e;
    made(e, m);
    CHECK(m(0, 0) == a && m(0, 1) == b && m(1, 0) == b && m(1, 1) == d, "the matrix is left alone");
    double l0 = e.lengths()(0), l1 = e.lengths()(1);
    CHECK(l0 >= 0 && l1 >= 0, "lengths are not negative");
    sym_close(l0 * l0 + l1 * l1, (double)a + (double)d, tol(), "the squared lengths sum to the trace");
    double s = l0 * l0, t = l1 * l1;
    sym_close(s * t, (double)a * (double)d - (double)b * (double)b, tol() * 10, "the squared lengths multiply to the determinant");
  }
  static void major() {
    sym_split(1); // the major axis comes first
    T a = any("a", 0.5, 8), d = any("d", 0.5, 8);
    ASSUME(a - d > 0.01 || d - a > 0.01);
    El e(of(a, 0, d));
    CHECK(e.lengths()(0) > e.lengths()(1), "the major axis is the first");
    double l0 = e.lengths()(0), l1 = e.lengths()(1);
    bool along = a > d;
    sym_close(l0 * l0, along ? a : d, tol(), "the major axis' length");
    sym_close(l1 * l1, along ? d : a, tol(), "the minor axis' length");
    CHECK(e.axes()(0, 0) == (along ? 1 : 0) && e.axes()(1, 0) == (along ? 0 : 1), "the major axis of no covariance");
    CHECK(e.axes()(0, 1) == (along ? 0 : 1) && e.axes()(1, 1) == (along ? 1 : 0), "the minor axis of no covariance");
  }
  static void axes() {
    sym_split(1);
    T a = any("a", 0.5, 8), d = any("d", 0.5, 8), b = sym_choose(2, "sign") ? any("b", 0.1, 0.45) : any("b", -0.45, -0.1);
    El e;
    made(e, of(a, b, d));
    int k = sym_choose(2, "axis");
    double u = e.axes()(0, k), v = e.axes()(1, k), l = e.lengths()(k), s = l * l;
    sym_close(u * a + v * b, s * u, tol() * 10, "an axis is the matrix' own");
    sym_close(u * b + v * d, s * v, tol() * 10, "an axis is the matrix' own");
  }
  static void whole(T a, T b, T d) {
    double t = tol() * (a + d + 1);
    El e;
    made(e, of(a, b, d));
    double l0 = e.lengths()(0), l1 = e.lengths()(1);
    CHECK(l0 >= l1 && l1 >= 0, "the major axis is the first");
    sym_close(l0 * l0 + l1 * l1, (double)a + (double)d, t, "the squared lengths sum to the trace");
    sym_close(l0 * l0 * l1 * l1, (double)a * (double)d - (double)b * (double)b, t * (a + d), "the squared lengths multiply to the determinant");
    for (int k = 0; k < 2; ++k) {
      double u = e.axes()(0, k), v = e.axes()(1, k), s = k ? l1 * l1 : l0 * l0;
      sym_close(u * a + v * b, s * u, t, "an axis is the matrix' own");
      sym_close(u * b + v * d, s * v, t, "an axis is the matrix' own");
      sym_close(u * u + v * v, 1, tol(), "an axis has length one");
    }
    sym_close(e.axes()(0, 0) * e.axes()(0, 1) + e.axes()(1, 0) * e.axes()(1, 1), 0, tol(), "the axes are perpendicular");
    double r = e.rotation();
    sym_close(std::cos(r), e.axes()(0, 0), tol(), "the rotation is that of the major axis");
    sym_close(std::sin(r), e.axes()(1, 0), tol(), "the rotation is that of the major axis");
    double det = (double)a * (double)d - (double)b * (double)b;
    if (det > 0.1 * a * d) {
      double ti = sizeof(T) == 4 ? 1e-3 : 1e-7;
      V i = e.intercepts();
      sym_close(i(0), std::sqrt(det / d), ti * (a + d + 1), "the ellipse meets the first axis there");
      sym_close(i(1), std::sqrt(det / a), ti * (a + d + 1), "the ellipse meets the second axis there");
    }
  }
  static void grid() {
    static const double va[6] = {0.5, 3, 5, 0.01, 7.57792949677, 1};
    T a = (T)va[sym_choose(6, "a")], d = (T)va[sym_choose(6, "d")];
    static const double r[7] = {0, 0.5, -0.5, 0.1, -0.9, 0.99, 1e-3};
    T b = (T)(r[sym_choose(7, "b")] * std::sqrt((double)a * (double)d));
    whole(a, b, d);
  }
  static T step(T x, int n) { // the n-th number after x
    if (sizeof(T) == 4) {
      int32_t i;
      __builtin_memcpy(&i, &x, 4);
      i += n;
      __builtin_memcpy(&x, &i, 4);
    } else {
      int64_t i;
      __builtin_memcpy(&i, &x, 8);
      i += n;
      __builtin_memcpy(&x, &i, 8);
    }
    return x;
  }
  static void round() { // nearly round
    static const double va[5] = {7.57792949677, 1, 0.1, 3.3, 0.7};
    static const double off[6] = {0, 1e-4, -1e-7, 3e-9, -1e-12, 1e-15};
    T a = (T)va[sym_choose(5, "a")], d = a;
    d = step(d, sym_choose(7, "apart") - 3);
    whole(a, (T)(off[sym_choose(6, "b")]), d);
  }
  static void flat() { // nearly flat
    static const double va[5] = {7.57792949677, 1, 0.1, 3.3, 0.7};
    T a = (T)va[sym_choose(5, "a")], d = (T)va[sym_choose(5, "d")];
    T b = (T)std::sqrt((double)a * (double)d);
    b = step(b, -sym_choose(3, "apart"));
    while ((double)b * (double)b > (double)a * (double)d) b = step(b, -1);
    whole(a, b, d);
  }
};
HARNESS(start_double) { Two<double>::start(); }
HARNESS(start_float) { Two<float>::start(); }
HARNESS(lengths_double) { Two<double>::lengths(); }
HARNESS(lengths_float) { Two<float>::lengths(); }
HARNESS(major_double) { Two<double>::major(); }
HARNESS(major_float) { Two<float>::major(); }
HARNESS(axes_double) { Two<double>::axes(); }
HARNESS(axes_float) { Two<float>::axes(); }
HARNESS(grid_double) { Two<double>::grid(); }
HARNESS(grid_float) { Two<float>::grid(); }
HARNESS(round_double) { Two<double>::round(); }
HARNESS(round_float) { Two<float>::round(); }
HARNESS(flat_double) { Two<double>::flat(); }
HARNESS(flat_float) { Two<float>::flat(); }

// ---------------------------------------------------------------- three dimensions
template <class T> struct Three {
  typedef CovarianceEllipsoid<T, 3> El;
  typedef Eigen::Matrix<T, 3, 3> M;
  static void is(El &e, const M &m, double t, bool sorted) {
    double scale = 1;
    for (int i = 0; i < 3; ++i) scale += m(i, i);
    for (int k = 0; k < 3; ++k) {
      double l = e.lengths()(k), s = l * l, n = 0;
      CHECK(l >= 0, "lengths are not negative");
      for (int i = 0; i < 3; ++i) {
        double v = 0;
        for (int j = 0; j < 3; ++j) v += (double)m(i, j) * (double)e.axes()(j, k);
        sym_close(v, s * (double)e.axes()(i, k), t * scale, "an axis is the matrix' own");
        n += (double)e.axes()(i, k) * (double)e.axes()(i, k);
      }
      if (sorted) sym_close(n, 1, t, "an axis has length one");
      else CHECK(n > 1e-3, "an axis has a length");
    }
    if (sorted) {
      double x[3][3];
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) x[i][j] = e.axes()(i, j);
      double det = x[0][0] * (x[1][1] * x[2][2] - x[1][2] * x[2][1]) - x[0][1] * (x[1][0] * x[2][2] - x[1][2] * x[2][0]) + x[0][2] * (x[1][0] * x[2][1] - x[1][1] * x[2][0]);
      sym_close(det, 1, t, "the axes are a right handed frame");
    }
  }
  static void made(El &e, const M &m, bool sorted) {
    switch (sym_choose(3, "made")) {
      case 0: e = El(m, sorted); break;
      case 1: e.compute(M::Identity() * (T)2); e.compute(m, sorted); break;
      case 2: if (sorted) { e = El(m); break; } e.compute(m, false); break;
    }
  }
  static void start() {
    El e;
    CHECK(e.lengths()(0) == 1 && e.lengths()(1) == 1 && e.lengths()(2) == 1, "an ellipsoid is a unit ball until computed");
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) CHECK(e.axes()(i, j) == (i == j), "an ellipsoid has the usual axes until computed");
  }
  static void grid() {
    static const double va[4][3] = {{1, 2, 3}, {0.01, 0.25, 0.09}, {5, 0.5, 2}, {2, 2, 0.5}};
    static const double cs[5][3] = {{0, 0, 0}, {0.3, 0, 0}, {0, 0.2, -0.3}, {0.3, -0.2, 0.1}, {-0.5, 0.4, 0.3}};
    const double *v = va[sym_choose(4, "variances")], *c = cs[sym_choose(5, "covariances")];
    double r01 = c[0] * std::sqrt(v[0] * v[1]), r02 = c[1] * std::sqrt(v[0] * v[2]), r12 = c[2] * std::sqrt(v[1] * v[2]);
    M m;
    m << (T)v[0], (T)r01, (T)r02, (T)r01, (T)v[1], (T)r12, (T)r02, (T)r12, (T)v[2];
    bool sorted = sym_choose(2, "sorted");
    El e;
    made(e, m, sorted);
    is(e, m, sizeof(T) == 4 ? 1e-4 : 1e-10, sorted);
  }
};
HARNESS(three_start_double) { Three<double>::start(); }
HARNESS(three_start_float) { Three<float>::start(); }
HARNESS(three_grid_double) { Three<double>::grid(); }
HARNESS(three_grid_float) { Three<float>::grid(); }
