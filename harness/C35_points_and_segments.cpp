// Points keep and combine their coordinates; segments lie on their line and know how far everything is.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_geometry/src/lib/linear_segment.cpp
//@ default time=150 theory=real
//@ bound points of 1 to 5 coordinates of any int, float and double in [-1000,1000] ([-8,8] for products and distances); segments with ends from a table, vertical, horizontal and of no length included, and any point in [-8,8]^2
//@ assume real arithmetic with a bound on every rounding error, compared to 1e-9 (1e-3 for floats)
//@ outside rotation and normalisation of integer points, which round; coordinates of other magnitudes; reads beyond the last coordinate in release builds; points within 1e-6 of where two cases of the distance meet, but for the perpendiculars at the ends; the sign of C for vertical lines, which is as tested by the suite (x = C)
#include <symx.h>
#include <unistd.h>
#include <cmath>
#include <ecl/geometry/cartesian_point.hpp>
#include <ecl/geometry/homogeneous_point.hpp>
#include <ecl/geometry/linear_segment.hpp>
using namespace ecl;
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif
static double any(double, const char *n, double lim = 1000) { return sym_real(n, -lim, lim); }
static float any(float, const char *n, double lim = 1000) { return sym_realf(n, -lim, lim); }
static int any(int, const char *n, double = 1000) { return (int)(sym_u32(n) & 2047) - 1024; }

// ---- any number of coordinates
template <class T, unsigned N> static void general() {
  typedef CartesianPoint<T, N> P;
  typedef ecl::linear_algebra::Matrix<T, N, 1> V;
  T v = any(T(), "v"), a[N];
  Dirty<P> zero, same;
  P &z = zero.make(), &s = same.make(v);
  for (unsigned i = 0; i < N; ++i) CHECK(z[i] == T(0), "a new point is the origin");
  for (unsigned i = 0; i < N; ++i) CHECK(s[i] == v, "a point of one value has it everywhere");
  V m;
  for (unsigned i = 0; i < N; ++i) m[i] = a[i] = any(T(), "a");
  P p(m), q(p);
  const P &k = p;
  for (unsigned i = 0; i < N; ++i) CHECK(k[i] == a[i] && k.positionVector()[i] == a[i] && q[i] == a[i], "the coordinates read back");
  unsigned i = sym_u32("i"), j = sym_pick(0, N - 1, "j");
  ASSUME(i < N || debug);
  try {
    (sym_bool("const") ? (T)k[i] : p[i]);
    CHECK(i < N, "a coordinate there is not is refused");
  } catch (const StandardException &e) {
    CHECK(debug && i >= N && e.flag() == OutOfRangeError, "only coordinates there are not are refused");
  }
  T w = any(T(), "w");
  if (sym_bool("via")) p[j] = w;
  else p.positionVector()[j] = w;
  for (unsigned c = 0; c < N; ++c) CHECK(k[c] == (c == j ? w : a[c]), "writing one coordinate changes that one");
  q = p;
  for (unsigned c = 0; c < N; ++c) CHECK(q[c] == k[c], "a copy has the same coordinates");
  zero.kill();
  same.kill();
}
HARNESS(general_int) { general<int, 4>(); }
HARNESS(general_float) { general<float, 5>(); }
HARNESS(general_double) { general<double, 4>(); }
HARNESS(general_1) { general<double, 1>(); }
HARNESS(general_filling) {
  CartesianPoint<double, 4> p(7.0);
  double a = any(0.0, "a"), b = any(0.0, "b"), c = any(0.0, "c"), d = any(0.0, "d");
  p << a, b, c, d;
  CHECK(p[0] == a && p[1] == b && p[2] == c && p[3] == d, "values are filled in in order");
}
struct Words {
  int nwords, nvalues;
  const char *words[8];
  double values[8];
  Words() : nwords(0), nvalues(0) {}
  Words &operator<<(const char *s) { words[nwords++ & 7] = s; return *this; }
  Words &operator<<(double v) { values[nvalues++ & 7] = v; return *this; }
  Words &operator<<(int v) { return *this << (double)v; }
};
// ---- three
template <class T> static void three() {
  typedef CartesianPoint<T, 3> P;
  T a = any(T(), "a"), b = any(T(), "b"), c = any(T(), "c"), w = any(T(), "w");
  P z, s(w), p(a, b, c);
  const P &k = p;
  CHECK(z.x() == 0 && z.y() == 0 && z.z() == 0, "a new point is the origin");
  CHECK(s.x() == w && s.y() == w && s.z() == w, "a point of one value has it everywhere");
  CHECK(p.x() == a && p.y() == b && p.z() == c && k.x() == a && k.y() == b && k.z() == c, "the coordinates read back");
  CHECK(k.positionVector()[0] == a && p.positionVector()[1] == b && k.positionVector()[2] == c, "the coordinates read back");
  CHECK(p.size() == 3, "a point of three coordinates has three");
  P q(p.positionVector()), r(q);
  int which = sym_pick(0, 2, "which");
  if (which == 0) q.x(w);
  else if (which == 1) q.y(w);
  else q.z(w);
  CHECK(q.x() == (which == 0 ? w : a) && q.y() == (which == 1 ? w : b) && q.z() == (which == 2 ? w : c), "writing one coordinate changes that one");
  CHECK(r.x() == a && r.y() == b && r.z() == c, "copies are independent");
  r << c, w, a;
  CHECK(r.x() == c && r.y() == w && r.z() == a, "values are filled in in order");
  Words o;
  o << r;
  CHECK(o.nvalues == 3 && o.values[0] == c && o.values[1] == w && o.values[2] == a, "the coordinates are printed in order");
}
HARNESS(three_int) { three<int>(); }
HARNESS(three_float) { three<float>(); }
HARNESS(three_double) { three<double>(); }

template <class T> static void homogeneous() {
  typedef HomogeneousPoint<T> P;
  T a = any(T(), "a"), b = any(T(), "b"), c = any(T(), "c"), w = any(T(), "w");
  Dirty<P> dz, ds, dp;
  P &z = dz.make(), &s = ds.make(w), &p = dp.make(a, b, c);
  const P &k = p;
  CHECK(z.x() == 0 && z.y() == 0 && z.z() == 0 && z.positionVector()[3] == 1, "a new point is the origin");
  CHECK(s.x() == w && s.y() == w && s.z() == w && s.positionVector()[3] == 1, "a point of one value has it everywhere");
  CHECK(p.x() == a && p.y() == b && p.z() == c && k.x() == a && k.y() == b && k.z() == c, "the coordinates read back");
  CHECK(k.positionVector()[0] == a && p.positionVector()[1] == b && k.positionVector()[2] == c && k.positionVector()[3] == 1, "the coordinates read back");
  ecl::linear_algebra::Matrix<T, 3, 1> m;
  m << a, b, c;
  P q(m), r(q);
  CHECK(q.positionVector()[3] == 1, "the last coordinate of a point is one");
  int which = sym_pick(0, 2, "which");
  if (which == 0) q.x(w);
  else if (which == 1) q.y(w);
  else q.z(w);
  CHECK(q.x() == (which == 0 ? w : a) && q.y() == (which == 1 ? w : b) && q.z() == (which == 2 ? w : c) && q.positionVector()[3] == 1,
        "writing one coordinate changes that one");
  CHECK(r.x() == a && r.y() == b && r.z() == c && r.positionVector()[3] == 1, "copies are independent");
  Words o;
  o << q;
  CHECK(o.nvalues == 3 && o.values[0] == q.x() && o.values[1] == q.y() && o.values[2] == q.z(), "the coordinates are printed in order");
  r << c, w, a, T(1);
  CHECK(r.x() == c && r.y() == w && r.z() == a, "values are filled in in order");
  ecl::linear_algebra::Matrix<T, 4, 1> v;
  T one = sym_bool("point") ? T(1) : any(T(), "one");
  ASSUME(debug || one == T(1));
  v << a, b, c, one;
  try {
    P h(v);
    CHECK(one == T(1), "a vector that is no point is refused");
    CHECK(h.x() == a && h.y() == b && h.z() == c && h.positionVector()[3] == 1, "the coordinates read back");
  } catch (const StandardException &e) {
    CHECK(debug && one != T(1) && e.flag() == InvalidInputError, "only vectors that are no points are refused");
  }
}
HARNESS(homogeneous_float) { homogeneous<float>(); }
HARNESS(homogeneous_double) { homogeneous<double>(); }

// ---- two
template <class T> static void two() {
  typedef CartesianPoint<T, 2> P;
  T a = any(T(), "a"), b = any(T(), "b"), w = any(T(), "w");
  P z, s(w), p(a, b);
  const P &k = p;
  CHECK(z.x() == 0 && z.y() == 0, "a new point is the origin");
  CHECK(s.x() == w && s.y() == w, "a point of one value has it everywhere");
  CHECK(p.x() == a && p.y() == b && k.x() == a && k.y() == b && p[0] == a && p[1] == b && k[0] == a && k[1] == b, "the coordinates read back");
  CHECK(k.positionVector()[0] == a && p.positionVector()[1] == b && p.size() == 2, "the coordinates read back");
  P q(p.positionVector()), r(q);
  int which = sym_pick(0, 3, "which");
  if (which == 0) q.x(w);
  else if (which == 1) q.y(w);
  else if (which == 2) q[0] = w;
  else q[1] = w;
  CHECK(q.x() == (which % 2 == 0 ? w : a) && q.y() == (which % 2 == 1 ? w : b), "writing one coordinate changes that one");
  CHECK(r.x() == a && r.y() == b, "copies are independent");
  const P *back = &(r = q);
  CHECK(back == &r && r.x() == q.x() && r.y() == q.y(), "a copy has the same coordinates");
  CHECK(r == q && !(r != q), "equal points are equal");
  CHECK((p == q) == (q.x() == a && q.y() == b), "points are equal when their coordinates are");
  CHECK((p != q) == !(q.x() == a && q.y() == b), "points differ when a coordinate does");
  r << w, a;
  CHECK(r.x() == w && r.y() == a, "values are filled in in order");
  Words o;
  o << r;
  CHECK(o.nvalues == 2 && o.values[0] == w && o.values[1] == a, "the coordinates are printed in order");
  unsigned i = sym_u32("i");
  ASSUME(i < 2 || debug);
  try {
    (sym_bool("const") ? (T)k[i] : p[i]);
    CHECK(i < 2, "a coordinate there is not is refused");
  } catch (const StandardException &e) {
    CHECK(debug && i >= 2 && e.flag() == OutOfRangeError, "only coordinates there are not are refused");
  }
}
HARNESS(two_int) { two<int>(); }
HARNESS(two_float) { two<float>(); }
HARNESS(two_double) { two<double>(); }

template <class T> static void sums() {
  typedef CartesianPoint<T, 2> P;
  double t = sizeof(T) == 4 ? 1e-3 : 1e-9;
  T a = any(T(), "a"), b = any(T(), "b"), c = any(T(), "c"), d = any(T(), "d");
  const P p(a, b), q(c, d);
  P s = p + q, e = p - q, m(p);
  sym_close(s.x(), (double)a + c, t, "points add by coordinate");
  sym_close(s.y(), (double)b + d, t, "points add by coordinate");
  sym_close(e.x(), (double)a - c, t, "points subtract by coordinate");
  sym_close(e.y(), (double)b - d, t, "points subtract by coordinate");
  m += q;
  sym_close(m.x(), (double)a + c, t, "points add by coordinate");
  sym_close(m.y(), (double)b + d, t, "points add by coordinate");
  CHECK(p.x() == a && p.y() == b && q.x() == c && q.y() == d, "the operands stay as they are");
  m = p;
  m += m;
  sym_close(m.x(), 2.0 * a, t, "a point added to itself doubles");
  sym_close(m.y(), 2.0 * b, t, "a point added to itself doubles");
}
HARNESS(sums_int) { sums<int>(); }
HARNESS(sums_float) { sums<float>(); }
HARNESS(sums_double) { sums<double>(); }
HARNESS(scaling) {
  static const double factor[6] = {0, 1, -1, 2.5, -0.125, 30};
  double a = any(0.0, "a"), b = any(0.0, "b"), f = factor[sym_pick(0, 5, "factor")];
  const CartesianPoint2d p(a, b);
  CartesianPoint2d s = p * f;
  sym_close(s.x(), a * f, 1e-9, "points scale by coordinate");
  sym_close(s.y(), b * f, 1e-9, "points scale by coordinate");
}
template <class T> static void rotating() {
  T a = any(T(), "a", 8), b = any(T(), "b", 8);
  double h = sym_pick(-25, 25, "angle") * 0.25, t = sizeof(T) == 4 ? 1e-4 : 1e-9;
  CartesianPoint<T, 2> p(a, b);
  p.rotate(h);
  sym_close(p.x(), std::cos(h) * a - std::sin(h) * b, t, "a rotated point is where it should be");
  sym_close(p.y(), std::sin(h) * a + std::cos(h) * b, t, "a rotated point is where it should be");
}
HARNESS(rotating_float) { rotating<float>(); }
HARNESS(rotating_double) { rotating<double>(); }
HARNESS(rotating_any_angle) {
  double a = sym_pick(-2, 2, "a"), b = sym_pick(-2, 2, "b") * 0.75, h = any(0.0, "h", 7);
  CartesianPoint2d p(a, b);
  p.rotate(h);
  sym_close(p.x(), std::cos(h) * a - std::sin(h) * b, 1e-9, "a rotated point is where it should be");
  sym_close(p.y(), std::sin(h) * a + std::cos(h) * b, 1e-9, "a rotated point is where it should be");
}
HARNESS(heading) {
  double a = sym_pick(-4, 4, "a") * 0.5, b = sym_pick(-4, 4, "b") * 0.75;
  CartesianPoint2d p(a, b);
  CartesianPoint2f q(a, b);
  CartesianPoint2i i((int)a, (int)b);
  sym_close(p.get_angle(), atan2(b, a), 1e-12, "the angle of a point is its heading");
  sym_close(q.get_angle(), atan2(b, a), 1e-6, "the angle of a point is its heading");
  sym_close(i.get_angle(), atan2((double)(int)b, (double)(int)a), 1e-12, "the angle of a point is its heading");
}
template <class T> static void distances() {
  double t = sizeof(T) == 4 ? 1e-3 : 1e-9;
  T a = any(T(), "a", 8), b = any(T(), "b", 8), c = any(T(), "c", 8), d = any(T(), "d", 8);
  CartesianPoint<T, 2> p(a, b), q(c, d);
  double v = p.distance(q), dx = (double)a - c, dy = (double)b - d;
  CHECK(v >= 0, "a distance is not negative");
  sym_close(v * v, dx * dx + dy * dy, 100 * t, "the distance is that of Pythagoras");
  double n = p.Norm();
  CHECK(n >= 0, "a norm is not negative");
  sym_close(n * n, (double)a * a + (double)b * b, 100 * t, "the norm is that of Pythagoras");
}
HARNESS(distances_float) { distances<float>(); }
HARNESS(distances_double) { distances<double>(); }
HARNESS(distances_int) {
  int a = sym_pick(-4, 4, "a"), b = sym_pick(-4, 4, "b"), c = sym_pick(-1, 1, "c") * 7, d = sym_pick(0, 2, "d");
  CartesianPoint2i p(a, b), q(c, d);
  int v = p.distance(q), w = (a - c) * (a - c) + (b - d) * (b - d);
  CHECK(v >= 0 && v * v <= w && (v + 1) * (v + 1) > w, "the distance is that of Pythagoras, rounded down");
}
template <class T> static void normalising() {
  static const double grid[7] = {0, -2.5, 3, 4, -0.75, 1e-3, 8};
  double t = sizeof(T) == 4 ? 1e-5 : 1e-9;
  T a = (T)grid[sym_pick(0, 6, "a")], b = (T)grid[sym_pick(0, 6, "b")];
  CartesianPoint<T, 2> p(a, b);
  T n = p.Normalize();
  sym_close(n, std::sqrt((double)a * a + (double)b * b), t * 10, "normalising tells the norm");
  if (a == 0 && b == 0) {
    CHECK(p.x() == 1 && p.y() == 0, "the origin normalises to the first axis");
  } else {
    sym_close(p.x() * n, a, t * 10, "a normalised point keeps its direction");
    sym_close(p.y() * n, b, t * 10, "a normalised point keeps its direction");
    sym_close(p.Norm(), 1, t, "a normalised point has norm one");
  }
}
HARNESS(normalising_float) { normalising<float>(); }
HARNESS(normalising_double) { normalising<double>(); }

// ---- segments
static const double segments[8][4] = {{0, 0, 1, 0}, {1, 1, 1, 3}, {-1.5, 0, 0.25, 3}, {3, 1, 0, -2}, {0.25, 0.25, 0.25, 0.25}, {1, 0, -1, 0}, {0, 3, 0, 1}, {2, 3, 3, -3}};
static const double ends[5] = {0, 1, -1.5, 3, 0.25};
HARNESS(lines) {
  double x1 = ends[sym_pick(0, 4, "x1")], x2 = ends[sym_pick(0, 4, "x2")], y1 = any(0.0, "y1", 8), y2 = any(0.0, "y2", 8);
  LinearSegment s(x1, y1, x2, y2);
  double A = s.A(), B = s.B(), C = s.C();
  CHECK(A != 0 || B != 0, "the line is a line");
  if (x1 == x2) {
    CHECK(B == 0 && A == 1, "a vertical line does not depend on y");
    CHECK(C == x1 || C == -x1, "a vertical line is at its abscissa");
  } else {
    sym_close(A * x1 + B * y1 + C, 0, 1e-9, "the first point is on the line");
    sym_close(A * x2 + B * y2 + C, 0, 1e-9, "the second point is on the line");
  }
}
HARNESS(distance_from_segment) {
  const double *p = segments[sym_pick(0, 7, "segment")], x1 = p[0], y1 = p[1], x2 = p[2], y2 = p[3];
  const LinearSegment s(x1, y1, x2, y2);
  double x = any(0.0, "x", 8), y = any(0.0, "y", 8), v = s.squaredDistanceFromPoint(x, y);
  double dx = x2 - x1, dy = y2 - y1, l = dx * dx + dy * dy, u = x - x1, w = y - y1, dot = u * dx + w * dy;
  ASSUME((dot > 1e-6 || dot < -1e-6 || l == 0) && (dot - l > 1e-6 || l - dot > 1e-6 || l == 0));
  if (dot <= 0 || l == 0) sym_close(v, u * u + w * w, 1e-9, "before the segment the first end is nearest");
  else if (dot >= l) sym_close(v, (x - x2) * (x - x2) + (y - y2) * (y - y2), 1e-9, "past the segment the second end is nearest");
  else {
    double cross = (u * dy - w * dx);
    sym_close(v, cross * cross / l, 1e-9, "beside the segment the foot of the perpendicular is nearest");
  }
}
HARNESS(distance_at_the_ends) { // where the cases meet
  const double *p = segments[sym_pick(0, 7, "segment")], x1 = p[0], y1 = p[1], x2 = p[2], y2 = p[3];
  const LinearSegment s(x1, y1, x2, y2);
  double off = any(0.0, "off", 2), dx = x2 - x1, dy = y2 - y1, l = dx * dx + dy * dy;
  bool first = sym_pick(0, 1, "end");
  double x = (first ? x1 : x2) - dy * off, y = (first ? y1 : y2) + dx * off;
  sym_close(s.squaredDistanceFromPoint(x, y), l * off * off, 1e-6, "across from an end, the end is nearest");
}
