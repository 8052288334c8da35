// Poses: products, inverses and relatives are those of rigid motions, in either storage and dimension.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_formatters/src/lib/strings.cpp ecl_geometry/src/lib/angle.cpp
//@ default time=150 theory=real
//@ bound any translations in [-100,100] and points in [-8,8]; headings anywhere in [-3.1415,3.1415] for single operations, from a grid of 7 to 9 for compositions; rotations in three dimensions about the axes and compositions of two of these
//@ assume real arithmetic with a bound on every rounding error, compared to 1e-8 (1e-2 for floats); sine and cosine of symbolic angles are any two numbers of square sum one
//@ outside rotation matrices that are no rotations; translations of other magnitudes
//@ entry making_MD
//@ entry changing_MD
//@ entry products_MD
//@ entry inverse_MD
//@ entry laws_MD
//@ entry making_AD
//@ entry changing_AD
//@ entry products_AD
//@ entry inverse_AD
//@ entry laws_AD
//@ entry making_MF
//@ entry changing_MF
//@ entry products_MF
//@ entry inverse_MF
//@ entry laws_MF
//@ entry making_AF
//@ entry changing_AF
//@ entry products_AF
//@ entry inverse_AF
//@ entry laws_AF
#include <symx.h>
#include <unistd.h>
#include <stdio.h>
#include <cmath>
#include <ecl/geometry/pose2d.hpp>
#include <ecl/geometry/legacy_pose2d.hpp>
#include <ecl/geometry/legacy_pose3d.hpp>
using namespace ecl;
using ecl::linear_algebra::AngleAxis;
using ecl::linear_algebra::Quaternion;

static const double PI = 3.14159265358979323846;
static double any(double, const char *n, double lim) { return sym_real(n, -lim, lim); }
static float any(float, const char *n, double lim) { return sym_realf(n, -lim, lim); }
template <class T> static double tol() { return sizeof(T) == 4 ? 1e-2 : 1e-8; }
static const double grid[9] = {0, 0.5, -1.25, 3, -3, 1.5707963, -2, 2.25, -0.125};
static double angle(int n = 7) { return grid[sym_pick(0, n - 1, "heading")]; }
template <class T> static void same_heading(T h, double want, double t = tol<T>()) {
  CHECK(h <= PI + t && h >= -PI - t, "headings are wrapped");
  double turns = (want - (double)h) / (2 * PI), whole = std::floor(turns + 0.5);
  CHECK(turns - whole < t && whole - turns < t, "the heading is as it should be");
}
template <class T> static void rotation_of(const ecl::linear_algebra::Matrix<T, 2, 2> &m, T h, const char *what = "the rotation matrix is that of the heading") {
  double t = sizeof(T) == 4 ? 1e-4 : 1e-8;
  sym_close(m(0, 0), std::cos(h), t, what);
  sym_close(m(0, 1), -std::sin(h), t, what);
  sym_close(m(1, 0), std::sin(h), t, what);
  sym_close(m(1, 1), std::cos(h), t, what);
}

// ---- the two dimensional pose
template <class T> struct Plain {
  typedef Pose2D<T> P;
  static void reading() {
    T x = any(T(), "x", 100), y = any(T(), "y", 100), h = any(T(), "h", 3.1415);
    Dirty<P> d, d0;
    P &p = d.make(x, y, h), &z = d0.make();
    CHECK(z.x() == 0 && z.y() == 0 && z.heading() == 0, "a new pose is the identity");
    const P &k = p;
    CHECK(k.x() == x && k.y() == y && k.heading() == h, "a pose has the coordinates it was given");
    CHECK(k.translation()[0] == x && k.translation()[1] == y, "the translation is that of the pose");
    rotation_of<T>(k.rotationMatrix(), h);
    typename P::XYH v;
    v << y, h, x;
    P q(v), r(q);
    CHECK(q.x() == y && q.y() == h && q.heading() == x, "a pose has the coordinates it was given");
    r = p;
    CHECK(r.x() == x && r.y() == y && r.heading() == h && q.x() == y, "copies are independent");
  }
  static void product() {
    T x = any(T(), "x", 100), y = any(T(), "y", 100), h = any(T(), "h", 3.1415);
    T u = any(T(), "u", 100), v = any(T(), "v", 100), g = any(T(), "g", 3.1415);
    P a(x, y, h), b(u, v, g);
    int how = sym_pick(0, 4, "how");
    P c;
    if (how == 4) { b = a, u = x, v = y, g = h; }
    if (how == 0) c = a * b;
    else if (how == 1) { c = a; P *back = &(c *= b); CHECK(back == &c, "extending returns the pose"); }
    else if (how == 4) { c = a; c *= c; }
    else {
      typename P::XYH m, n;
      m << x, y, h;
      n << u, v, g;
      if (how == 2) c = P(concatenate_poses(m, n));
      else { extend_pose(m, n); c = P(m); }
      CHECK(n[0] == u && n[1] == v && n[2] == g, "the operands stay as they are");
    }
    CHECK(a.x() == x && a.y() == y && a.heading() == h && b.x() == u && b.y() == v && b.heading() == g, "the operands stay as they are");
    sym_close(c.x(), x + std::cos(h) * u - std::sin(h) * v, tol<T>(), "the product moves by the second within the first");
    sym_close(c.y(), y + std::sin(h) * u + std::cos(h) * v, tol<T>(), "the product moves by the second within the first");
    same_heading<T>(c.heading(), (double)h + (double)g);
  }
  static void laws() {
    P a(any(T(), "x", 100), any(T(), "y", 100), angle()), b(any(T(), "u", 100), any(T(), "v", 100), angle()), c(any(T(), "r", 100), any(T(), "s", 100), angle(3)), one;
    P l = (a * b) * c, r = a * (b * c), i = one * a, j = a * one;
    sym_close(l.x(), r.x(), 2 * tol<T>(), "products can be grouped");
    sym_close(l.y(), r.y(), 2 * tol<T>(), "products can be grouped");
    same_heading<T>(l.heading(), r.heading());
    sym_close(i.x(), a.x(), tol<T>(), "the identity changes nothing");
    sym_close(i.y(), a.y(), tol<T>(), "the identity changes nothing");
    sym_close(i.heading(), a.heading(), tol<T>(), "the identity changes nothing");
    sym_close(j.x(), a.x(), tol<T>(), "the identity changes nothing");
    sym_close(j.y(), a.y(), tol<T>(), "the identity changes nothing");
    sym_close(j.heading(), a.heading(), tol<T>(), "the identity changes nothing");
  }
};
HARNESS(plain_reading_double) { Plain<double>::reading(); }
HARNESS(plain_reading_float) { Plain<float>::reading(); }
HARNESS(plain_product_double) { Plain<double>::product(); }
HARNESS(plain_product_float) { Plain<float>::product(); }
HARNESS(plain_laws_double) { Plain<double>::laws(); }
HARNESS(plain_laws_float) { Plain<float>::laws(); }

// ---- the two dimensional poses of either storage
template <class P> struct Legacy {
  typedef typename P::Scalar T;
  typedef typename P::Translation V;
  typedef typename P::RotationMatrix M;
  // a pose at x, y with this heading
  static void is(const P &p, double x, double y, double h) {
    sym_close(p.x(), x, tol<T>(), "the pose is where it should be");
    sym_close(p.y(), y, tol<T>(), "the pose is where it should be");
    CHECK(p.translation()[0] == p.x() && p.translation()[1] == p.y(), "the translation is that of the pose");
    rotation_of<T>(p.rotationMatrix(), h);
  }
  static void is_facing(const P &p, double x, double y, double h) {
    is(p, x, y, h);
    same_heading<T>((T)p.heading(), h);
  }
  static M rot(T h) { return Angle<T>(h).rotationMatrix(); }
  static void making() { // heading from the grid, as it may be kept as a matrix
    T x = any(T(), "x", 100), y = any(T(), "y", 100), h = angle(9);
    V v;
    v << x, y;
    P z;
    is_facing(z, 0, 0, 0);
    is_facing(P::Identity(), 0, 0, 0);
    switch (sym_pick(0, 5, "how")) {
    case 0: { Dirty<P> d; is_facing(d.make(x, y, Angle<T>(h)), x, y, h); break; }
    case 1: is_facing(P(rot(h), v), x, y, h); break;
    case 2: is_facing(P(Angle<T>(h), v), x, y, h); break;
    case 3: { LegacyPose2D<T, RotationMatrixStorage> o(x, y, h); P p(o); is_facing(p, x, y, h); break; }
    case 4: { LegacyPose2D<T, RotationAngleStorage> o(x, y, h); P p(o); is_facing(p, x, y, h); break; }
    case 5: { P o(x, y, h), p(o); is_facing(p, x, y, h); break; }
    }
  }
  static void changing() {
    T x = any(T(), "x", 100), y = any(T(), "y", 100), h = angle(), w = any(T(), "w", 100), t = any(T(), "t", 100), g = angle(9);
    P p(x, y, h);
    V v;
    v << w, t;
    switch (sym_pick(0, 12, "what")) {
    case 0: p.rotation(Angle<T>(g)); is_facing(p, x, y, g); break;
    case 1: p.rotation(rot(g)); is_facing(p, x, y, g); break;
    case 2: p.translation(w, t); is_facing(p, w, t, h); break;
    case 3: p.translation(v); is_facing(p, w, t, h); break;
    case 4: p.setIdentity(); is_facing(p, 0, 0, 0); break;
    case 5: p.setPose(w, t, g); is_facing(p, w, t, g); break;
    case 6: p.x(w); is_facing(p, w, y, h); break;
    case 7: p.y(w); is_facing(p, x, w, h); break;
    case 8: p.heading(g); is_facing(p, x, y, g); break;
    case 9: p.rotationMatrix(rot(g)); is_facing(p, x, y, g); break;
    case 10: { LegacyPose2D<T, RotationMatrixStorage> o(w, t, g); P *b = &(p = o); CHECK(b == &p, "assignment returns the pose"); is_facing(p, w, t, g); break; }
    case 11: { LegacyPose2D<T, RotationAngleStorage> o(w, t, g); P *b = &(p = o); CHECK(b == &p, "assignment returns the pose"); is_facing(p, w, t, g); break; }
    case 12: p.translation() = v; p.rotation() = P(w, t, g).rotation(); is_facing(p, w, t, g); break;
    }
  }
  static bool keeps_matrix(const LegacyPose2D<T, RotationMatrixStorage> &) { return true; }
  static bool keeps_matrix(const LegacyPose2D<T, RotationAngleStorage> &) { return false; }
  // single operations, any heading (but for those read from a matrix)
  template <class Q> static void product() {
    T x = any(T(), "x", 100), y = any(T(), "y", 100), h = any(T(), "h", 3.1415);
    T u = any(T(), "u", 100), v = any(T(), "v", 100), g = angle(3);
    if ((keeps_matrix(P()) || !keeps_matrix(Q())) && sym_pick(0, 1, "swap")) { T s = h; h = g; g = s; }
    const P a(x, y, h);
    const Q b(u, v, g);
    P c;
    if (sym_pick(0, 1, "in place")) { c = a; P *back = &(c *= b); CHECK(back == &c, "the product in place is of the pose"); }
    else c = a * b;
    sym_close(c.x(), x + std::cos(h) * u - std::sin(h) * v, tol<T>(), "the product moves by the second within the first");
    sym_close(c.y(), y + std::sin(h) * u + std::cos(h) * v, tol<T>(), "the product moves by the second within the first");
    CHECK(a.x() == x && a.y() == y && b.x() == u && b.y() == v, "the operands stay as they are");
    turned(c, h, g);
  }
  static void turned(const LegacyPose2D<T, RotationMatrixStorage> &c, T h, T g) {
    M m = c.rotationMatrix();
    double t = sizeof(T) == 4 ? 1e-4 : 1e-8;
    sym_close(m(0, 0), std::cos(h) * std::cos(g) - std::sin(h) * std::sin(g), t, "the product turns by both");
    sym_close(m(1, 1), std::cos(h) * std::cos(g) - std::sin(h) * std::sin(g), t, "the product turns by both");
    sym_close(m(1, 0), std::sin(h) * std::cos(g) + std::cos(h) * std::sin(g), t, "the product turns by both");
    sym_close(m(0, 1), -(std::sin(h) * std::cos(g) + std::cos(h) * std::sin(g)), t, "the product turns by both");
  }
  static void turned(const LegacyPose2D<T, RotationAngleStorage> &c, T h, T g) { same_heading<T>((T)c.heading(), (double)h + (double)g); }
  static void products() {
    if (sym_pick(0, 1, "storage")) product<LegacyPose2D<T, RotationMatrixStorage> >();
    else product<LegacyPose2D<T, RotationAngleStorage> >();
  }
  static void inverse() {
    T x = any(T(), "x", 100), y = any(T(), "y", 100), h = any(T(), "h", 3.1415);
    const P a(x, y, h);
    P b = a.inverse(), c = a * b, d = b * a;
    sym_close(c.x(), 0, tol<T>(), "a pose and its inverse cancel");
    sym_close(c.y(), 0, tol<T>(), "a pose and its inverse cancel");
    CHECK(a.x() == x && a.y() == y, "the operands stay as they are");
    is_inverse(b, h);
  }
  static void is_inverse(const LegacyPose2D<T, RotationMatrixStorage> &b, T h) {
    M m = b.rotationMatrix();
    double t = sizeof(T) == 4 ? 1e-4 : 1e-8;
    sym_close(m(0, 0), std::cos(h), t, "the inverse turns back");
    sym_close(m(0, 1), std::sin(h), t, "the inverse turns back");
    sym_close(m(1, 0), -std::sin(h), t, "the inverse turns back");
    sym_close(m(1, 1), std::cos(h), t, "the inverse turns back");
  }
  static void is_inverse(const LegacyPose2D<T, RotationAngleStorage> &b, T h) { same_heading<T>((T)b.heading(), -(double)h); }
  // compositions
  static void laws() {
    T x = any(T(), "x", 100), y = any(T(), "y", 100), h = angle(), u = any(T(), "u", 100), v = any(T(), "v", 100), g = angle();
    P a(x, y, h), b(u, v, g);
    LegacyPose2D<T, RotationAngleStorage> ba(u, v, g);
    switch (sym_pick(0, 5, "law")) {
    case 0: { P c = a * a.inverse(); is_facing(c, 0, 0, 0); break; }
    case 1: { P c = a.inverse() * a; is_facing(c, 0, 0, 0); break; }
    case 2: { // there and back
      P r = b.relative(a), c = a * r;
      is_facing(c, u, v, g);
      break;
    }
    case 3: { // from one storage in the other
      LegacyPose2D<T, RotationAngleStorage> r = ba.relative(a), c = LegacyPose2D<T, RotationAngleStorage>(a) * r;
      Legacy<LegacyPose2D<T, RotationAngleStorage> >::is_facing(c, u, v, g);
      break;
    }
    case 4: {
      P c(any(T(), "r", 100), any(T(), "s", 100), angle(3)), l = (a * b) * c, r = a * (b * c);
      sym_close(l.x(), r.x(), 2 * tol<T>(), "products can be grouped");
      sym_close(l.y(), r.y(), 2 * tol<T>(), "products can be grouped");
      same_heading<T>((T)l.heading(), (T)r.heading());
      break;
    }
    case 5: { a *= a; is_facing(a, x + std::cos(h) * x - std::sin(h) * y, y + std::sin(h) * x + std::cos(h) * y, 2 * h); break; }
    }
  }
};
typedef LegacyPose2D<double, RotationMatrixStorage> MD;
typedef LegacyPose2D<double, RotationAngleStorage> AD;
typedef LegacyPose2D<float, RotationMatrixStorage> MF;
typedef LegacyPose2D<float, RotationAngleStorage> AF;
#define FOR(P) \
  HARNESS(making_##P) { Legacy<P>::making(); } \
  HARNESS(changing_##P) { Legacy<P>::changing(); } \
  HARNESS(products_##P) { Legacy<P>::products(); } \
  HARNESS(inverse_##P) { Legacy<P>::inverse(); } \
  HARNESS(laws_##P) { Legacy<P>::laws(); }
FOR(MD)
FOR(AD)
FOR(MF)
FOR(AF)

// what is printed: the values in order, in the format promised
static double printed[16];
static int nprinted;
extern "C" int fk_snprintf(char *b, size_t n, const char *f, ...) {
  __builtin_va_list a;
  __builtin_va_start(a, f);
  while (*f) {
    if (*f == '*') { (void)__builtin_va_arg(a, int); }
    if (*f == 'f') { printed[nprinted++ & 15] = __builtin_va_arg(a, double); break; }
    ++f;
  }
  __builtin_va_end(a);
  if (n > 1) b[0] = '1', b[1] = 0;
  return 1;
}

// ---- three dimensions
template <class T> struct Three {
  typedef LegacyPose3D<T> P;
  typedef typename P::Translation V;
  typedef typename P::RotationMatrix M;
  static V vec(const char *n, double lim = 100) {
    V v;
    for (int i = 0; i < 3; ++i) v[i] = any(T(), n, lim);
    return v;
  }
  static M about(int axis, T h) {
    T c = std::cos(h), s = std::sin(h);
    int i = (axis + 1) % 3, j = (axis + 2) % 3;
    M m;
    for (int a = 0; a < 3; ++a)
      for (int b = 0; b < 3; ++b) m(a, b) = a == b ? 1 : 0;
    m(i, i) = c, m(j, j) = c, m(i, j) = -s, m(j, i) = s;
    return m;
  }
  static void is(const P &p, const M &m, const V &v, const char *what) {
    for (int i = 0; i < 3; ++i) {
      sym_close(p.translation()[i], v[i], tol<T>(), what);
      for (int j = 0; j < 3; ++j) {
        sym_close(p.rotation()(i, j), m(i, j), sizeof(T) == 4 ? 1e-4 : 1e-8, what);
        CHECK(p.rotationMatrix()(i, j) == p.rotation()(i, j), "the rotation matrix is the rotation");
      }
    }
  }
  static void making() {
    V v = vec("v"), w = vec("w");
    int axis = sym_pick(0, 2, "axis");
    T h = any(T(), "h", 3.1415), g = angle(9);
    M m = about(axis, h);
    V unit = V::Zero();
    unit[axis] = 1;
    const char *what = "the pose is as it was given";
    P z;
    is(z, M::Identity(), V::Zero(), "a new pose is the identity");
    switch (sym_pick(0, 9, "how")) {
    case 0: { Dirty<P> d; is(d.make(m, v), m, v, what); break; }
    case 1: { LegacyPose2D<T, RotationMatrixStorage> o(v[0], v[1], h); v[2] = 0; is(P(o), about(2, h), v, what); break; }
    case 2: { LegacyPose2D<T, RotationAngleStorage> o(v[0], v[1], h); v[2] = 0; is(P(o), about(2, h), v, what); break; }
    case 3: is(P(AngleAxis<T>(h, unit), v), m, v, what); break;
    case 4: is(P(Quaternion<T>(AngleAxis<T>(g, unit)), v), about(axis, g), v, what); break;
    case 5: { P a(m, v), b(a), c; P *back = &(c = a); CHECK(back == &c, "assignment returns the pose"); is(b, m, v, what); is(c, m, v, what); break; }
    case 6: { P a(m, v); LegacyPose2D<T, RotationMatrixStorage> o(w[0], w[1], h); a = o; w[2] = 0; is(a, about(2, h), w, what); break; }
    case 7: { P a(m, v); LegacyPose2D<T, RotationAngleStorage> o(w[0], w[1], h); a = o; w[2] = 0; is(a, about(2, h), w, what); break; }
    case 8: { P a(m, v); a.translation(w); is(a, m, w, what); a.rotation(about((axis + 1) % 3, g)); is(a, about((axis + 1) % 3, g), w, what); break; }
    case 9: { P a(m, v); a.translation() = w; a.rotation() = about((axis + 1) % 3, g); is(a, about((axis + 1) % 3, g), w, what); break; }
    }
  }
  static void product() {
    V v = vec("v"), w = vec("w"), x = vec("x", 8);
    int i = sym_pick(0, 2, "axis"), j = sym_pick(0, 2, "axis");
    T h = any(T(), "h", 3.1415), g = any(T(), "g", 3.1415);
    M m = about(i, h), n = about(j, g);
    const P a(m, v), b(n, w);
    P c;
    if (sym_pick(0, 1, "in place")) { c = a; P *back = &(c *= b); CHECK(back == &c, "the product in place is of the pose"); }
    else c = a * b;
    // a point moved by the product is moved by the second, then the first
    for (int r = 0; r < 3; ++r) {
      T want = v[r], got = c.translation()[r];
      for (int k = 0; k < 3; ++k) {
        T inner = w[k];
        for (int q = 0; q < 3; ++q) inner += n(k, q) * x[q];
        want += m(r, k) * inner;
        got += c.rotation()(r, k) * x[k];
      }
      sym_close(got, want, 2 * tol<T>(), "the product moves by the second within the first");
    }
    is(a, m, v, "the operands stay as they are");
    is(b, n, w, "the operands stay as they are");
  }
  static void inverse() {
    V v = vec("v");
    T h = any(T(), "h", 3.1415);
    int i = sym_pick(0, 2, "axis");
    M m = about(i, h), r = sym_pick(0, 1, "twice") ? M(m * about((i + 1) % 3, angle(3))) : m;
    const P a(r, v);
    P b = a.inverse();
    is(a * b, M::Identity(), V::Zero(), "a pose and its inverse cancel");
    is(b * a, M::Identity(), V::Zero(), "a pose and its inverse cancel");
    is(a, r, v, "the operands stay as they are");
  }
  static void relative() {
    V v = vec("v"), w = vec("w");
    T h = any(T(), "h", 3.1415), g = any(T(), "g", 3.1415);
    int i = sym_pick(0, 2, "axis"), j = sym_pick(0, 2, "axis");
    M m = about(i, h), n = about(j, g);
    const P a(m, v), b(n, w);
    P r = b.relative(a), c = a * r;
    is(c, n, w, "the relative pose leads from the one to the other");
  }
};
HARNESS(three_making_double) { Three<double>::making(); }
HARNESS(three_making_float) { Three<float>::making(); }
HARNESS(three_product_double) { Three<double>::product(); }
HARNESS(three_product_float) { Three<float>::product(); }
HARNESS(three_inverse_double) { Three<double>::inverse(); }
HARNESS(three_inverse_float) { Three<float>::inverse(); }
HARNESS(three_relative_double) { Three<double>::relative(); }
HARNESS(three_relative_float) { Three<float>::relative(); }
