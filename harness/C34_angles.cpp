// Angles: always wrapped, always the angle they should be, in either type and unit.
//@ config rel,dbg
//@ src ecl_geometry/src/lib/angle.cpp
//@ default time=150 theory=real
//@ bound angles up to 60 radians (any number of turns within), factors from a grid, operands up to 60 radians; both float types
//@ assume real arithmetic with a bound on every rounding error; angles agree to 1e-9 (double) and 1e-4 (float); sine and cosine of symbolic angles are any two numbers of square sum one
//@ outside angles of other magnitudes, infinities and not-a-numbers
#include <symx.h>
#include <unistd.h>
#include <cmath>
#include <ecl/geometry/angle.hpp>
using namespace ecl;

static const double PI = 3.14159265358979323846;
static double real(double, const char *n, double lim) { return sym_real(n, -lim, lim); }
static float real(float, const char *n, double lim) { return sym_realf(n, -lim, lim); }
template <class T> static double tol() { return sizeof(T) == 4 ? 1e-4 : 1e-9; }

// w is a wrapped, and it is in the interval
template <class T> static void same(T w, double a) {
  double t = tol<T>();
  CHECK(w <= PI + t && w >= -PI - t, "the angle is wrapped");
  double turns = (a - (double)w) / (2 * PI);
  double whole = std::floor(turns + 0.5);
  CHECK(turns - whole < t && whole - turns < t, "the angle is the same up to full turns");
}
// an angle in the interval is not touched
template <class T> static void wrapping() {
  T a = real(T(), "angle", 60), c = a;
  T w = sizeof(T) == 4 ? (T)wrap_angle((const float &)a) : (T)wrap_angle((const double &)a);
  CHECK(a == c, "wrapping a copy leaves the angle alone");
  same(w, (double)a);
  if (a < 3.1415926 && a > -3.1415926) CHECK(w == a, "an angle in the interval stays as it is");
  T m = a;
  const T &r = wrap_angle(m);
  CHECK(&r == &m, "wrapping in place returns the angle");
  same(m, (double)a);
  if (a < 3.1415926 && a > -3.1415926) CHECK(m == a, "an angle in the interval stays as it is");
}
HARNESS(wrapping_double) { wrapping<double>(); }
HARNESS(wrapping_float) { wrapping<float>(); }

// near and at the ends, from either side
template <class T> static void ends() {
  static const double base[6] = {PI, -PI, 3 * PI, -3 * PI, 2 * PI, -2 * PI};
  T a = (T)(base[sym_pick(0, 5, "base")] + sym_real("off", -0.001, 0.001)), m = a;
  wrap_angle(m);
  same(m, (double)a);
  same((T)wrap_angle((const T &)a), (double)a);
}
HARNESS(ends_double) { ends<double>(); }
HARNESS(ends_float) { ends<float>(); }

template <class T> static void angles() {
  T a = real(T(), "a", 60);
  Dirty<Angle<T> > d;
  Angle<T> &x = d.make(a);
  same((const T &)x, (double)a);
  const Angle<T> c(x);
  CHECK((T)c == (T)x, "a copy is the same angle");
  T b = real(T(), "b", 60);
  const Angle<T> *r = &(x = b);
  CHECK(r == &x, "assignment returns the angle");
  same((const T &)x, (double)b);
  x = c;
  CHECK((T)c == (T)x, "a copy is the same angle");
  same((T)Angle<T>::Radians(b), (double)b);
  Angle<T> z;
  CHECK((T)z == 0, "a new angle is zero");
  d.kill();
}
HARNESS(angles_double) { angles<double>(); }
HARNESS(angles_float) { angles<float>(); }

template <class T> static void arithmetic() {
  T a = real(T(), "a", 3.14159), b = real(T(), "b", sym_pick(0, 1, "large") ? 60 : 3.14159);
  const Angle<T> x(a), y(b);
  T vy = y;
  Angle<T> m(x);
  switch (sym_pick(0, 7, "operation")) {
  case 0: same((T)(x + b), (double)a + (double)b); break;
  case 1: same((T)(x + y), (double)a + (double)vy); break;
  case 2: m += b; same((T)m, (double)a + (double)b); break;
  case 3: m += y; same((T)m, (double)a + (double)vy); break;
  case 4: same((T)(x - b), (double)a - (double)b); break;
  case 5: same((T)(x - y), (double)a - (double)vy); break;
  case 6: m -= b; same((T)m, (double)a - (double)b); break;
  case 7: m -= y; same((T)m, (double)a - (double)vy); break;
  }
  CHECK((T)x == a && (T)y == vy, "the operands stay as they are");
}
HARNESS(arithmetic_double) { arithmetic<double>(); }
HARNESS(arithmetic_float) { arithmetic<float>(); }

template <class T> static void scaling() {
  static const double factor[8] = {0, 1, -1, 2, -2.5, 0.5, 7, -11};
  T f = (T)factor[sym_pick(0, 7, "factor")], a = real(T(), "a", 3.14159);
  const Angle<T> x(a);
  if (sym_pick(0, 1, "in place")) {
    Angle<T> m(x);
    m *= f;
    same((T)m, (double)a * (double)f);
  } else same((T)(x * f), (double)a * (double)f);
  CHECK((T)x == a, "the operands stay as they are");
}
HARNESS(scaling_double) { scaling<double>(); }
HARNESS(scaling_float) { scaling<float>(); }

template <class T> static void units() {
  double t = sizeof(T) == 4 ? 1e-2 : 1e-9;
  T a = real(T(), "a", 1000);
  sym_close(degrees_to_radians(a), (double)a * (PI / 180), t, "180 degrees are pi radians");
  sym_close(radians_to_degrees(a), (double)a * (180 / PI), t, "pi radians are 180 degrees");
  T back = degrees_to_radians(radians_to_degrees(a));
  sym_close(back, a, t, "there and back is the same angle");
}
HARNESS(units_double) { units<double>(); }
HARNESS(units_float) { units<float>(); }
template <class T> static void angles_in_degrees() {
  T a = real(T(), "a", 1500);
  Angle<T> x = Angle<T>::Degrees(a);
  same((T)x, (double)a * (PI / 180));
  sym_close(x.degrees(), (double)(T)x * (180 / PI), sizeof(T) == 4 ? 1e-2 : 1e-9, "the angle reads in degrees");
}
HARNESS(angles_in_degrees_double) { angles_in_degrees<double>(); }
HARNESS(angles_in_degrees_float) { angles_in_degrees<float>(); }

template <class T> static void rotations() {
  T a = real(T(), "a", 3.14159);
  const Angle<T> x(a);
  typename Angle<T>::RotationMatrix m = x.rotationMatrix();
  double t = sizeof(T) == 4 ? 1e-5 : 1e-12;
  sym_close(m(0, 0), std::cos(a), t, "the rotation matrix is that of the angle");
  sym_close(m(1, 1), std::cos(a), t, "the rotation matrix is that of the angle");
  sym_close(m(1, 0), std::sin(a), t, "the rotation matrix is that of the angle");
  sym_close(m(0, 1), -std::sin(a), t, "the rotation matrix is that of the angle");
}
HARNESS(rotations_double) { rotations<double>(); }
HARNESS(rotations_float) { rotations<float>(); }
template <class T> static void rotations_and_back() {
  T a = (T)(sym_pick(-25, 25, "angle") * 0.125);
  const Angle<T> x(a), y(x.rotationMatrix());
  double d = (double)(T)y - (double)a;
  CHECK(d < tol<T>() && d > -tol<T>(), "the angle of a rotation matrix is that of the angle it is from");
}
HARNESS(rotations_and_back_double) { rotations_and_back<double>(); }
HARNESS(rotations_and_back_float) { rotations_and_back<float>(); }
