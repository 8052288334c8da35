// Differential drive kinematics: wheels to poses and back.
//@ config rel,dbg
//@ src ecl_geometry/src/lib/angle.cpp
//@ src ecl_mobile_robot/src/lib/differential_drive.cpp
//@ default time=150 theory=real
//@ bound wheel turns, translations, rotations and velocities anywhere in [-20,20]; poses anywhere in [-8,8], headings from a grid of 9 for the first (any for the second when turning); wheel radii and axis lengths from grids
//@ assume real arithmetic with a bound on every rounding error, compared to 1e-9 (1e-6 for squares)
//@ outside the sign of a translation straight sideways; other magnitudes
#include <symx.h>
#include <unistd.h>
#include <cmath>
#include <ecl/mobile_robot/kinematics/differential_drive.hpp>
using namespace ecl::mobile_robot;
using ecl::linear_algebra::Vector2d;
using ecl::linear_algebra::Vector3d;
static const double PI = 3.14159265358979323846;
static const double lengths[4] = {0.3, 1, 2.5, 0.05}, radii[4] = {0.1, 1, 0.035, 2};

// w is a, in one turn
static void wrapped(double w, double a) {
  double t = 1e-8;
  CHECK(w <= PI + t && w >= -PI - t, "the heading is wrapped");
  double turns = (a - w) / (2 * PI), whole = std::floor(turns + 0.5);
  CHECK(turns - whole < t && whole - turns < t, "the heading is right up to full turns");
  if (a < 3.1415926 && a > -3.1415926) sym_close(w, a, t, "a heading within a turn is itself");
}
HARNESS(from_wheels) {
  double b = lengths[sym_choose(4, "length")], r = radii[sym_choose(4, "radius")];
  double m = 20 * b / r;
  if (m > 20) m = 20;
  double dl = sym_real("left", -m, m), dr = sym_real("right", -m, m), l = dl, q = dr;
  const DifferentialDriveKinematics k(b, r);
  Vector3d p = k.poseUpdateFromWheelDifferential(dl, dr);
  CHECK(dl == l && dr == q, "the wheel turns are left alone");
  sym_close(p[0], r * (dl + dr) / 2, 1e-9, "the robot moves by the mean of the wheels");
  CHECK(p[1] == 0, "the robot does not move sideways");
  wrapped(p[2], r * (dr - dl) / b);
}
HARNESS(from_base) {
  double t = sym_real("translation", -20, 20), a = sym_real("rotation", -20, 20), u = t, c = a;
  const DifferentialDriveKinematics k(0.5, 0.25);
  Vector3d p = k.poseUpdateFromBaseDifferential(t, a);
  CHECK(t == u && a == c, "translation and rotation are left alone");
  CHECK(p[0] == t, "the robot moves by the translation");
  CHECK(p[1] == 0, "the robot does not move sideways");
  wrapped(p[2], a);
}
HARNESS(to_wheels) {
  double b = lengths[sym_choose(4, "length")], r = radii[sym_choose(4, "radius")];
  double v = sym_real("linear", -20, 20), w = sym_real("angular", -20, 20);
  const DifferentialDriveKinematics k(b, r);
  Vector2d q = k.baseToWheelVelocities(v, w);
  sym_close(r * q[0], v - w * b / 2, 1e-8, "the left wheel's rate");
  sym_close(r * q[1], v + w * b / 2, 1e-8, "the right wheel's rate");
}
HARNESS(round_trip) {
  double b = lengths[sym_choose(4, "length")], r = radii[sym_choose(4, "radius")];
  double v = sym_real("linear", -20, 20), w = sym_real("angular", -3.14, 3.14);
  const DifferentialDriveKinematics k(b, r);
  Vector2d q = k.baseToWheelVelocities(v, w);
  Vector3d p = k.poseUpdateFromWheelDifferential(q[0], q[1]);
  sym_close(p[0], v, 1e-8, "the wheel rates of a velocity move the robot by it");
  sym_close(p[2], w, 1e-8, "the wheel rates of a velocity turn the robot by it");
}
static const double headings[9] = {0, PI / 2, -1, 3, -3, 0.5, -PI / 2, 7.5, -2.2};
HARNESS(between_poses) {
  double h = headings[sym_choose(9, "heading")];
  Vector3d a, b;
  a << sym_real("x a", -8, 8), sym_real("y a", -8, 8), h;
  b << sym_real("x b", -8, 8), sym_real("y b", -8, 8), headings[sym_choose(2, "heading b")] + 0.25;
  double dx = b[0] - a[0], dy = b[1] - a[1];
  Vector2d d = DifferentialDriveKinematics::PoseToBaseDifferential(a, b);
  sym_close(d[0] * d[0], dx * dx + dy * dy, 1e-6, "the translation is the distance");
  double ahead = std::cos(h) * dx + std::sin(h) * dy;
  if (ahead > 1e-6) CHECK(d[0] >= 0, "moving ahead is positive");
  if (ahead < -1e-6) CHECK(d[0] <= 0, "moving back is negative");
  wrapped(d[1], b[2] - a[2]);
}
HARNESS(turning) { // turning on the spot and straight ahead
  double h = headings[sym_choose(9, "heading")];
  Vector3d a, b;
  a << 3, 4, h;
  b << 3, 4, sym_real("heading b", -8, 8);
  Vector2d d = DifferentialDriveKinematics::PoseToBaseDifferential(a, b);
  sym_close(d[0], 0, 1e-9, "turning on the spot moves nowhere");
  wrapped(d[1], b[2] - h);
}
