// Odometry helpers: columns of a trajectory are its poses and twists, in order, and nothing else.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_geometry/src/lib/linear_segment.cpp
//@ src ecl_geometry/src/lib/odometry_helper.cpp
//@ default time=150
//@ bound trajectories of 0 to 3 poses (with twists or without) of any float bit patterns, appended to each other and to themselves; distances: coordinates anywhere in [-8,8]; trajectories of 0 to 3 poses from a list for the distances from them
//@ assume distances: real arithmetic with a bound on every rounding error, squares compared to 1e-1 (floats) and 1e-2; the distance from one segment is taken from LinearSegment, which C35 checks
//@ outside indices beyond the trajectory, null trajectory pointers except for emptiness
//@ entry distances theory=real
//@ entry distance_to_trajectory theory=real
//@ entry distance_on_a_grid theory=real
//@ entry squared_distances theory=real
#include <symx.h>
#include <unistd.h>
#include <cmath>
#include <limits>
#include <memory>
#include <vector>
#include <ecl/geometry/odometry.hpp>
#include <ecl/geometry/linear_segment.hpp>
using namespace ecl::odometry;

static float anyf(const char *n) {
  uint32_t u = sym_u32(n);
  float f;
  __builtin_memcpy(&f, &u, 4);
  return f;
}
static bool same(float a, float b) { return __builtin_memcmp(&a, &b, 4) == 0; }

template <class T> struct Kind;
template <> struct Kind<Trajectory2D> { typedef Pose2D Item; enum { N = 3 }; };
template <> struct Kind<Odom2DTrajectory> { typedef Odom2D Item; enum { N = 6 }; };

template <class T> static bool equal(const T &a, const T &b) {
  for (int i = 0; i < a.size(); ++i)
    if (!same(a(i), b(i))) return false;
  return true;
}
template <class I> static I item() {
  I x;
  for (int i = 0; i < x.size(); ++i) x(i) = anyf("value");
  return x;
}
template <class T> struct All {
  typedef typename Kind<T>::Item Item;
  enum { N = Kind<T>::N };
  typedef std::vector<Item> Items;
  static Items items(int n) {
    Items v;
    for (int i = 0; i < n; ++i) v.push_back(item<Item>());
    return v;
  }
  static void is(const T &t, const Items &v) {
    CHECK(size(t) == (int)v.size(), "a trajectory has as many poses as it was given");
    CHECK(empty(t) == v.empty(), "a trajectory is empty when it has no poses");
    if (size(t) != (int)v.size()) return;
    for (int i = 0; i < (int)v.size(); ++i) CHECK(equal(getAt(t, i), v[i]), "each pose of a trajectory is the one given, in order");
    if (!v.empty()) {
      CHECK(equal(getFront(t), v.front()), "the front is the first pose");
      CHECK(equal(getBack(t), v.back()), "the back is the last pose");
    }
  }
  static void making() {
    Items v = items(sym_choose(4, "poses"));
    Items copy = v;
    is(vectorToTrajectory(v), v);
    for (unsigned i = 0; i < v.size(); ++i) CHECK(equal(v[i], copy[i]), "the poses given are left alone");
#if defined(ECL_CXX11_FOUND)
    auto p = vectorToTrajectoryPtr(v);
    is(*p, v);
    CHECK(size(p) == (int)v.size() && empty(p) == v.empty(), "a trajectory's pointer has its size");
    p.reset();
    CHECK(empty(p), "no trajectory is empty");
#endif
  }
  static void appending() {
    Items a = items(sym_choose(4, "poses")), b = items(sym_choose(4, "more"));
    T t = vectorToTrajectory(a), m = vectorToTrajectory(b);
    addAtEnd(t, m);
    is(m, b);
    Items all = a;
    all.insert(all.end(), b.begin(), b.end());
    is(t, all);
    addAtEnd(m, m);
    Items twice = b;
    twice.insert(twice.end(), b.begin(), b.end());
    is(m, twice);
  }
  static void changing() {
    int n = sym_choose(4, "poses");
    Items a = items(n);
    T t = vectorToTrajectory(a);
    if (n) {
      int i = sym_choose(n, "index");
      Item x = item<Item>();
      setAt(t, i, x);
      a[i] = x;
      is(t, a);
    }
    int k = sym_choose(5, "new size");
    resize(t, k);
    CHECK(size(t) == k, "a resized trajectory has the size asked for");
    if (size(t) != k) return;
    for (int i = 0; i < n && i < k; ++i) CHECK(equal(getAt(t, i), a[i]), "resizing keeps the poses that fit");
    for (int i = n; i < k; ++i) setAt(t, i, a.size() ? a[0] : Item(Item::Zero()));
    a.resize(k < n ? k : n);
    while ((int)a.size() < k) a.push_back(getAt(t, (int)a.size()));
    is(t, a);
  }
};
HARNESS(making_poses) { All<Trajectory2D>::making(); }
HARNESS(making_odometry) { All<Odom2DTrajectory>::making(); }
HARNESS(appending_poses) { All<Trajectory2D>::appending(); }
HARNESS(appending_odometry) { All<Odom2DTrajectory>::appending(); }
HARNESS(changing_poses) { All<Trajectory2D>::changing(); }
HARNESS(changing_odometry) { All<Odom2DTrajectory>::changing(); }

HARNESS(parts) {
  int n = sym_choose(4, "poses");
  All<Odom2DTrajectory>::Items v = All<Odom2DTrajectory>::items(n);
  Odom2DTrajectory t = vectorToTrajectory(v);
  Trajectory2D p = getPoses(t);
  Twist2DVector w = getTwists(t);
  CHECK(size(p) == n && size(w) == n, "as many poses and twists as odometry");
  for (int i = 0; i < n && size(p) == n && size(w) == n; ++i) {
    CHECK(equal(getAt(p, i), getPose(v[i])), "the poses are those of the odometry");
    CHECK(equal(getAt(w, i), getTwist(v[i])), "the twists are those of the odometry");
    for (int k = 0; k < 3; ++k) CHECK(same(p(k, i), v[i](k)) && same(w(k, i), v[i](3 + k)), "pose first, then twist");
  }
}
HARNESS(reading) {
  Odom2D o = item<Odom2D>();
  const Odom2D c = o;
  CHECK(same(getX(c), o(0)) && same(getY(c), o(1)) && same(getYaw(c), o(2)), "position and yaw of odometry");
  CHECK(same(getVelocityX(c), o(3)) && same(getVelocityY(c), o(4)) && same(getVelocityAngular(c), o(5)), "velocities of odometry");
  Pose2D p = getPose(c);
  CHECK(same(getX(p), o(0)) && same(getY(p), o(1)) && same(getYaw(p), o(2)), "position and yaw of its pose");
  Position2D q = getPosition(c), r = getPosition(p);
  CHECK(same(getX(q), o(0)) && same(getY(q), o(1)) && equal(q, r), "its position");
  Twist2D w = getTwist(c);
  CHECK(same(getVelocityX(w), o(3)) && same(getVelocityY(w), o(4)) && same(getVelocityAngular(w), o(5)), "velocities of its twist");
}
template <class I> static void set(void (*f)(I &, const float &), int which) {
  I a = item<I>();
  I before = a;
  float v = anyf("new");
  f(a, v);
  before(which) = v;
  CHECK(equal(a, before), "a part set is the part read, the others stay");
}
HARNESS(writing) {
  switch (sym_choose(14, "part")) {
    case 0: set<Odom2D>(&setX, 0); break;
    case 1: set<Odom2D>(&setY, 1); break;
    case 2: set<Odom2D>(&setYaw, 2); break;
    case 3: set<Odom2D>(&setVelocityX, 3); break;
    case 4: set<Odom2D>(&setVelocityY, 4); break;
    case 5: set<Odom2D>(&setVelocityAngular, 5); break;
    case 6: set<Twist2D>(&setVelocityX, 0); break;
    case 7: set<Twist2D>(&setVelocityY, 1); break;
    case 8: set<Twist2D>(&setVelocityAngular, 2); break;
    case 9: set<Pose2D>(&setX, 0); break;
    case 10: set<Pose2D>(&setY, 1); break;
    case 11: set<Pose2D>(&setYaw, 2); break;
    case 12: set<Position2D>(&setX, 0); break;
    case 13: set<Position2D>(&setY, 1); break;
  }
}

// ---------------------------------------------------------------- distances
static float coord(const char *n) { return sym_realf(n, -8, 8); }
HARNESS(squared_distances) {
  Odom2D a, b;
  for (int i = 0; i < 6; ++i) { a(i) = coord("a"); b(i) = coord("b"); }
  double dx = (double)a(0) - (double)b(0), dy = (double)a(1) - (double)b(1);
  double sq = dx * dx + dy * dy;
  sym_close(distanceSqared(a, b), sq, 1e-2, "squared distance of odometry");
  sym_close(distanceSqared(getPose(a), getPose(b)), sq, 1e-2, "squared distance of poses");
}
static void measures(double d, double dx, double dy, const char *) {
  CHECK(d >= 0, "a distance is not negative");
  sym_close(d * d, dx * dx + dy * dy, 1e-1, "the distance is that of Pythagoras");
}
HARNESS(distances) {
  Odom2D a, b;
  for (int i = 0; i < 6; ++i) { a(i) = coord("a"); b(i) = coord("b"); }
  double dx = (double)a(0) - (double)b(0), dy = (double)a(1) - (double)b(1);
  switch (sym_choose(4, "of")) {
    case 0: measures(distance(a, b), dx, dy, ""); break;
    case 1: measures(distance(getPose(a), getPose(b)), dx, dy, ""); break;
    case 2: measures(distance(getPose(a), b), dx, dy, ""); break;
    case 3: measures(distance(getPosition(a), getPoses(Odom2DTrajectory(b))), dx, dy, ""); break;
  }
}
HARNESS(distance_to_nothing) {
  Trajectory2D t;
  if (sym_choose(2, "built")) t = vectorToTrajectory(std::vector<Pose2D>());
  Position2D p = item<Position2D>();
  double d = distance(p, t);
  CHECK(d == std::numeric_limits<double>::infinity(), "nothing is infinitely far away");
}
static void trajectory(const float *c, int n, float x, float y) {
  Trajectory2D t(3, n);
  for (int i = 0; i < n; ++i) { t(0, i) = c[2 * i]; t(1, i) = c[2 * i + 1]; t(2, i) = coord("yaw"); }
  Position2D p;
  p << x, y;
  Pose2D q;
  q << x, y, coord("own yaw");
  double d = sym_choose(2, "pose") ? distance(q, t) : distance(p, t);
  CHECK(d >= 0, "a distance is not negative");
  double best = std::numeric_limits<double>::infinity();
  for (int i = 0; i + 1 < n; ++i) {
    ecl::LinearSegment s(c[2 * i], c[2 * i + 1], c[2 * i + 2], c[2 * i + 3]);
    double e = s.squaredDistanceFromPoint(x, y);
    if (e < best) best = e;
  }
  sym_close(d * d, best, 1e-2, "the distance is that of the nearest segment");
}
static const float paths[][6] = {{0, 0, 4, 0, 4, 4}, {0, 0, 4, 4, 8, 0}, {-4, 2, -4, 2, 4, 2}, {4, 0, 0, 0, 0, -4}, {0, 0, 4, 0, 0, 0}, {0, 0, 1, 6, 2, 6}};
HARNESS(distance_to_trajectory) {
#ifdef SYMX_THOROUGH
  int which = sym_choose(6, "path"), n = 2 + sym_choose(2, "poses");
#else
  int which = sym_choose(3, "path"), n = 3;
#endif
  sym_split(1);
  trajectory(paths[which], n, coord("x"), coord("y"));
}
HARNESS(distance_on_a_grid) {
  int which = sym_choose(6, "path"), n = 2 + sym_choose(2, "poses");
  trajectory(paths[which], n, sym_choose(7, "x") * 2.5f - 7, sym_choose(7, "y") * 2.5f - 8);
}
