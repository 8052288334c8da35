// Manipulator waypoints hold what they are given and trajectories meet them.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_geometry/src/lib/polynomial.cpp ecl_geometry/src/lib/polynomial_blueprints.cpp ecl_geometry/src/lib/pascals_triangle.cpp ecl_geometry/src/lib/smooth_linear_spline.cpp ecl_geometry/src/lib/cubic_spline.cpp ecl_geometry/src/lib/cubic_spline_blueprints.cpp ecl_geometry/src/lib/tension_function.cpp ecl_geometry/src/lib/tension_spline.cpp ecl_geometry/src/lib/tension_spline_blueprints.cpp ecl_manipulators/src/lib/waypoint.cpp ecl_manipulators/src/lib/trajectory.cpp ecl_type_traits/src/lib/numeric_limits.cpp
//@ default time=150 theory=real
//@ bound waypoints of 0 to 3 joints at any angles, rates and accelerations; histories of 4 (thorough: 6) operations on trajectories; linear interpolations of 1 or 2 joints over 2 to 4 waypoints and tension interpolations over 5, with angles, rates, durations, nominal rates and accelerations from grids, linear ones at any time
//@ assume real arithmetic with a bound on every rounding error; tension interpolations are evaluated in floating point at chosen times
//@ outside misconfigured tension interpolations in release builds; the acceleration of tension interpolations; copies of interpolated trajectories; reading a trajectory that was not interpolated; how long the segments get
#include <symx.h>
#include <math.h>
#include <unistd.h>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <ecl/manipulators/trajectory.hpp>
using namespace ecl;
typedef WayPoint<JointAngles> Point;
typedef Trajectory<JointAngles> Path;
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif
static double any(const char *n) { return sym_real(n, -100, 100); }
static bool same(const Point &a, const Point &b) {
  bool ok = a.dimension() == b.dimension() && a.name() == b.name() && a.duration() == b.duration() && a.rates_configured() == b.rates_configured() && a.accelerations_configured() == b.accelerations_configured();
  for (unsigned j = 0; ok && j < a.dimension(); ++j)
    ok = a.angles()[j] == b.angles()[j] && a.rates()[j] == b.rates()[j] && a.accelerations()[j] == b.accelerations()[j];
  return ok;
}
struct Model { // of a waypoint
  unsigned n;
  double angle[3], rate[3], acceleration[3], nominal[3], duration;
  bool rates, accelerations;
  std::string name;
  Model(unsigned n) : n(n), duration(0), rates(false), accelerations(false) {
    for (int j = 0; j < 3; ++j) angle[j] = rate[j] = acceleration[j] = 0, nominal[j] = 1;
  }
  void match(Point &p, bool nominals = true) const {
    const Point &c = p;
    CHECK(c.dimension() == n && c.angles().size() == n && c.rates().size() == n && c.accelerations().size() == n && p.nominalRates().size() == n, "a waypoint has values for every joint");
    CHECK(c.name() == name && c.duration() == duration, "a waypoint keeps its name and duration");
    CHECK(c.rates_configured() == rates && c.accelerations_configured() == accelerations, "a waypoint knows which values it was given");
    for (unsigned j = 0; j < n; ++j) {
      CHECK(c.angles()[j] == angle[j] && c.rates()[j] == rate[j] && c.accelerations()[j] == acceleration[j], "a waypoint keeps its values");
      if (nominals) CHECK(p.nominalRates()[j] == nominal[j], "a waypoint keeps its nominal rates");
    }
  }
};
static void set(Point &p, Model &m) {
  for (unsigned j = 0; j < m.n; ++j) p.angles()[j] = m.angle[j] = any("angle");
  if (sym_bool("rates")) {
    for (unsigned j = 0; j < m.n; ++j) p.rates()[j] = m.rate[j] = any("rate");
    if (m.n) m.rates = true;
  }
  if (sym_bool("accelerations")) {
    for (unsigned j = 0; j < m.n; ++j) p.accelerations()[j] = m.acceleration[j] = any("acceleration");
    if (m.n) m.accelerations = true;
  }
  if (sym_bool("nominal")) {
    double v = any("nominal rate");
    p.nominalRates(v);
    for (unsigned j = 0; j < m.n; ++j) m.nominal[j] = v;
    if (m.n) p.nominalRates()[m.n - 1] = m.nominal[m.n - 1] = any("last nominal rate");
  }
  p.duration(m.duration = any("duration"));
  p.name(m.name = "here");
}
HARNESS(waypoints) {
  Model m(sym_pick(0, 3, "joints"));
  Point p(m.n);
  m.match(p);
  set(p, m);
  m.match(p);
  Point q(p);
  m.match(q);
  Point r;
  Model(0).match(r);
  r = q;
  m.match(r);
  // the copies are on their own
  Model k = m;
  if (k.n) q.angles()[0] = k.angle[0] = any("other angle"), q.rates()[0] = k.rate[0] = any("other rate"), k.rates = true;
  q.duration(k.duration = 7);
  m.match(p);
  k.match(q);
  m.match(r);
  unsigned n = sym_pick(0, 3, "new joints");
  r.redimension(n);
  CHECK(r.dimension() == n && r.angles().size() == n && r.nominalRates().size() == n, "a waypoint can have its joints changed");
  const Point &c = r;
  CHECK(c.rates().size() == n && c.accelerations().size() == n, "a waypoint can have its joints changed");
  for (unsigned j = 0; j < n; ++j) CHECK(c.angles()[j] == 0 && c.rates()[j] == 0 && c.accelerations()[j] == 0, "new joints are at zero");
  m.match(p);
}
HARNESS(comparing_waypoints) {
  unsigned n = sym_pick(0, 3, "joints"), k = sym_pick(0, 3, "other joints");
  Point p(n), q(k);
  double eps = sym_real("epsilon", 0, 10);
  bool equal = n == k, near = n == k, nearer = n == k;
  for (unsigned j = 0; j < n; ++j) p.angles()[j] = any("angle");
  for (unsigned j = 0; j < k; ++j) q.angles()[j] = any("other angle");
  for (unsigned j = 0; j < n && j < k; ++j) {
    double d = p.angles()[j] - q.angles()[j];
    if (d < 0) d = -d;
    equal = equal && p.angles()[j] == q.angles()[j];
    near = near && d <= eps + 1e-9;
    nearer = nearer && d <= eps - 1e-9;
  }
  CHECK((p == q) == equal && (p != q) == !equal, "waypoints are equal when all of their angles are");
  bool is = p.approx(q, eps);
  CHECK(!is || near, "waypoints that are close have all of their angles close");
  CHECK(is || !nearer, "waypoints with all of their angles close are close");
}
#ifdef SYMX_THOROUGH
static const int STEPS = 6;
#else
static const int STEPS = 4;
#endif
HARNESS(containers) {
  long before = sym_live();
  {
    unsigned dim = sym_pick(0, 2, "joints");
    std::vector<double> model, limits(dim, 0.0);
    Path t(dim, "arm");
    CHECK(t.name() == "arm" && t.duration() == 0, "a trajectory keeps its name");
    for (int i = 0; i < STEPS; ++i) {
      switch (sym_choose(6, "step")) {
        case 0: {
          unsigned d = sym_pick(0, 2, "waypoint joints");
          if (!debug && d != dim) sym_stop();
          Point p(d);
          double v = any("angle");
          for (unsigned j = 0; j < d; ++j) p.angles()[j] = v + j;
          p.duration(v);
          bool done = true;
          try {
            t.append(p);
          } catch (const StandardException &e) {
            done = false;
            CHECK(e.flag() == InvalidInputError, "waypoints with other joints are invalid input");
          }
          CHECK(done == (d == dim), "waypoints with the trajectory's joints are taken, others refused");
          if (done) model.push_back(v);
          break;
        }
        case 1: t.clear(); model.clear(); break;
        case 2:
          dim = sym_pick(0, 2, "new joints");
          t.redimension(dim);
          model.clear();
          limits.assign(dim, 0.0);
          break;
        case 3: {
          double a = any("acceleration");
          t.maxAccelerations(a);
          limits.assign(dim, a);
          break;
        }
        case 4:
          if (dim) t.maxAccelerations()[dim - 1] = limits[dim - 1] = any("acceleration");
          break;
        case 5:
          if (!model.empty()) t.last().duration(model.back() = any("duration"));
          if (!model.empty())
            for (unsigned j = 0; j < dim; ++j) t.last().angles()[j] = model.back() + j;
          break;
      }
    }
    const Path &c = t;
    CHECK(c.size() == model.size() && c.dimension() == dim && c.maxAccelerations().size() == dim, "a trajectory counts its waypoints and joints");
    for (unsigned j = 0; j < dim; ++j) CHECK(c.maxAccelerations()[j] == limits[j], "a trajectory keeps its accelerations");
    for (size_t i = 0; i < model.size(); ++i) {
      const Point &p = t.waypoint(i);
      CHECK(p.dimension() == dim && p.duration() == model[i], "a trajectory keeps its waypoints in order");
      for (unsigned j = 0; j < dim; ++j) CHECK(p.angles()[j] == model[i] + j, "a trajectory keeps its waypoints in order");
    }
    if (!model.empty()) CHECK(c.last().duration() == model.back(), "the last waypoint is the last one");
    if (debug) {
      bool refused = false;
      try {
        t.waypoint(model.size() + sym_pick(0, 2, "beyond"));
      } catch (const StandardException &e) {
        refused = e.flag() == OutOfRangeError;
      }
      CHECK(refused, "waypoints there are not are refused");
    }
  }
  CHECK(sym_live() == before, "nothing is leaked");
}

static const double heights[5] = {0, 1, -2, 2, 0.5}, speeds[3] = {0.5, 2, 1}, times[3] = {0, 1.5, 2}, limit[3] = {4, 10, 30}, ends[3] = {0, 0.3, -0.3};
struct Course {
  int n, dim;
  double y[5][2], start[2], finish[2], a;
  bool stuck; // two waypoints are the same and no time is given
  Course(Path &t, int points, int joints) : n(points), dim(joints), stuck(false) {
    static const int stride[5] = {1, 2, 3, 4, 1};
    t.maxAccelerations(a = limit[sym_pick(0, 2, "limit")]);
    int shape = sym_pick(0, 9, "shape"), pace = sym_pick(0, 2, "pace"), set = sym_pick(0, 3, "ends");
    double before = 0;
    for (int j = 0; j < 2; ++j) start[j] = set & 1 ? ends[j ? 2 : 1] : 0, finish[j] = set & 2 ? ends[j ? 1 : 2] : 0;
    for (int i = 0; i < n; ++i) {
      Point p(dim);
      for (int j = 0; j < dim; ++j) p.angles()[j] = y[i][j] = heights[(shape * (i + 1) * stride[i % 5] + i + 2 * j) % 5];
      p.nominalRates(speeds[(shape + i * pace) % 3]);
      double d = times[(pace + i) % 3];
      if (d > 0) p.duration(d);
      if (i && before == 0) {
        bool moves = false;
        for (int j = 0; j < dim; ++j) moves |= y[i][j] != y[i - 1][j];
        stuck |= !moves;
      }
      before = d;
      for (int j = 0; j < dim; ++j) {
        if (i == 0 && (set & 1)) p.rates()[j] = start[j];
        if (i == n - 1 && (set & 2)) p.rates()[j] = finish[j];
      }
      t.append(p);
    }
  }
};
static bool interpolated(Path &t, const Course &c, bool tension) {
  if (tension && c.stuck && !debug) return false;
  bool done = true;
  try {
    if (tension) t.tensionSplineInterpolation(4.0);
    else t.linearSplineInterpolation();
  } catch (const StandardException &e) {
    done = false;
    CHECK(e.flag() == ConfigurationError, "only a wrong configuration is refused");
  }
  CHECK(done == !c.stuck, "trajectories that take time are interpolated, others refused");
  return done;
}
static void meets_ends(Path &t, const Course &c, double tol) {
  double T = t.duration();
  CHECK(T > 0, "a trajectory takes time");
  for (int j = 0; j < c.dim; ++j) {
    sym_close(t(j, 0), c.y[0][j], tol, "a trajectory starts at its first waypoint");
    sym_close(t(j, T), c.y[c.n - 1][j], tol, "a trajectory ends at its last waypoint");
    sym_close(t.derivative(j, 0), c.start[j], tol * 10, "a trajectory starts with its first rate");
    sym_close(t.derivative(j, T), c.finish[j], tol * 10, "a trajectory ends with its last rate");
    sym_close(t.dderivative(j, 0), 0, tol * 1000, "a trajectory starts without acceleration");
    sym_close(t.dderivative(j, T), 0, tol * 1000, "a trajectory ends without acceleration");
    if (debug)
      for (int k = 0; k < 2; ++k) {
        bool refused = false;
        try {
          t(j, k ? T + 0.01 : -0.01);
        } catch (const StandardException &e) {
          refused = e.flag() == OutOfRangeError;
        }
        CHECK(refused, "times outside the trajectory are refused");
      }
  }
}
static void smooth(Path &t, const Course &c, double limit) {
  const int N = 200;
  double T = t.duration(), h = T / N;
  for (int j = 0; j < c.dim; ++j) {
    double y = t(j, 0), v = t.derivative(j, 0), fastest = 0;
    for (int k = 1; k <= N; ++k) {
      double x = k == N ? T : k * h, w = t.derivative(j, x), z = t(j, x);
      // what an acceleration within the limit allows
      CHECK(fabs(w - v) <= limit * h + 1e-3, "the rate does not jump");
      CHECK(fabs(z - y - (v + w) / 2 * h) <= limit * h * h / 2 + 1e-3, "the rate is that of the motion");
      y = z;
      v = w;
    }
  }
}
static void linear(int points, int joints, bool any_time) {
  long before = sym_live();
  {
    Path t(joints);
    Course c(t, points, joints);
    if (!interpolated(t, c, false)) return;
    if (!any_time) {
      meets_ends(t, c, 1e-5);
      smooth(t, c, c.a + 1e-3);
    } else {
      int j = joints - 1;
      Array<double> D = t.generateLinearSplines()[j].domain();
      int seg = sym_pick(0, D.size() - 2, "piece");
      if (!(D[seg] < D[seg + 1])) return;
      double x = sym_real("time", 0, 200);
      ASSUME(x > D[seg] && x <= D[seg + 1]);
      double v = t.dderivative(j, x);
      CHECK(v <= c.a + 1e-3 && v >= -c.a - 1e-3, "the acceleration allowed is kept");
    }
  }
  CHECK(sym_live() == before, "nothing is leaked");
}
HARNESS(linear_2_points) { linear(2, 1, false); }
HARNESS(linear_2_points_2_joints) { linear(2, 2, false); }
HARNESS(linear_3_points) { linear(3, 2, false); }
HARNESS(linear_4_points) { linear(4, 1, false); }
HARNESS(linear_at_any_time) { linear(3, 1, true); }
HARNESS(tension) {
  long before = sym_live();
  {
    Path t(sym_pick(1, 2, "joints"));
    Course c(t, 5, t.dimension());
    if (!interpolated(t, c, true)) return;
    meets_ends(t, c, 1e-3);
    smooth(t, c, 6 * c.a);
  }
  CHECK(sym_live() == before, "nothing is leaked");
}
HARNESS(again) { // interpolating again, both ways, changed and cleared
  long before = sym_live();
  {
    Path t(1);
    Course c(t, 5, 1);
    bool first = sym_bool("tension first");
    if (!interpolated(t, c, first)) return;
    if (!interpolated(t, c, !first)) return;
    meets_ends(t, c, 1e-3);
    if (sym_bool("clear")) t.clear();
    else t.redimension(2);
    CHECK(t.size() == 0, "a cleared trajectory has no waypoints");
  }
  CHECK(sym_live() == before, "nothing is leaked");
}
HARNESS(too_few) {
  int n = 1 + sym_choose(4, "points");
  bool way = sym_bool("tension"), slow = sym_bool("slow");
  if (way && !debug) return;
  int odd = -1;
  if (slow) odd = n > 3 ? 2 : n > 1 ? 1 : 0;
  Path t(1);
  t.maxAccelerations(5);
  for (int i = 0; i < n; ++i) {
    Point p(1);
    p.angles()[0] = i;
    p.duration(1);
    if (i == odd) p.nominalRates(-1);
    t.append(p);
  }
  if (n == 1 && debug) return;
  bool refused = false;
  try {
    if (way) t.tensionSplineInterpolation(4.0);
    else t.linearSplineInterpolation();
  } catch (const StandardException &e) {
    refused = e.flag() == ConfigurationError;
  }
  CHECK(refused == (way || n < 2 || (slow && odd < n - 1)), "too few waypoints, or rates that are not positive, are refused");
}
