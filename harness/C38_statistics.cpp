// Cumulative statistics: mean and variance of everything pushed since the last clearing.
//@ config rel,dbg
//@ default time=150 theory=real
//@ entry one_or_none theory=auto
//@ bound up to 6 values (8 in the thorough tier) anywhere in [-100,100], cleared at any point, copied at any point; both float types
//@ assume real arithmetic with a bound on every rounding error, compared to 1e-7 (double) and 1 (float variances), 1e-2 (float means)
//@ outside more values than a float can count; values of other magnitudes
#include <symx.h>
#include <unistd.h>
#include <ecl/statistics/cumulative_statistics.hpp>
using namespace ecl;
#ifdef SYMX_THOROUGH
enum { MOST = 8 };
#else
enum { MOST = 6 };
#endif
static void any(double &x) { x = sym_real("x", -100, 100); }
static void any(float &x) { x = sym_realf("x", -100, 100); }

template <class T> struct Stats {
  T v[2 * MOST];
  int n;
  Stats() : n(0) {}
  void is(const CumulativeStatistics<T> &s) const {
    double tm = sizeof(T) == 4 ? 1e-2 : 1e-9, tv = sizeof(T) == 4 ? 1 : 1e-7;
    CHECK(s.size() == (T)n, "as many data as were pushed");
    double sum = 0;
    for (int i = 0; i < n; ++i) sum += (double)v[i];
    double mean = n ? sum / n : 0;
    sym_close(s.mean(), mean, tm, "the mean is that of the data");
    double sq = 0;
    for (int i = 0; i < n; ++i) sq += ((double)v[i] - mean) * ((double)v[i] - mean);
    sym_close(s.variance(), n > 1 ? sq / (n - 1) : 0, tv, "the variance is that of the data");
  }
  void push(CumulativeStatistics<T> &s) {
    T x;
    any(x);
    v[n++] = x;
    s.push_back(x);
  }
  static void pushing() {
    Dirty<CumulativeStatistics<T> > d;
    d.make0();
    CumulativeStatistics<T> &s = d.get();
    Stats r;
    r.is(s);
    int k = sym_choose(MOST + 1, "values");
    for (int i = 0; i < k; ++i) r.push(s);
    r.is(s);
    r.is(s); // asking changes nothing
  }
  static void histories() {
    CumulativeStatistics<T> s;
    Stats r;
    for (int step = 0; step < 5; ++step) {
      switch (sym_choose(3, "do")) {
        case 0: r.push(s); break;
        case 1: s.clear(); r.n = 0; break;
        case 2: { // a copy goes its own way
          CumulativeStatistics<T> c(s);
          Stats rc(r);
          rc.push(c);
          rc.is(c);
          CumulativeStatistics<T> e;
          e = s;
          s = e;
          break;
        }
      }
    }
    r.is(s);
  }
};
HARNESS(pushing_double) { Stats<double>::pushing(); }
HARNESS(pushing_float) { Stats<float>::pushing(); }
HARNESS(histories_double) { Stats<double>::histories(); }
HARNESS(histories_float) { Stats<float>::histories(); }
HARNESS(own_value) { // the value pushed may be what the statistics say
  CumulativeStatistics<double> s;
  Stats<double> r;
  int k = 1 + sym_choose(3, "values");
  for (int i = 0; i < k; ++i) r.push(s);
  double m = s.mean();
  s.push_back(s.mean());
  r.v[r.n++] = m;
  r.is(s);
}
template <class T> static void one_or_none() {
  Dirty<CumulativeStatistics<T> > d;
  d.make0();
  CumulativeStatistics<T> &s = d.get();
  T x = 0;
  int before = sym_choose(3, "before"), n = sym_choose(2, "values");
  for (int i = 0; i < before; ++i) s.push_back((T)(i * i + 1));
  if (before) s.clear();
  if (n) any(x), s.push_back(x);
  CHECK(s.variance() == 0, "the variance of one datum, or none, is zero");
  CHECK(s.mean() == x && s.size() == n, "the mean of one datum is itself");
}
HARNESS(one_or_none) {
  if (sym_bool("float")) one_or_none<float>();
  else one_or_none<double>();
}
