// Stopwatches, cpu watches, timing statistics and frequency monitors report what the clock showed.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_time/src/lib/timestamp_base.cpp ecl_time/src/lib/timestamp_pos.cpp ecl_time/src/lib/stopwatch.cpp ecl_time/src/lib/cpuwatch_rt.cpp ecl_time/src/lib/time_data.cpp ecl_time/src/lib/frequency.cpp
//@ default time=120
//@ entry stop_watch theory=int
//@ entry cpu_watch theory=int
//@ entry average_of_one theory=real cfg=rel
//@ entry average_of_two theory=real cfg=rel
//@ entry average_of_three theory=real cfg=rel
//@ entry spread_of_one theory=real cfg=rel
//@ entry spread_of_two theory=real cfg=rel
//@ entry spread_of_three theory=real cfg=rel
//@ entry monitored_monotonic theory=real cfg=rel
//@ entry monitored_realtime theory=real cfg=rel
//@ entry windows theory=real cfg=rel
//@ bound every history of 3 watch operations with any clock readings in between; averages of 1 to 3 durations of up to 1000 s (variance and standard deviation: every combination of 1 to 3 durations from a grid of 8); frequency monitors over every history of 3 updates and analyses and some of 4 and 5 with times in between of up to 7.7 s in steps of 0.1 s
//@ assume clock_gettime behaves as documented (a stand-in): the clock does not run backwards
//@ outside statistics of no durations; the standard deviation a frequency monitor never computes
#include <symx.h>
#include <errno.h>
#include <math.h>
#include <time.h>
#include <ecl/time/stopwatch.hpp>
#include <ecl/time/cpuwatch.hpp>
#include <ecl/time/time_data.hpp>
#include <ecl/time/frequency.hpp>
using namespace ecl;
static const long G = 1000000000L;
static struct timespec now;
static int expected_clock;
extern "C" int fk_clock_gettime(clockid_t c, struct timespec *t) {
  if (c != expected_clock) { t->tv_sec = 3; t->tv_nsec = 777; return 0; } // may be looked at but must not matter
  *t = now;
  return 0;
}
static void pass(long ds, long dn) {
  now.tv_sec += ds;
  now.tv_nsec += dn;
  if (now.tv_nsec >= G) { now.tv_nsec -= G; now.tv_sec += 1; }
}
static bool is(const TimeStamp &t, const struct timespec &from) {
  long ds = now.tv_sec - from.tv_sec, dn = now.tv_nsec - from.tv_nsec;
  if (dn < 0) { --ds; dn += G; }
  return t.sec() == ds && t.nsec() == dn;
}
static const long YEAR = 31536000l;
template <class W> static void watch(int id) {
  expected_clock = id;
  now.tv_sec = sym_range(0, YEAR, "start_seconds");
  now.tv_nsec = sym_range(0, G - 1, "start_nanoseconds");
  struct timespec start = now, lap = now;
  Dirty<W> d;
  W &w = d.make();
  for (int i = 0; i < 3; ++i) {
    pass(sym_range(0, YEAR, "seconds"), sym_range(0, G - 1, "nanoseconds"));
    switch (sym_pick(0, 2, "op")) {
    case 0: CHECK(is(w.elapsed(), start), "elapsed"); break;
    case 1: CHECK(is(w.split(), lap), "split"); lap = now; break;
    default: w.restart(); start = lap = now;
    }
  }
}
HARNESS(stop_watch) { watch<StopWatch>(CLOCK_MONOTONIC); }
HARNESS(cpu_watch) { watch<CpuWatch>(CLOCK_THREAD_CPUTIME_ID); }

static double as_seconds(double d) { return Duration(d); }
static void statistics(int n) {
  TimeData t;
  double sum = 0;
  if (sym_bool("cleared")) { t.push_back(Duration(99, 5)); t.clear(); }
  for (int i = 0; i < n; ++i) {
    Duration d(sym_range(0, 1000, "seconds"), sym_u8("nanoseconds"));
    t.push_back(d);
    sum += (double)d;
  }
  sym_close(t.average(), as_seconds(sum / n), 2e-9, "average");
}
HARNESS(average_of_one) { statistics(1); }
HARNESS(average_of_two) { statistics(2); }
HARNESS(average_of_three) { statistics(3); }
static void spread(int n) {
  TimeData t;
  double x[3], sum = 0;
  if (sym_bool("cleared")) { t.push_back(Duration(99, 5)); t.clear(); }
  for (int i = 0; i < n; ++i) {
    Duration d((long)sym_pick(0, 3, "seconds") * 7, (long)sym_pick(0, 1, "halves") * (G / 2));
    t.push_back(d);
    x[i] = d;
    sum += x[i];
  }
  double mean = as_seconds(sum / n), squares = 0;
  for (int i = 0; i < n; ++i) squares += (x[i] - mean) * (x[i] - mean);
  sym_close(t.variance(), squares / n, 1e-6, "variance");
  sym_close(t.stdDev(), sqrt(squares / n), 1e-6, "standard_deviation");
}
HARNESS(spread_of_one) { spread(1); }
HARNESS(spread_of_two) { spread(2); }
HARNESS(spread_of_three) { spread(3); }
static TimeStamp stamp(const struct timespec &t) { return TimeStamp(t.tv_sec, t.tv_nsec); }
static void monitored(bool realtime, const char *events = 0) { // events: u for updates, a for analyses, or any three
  expected_clock = realtime ? CLOCK_REALTIME : CLOCK_MONOTONIC;
  now.tv_sec = realtime ? 1500000000 : 1000;
  now.tv_nsec = 600000000;
  FrequencyMonitor m(2.0f, realtime);
  CHECK(!m.diagnostics().has_connection, "starts_unconnected");
  struct timespec last = now, window = now;
  TimeStamp lo(100000, 0), hi(0, 0), limit(2, 0);
  int count = 0;
  for (int i = 0; events ? events[i] != 0 : i < 3; ++i) {
    if (events) pass(sym_choose(2, "late") ? 3 : 0, (long)sym_pick(1, 2, "tenths") * 100000000);
    else pass(sym_u8("seconds") & 7, (long)(sym_u8("tenths") & 7) * 100000000);
    if (events ? events[i] == 'u' : sym_bool("update")) {
      m.update();
      CHECK(m.diagnostics().has_connection, "connected_once_updated");
      TimeStamp t = stamp(now) - stamp(last);
      if (t < lo) lo = t;
      if (t > hi) hi = t;
      last = now;
      ++count;
    } else {
      FrequencyDiagnostics before = m.diagnostics();
      const FrequencyDiagnostics &a = m.analyse();
      CHECK(&a == &m.diagnostics(), "same_diagnostics");
      TimeStamp t = stamp(now) - stamp(window);
      if (t > limit) {
        CHECK(a.has_connection == (count > 0), "connected_if_there_were_updates");
        if (count > 0) {
          sym_close(a.hz, (float)(count / (double)t), 1e-5, "frequency");
          sym_close(a.minimum_interval, (float)(double)lo, 1e-5, "shortest_interval");
          sym_close(a.maximum_interval, (float)(double)hi, 1e-5, "longest_interval");
        } else {
          CHECK(a.hz == 0 && a.minimum_interval == 0 && a.maximum_interval == 0, "nothing_came_in");
        }
        count = 0;
        lo = TimeStamp(100000, 0);
        hi = TimeStamp(0, 0);
        window = now;
      } else {
        CHECK(a.has_connection == before.has_connection, "unchanged_within_the_window");
        CHECK(!(a.hz < before.hz || a.hz > before.hz), "rate_unchanged_within_the_window");
        CHECK(!(a.minimum_interval < before.minimum_interval || a.minimum_interval > before.minimum_interval), "minimum_unchanged_within_the_window");
        CHECK(!(a.maximum_interval < before.maximum_interval || a.maximum_interval > before.maximum_interval), "maximum_unchanged_within_the_window");
      }
    }
  }
}
HARNESS(monitored_monotonic) { monitored(false); }
HARNESS(monitored_realtime) { monitored(true); }
HARNESS(windows) { // one after the other
  static const char *const events[4] = {"uaua", "uaa", "aua", "uuaua"};
  monitored(false, events[sym_choose(4, "events")]);
}
