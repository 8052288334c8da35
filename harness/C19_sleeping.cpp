// Sleeping: exactly as long as asked, and snoozes keep to an absolute schedule without drift.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_time/src/lib/timestamp_base.cpp ecl_time/src/lib/timestamp_pos.cpp ecl_time/src/lib/sleep_pos.cpp ecl_time/src/lib/snooze_pos.cpp
//@ default time=240
//@ entry snooze_default theory=int
//@ entry snooze_constructed theory=int
//@ entry snooze_reconfigured theory=int
//@ entry snooze_validating theory=int
//@ bound every duration of up to 2^40 units; sleeping that succeeds or fails with any errno; snoozes of every period up to 100 s, 2 (thorough: 3) rounds with any amount of work between them
//@ assume nanosleep, clock_gettime and clock_nanosleep behave as documented (stand-ins); code between calls takes no time
//@ outside interrupted snoozes; a period of zero or with nanoseconds of a second and more
#include <symx.h>
#include <errno.h>
#include <time.h>
#include <ecl/time/sleep.hpp>
#include <ecl/time/snooze.hpp>
using namespace ecl;
#ifdef SYMX_THOROUGH
static const int ROUNDS = 3;
#else
static const int ROUNDS = 2;
#endif
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif
static const long G = 1000000000L;
static bool may_fail;
static int failure;
static struct timespec asked;
static int sleeps;
static long now_s, now_n; // the clock
static long until_s, until_n;
static bool valid(const struct timespec *t) { return t->tv_sec >= 0 && t->tv_nsec >= 0 && t->tv_nsec < G; }
extern "C" {
int fk_nanosleep(const struct timespec *t, struct timespec *) {
  CHECK(valid(t), "valid_sleep");
  asked = *t;
  ++sleeps;
  failure = 0;
  if (may_fail && sym_bool("sleep_fails")) {
    failure = sym_i32("errno");
    ASSUME(failure > 0 && failure < 134);
    errno = failure;
    return -1;
  }
  return 0;
}
int fk_clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = now_s; t->tv_nsec = now_n; return 0; }
int fk_clock_nanosleep(clockid_t, int flags, const struct timespec *t, struct timespec *) {
  CHECK(flags == TIMER_ABSTIME, "sleeps_until_a_time");
  CHECK(valid(t), "valid_sleep");
  ++sleeps;
  until_s = t->tv_sec;
  until_n = t->tv_nsec;
  if (until_s > now_s || (until_s == now_s && until_n > now_n)) { now_s = until_s; now_n = until_n; }
  return 0;
}
int fk_usleep(useconds_t u) { struct timespec t = {(long)(u / 1000000), (long)(u % 1000000) * 1000}; return fk_nanosleep(&t, 0); }
unsigned fk_sleep(unsigned s) { struct timespec t = {(long)s, 0}; fk_nanosleep(&t, 0); return 0; }
}
static const unsigned long MAX = 1ul << 40;
static unsigned long amount() { unsigned long n = sym_u64("amount"); ASSUME(n <= MAX); return n; }
template <class F> static void asleep(F f, unsigned long s, unsigned long n) {
  int before = sleeps;
  bool threw = false;
  ErrorFlag flag = NoError;
  may_fail = true;
  try { f(); } catch (const StandardException &e) { threw = true; flag = e.flag(); }
  may_fail = false;
  CHECK(sleeps == before + 1, "sleeps_once");
  CHECK((unsigned long)asked.tv_sec == s && (unsigned long)asked.tv_nsec == n, "sleeps_as_long_as_asked");
  CHECK(threw == (debug && failure), "failure_throws_in_debug_builds");
  if (threw) CHECK(flag == (failure == EINTR ? InterruptedError : failure == EINVAL ? InvalidInputError : failure == EFAULT ? MemoryError : UnknownError), "exception_flag");
}
template <class S> static void unit(unsigned long per) {
  unsigned long a = amount(), b = amount();
  Dirty<S> d;
  S &s = d.make(a);
  asleep([&] { s(); }, a / per, a % per * (G / per));
  CHECK((unsigned long)s.duration().sec() == a / per && (unsigned long)s.duration().nsec() == a % per * (G / per), "duration");
  asleep([&] { s(b); }, b / per, b % per * (G / per));
}
HARNESS(seconds) { unit<Sleep>(1); }
HARNESS(milliseconds) { unit<MilliSleep>(1000); }
HARNESS(microseconds) { unit<MicroSleep>(1000000); }
HARNESS(nanoseconds) { unit<NanoSleep>(1000000000); }
HARNESS(durations) {
  long s = sym_range(0, MAX, "seconds"), n = sym_range(0, G - 1, "nanoseconds");
  long s2 = sym_range(0, MAX, "seconds"), n2 = sym_range(0, G - 1, "nanoseconds");
  Sleep x(Duration(s, n));
  asleep([&] { x(); }, s, n);
  CHECK(x.duration().sec() == s && x.duration().nsec() == n, "duration");
  asleep([&] { x(Duration(s2, n2)); }, s2, n2);
  Dirty<MilliSleep> d;
  MilliSleep &m = d.make();
  asleep([&] { m(); }, 0, 0);
}
static void add(long &s, long &n, long ds, long dn) {
  s += ds;
  n += dn;
  if (n >= G) { n -= G; ++s; }
}
static bool later(long s, long n, long s2, long n2) { return s > s2 || (s == s2 && n > n2); }
static void snoozing(int how, bool validate) {
  now_s = sym_range(0, 1000000, "start_seconds");
  now_n = sym_range(0, G - 1, "start_nanoseconds");
  long ps = sym_range(0, 100, "period_seconds"), pn = sym_range(0, G - 1, "period_nanoseconds");
  ASSUME(ps > 0 || pn > 0);
  Dirty<Snooze> d;
  if (how == 0) {
    d.make0();
    ps = 0;
    pn = 10000000;
  } else {
    if (how == 1) d.make(Duration(ps, pn), validate);
    else { d.make0(); d.get().period(Duration(ps, pn), validate); }
  }
  Snooze &x = d.get();
  CHECK(x.period().sec() == ps && x.period().nsec() == pn, "period");
  long due_s = now_s, due_n = now_n;
  for (int i = 0; i < ROUNDS; ++i) {
    // some work
    add(now_s, now_n, sym_range(0, 300, "work_seconds"), sym_range(0, G - 1, "work_nanoseconds"));
    if (i == 1 && sym_bool("restart")) { x.initialise(); due_s = now_s; due_n = now_n; }
    int before = sleeps;
    long was_s = now_s, was_n = now_n;
    x();
    CHECK(sleeps == before + 1, "sleeps_once_a_round");
    add(due_s, due_n, ps, pn);
    if (later(was_s, was_n, due_s, due_n)) {
      // behind: back in step with the clock (always when validating; otherwise it may also catch up)
      long r_s = was_s, r_n = was_n;
      add(r_s, r_n, ps, pn);
      bool resync = until_s == r_s && until_n == r_n;
      CHECK(resync || (!validate && until_s == due_s && until_n == due_n), "back_in_step_when_behind");
      if (resync) { due_s = r_s; due_n = r_n; }
    } else
      CHECK(until_s == due_s && until_n == due_n, "exactly_one_period_later");
  }
}
HARNESS(snooze_default) { snoozing(0, false); }
HARNESS(snooze_constructed) { snoozing(1, false); }
HARNESS(snooze_reconfigured) { snoozing(2, false); }
HARNESS(snooze_validating) { snoozing(1, true); }
