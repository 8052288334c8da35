// Timestamps: exact signed arithmetic and ordering in seconds and nanoseconds.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_time/src/lib/timestamp_base.cpp ecl_time/src/lib/timestamp_pos.cpp
//@ default time=120
//@ entry sums theory=int
//@ entry differences theory=int
//@ entry chains theory=int
//@ entry there_and_back theory=int
//@ entry from_decimal theory=real cfg=rel
//@ entry decimal_round_trip theory=real cfg=rel
//@ bound every pair and triple of valid timestamps with up to 2^31 seconds either way and any nanoseconds; expressions of one and chains of 2 (thorough: 3) compound operations; decimal values up to 1e6 seconds
//@ assume the clock calls behave as documented (stand-ins)
//@ outside nanosecond arguments of a second or more; decimal values that are not finite
#include <symx.h>
#include <errno.h>
#include <string.h>
#include <ecl/time/timestamp.hpp>
#include <ecl/time/duration.hpp>
using namespace ecl;
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif
static const long G = 1000000000L;
static const long S = 1L << 31;
static long total(const TimeStampBase &t) { return t.sec() * G + t.nsec(); }
static bool normal(const TimeStampBase &t) {
  return t.nsec() > -G && t.nsec() < G && !(t.sec() > 0 && t.nsec() < 0) && !(t.sec() < 0 && t.nsec() > 0);
}
struct In { long s, n; };
static In input() {
  In i;
  i.s = sym_range(-S, S, "seconds");
  i.n = sym_range(-G + 1, G - 1, "nanoseconds");
  ASSUME(!(i.s > 0 && i.n < 0) && !(i.s < 0 && i.n > 0));
  return i;
}
static TimeStamp valid() { In i = input(); return TimeStamp(i.s, i.n); }

HARNESS(construction) {
  long s = sym_range(-S, S, "seconds"), n = sym_range(-G + 1, G - 1, "nanoseconds");
  bool ok = s == 0 || n == 0 || (s > 0) == (n > 0);
  int how = sym_pick(0, 3, "how");
  bool threw = false;
  Dirty<TimeStamp> d;
  Dirty<TimeStampBase> b;
  try {
    const TimeStampBase *t;
    if (how == 0) t = &d.make(s, n);
    else if (how == 1) t = &b.make(s, n);
    else if (how == 2) { TimeStamp &x = d.make(0, 0); CHECK(&x.stamp(s, n) == &x, "returns_itself"); t = &x; }
    else { b.make(s, n); t = &d.make(b.get()); }
    CHECK(t->sec() == s && t->nsec() == n, "holds_what_was_given");
    CHECK(t->msec() == n / 1000000 && t->usec() == n / 1000, "parts");
  } catch (const StandardException &e) { threw = true; CHECK(e.flag() == InvalidInputError, "exception_flag"); }
  CHECK(threw == (debug && !ok), "debug_builds_refuse_mixed_signs");
}
static bool same(const TimeStampBase &r, long want) { return total(r) == want && normal(r); }
HARNESS(sums) {
  TimeStamp a = valid(), b = valid();
  long x = total(a), y = total(b);
  CHECK(same(a + b, x + y), "sum");
  a += b;
  CHECK(same(a, x + y), "compound_sum");
  CHECK(same(b, y), "operand_unchanged");
}
HARNESS(differences) {
  TimeStamp a = valid(), b = valid();
  long x = total(a), y = total(b);
  CHECK(same(a - b, x - y), "difference");
  a -= b;
  CHECK(same(a, x - y), "compound_difference");
  CHECK(same(b, y), "operand_unchanged");
  CHECK(same(b - b, 0), "difference_with_itself");
  b -= b;
  CHECK(same(b, 0), "compound_difference_with_itself");
}
#ifdef SYMX_THOROUGH
static const int OPS = 3;
#else
static const int OPS = 2;
#endif
HARNESS(chains) { // longer ones follow: each step keeps the stamp valid
  TimeStamp acc(0, 0);
  long want = 0;
  for (int i = 0; i < OPS; ++i) {
    TimeStamp b = valid();
    if (sym_bool("minus")) { acc -= b; want -= total(b); } else { acc += b; want += total(b); }
    CHECK(same(acc, want), "running_total");
  }
}
HARNESS(there_and_back) {
  TimeStamp a(valid()), acc(valid()), keep(acc);
  acc += a;
  acc -= a;
  CHECK(acc == keep && !(acc != keep), "adding_and_taking_away");
}
HARNESS(comparisons) {
  TimeStamp a = valid(), b = valid();
  long x = total(a), y = total(b);
  CHECK((a == b) == (x == y), "equal");
  CHECK((a != b) == (x != y), "different");
  CHECK((a < b) == (x < y), "less");
  CHECK((a > b) == (x > y), "greater");
  CHECK((a <= b) == (x <= y), "less_or_equal");
  CHECK((a >= b) == (x >= y), "greater_or_equal");
}
// decimal seconds
static bool near_(const TimeStampBase &t, double d) { // within a nanosecond and rounding
  double back = t.sec() + t.nsec() * 1e-9;
  return back - d <= 1.5e-9 && d - back <= 1.5e-9;
}
HARNESS(from_decimal) {
  double d = sym_real("decimal", -1e6, 1e6);
  int how = sym_pick(0, 2, "how");
  Dirty<TimeStamp> t;
  if (how == 0) t.make(d);
  else if (how == 1) { t.make(7, 7); t.get().stamp(d); }
  else { TimeStampBase b(d); t.make(b); }
  double frac = d - (double)(long)d;
  ASSUME(frac < 1 - 1e-15 && frac > -1 + 1e-15);
  CHECK(normal(t.get()), "normalised");
  CHECK(near_(t.get(), d), "value_to_the_nanosecond");
}
// the few values left out above
HARNESS(just_below_a_second) {
  double d = 1;
  int steps = sym_pick(1, 20, "steps");
  for (int i = 0; i < steps; ++i) d = __builtin_nextafter(d, 0);
  if (sym_bool("negative")) d = -d;
  TimeStamp t(d);
  CHECK(normal(t), "normalised");
  CHECK(near_(t, d), "value_to_the_nanosecond");
}
HARNESS(decimal_round_trip) {
  double d = sym_real("decimal", -1e6, 1e6);
  TimeStamp t(d);
  double back = t;
  sym_close(back, d, 1.5e-9, "value_in_seconds");
  TimeStamp u(back);
  double again = u;
  sym_close(again, d, 3e-9, "round_trip");
}
// the text: seconds, point, nine digits
struct Text {
  char s[48];
  int n;
  Text() : n(0) {}
  void put(char c) { CHECK(n < 47, "text_fits"); s[n++] = c; }
  Text &operator<<(const char *p) { while (*p) put(*p++); return *this; }
  Text &operator<<(char c) { put(c); return *this; }
  Text &operator<<(long v) {
    char t[24];
    int k = 0;
    unsigned long u = v < 0 ? 0ul - (unsigned long)v : (unsigned long)v;
    do { t[k++] = '0' + u % 10; u /= 10; } while (u);
    if (v < 0) put('-');
    while (k) put(t[--k]);
    return *this;
  }
  Text &operator<<(int v) { return *this << (long)v; }
};
HARNESS(text) {
  long s = sym_range(-99, 99, "seconds"), n = sym_range(-G + 1, G - 1, "nanoseconds");
  ASSUME(!(s > 0 && n < 0) && !(s < 0 && n > 0));
  TimeStamp t(s, n);
  Text x;
  x << t;
  // read it back
  int i = 0;
  bool neg = false;
  if (x.s[i] == '-') { neg = true; ++i; }
  long v = 0;
  int digits = 0;
  while (i < x.n && x.s[i] != '.') { CHECK(x.s[i] >= '0' && x.s[i] <= '9', "digits"); v = v * 10 + (x.s[i++] - '0'); ++digits; }
  CHECK(digits >= 1, "has_seconds");
  CHECK(i < x.n, "has_a_point");
  CHECK(x.n - ++i == 9, "nine_decimals");
  for (; i < x.n; ++i) { CHECK(x.s[i] >= '0' && x.s[i] <= '9', "digits"); v = v * 10 + (x.s[i] - '0'); }
  CHECK((neg ? -v : v) == s * G + n, "text_spells_the_value");
}
// the clock
static int which;
static bool clock_fails;
static struct timespec now[3];
extern "C" int fk_clock_gettime(clockid_t c, struct timespec *t) {
  if (clock_fails) { errno = sym_i32("errno"); return -1; }
  which = c;
  *t = now[c];
  return 0;
}
HARNESS(the_clock) {
  for (int i = 0; i < 2; ++i) {
    now[i].tv_sec = sym_range(0, S, "seconds");
    now[i].tv_nsec = sym_range(0, G - 1, "nanoseconds");
  }
  Dirty<TimeStamp> d;
  TimeStamp &t = d.make0();
  CHECK(t.sec() == now[which].tv_sec && t.nsec() == now[which].tv_nsec, "stamped_with_the_time");
  CHECK(which == CLOCK_MONOTONIC, "monotonic_clock");
  now[CLOCK_MONOTONIC].tv_nsec = sym_range(0, G - 1, "later");
  CHECK(&t.stamp() == &t, "returns_itself");
  CHECK(t.sec() == now[CLOCK_MONOTONIC].tv_sec && t.nsec() == now[CLOCK_MONOTONIC].tv_nsec, "stamped_again");
  TimeStamp r = TimeStamp::realtime_now();
  CHECK(r.sec() == now[CLOCK_REALTIME].tv_sec && r.nsec() == now[CLOCK_REALTIME].tv_nsec, "real_time");
}
HARNESS(no_clock) {
  TimeStamp t(1, 2);
  clock_fails = true;
  bool threw = false;
  ErrorFlag f = NoError;
  try { t.stamp(); } catch (const StandardException &e) { threw = true; f = e.flag(); }
  int e = errno;
  CHECK(threw == debug, "failure_throws_in_debug_builds");
  if (threw) CHECK(f == (e == EINVAL ? NotSupportedError : e == EFAULT ? OutOfRangeError : UnknownError), "exception_flag");
}
