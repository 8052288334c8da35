// Priorities are set as asked, read back as set, and failures are reported.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_threads/src/lib/priority_pos.cpp
//@ default time=100
//@ bound every priority after every priority, every real-time range of at least ten levels, any one call failing with any errno
//@ assume the scheduling calls behave as documented on linux (stand-ins): niceness is clamped to -20..19
//@ outside print_priority_diagnostics; real-time ranges with fewer levels than the library distinguishes
#include <symx.h>
#include <errno.h>
#include <sched.h>
#include <string.h>
#include <sys/resource.h>
#include <ecl/threads/priority.hpp>
using namespace ecl;
static int policy = SCHED_OTHER, rt, nice_value, lo, hi, calls, inject, injected;
#define INJECT do { ++calls; if (inject > 0 && --inject == 0) { injected = sym_i32("errno"); ASSUME(injected > 0 && injected < 134); errno = injected; return -1; } } while (0)
extern "C" {
int fk_setpriority(__priority_which_t w, id_t who, int v) {
  CHECK(w == PRIO_PROCESS && who == 0, "own_priority");
  INJECT;
  nice_value = v < -20 ? -20 : v > 19 ? 19 : v;
  return 0;
}
int fk_getpriority(__priority_which_t w, id_t who) {
  CHECK(w == PRIO_PROCESS && who == 0, "own_priority");
  return nice_value;
}
int fk_sched_get_priority_min(int p) { CHECK(p == SCHED_RR, "policy_asked_about"); INJECT; return lo; }
int fk_sched_get_priority_max(int p) { CHECK(p == SCHED_RR, "policy_asked_about"); INJECT; return hi; }
int fk_sched_getscheduler(pid_t p) { CHECK(p == 0, "own_scheduler"); INJECT; return policy; }
int fk_sched_setscheduler(pid_t p, int q, const struct sched_param *s) {
  CHECK(p == 0, "own_scheduler");
  INJECT;
  if (q == SCHED_RR ? s->sched_priority < lo || s->sched_priority > hi : s->sched_priority != 0) { errno = EINVAL; return -1; }
  policy = q;
  rt = s->sched_priority;
  return 0;
}
int fk_sched_getparam(pid_t p, struct sched_param *s) { CHECK(p == 0, "own_scheduler"); INJECT; s->sched_priority = rt; return 0; }
}
static const Priority all[] = {BackgroundPriority, LowPriority, NormalPriority, HighPriority, CriticalPriority, RealTimePriority1, RealTimePriority2, RealTimePriority3, RealTimePriority4};
static void range() {
  lo = sym_u8("lowest") & 63;
  hi = sym_u8("highest");
  ASSUME(hi - lo >= 10);
}
static void sets(Priority p) {
  CHECK(set_priority(p), "set_succeeds");
  CHECK(get_priority() == p, "read_back");
  static const int n[] = {19, 10, 0, -10, -20};
  if (p < RealTimePriority1) CHECK(policy == SCHED_OTHER && nice_value == n[p - BackgroundPriority], "niceness");
  else CHECK(policy == SCHED_RR && rt >= lo && rt <= hi, "real_time");
}
HARNESS(set_and_read_back) {
  range();
  sets(all[sym_pick(0, 8, "first")]);
  if (sym_bool("inherit")) {
    Priority p = get_priority();
    CHECK(set_priority(DefaultPriority) && get_priority() == p, "default_changes_nothing");
  }
  sets(all[sym_pick(0, 8, "second")]);
}
HARNESS(higher_is_higher) {
  range();
  int i = sym_pick(0, 3, "a"), j = sym_pick(0, 3, "b");
  ASSUME(i < j);
  set_priority(all[5 + i]);
  int a = rt;
  set_priority(all[5 + j]);
  CHECK(a < rt, "real_time_levels_increase");
}
HARNESS(any_niceness) {
  nice_value = sym_range(-20, 19, "niceness");
  Priority p = get_priority();
  CHECK(p == (nice_value == -20 ? CriticalPriority : nice_value == -10 ? HighPriority : nice_value == 10 ? LowPriority : nice_value == 19 ? BackgroundPriority : NormalPriority), "level");
}
HARNESS(any_real_time) {
  range();
  policy = SCHED_RR;
  rt = sym_range(0, 255, "real_time_priority");
  ASSUME(rt >= lo && rt <= hi);
  Priority p = get_priority();
  int d = hi - lo, r = rt - lo;
  CHECK(p == (r >= 3 * d / 10 ? RealTimePriority4 : r >= 2 * d / 10 ? RealTimePriority3 : r >= d / 10 ? RealTimePriority2 : RealTimePriority1), "level");
}
HARNESS(other_schedulers) {
  policy = sym_i32("policy");
  ASSUME(policy > 0 && policy != SCHED_RR && policy < 100);
  CHECK(get_priority() == UnknownPriority, "unknown");
}
static ErrorFlag meaning(int e) {
  switch (e) {
  case EINVAL: case ESRCH: return InvalidInputError;
  case EPERM: case EACCES: return PermissionsError;
  default: return UnknownError;
  }
}
HARNESS(failures) {
  range();
  bool was_rt = sym_bool("was_real_time");
  if (was_rt) { policy = SCHED_RR; rt = lo; }
  int k = sym_pick(0, 9, "op");
  inject = sym_pick(1, 6, "fails_at");
  int n = nice_value, r = rt, q = policy;
  bool ok = true, thrown = false;
  Priority got = UnknownPriority;
  try {
    if (k == 9) { got = get_priority(); ok = got != UnknownPriority; } else ok = set_priority(all[k]);
  } catch (const StandardException &e) {
    ok = false;
    thrown = true;
    CHECK(injected, "throws_only_if_a_call_fails");
    CHECK(e.flag() == meaning(injected) || e.flag() == NotSupportedError || e.flag() == OutOfRangeError, "flag");
  }
  if (!injected) CHECK(ok, "succeeds");
  else if (k == 9) CHECK(!ok, "failure_reported");
  else if (ok) { inject = 0; CHECK(get_priority() == all[k], "success_only_if_set"); } // a failed question may not matter
  else CHECK(nice_value == n && ((rt == r && policy == q) || (was_rt && k < 5)), "unchanged_if_it_fails");
#ifndef NDEBUG
  if (injected && !ok) CHECK(thrown, "thrown_in_debug_builds");
#endif
}
