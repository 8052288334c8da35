// Threads run what they were given exactly once, and their handles and tasks are released exactly once.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_threads/src/lib/thread_pos.cpp ecl_threads/src/lib/priority_pos.cpp
//@ default time=150
//@ bound every history of 4 (thorough: 5) operations (start, join, cancel, ask whether it runs, destroy) on a thread object with any creation failing, over every interleaving at system calls and at two points inside the thread's function; every way to construct or start a thread, with any argument value, any stack size and any priority; threadables through 3 operations
//@ assume the pthread functions behave as documented (stand-ins); a cancelled thread unwinds its stack, as glibc and others do
//@ outside exceptions that escape the thread's function; thread objects shared between threads without locks
#include <symx.h>
#include <errno.h>
#include <pthread.h>
#include <sys/resource.h>
#include <ecl/threads/thread.hpp>
#include <ecl/threads/threadable.hpp>
using namespace ecl;
struct Unwound {};
struct T { void *(*fn)(void *); void *arg; int id; bool begun, done, cancelled, joined, detached; };
static T th[8];
static int nth, attrs, failures, nice_of[8], nices[8];
static size_t stack;
static int stack_result;
static void *trampoline(void *p) {
  T &t = *(T *)p;
  t.begun = true;
  try { t.fn(t.arg); } catch (const Unwound &) {}
  t.done = true;
  return 0;
}
static T &self() {
  for (int i = 0; i < nth; ++i) if (th[i].id == sym_self()) return th[i];
  static T main_thread;
  return main_thread;
}
static void cancellation_point() {
  sym_yield();
  if (self().cancelled) throw Unwound();
}
extern "C" {
int fk_pthread_attr_init(pthread_attr_t *) { ++attrs; return 0; }
int fk_pthread_attr_destroy(pthread_attr_t *) { --attrs; return 0; }
int fk_pthread_attr_setscope(pthread_attr_t *, int) { return 0; }
int fk_pthread_attr_setinheritsched(pthread_attr_t *, int) { return 0; }
int fk_pthread_attr_setdetachstate(pthread_attr_t *, int s) { CHECK(s == PTHREAD_CREATE_JOINABLE, "joinable"); return 0; }
int fk_pthread_attr_setstacksize(pthread_attr_t *, size_t n) { stack = n; return stack_result; }
int fk_pthread_create(pthread_t *h, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
  static const int e[] = {0, EAGAIN, EINVAL, EPERM, ENOMEM};
  int k = failures > 0 ? sym_pick(0, 4, "create") : 0;
  if (k) { --failures; errno = 0; return e[k]; }
  T &t = th[nth];
  t.fn = fn;
  t.arg = arg;
  *h = ++nth;
  t.id = sym_thread_create(trampoline, &t);
  sym_yield();
  return 0;
}
static T &at(pthread_t h) {
  if (h < 1 || h > (pthread_t)nth || th[h - 1].joined || th[h - 1].detached) sym_fail("used_a_handle_that_is_not_valid");
  return th[h - 1];
}
int fk_pthread_join(pthread_t h, void **r) {
  T &t = at(h);
  if (t.id == sym_self()) return EDEADLK;
  sym_join(t.id);
  t.joined = true;
  if (r) *r = 0;
  return 0;
}
int fk_pthread_detach(pthread_t h) { at(h).detached = true; return 0; }
int fk_pthread_cancel(pthread_t h) {
  T &t = at(h);
  if (t.done) return sym_bool("gone") ? ESRCH : 0;
  t.cancelled = true;
  return 0;
}
int fk_setpriority(__priority_which_t w, id_t who, int v) {
  CHECK(w == PRIO_PROCESS && who == 0, "own_priority");
  T &t = self();
  CHECK(t.begun, "priority_set_in_the_thread");
  nice_of[&t - th] = v;
  nices[&t - th]++;
  if (failures > 0 && sym_bool("priority_fails")) { --failures; errno = EACCES; return -1; }
  return 0;
}
int fk_sched_getscheduler(pid_t) { return SCHED_OTHER; }
}
static void all_released(long live) {
  for (int i = 0; i < nth; ++i) {
    sym_join(th[i].id);
    CHECK(th[i].joined != th[i].detached, "handle_released_once");
  }
  CHECK(attrs == 0, "attributes_released");
  CHECK(sym_live() == live, "nothing_leaks");
}
static int begun, ended;
static void body() {
  ++begun;
  cancellation_point();
  cancellation_point();
  ++ended;
}
static ErrorFlag meaning_possible[] = {MemoryError, InvalidInputError, PermissionsError, UnknownError};
static bool possible(ErrorFlag f) {
  for (ErrorFlag m : meaning_possible) if (f == m) return true;
  return false;
}
static void history(int first, int n) {
  long live = sym_live();
  failures = 1;
  {
    Dirty<Thread> d;
    bool started = false, cancelled = false, joined = false;
    d.make0();
    for (int i = 0; i < n; ++i) {
      Thread &t = d.get();
      switch (i == 0 ? first : sym_pick(0, 4, "op")) {
      case 0: {
        ErrorFlag f = NoError;
        int before = nth;
        try { f = t.start(body).flag(); } catch (const StandardException &e) { f = e.flag(); }
        if (started) { CHECK(f == BusyError && nth == before, "started_only_once"); }
        else if (nth > before) { CHECK(f == NoError, "start_succeeds"); started = true; }
        else CHECK(possible(f), "failed_start_reported");
      } break;
      case 1: {
        bool thrown = false;
        try { t.join(); } catch (const StandardException &) { thrown = true; }
        CHECK(!thrown, "join_succeeds");
        if (started) { CHECK(th[0].done && th[0].joined, "join_waits"); joined = true; }
      } break;
      case 2: {
        bool was = started && !joined && !th[0].done, before = nth > 0 && th[0].cancelled;
        bool thrown = false;
        try { t.cancel(); } catch (const StandardException &) { thrown = true; }
        if (was) CHECK(th[0].cancelled && !thrown, "cancel_requested");
        else CHECK(nth == 0 || th[0].cancelled == before, "nothing_to_cancel");
        cancelled |= started;
      } break;
      case 3:
        sym_yield();
        CHECK(t.isRunning() == (started && !cancelled && !th[0].done), "is_running");
        break;
      default:
        d.kill();
        i = n;
      }
    }
  }
  all_released(live);
  CHECK(begun == nth, "function_runs_exactly_once");
  CHECK(ended == nth || (nth == 1 && th[0].cancelled && ended == 0), "function_runs_to_its_end_unless_cancelled");
}
#ifdef SYMX_THOROUGH
static const int N = 5;
#else
static const int N = 4;
#endif
HARNESS(start_first) { history(0, N); }
HARNESS(join_first) { history(1, N); }
HARNESS(cancel_first) { history(2, N); }
HARNESS(ask_first) { history(3, N); }

static int got, calls, copies;
static const void *target;
struct Member {
  int pad;
  void f() { ++calls; target = this; }
  void g(int i) { ++calls; target = this; got = i; }
};
struct Function {
  typedef void result_type;
  int v;
  Function(int i) : v(i) { ++copies; }
  Function(const Function &o) : v(o.v) { ++copies; }
  ~Function() { --copies; }
  void operator()() { ++calls; got = v; target = this; v = ~v; }
};
static void plain() { ++calls; }
static void with(int i) { ++calls; got = i; }
HARNESS(every_kind_of_thread) {
  long live = sym_live();
  int v = sym_i32("value");
  static const Priority ps[] = {DefaultPriority, BackgroundPriority, LowPriority, NormalPriority, HighPriority, CriticalPriority};
  static const int nice[] = {0, PRIO_MAX, 10, 0, -10, PRIO_MIN};
  int pi = sym_pick(0, 5, "priority");
  Priority p = ps[pi];
  long size = -1;
  if (sym_bool("given_stack")) { size = (long)sym_u64("stack_size"); ASSUME(size > 0); }
  bool by_start = sym_bool("by_start");
  failures = sym_bool("priority_may_fail");
  stack_result = 0;
  {
    Member m;
    Function f(v);
    Dirty<Thread> d;
    // only the creation itself never fails here
    int fails = failures;
    failures = 0;
    Thread *t = 0;
#define MAKE(...) do { if (by_start) { t = &d.make0(); failures = 0; CHECK(t->start(__VA_ARGS__, p, size).flag() == NoError, "started"); } else t = &d.make(__VA_ARGS__, p, size); } while (0)
    int kind = sym_pick(0, 6, "kind");
    switch (kind) {
    case 0: { VoidFunction q = plain; MAKE(q); } break;
    case 1: MAKE(&Member::f, m); break;
    case 2: MAKE(generateFunctionObject(with, v)); break;
    case 3: MAKE(generateFunctionObject(&Member::f, m)); break;
    case 4: MAKE(generateFunctionObject(&Member::g, m, v)); break;
    case 5: MAKE(f); break;
    default: MAKE(ref(f));
    }
    (void)fails;
    t->join();
    CHECK(calls == 1, "called_once");
    if (kind == 1 || kind == 3 || kind == 4) CHECK(target == &m, "called_on_the_object");
    if (kind == 2 || kind >= 4) CHECK(got == v, "called_with_the_value");
    if (kind == 5) CHECK(target != &f && f.v == v, "copied");
    if (kind == 6) CHECK(target == &f && f.v == ~v, "referred_to");
    CHECK(copies == 1, "copies_released");
    if (pi) CHECK(nices[0] == 1 && nice_of[0] == nice[pi], "priority_applied");
    else CHECK(nices[0] == 0, "priority_inherited");
    CHECK(stack == (size_t)(size == -1 ? 0 : size), "stack_size");
  }
  all_released(live);
}
HARNESS(a_priority_that_cannot_be_set) {
  long live = sym_live();
  {
    Dirty<Thread> d;
    Thread &t = d.make0();
    CHECK(t.start(body, HighPriority).flag() == NoError, "started");
    failures = 1;
    t.join();
    CHECK(begun == 1 && ended == 1, "runs_all_the_same");
  }
  all_released(live);
}
HARNESS(a_stack_that_cannot_be_had) {
  long live = sym_live();
  long size = (long)sym_u64("stack_size");
  ASSUME(size > 0);
  stack_result = EINVAL;
  {
    Dirty<Thread> d;
    bool thrown = false;
    Thread &t = d.make0();
    try { t.start(body, DefaultPriority, size); } catch (const StandardException &e) {
      thrown = true;
      CHECK(e.flag() == ConfigurationError, "flag");
      attrs = 0;
    }
    CHECK(nth == (thrown ? 0 : 1), "started_unless_reported");
  }
  all_released(live);
}
struct Worker : public Threadable {
  int runs, finished;
  Worker() : runs(0), finished(0) {}
  void runnable() {
    ++runs;
    sym_yield();
    sym_yield();
    ++finished;
  }
};
HARNESS(threadables) {
  long live = sym_live();
  failures = 1;
  {
    Dirty<Worker> d;
    Worker &w = d.make0();
    CHECK(!w.isRunning(), "not_running_at_first");
    int starts = 0;
    for (int i = 0; i < 3; ++i) {
      sym_yield();
      if (sym_bool("start")) {
        bool was = w.isRunning(), r = false;
        int before = nth;
        try { r = w.start(); } catch (const StandardException &e) { CHECK(possible(e.flag()), "flag"); }
        CHECK(r == (nth > before), "start_result");
        if (was) CHECK(!r, "one_at_a_time");
        if (r) ++starts;
        else CHECK(was || !w.isRunning(), "not_running_after_a_failed_start");
      } else CHECK(w.isRunning() == (w.finished < starts), "is_running");
    }
    for (int i = 0; i < nth; ++i) sym_join(th[i].id);
    CHECK(!w.isRunning() && w.runs == starts && w.finished == starts, "every_start_runs_once");
  }
  all_released(live);
}
