// Mutexes exclude, wait as long as asked, count their users and report failures.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_threads/src/lib/mutex_pos.cpp ecl_time/src/lib/timestamp_base.cpp ecl_time/src/lib/timestamp_pos.cpp
//@ default time=150
//@ bound two threads, one taking a mutex twice and the other once (thorough: both twice) by any of lock, trylock and timed trylock, over every interleaving at system calls; every clock reading and every duration of up to 10000 s; every history of 4 operations of one thread; any errno from any one call
//@ assume the pthread functions and clock_gettime behave as documented (stand-ins)
//@ entry waiting_times theory=int
#include <symx.h>
#include <errno.h>
#include <pthread.h>
#include <time.h>
#include <ecl/threads/mutex.hpp>
using namespace ecl;
static const long G = 1000000000L;
static const pthread_mutex_t *the_mutex;
static bool initialised, checked;
static int holder = -1, attrs, inject, injected;
static struct timespec now, deadline;
static const struct timespec *waited;
static int times_out; // 0: gets the lock if it is free, else asks
#define INJECT do { if (inject > 0 && --inject == 0) { injected = sym_i32("errno"); ASSUME(injected > 0 && injected < 134 && injected != EBUSY && injected != ETIMEDOUT); return injected; } } while (0)
extern "C" {
int fk_pthread_mutexattr_init(pthread_mutexattr_t *) { INJECT; ++attrs; return 0; }
int fk_pthread_mutexattr_destroy(pthread_mutexattr_t *) { INJECT; --attrs; return 0; }
int fk_pthread_mutexattr_settype(pthread_mutexattr_t *, int t) { INJECT; checked = t == PTHREAD_MUTEX_ERRORCHECK; CHECK(checked || t == PTHREAD_MUTEX_NORMAL, "not_recursive"); return 0; }
int fk_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { INJECT; the_mutex = m; initialised = true; return 0; }
int fk_pthread_mutex_destroy(pthread_mutex_t *m) { CHECK(!initialised || (m == the_mutex && holder == -1), "destroyed_when_free"); initialised = false; return 0; }
int fk_pthread_mutex_lock(pthread_mutex_t *m) {
  CHECK(m == the_mutex && initialised, "initialised");
  INJECT;
  sym_yield();
  if (holder == sym_self() && checked) return EDEADLK;
  while (holder != -1) sym_block(m);
  holder = sym_self();
  return 0;
}
int fk_pthread_mutex_trylock(pthread_mutex_t *m) {
  CHECK(m == the_mutex && initialised, "initialised");
  INJECT;
  sym_yield();
  if (holder != -1) return EBUSY;
  holder = sym_self();
  return 0;
}
int fk_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) {
  CHECK(m == the_mutex && initialised, "initialised");
  INJECT;
  deadline = *t;
  waited = t;
  sym_yield();
  if (holder == sym_self() && checked) return EDEADLK;
  while (holder != -1) {
    if (sym_bool("time_passes")) return ETIMEDOUT;
    sym_block(m);
  }
  holder = sym_self();
  return 0;
}
int fk_pthread_mutex_unlock(pthread_mutex_t *m) {
  CHECK(m == the_mutex && initialised, "initialised");
  INJECT;
  if (holder != sym_self() && checked) return EPERM;
  CHECK(holder == sym_self(), "unlocked_by_its_holder");
  holder = -1;
  sym_wake(m);
  sym_yield();
  return 0;
}
int fk_clock_gettime(clockid_t c, struct timespec *t) {
  CHECK(c == CLOCK_REALTIME, "the_clock_of_timed_locks");
  *t = now;
  return 0;
}
}
static Mutex *mutex;
static int inside, entered, done_threads;
static void *worker(void *rounds) {
  for (long i = 0; i < (long)rounds; ++i) {
    bool have = true;
    switch (sym_pick(0, 2, "how")) {
    case 0: mutex->lock(); break;
    case 1: have = mutex->trylock(); break;
    default: { Duration d(1, 5); have = mutex->trylock(d); }
    }
    CHECK(have == (holder == sym_self()), "result_tells_who_holds_it");
    if (!have) continue;
    CHECK(inside == 0, "excludes");
    ++inside;
    ++entered;
    CHECK(mutex->locks() >= 1, "counts_the_holder");
    sym_yield();
    --inside;
    mutex->unlock();
  }
  ++done_threads;
  return 0;
}
HARNESS(exclusion) {
  now.tv_sec = 5;
  bool locked = sym_bool("created_locked");
  Dirty<Mutex> d;
  mutex = &d.make(locked);
  CHECK(attrs == 0 && (holder == sym_self()) == locked, "created_as_asked");
#ifdef SYMX_THOROUGH
  static const long rounds[] = {2, 2};
#else
  static const long rounds[] = {2, 1};
#endif
  const int n = 2;
  int id[2];
  for (int i = 0; i < n; ++i) id[i] = sym_thread_create(worker, (void *)rounds[i]);
  if (locked) {
    sym_yield();
    CHECK(entered == 0, "excludes_others_from_its_creation");
    mutex->unlock();
  }
  for (int i = 0; i < n; ++i) sym_join(id[i]);
  CHECK(done_threads == n && mutex->locks() == 0 && holder == -1, "free_in_the_end");
  d.kill();
  CHECK(!initialised, "destroyed");
}
HARNESS(counting_the_waiting) {
  Dirty<Mutex> d;
  mutex = &d.make();
  mutex->lock();
  int id = sym_thread_create([](void *) -> void * { mutex->lock(); mutex->unlock(); return 0; }, 0);
  sym_yield();
  unsigned n = mutex->locks();
  CHECK(n == 1 || n == 2, "holder_and_waiting");
  mutex->unlock();
  sym_join(id);
  CHECK(mutex->locks() == 0, "none_left");
}
HARNESS(waiting_times) {
  now.tv_sec = sym_range(0, 4000000000l, "now_seconds");
  now.tv_nsec = sym_range(0, G - 1, "now_nanoseconds");
  long ds = sym_range(0, 10000, "seconds"), dn = sym_range(0, G - 1, "nanoseconds");
  Dirty<Mutex> d;
  Mutex &m = d.make();
  Duration t(ds, dn);
  CHECK(m.trylock(t), "free");
  CHECK(holder == sym_self() && m.locks() == 1, "taken");
  long es = now.tv_sec + ds, en = now.tv_nsec + dn;
  if (en >= G) { en -= G; ++es; }
  CHECK(deadline.tv_sec == es && deadline.tv_nsec == en, "waits_until_then");
  CHECK(t.sec() == ds && t.nsec() == dn, "duration_untouched");
  m.unlock();
}
// one thread, no waiting: the counts and results of every history
HARNESS(alone) {
  Dirty<Mutex> d;
  bool mine = sym_bool("created_locked");
  Mutex &m = d.make(mine);
  for (int i = 0; i < 4; ++i) {
    CHECK(m.locks() == (mine ? 1u : 0u), "count");
    switch (sym_pick(0, 3, "op")) {
    case 0:
      if (mine && !checked) break; // waits for itself
      { bool thrown = false;
        try { m.lock(); } catch (const StandardException &e) { thrown = true; CHECK(e.flag() == UsageError, "deadlock_reported"); }
        CHECK(thrown == mine, "lock_result"); }
      mine = true;
      break;
    case 1: CHECK(m.trylock() == !mine, "trylock_result"); mine = true; break;
    case 2: {
      Duration t(0, 5);
      bool thrown = false, r = false;
      if (mine && !checked) { i = 4; break; } // (waits for itself)
      try { r = m.trylock(t); } catch (const StandardException &e) { thrown = true; CHECK(e.flag() == UsageError, "deadlock_reported"); }
      CHECK(thrown == mine && r == !mine, "timed_trylock_result");
      mine = true;
    } break;
    default:
      if (!mine && !checked) break;
      { bool thrown = false;
        try { m.unlock(); } catch (const StandardException &e) { thrown = true; CHECK(e.flag() == PermissionsError, "not_the_holder"); }
        CHECK(thrown == !mine, "unlock_result"); }
      mine = false;
    }
  }
  if (mine) m.unlock();
}
HARNESS(failures) {
  inject = sym_pick(1, 6, "fails_at");
  Dirty<Mutex> d;
  bool thrown = false;
  try {
    Mutex &m = d.make();
    if (injected) { CHECK(!checked, "failed_construction_reported"); return; } // release builds do not look
    int op = sym_pick(0, 3, "op");
    if (inject > 0) inject = op == 3 ? 2 : 1;
    unsigned before = m.locks();
    bool r = true;
    Duration t(0, 5);
    bool failing = inject > 0;
    try {
      switch (op) {
      case 0: m.lock(); break;
      case 1: r = m.trylock(); break;
      case 2: r = m.trylock(t); break;
      default: m.lock(); before = 1; m.unlock();
      }
    } catch (const StandardException &e) { r = false; CHECK(failing, "no_exception_without_a_failure"); }
    if (failing) {
      CHECK(m.locks() == before, "failures_are_not_counted");
      CHECK(op == 0 || op == 3 || !r, "failure_is_not_success");
    } else CHECK(r && m.locks() == (op == 3 ? 0u : 1u), "success");
    if (holder == sym_self()) { inject = 0; m.unlock(); }
  } catch (const StandardException &e) { thrown = true; CHECK(injected != 0, "construction_fails_only_if_a_call_fails"); }
}
