// Semaphores are one lock per name, wait as long as asked and are not let through by signals or failures.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_ipc/src/lib/semaphore_pos.cpp ecl_time/src/lib/timestamp_base.cpp ecl_time/src/lib/timestamp_pos.cpp
//@ default time=150
//@ entry waiting_times theory=int
//@ bound two users of one name in two threads, one taking the semaphore twice and the other once by any of lock, trylock and timed trylock, over every interleaving at system calls, with up to one wait interrupted; every history of 4 operations by one user; every clock reading and every timeout of up to 10000 s; every errno for opening and waiting
//@ assume the semaphore calls and clock_gettime behave as documented (stand-ins)
//@ outside users that unlock what they did not lock while another holds it; a name opened again after one of its users closed and thereby removed it; other processes
#include <symx.h>
#include <errno.h>
#include <fcntl.h>
#include <semaphore.h>
#include <stdarg.h>
#include <string.h>
#include <time.h>
#include <ecl/ipc/semaphore.hpp>
using namespace ecl;
static const long G = 1000000000L;
struct S { char name[16]; int value, opened; bool unlinked; };
static S sems[4];
static int nsem, interruptions, inject_open, inject_wait;
static struct timespec now, deadline;
static int waits;
static S *at(sem_t *s) {
  S *p = (S *)s;
  for (int i = 0; i < nsem; ++i) if (p == &sems[i] && p->opened > 0) return p;
  sym_fail("not_an_open_semaphore");
}
extern "C" {
sem_t *fk_sem_open(const char *name, int flags, ...) {
  if (inject_open) { errno = inject_open; return SEM_FAILED; }
  for (int i = 0; i < nsem; ++i)
    if (!sems[i].unlinked && strcmp(sems[i].name, name) == 0) {
      if (flags & O_EXCL) { errno = EEXIST; return SEM_FAILED; }
      ++sems[i].opened;
      return (sem_t *)&sems[i];
    }
  CHECK(flags & O_CREAT, "creates_it");
  va_list ap;
  va_start(ap, flags);
  mode_t mode = va_arg(ap, mode_t);
  unsigned value = va_arg(ap, unsigned);
  va_end(ap);
  CHECK(mode == (S_IRWXU | S_IRWXG | S_IRWXO), "permissions");
  S &s = sems[nsem++];
  strcpy(s.name, name);
  s.value = value;
  s.opened = 1;
  return (sem_t *)&s;
}
int fk_sem_close(sem_t *s) { --at(s)->opened; return 0; }
int fk_sem_unlink(const char *name) {
  for (int i = 0; i < nsem; ++i)
    if (!sems[i].unlinked && strcmp(sems[i].name, name) == 0) { sems[i].unlinked = true; return 0; }
  errno = ENOENT;
  return -1;
}
int fk_sem_getvalue(sem_t *s, int *v) { *v = at(s)->value; return 0; }
int fk_sem_post(sem_t *s) {
  S *p = at(s);
  ++p->value;
  CHECK(p->value <= 1, "never_more_than_one_free");
  sym_wake(p);
  sym_yield();
  return 0;
}
static int take(S *p, bool timed) {
  sym_yield();
  ++waits;
  if (inject_wait) { errno = inject_wait; inject_wait = 0; return -1; }
  while (p->value == 0) {
    if (timed && sym_bool("time_passes")) { errno = ETIMEDOUT; return -1; }
    if (interruptions > 0 && sym_bool("interrupted")) { --interruptions; errno = EINTR; return -1; }
    sym_block(p);
  }
  --p->value;
  return 0;
}
int fk_sem_wait(sem_t *s) { return take(at(s), false); }
int fk_sem_trywait(sem_t *s) {
  S *p = at(s);
  sym_yield();
  if (p->value == 0) { errno = EAGAIN; return -1; }
  --p->value;
  return 0;
}
int fk_sem_timedwait(sem_t *s, const struct timespec *t) { deadline = *t; return take(at(s), true); }
int fk_clock_gettime(clockid_t c, struct timespec *t) { CHECK(c == CLOCK_REALTIME, "the_clock_of_timed_waits"); *t = now; return 0; }
}
static Semaphore *users[2];
static int inside, entered, done;
static void *worker(void *p) {
  long rounds = p ? 1 : 2;
  Semaphore *s = users[p ? 1 : 0];
  for (int i = 0; i < rounds; ++i) {
    bool have = true;
    int how = sym_pick(0, 2, "how");
    try {
      switch (how) {
      case 0: s->lock(); break;
      case 1: have = s->trylock(); break;
      default: have = s->trylock(Duration(1, 5));
      }
    } catch (const StandardException &e) { have = false; CHECK(how == 2 && e.flag() == InterruptedError, "interruption_reported"); }
    if (!have) continue;
    CHECK(inside == 0, "excludes");
    ++inside;
    ++entered;
    sym_yield();
    CHECK(!users[p ? 0 : 1]->trylock(), "others_cannot_get_it");
    --inside;
    s->unlock();
  }
  ++done;
  return 0;
}
HARNESS(exclusion) {
  now.tv_sec = 5;
  interruptions = 1;
  Dirty<Semaphore> a, b;
  users[0] = &a.make(std::string("x"));
  users[1] = &b.make(std::string("x"));
  CHECK(nsem == 1 && strcmp(sems[0].name, "/x") == 0, "one_semaphore_per_name");
  int i = sym_thread_create(worker, 0), j = sym_thread_create(worker, (void *)1);
  sym_join(i);
  sym_join(j);
  CHECK(done == 2 && sems[0].value == 1, "free_in_the_end");
  a.kill();
  b.kill();
  CHECK(sems[0].opened == 0 && sems[0].unlinked, "cleaned_up");
}
HARNESS(names_are_independent) {
  now.tv_sec = 5;
  Dirty<Semaphore> a, b;
  Semaphore &x = a.make(std::string("x")), &y = b.make(std::string("y"));
  CHECK(x.trylock() && y.trylock(), "two_names_two_locks");
  CHECK(!x.trylock() && !y.trylock(), "both_taken");
  x.unlock();
  CHECK(!y.trylock() && x.trylock(), "unlocks_its_own");
}
HARNESS(alone) {
  now.tv_sec = 5;
  {
    Dirty<Semaphore> d;
    Semaphore &s = d.make(std::string("name"));
    bool taken = false;
    for (int i = 0; i < 4; ++i) {
      switch (sym_pick(0, 3, "op")) {
      case 0: if (taken) break; s.lock(); taken = true; break;
      case 1: CHECK(s.trylock() == !taken, "trylock_result"); taken = true; break;
      case 2: if (taken) break; CHECK(s.trylock(Duration(0, 7)), "timed_trylock_result"); taken = true; break;
      default: s.unlock(); taken = false; // also when it is not locked: stays free once
      }
      CHECK(sems[0].value == (taken ? 0 : 1), "one_or_none");
    }
  }
  CHECK(sems[0].opened == 0 && sems[0].unlinked, "cleaned_up");
}
HARNESS(waiting_times) {
  now.tv_sec = sym_range(0, 4000000000l, "now_seconds");
  now.tv_nsec = sym_range(0, G - 1, "now_nanoseconds");
  long ds = sym_range(0, 10000, "seconds"), dn = sym_range(0, G - 1, "nanoseconds");
  Dirty<Semaphore> d;
  Semaphore &s = d.make(std::string("x"));
  CHECK(s.trylock(Duration(ds, dn)), "free");
  long es = now.tv_sec + ds, en = now.tv_nsec + dn;
  if (en >= G) { en -= G; ++es; }
  CHECK(deadline.tv_sec == es && deadline.tv_nsec == en, "waits_until_then");
}
HARNESS(interrupted_or_failing_timed_waits) {
  Dirty<Semaphore> d;
  Semaphore &s = d.make(std::string("x"));
  int e = sym_i32("errno");
  ASSUME(e > 0 && e < 134);
  inject_wait = e;
  bool r = false;
  try { r = s.trylock(Duration(1, 0)); } catch (const StandardException &x) {
    CHECK(e != ETIMEDOUT, "timeouts_do_not_throw");
    CHECK(x.flag() == (e == EINTR ? InterruptedError : e == EINVAL ? InvalidArgError : e == EAGAIN ? BlockingError : UnknownError), "flag");
  }
  CHECK(!r && sems[0].value == 1, "not_taken");
}
HARNESS(interrupted_locks) {
  Dirty<Semaphore> d;
  Semaphore &s = d.make(std::string("x"));
  inject_wait = EINTR;
  s.lock();
  CHECK(sems[0].value == 0 && waits == 2, "keeps_waiting");
}
HARNESS(failing_to_open) {
  Dirty<Semaphore> d;
  int e = sym_i32("errno");
  ASSUME(e > 0 && e < 134);
  inject_open = e;
  S &other = sems[nsem++]; // somebody else's
  strcpy(other.name, "/x");
  other.value = 1;
  bool thrown = false;
  try { d.make(std::string("x")); } catch (const StandardException &x) {
    thrown = true;
    ErrorFlag f = UnknownError;
    switch (e) {
    case EACCES: case EEXIST: f = PermissionsError; break;
    case ENOENT: f = ConfigurationError; break;
    case ENOMEM: f = MemoryError; break;
    case EINVAL: case ENAMETOOLONG: f = InvalidArgError; break;
    case EMFILE: case ENFILE: f = OutOfResourcesError; break;
    }
    CHECK(x.flag() == f, "flag");
  }
#ifndef NDEBUG
  CHECK(thrown, "reported");
#endif
  d.kill();
  CHECK(!other.unlinked, "nothing_of_others_removed");
}
