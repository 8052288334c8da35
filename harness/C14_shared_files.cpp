// Shared files: one underlying file per name, closed with its last user; the registry never stays locked.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_devices/src/lib/detail/error_handler.cpp ecl_devices/src/lib/detail/exception_handler_pos.cpp ecl_devices/src/lib/ofile_pos.cpp ecl_devices/src/lib/shared_file.cpp ecl_devices/src/lib/detail/character_buffer.cpp ecl_threads/src/lib/mutex_pos.cpp
//@ default time=200
//@ bound every history of 4 (thorough: 5) operations, and of 3 (thorough: 4) with one failing system call of any errno and of 2 (thorough: 3) with two, by three users (construct by name, construct unopened, open, reopen, write 1..2 symbolic bytes, flush, destroy) over two names; separately the buffer boundaries: runs of 4094..4098 and 8191..8193 bytes written in one or several pieces
//@ assume the C library's streams behave as documented (stand-ins in harness/fs_model.hpp)
//@ outside implicit copies of a SharedFile; the order in which concurrent users' buffers reach the file (each flush is one fwrite)
#include "fs_model.hpp"
#include <pthread.h>
#include <ecl/devices/shared_file.hpp>
#include <ecl/devices/detail/error_handler.hpp>
using namespace ecl;
#ifdef SYMX_THOROUGH
static const int OPS = 4;
#else
static const int OPS = 3;
#endif
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif
static const int NM = 24;
static const void *locked[NM];
static int depth;
extern "C" {
int fk_pthread_mutexattr_init(pthread_mutexattr_t *) { return 0; }
int fk_pthread_mutexattr_settype(pthread_mutexattr_t *, int) { return 0; }
int fk_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
int fk_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *) { return 0; }
int fk_pthread_mutex_destroy(pthread_mutex_t *m) {
  for (int i = 0; i < NM; ++i) if (locked[i] == m) sym_fail("destroyed_while_locked");
  return 0;
}
int fk_pthread_mutex_lock(pthread_mutex_t *m) {
  for (int i = 0; i < NM; ++i) if (locked[i] == m) sym_fail("deadlock");
  for (int i = 0; i < NM; ++i) if (!locked[i]) { locked[i] = m; ++depth; return 0; }
  sym_fail("too_many_locks");
}
int fk_pthread_mutex_unlock(pthread_mutex_t *m) {
  for (int i = 0; i < NM; ++i) if (locked[i] == m) { locked[i] = 0; --depth; return 0; }
  sym_fail("unlock_without_lock");
}
}
static ErrorFlag as(Error (*f)()) { errno = fs::last_errno; return f().flag(); }
struct User {
  SharedFile *f = 0;
  int file = -1;       // registered under this name
  int n = 0;           // buffered bytes
  char buf[16];
};
static User u[3];
static int users(int file) { int n = 0; for (int i = 0; i < 3; ++i) n += u[i].f && u[i].file == file; return n; }
struct Ref { bool exists; int len; char data[64]; };
static Ref ref[2];
static void emit(User &x) {
  Ref &r = ref[x.file];
  for (int i = 0; i < x.n; ++i) r.data[r.len++] = x.buf[i];
  x.n = 0;
}
static void resync(int file) { // after an injected failure the file may hold less
  ref[file].exists = fs::files[file].exists;
  ref[file].len = (int)fs::files[file].len;
  for (int k = 0; k < ref[file].len && k < 64; ++k) ref[file].data[k] = fs::files[file].data[k];
}
static void leave(User &x) {
  if (x.file < 0) return;
  if (x.n) emit(x);
  x.file = -1;
}
static void compare() {
  for (int i = 0; i < 2; ++i) {
    CHECK(fs::files[i].exists == ref[i].exists, "exists");
    if (!ref[i].exists) continue;
    CHECK((int)fs::files[i].len == ref[i].len, "length");
    bool ok = true;
    for (int k = 0; k < ref[i].len && k < (int)fs::files[i].len; ++k) ok &= fs::files[i].data[k] == ref[i].data[k];
    CHECK(ok, "contents");
  }
}
static void joined(User &x, int file, WriteMode m) {
  if (users(file) == 0 && (m == New || !ref[file].exists)) { ref[file].exists = true; ref[file].len = 0; }
  x.file = file;
}
static void step() {
  static int seen; // users join in order: the others are symmetric
  int k = sym_pick(0, seen < 2 ? seen : 2, "user");
  if (k == seen) ++seen;
  User &x = u[k];
  bool threw = false;
  ErrorFlag flag = NoError;
  fs::failed = false;
  int old = x.file;
  if (!x.f) {
    int c = sym_pick(0, 2, "name"); // 2: not opened
    WriteMode m = c < 2 && sym_bool("append") ? Append : New;
    if (c == 2) { x.f = new SharedFile(); return; }
    try { x.f = new SharedFile(fs::paths[c], m); } catch (const StandardException &e) { threw = true; flag = e.flag(); }
    CHECK(threw == fs::failed, "constructor_throws");
    if (threw) { CHECK(flag == as(devices::open_error), "constructor_exception"); resync(c); }
    else joined(x, c, m);
  } else {
    int op = sym_pick(0, 3, "op");
    char b[2];
    sym_bytes(b, 2, "text");
    if (op == 0) {
      int c = sym_pick(0, 1, "name");
      WriteMode m = c && sym_bool("append") ? Append : New;
      bool r = false;
      leave(x);
      try { r = x.f->open(fs::paths[c], m); } catch (const StandardException &e) { threw = true; flag = e.flag(); }
      bool there = users(c) > 0;
      CHECK(threw || r, "open_result");
      if (threw) {
        CHECK(!there && fs::failed, "open_throws");
        CHECK(flag == as(devices::open_error), "open_exception");
        resync(c);
        if (old >= 0) resync(old);
      } else {
        if (fs::failed && old >= 0) { int other = old; joined(x, c, m); resync(other); }
        else joined(x, c, m);
      }
    } else if (op == 1 && x.file >= 0) {
      int n = sym_pick(1, 2, "n");
      long r = n == 1 && sym_bool("single") ? x.f->write(b[0]) : x.f->write(b, n);
      CHECK(r == n, "bytes_taken");
      for (int i = 0; i < n; ++i) x.buf[x.n++] = b[i];
    } else if (op == 2 && x.file >= 0) {
      bool r = false;
      try { r = x.f->flush(); } catch (const StandardException &e) { threw = true; flag = e.flag(); }
      CHECK(threw == (debug && fs::failed), "flush_throws");
      if (threw) CHECK(flag == WriteError, "flush_exception");
      else CHECK(r == !fs::failed, "flush_result");
      if (fs::failed) { resync(x.file); if (!debug) x.n = 0; }
      else emit(x);
      if (!threw) CHECK(x.f->error().flag() == (fs::failed ? WriteError : NoError), "error_after_flush");
    } else if (op == 3) {
      leave(x);
      delete x.f;
      x.f = 0;
      if (fs::failed && old >= 0) resync(old);
    }
  }
  CHECK(depth == 0, "registry_unlocked");
  int want = (users(0) > 0) + (users(1) > 0);
  CHECK(fs::open_fds() == want, "one_file_per_name");
  for (int i = 0; i < 3; ++i)
    if (u[i].f) {
      CHECK(u[i].f->open() == (u[i].file >= 0), "open_state");
      if (u[i].file >= 0) CHECK((int)u[i].f->count() == users(u[i].file), "count");
    }
  compare();
}
static void history(int ops, int faults) {
  long before = sym_live();
  fs::files[0].exists = ref[0].exists = true;
  fs::files[0].len = ref[0].len = 1;
  fs::files[0].data[0] = ref[0].data[0] = 'o';
  fs::budget = faults;
  for (int i = 0; i < ops; ++i) step();
  fs::budget = 0;
  for (int i = 0; i < 3; ++i)
    if (u[i].f) {
      leave(u[i]);
      delete u[i].f;
      u[i].f = 0;
    }
  CHECK(fs::open_fds() == 0, "nothing_left_open");
  compare();
  CHECK(sym_live() == before, "nothing_leaked");
}
HARNESS(histories) { history(OPS + 1, 0); }
HARNESS(faulty_histories) { history(OPS, 1); }
HARNESS(doubly_faulty_histories) { history(OPS - 1, 2); }
// Two sharers, an earlier failure on the file, and then the last user goes.
HARNESS(after_failure) {
  long before = sym_live();
  {
    SharedFile a("b", New);
    {
      SharedFile b("b", New);
      b.write("x", 1);
      fs::budget = 1;
      try { b.flush(); } catch (const StandardException &) {}
      fs::budget = 0;
      CHECK(a.count() == 2, "both_counted");
    }
    CHECK(a.count() == 1 && a.open(), "still_open_for_the_other");
    SharedFile c("b", New);
    CHECK(a.count() == 2 && c.count() == 2, "joined_again");
    CHECK(fs::open_fds() == 1, "one_file");
  }
  CHECK(fs::open_fds() == 0, "nothing_left_open");
  CHECK(sym_live() == before, "nothing_leaked");
}
// Bytes crossing the buffer boundary arrive complete and in order.
HARNESS(long_writes) {
  static char text[8200];
  for (int i = 0; i < 8200; ++i) text[i] = (char)(i * 7 + i / 256);
  static const int lens[] = {0, 1, 4094, 4095, 4096, 4097, 4098, 8191, 8192, 8193};
  int n = lens[sym_pick(0, 9, "total")];
  int first = lens[sym_pick(0, 5, "first")];
  ASSUME(first <= n);
  text[0] = (char)sym_u8("c");
  {
    SharedFile a("b", New);
    CHECK(a.write(text, first) == first, "first_piece");
    if (n - first == 1) CHECK(a.write(text[first]) == 1, "single");
    else CHECK(a.write(text + first, n - first) == n - first, "second_piece");
    CHECK(a.flush(), "flushed");
    CHECK((int)fs::files[1].len == n, "length");
    bool ok = true;
    for (int i = 0; i < n; ++i) ok &= fs::files[1].data[i] == text[i];
    CHECK(ok, "contents");
  }
  CHECK((int)fs::files[1].len == n, "length_after");
}
