// Output files: what was written is what is in the file; failures are reported; nothing leaks.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_devices/src/lib/detail/error_handler.cpp ecl_devices/src/lib/detail/exception_handler_pos.cpp ecl_devices/src/lib/ofile_pos.cpp
//@ default time=150
//@ bound every history of 3 (thorough: 4) operations (open new / append / reopen, write a character, string or byte container of 0..2 symbolic bytes, flush, close) over two files, one of them with earlier contents, with up to one (thorough: two) system call failing with any errno
//@ assume the C library's streams behave as documented (stand-ins in harness/fs_model.hpp); a stream is gone after fclose even if that fails
#include "fs_model.hpp"
#include <vector>
#include <ecl/devices/ofile.hpp>
#include <ecl/devices/detail/error_handler.hpp>
using namespace ecl;
#ifdef SYMX_THOROUGH
static const int OPS = 4, FAULTS = 2;
#else
static const int OPS = 3, FAULTS = 1;
#endif
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif
struct Ref { bool exists; int len; char data[16]; };
static Ref ref[2];
static void compare(const char *id) {
  for (int i = 0; i < 2; ++i) {
    CHECK(fs::files[i].exists == ref[i].exists, id);
    if (!ref[i].exists) continue;
    CHECK((int)fs::files[i].len == ref[i].len, id);
    bool ok = true;
    for (int k = 0; k < ref[i].len && k < (int)fs::files[i].len; ++k) ok &= fs::files[i].data[k] == ref[i].data[k];
    CHECK(ok, id);
  }
}
static ErrorFlag as(Error (*f)()) { errno = fs::last_errno; return f().flag(); }
struct Track {
  bool open = false;
  int file = 0;
  void opened(int f, WriteMode m) {
    if (!ref[f].exists || m == New) ref[f].len = 0;
    ref[f].exists = true;
    file = f;
    open = true;
  }
  void put(const char *s, int n) { for (int i = 0; i < n; ++i) ref[file].data[ref[file].len++] = s[i]; }
};
// Where an open fails the file may have been created or emptied by the call that did work.
static void sync_from(int f) {
  ref[f].exists = fs::files[f].exists;
  if ((int)fs::files[f].len <= ref[f].len) ref[f].len = (int)fs::files[f].len;
}
static void setup() {
  fs::files[0].exists = ref[0].exists = true;
  fs::files[0].len = ref[0].len = 2;
  for (int i = 0; i < 2; ++i) fs::files[0].data[i] = ref[0].data[i] = (char)sym_u8("old");
  fs::budget = FAULTS;
}
template <class F> static void writing(OFile &f, Track &t, const char *buf, int n, F op) {
  fs::failed = false;
  bool threw = false;
  ErrorFlag flag = NoError;
  long r = -7;
  unsigned long before = t.open ? fs::files[t.file].len : 0;
  try { r = op(); } catch (const StandardException &e) { threw = true; flag = e.flag(); }
  bool ok = t.open && !fs::failed;
  CHECK(threw == (debug && !ok), "write_throws");
  ErrorFlag want = !t.open ? OpenError : WriteError;
  if (threw) CHECK(flag == want, "write_exception");
  if (ok) {
    CHECK(r == n, "bytes_written");
    CHECK(f.error().flag() == NoError, "no_error");
    t.put(buf, n);
  } else if (!debug) {
    CHECK(r == -1, "write_failure_reported");
    CHECK(f.error().flag() == want, "write_error");
  }
  if (t.open && fs::failed) { // part of it may be there
    for (unsigned long k = before; k < fs::files[t.file].len && (int)k < 16; ++k) ref[t.file].data[k] = fs::files[t.file].data[k];
    ref[t.file].len = (int)fs::files[t.file].len;
  }
}
static void step(OFile &f, Track &t) {
  int op = sym_pick(0, 6, "op");
  fs::failed = false;
  bool threw = false;
  ErrorFlag flag = NoError;
  char buf[2];
  sym_bytes(buf, 2, "text");
  switch (op) {
  case 0: case 1: {
    int file = sym_pick(0, 1, "file");
    WriteMode m = op == 0 ? New : Append;
    bool r = false;
    t.open = false;
    try { r = f.open(fs::paths[file], m); } catch (const StandardException &e) { threw = true; flag = e.flag(); }
    CHECK(threw || r, "open_result");
    if (threw) {
      CHECK(fs::failed, "open_failed_for_a_reason");
      CHECK(flag == as(devices::open_error), "open_exception");
      sync_from(file);
    } else {
      t.opened(file, m);
      CHECK(f.error().flag() == NoError, "no_error");
    }
    CHECK(f.filename() == fs::paths[file], "filename");
    break;
  }
  case 2: writing(f, t, buf, 1, [&] { return f.write(buf[0]); }); break;
  case 3: { int n = sym_pick(0, 2, "n"); writing(f, t, buf, n, [&] { return f.write(buf, n); }); break; }
  case 4: {
    int n = sym_pick(0, 2, "n");
    std::vector<char> v(buf, buf + n);
    writing(f, t, buf, n, [&] { return f.write(v); });
    break;
  }
  case 5: {
    if (!t.open) break;
    bool r = false;
    try { r = f.flush(); } catch (const StandardException &e) { threw = true; flag = e.flag(); }
    CHECK(threw == (debug && fs::failed), "flush_throws");
    if (!threw) {
      CHECK(r == !fs::failed, "flush_result");
      CHECK(f.error().flag() == (r ? NoError : UnknownError), "flush_error");
    }
    break;
  }
  default: {
    bool r = false;
    try { r = f.close(); } catch (const StandardException &e) { threw = true; flag = e.flag(); }
    CHECK(threw == fs::failed, "close_throws");
    if (threw) CHECK(flag == as(devices::close_error), "close_exception");
    else CHECK(r && f.error().flag() == NoError, "close_result");
    t.open = false;
  }
  }
  compare("contents");
  CHECK(f.open() == t.open, "open_state");
  CHECK(fs::open_fds() == (t.open ? 1 : 0), "descriptors_open");
}
HARNESS(history) {
  setup();
  {
    Dirty<OFile> d;
    OFile &f = d.make0();
    CHECK(!f.open(), "starts_closed");
    Track t;
    for (int i = 0; i < OPS; ++i) step(f, t);
  }
  CHECK(fs::open_fds() == 0, "nothing_left_open");
  compare("contents_at_the_end");
}
HARNESS(raii) {
  setup();
  int file = sym_pick(0, 1, "file");
  WriteMode m = sym_bool("append") ? Append : New;
  bool threw = false;
  ErrorFlag flag = NoError;
  try {
    Track t;
    Dirty<OFile> d;
    OFile &f = d.make(std::string(fs::paths[file]), m);
    t.opened(file, m);
    CHECK(f.open(), "is_open");
    step(f, t);
  } catch (const StandardException &e) { threw = true; flag = e.flag(); }
  if (threw) {
    CHECK(fs::failed && flag == as(devices::open_error), "constructor_exception");
    sync_from(file);
  }
  CHECK(fs::open_fds() == 0, "nothing_left_open");
  compare("contents_at_the_end");
}
