// Output text streams: the device receives exactly the text of what is streamed, in order; failures show.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_formatters/src/lib/strings.cpp ecl_streams/src/lib/manipulators.cpp ecl_streams/src/lib/log_stream.cpp
//@ src ecl_devices/src/lib/string.cpp ecl_devices/src/lib/detail/error_handler.cpp ecl_devices/src/lib/detail/exception_handler_pos.cpp ecl_devices/src/lib/ofile_pos.cpp ecl_devices/src/lib/shared_file.cpp ecl_devices/src/lib/detail/character_buffer.cpp
//@ src ecl_threads/src/lib/mutex_pos.cpp ecl_time/src/lib/timestamp_base.cpp ecl_time/src/lib/timestamp_pos.cpp
//@ src ecl_devices/src/lib/serial_pos.cpp ecl_devices/src/lib/socket_client_pos.cpp ecl_devices/src/lib/socket_server_pos.cpp ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp ecl_time/src/lib/snooze_pos.cpp
//@ default time=150
//@ bound every sequence of 2 (thorough: 3) insertions of any type and any value (C strings up to 3 characters, strings with zero bytes) into a device that takes all, takes less or fails; floats whose text has 1 to 330 characters; string streams under 4 (thorough: 5) writes, reads and clears; log streams under 4 (thorough: 5) mode, header, stamp and logging operations; every convenience constructor with every failing system call
//@ assume snprintf with a floating point conversion as documented (stand-in: a text of arbitrary length); the text of integers is that of ecl::Converter (C01) and of timestamps that of C18
//@ outside concurrent use of one stream; the console streams' devices (C17)
#include "fs_model.hpp"
#include <pthread.h>
#include <string>
#include <sys/socket.h>
#include <netdb.h>
#include <unistd.h>
#include <termios.h>
#include <time.h>
#include <sys/file.h>
#include <ecl/streams/text_stream.hpp>
#include <ecl/streams/string_stream.hpp>
#include <ecl/streams/file_streams.hpp>
#include <ecl/streams/shared_file_stream.hpp>
#include <ecl/streams/serial_stream.hpp>
#include <ecl/streams/socket_streams.hpp>
#include <ecl/streams/log_stream.hpp>
#include <ecl/streams/manipulators.hpp>
#include <ecl/converters/char_strings.hpp>
#include <ecl/formatters.hpp>
using namespace ecl;
#ifdef SYMX_THOROUGH
static const int OPS = 3;
#else
static const int OPS = 2;
#endif
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif
extern "C" {
int fk_pthread_mutexattr_init(pthread_mutexattr_t *) { return 0; }
int fk_pthread_mutexattr_settype(pthread_mutexattr_t *, int) { return 0; }
int fk_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
int fk_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *) { return 0; }
int fk_pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int fk_pthread_mutex_lock(pthread_mutex_t *) { return 0; }
int fk_pthread_mutex_unlock(pthread_mutex_t *) { return 0; }
}

// ------------------------------------------------ a device of our own
static char got[1400];
static int ngot, nflush, mode;     // mode: 0 takes all, 1 fails, 2 takes less
static bool is_open = true;
static const int CAP = sizeof got;
class Dev {
public:
  bool open() { return is_open; }
  long take(const char *s, unsigned long n) {
    CHECK(is_open || !debug, "nothing reaches a device that is not open");
    if (mode == 1) return -1;
    unsigned long k = mode == 2 && n > 0 ? n - 1 : n;
    CHECK(ngot + k <= (unsigned long)CAP, "no more is written than was streamed");
    for (unsigned long i = 0; i < k; ++i) got[ngot++] = s[i];
    return (long)k;
  }
  long write(const char &c) { return take(&c, 1); }
  long write(const char *s, unsigned long n) { return take(s, n); }
  void flush() { ++nflush; }
};
namespace ecl {
template <> class is_sink<Dev> : public True {};
}
typedef TextStream<Dev> Out;

static char want[1400];
static int nwant, wflush;
static void expect(const char *s, int n) {
  for (int i = 0; i < n; ++i) want[nwant++] = s[i];
}
static void expect(const char *s) { expect(s, (int)strlen(s)); }
static void compare() {
  CHECK(ngot == nwant, "as many characters arrive as were streamed");
  bool ok = true;
  for (int i = 0; i < ngot && i < nwant; ++i) ok &= got[i] == want[i];
  CHECK(ok, "the characters arrive as streamed and in order");
  CHECK(nflush == wflush, "flushed exactly when asked");
}

static bool text_armed;
static int text_len;
static double given;
static char text[400];
extern "C" int fk_snprintf(char *o, size_t n, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int i = 1;
  bool exact = false;
  if (f[i] == '.') {
    ++i;
    if (f[i] == '*') { exact = va_arg(ap, int) == 6; ++i; }
    else if (f[i] == '6') { exact = true; ++i; }
  } else exact = true;
  CHECK(text_armed && f[0] == '%' && exact && f[i] == 'f' && f[i + 1] == 0, "floats are printed in plain decimal notation");
  double x = va_arg(ap, double);
  va_end(ap);
  unsigned long a, b;
  memcpy(&a, &x, 8);
  memcpy(&b, &given, 8);
  CHECK(a == b, "the value printed is the one streamed");
  for (size_t j = 0; j < n; ++j) {
    o[j] = j + 1 < n && j < (size_t)text_len ? text[j] : 0;
    if ((int)j == text_len) break;
  }
  return text_len;
}
static void arm(double v, int len) {
  given = v;
  text_armed = true;
  text_len = len;
  for (int i = 0; i < len; ++i) text[i] = '0' + i % 10;
}
template <class N> static void number(Out &s, N v) {
  static Converter<char *> conv;
  expect(conv(v));
  s << v;
}
static void insert(Out &s, int op) {
  char c[4];
  switch (op) {
  case 0: c[0] = (char)sym_u8("c"); expect(c, 1); s << c[0]; break;
  case 1: {
    sym_bytes(c, 3, "cstring");
    c[3] = 0;
    expect(c, (int)strlen(c));
    s << c;
    break;
  }
  case 2: {
    int n = sym_pick(0, 3, "length");
    sym_bytes(c, 3, "string");
    expect(c, n);
    s << std::string(c, n);
    break;
  }
  case 3: number<short>(s, (short)sym_u16("v")); break;
  case 4: number<unsigned short>(s, sym_u16("v")); break;
  case 5: number<int>(s, sym_i32("v")); break;
  case 6: number<unsigned int>(s, sym_u32("v")); break;
  case 7: { bool b = sym_bool("b"); expect(b ? "true" : "false"); s << b; break; }
  case 8: { float f = sym_f32("f"); ASSUME(f == f); arm(f, 5); expect(text, 5); s << f; break; }
  case 9: { double f = sym_f64("f"); ASSUME(f == f); arm(f, 5); expect(text, 5); s << f; break; }
  case 10: expect("\n"); ++wflush; s << ecl::endl; break;
  case 11: for (int i = 0; i < 80; ++i) expect("\n"); s << ecl::clrscr; break;
  default: s.flush(); ++wflush;
  }
}
static void history(int lo, int hi) {
  Out s;
  CHECK(!s.fail(), "a new stream has not failed");
  insert(s, sym_pick(lo, hi, "op"));
  CHECK(!s.fail() && s.errorStatus().flag() == NoError, "streaming to a sound device does not fail");
  for (int i = 1; i < OPS; ++i) insert(s, sym_pick(0, 12, "op"));
  CHECK(!s.fail(), "streaming to a sound device does not fail");
  compare();
}
HARNESS(texts_first) { history(0, 2); }
HARNESS(shorts_first) { history(3, 4); }
HARNESS(ints_first) { history(5, 6); }
HARNESS(others_first) { history(7, 12); }
HARNESS(longs) {
  Out s;
  switch (sym_pick(0, 3, "type")) {
  case 0: number<long>(s, (long)sym_u64("v")); break;
  case 1: number<unsigned long>(s, sym_u64("v")); break;
  case 2: number<long long>(s, (long long)sym_u64("v")); break;
  default: number<unsigned long long>(s, sym_u64("v"));
  }
  compare();
}
HARNESS(any_float) {
  static const int lens[] = {1, 8, 27, 28, 29, 30, 47, 248, 249, 250, 310, 317};
  int n = lens[sym_pick(0, 11, "length")];
  Out s;
  if (sym_pick(0, 1, "double")) { double d = sym_f64("f"); ASSUME(d == d); arm(d, n); expect(text, n); s << d; }
  else { float d = sym_f32("f"); ASSUME(d == d); arm(d, n); expect(text, n); s << d; }
  compare();
}
HARNESS(converted_floats) {
  static const int lens[] = {1, 28, 248, 249, 250, 317};
  int n = lens[sym_pick(0, 5, "length")];
  const char *r;
  double d = sym_f64("f");
  float f = sym_f32("f");
  ASSUME(d == d && f == f);
  Converter<char *> all;
  Converter<char *, double> cd;
  Converter<char *, float> cf;
  switch (sym_pick(0, 3, "which")) {
  case 0: arm(d, n); r = all(d); break;
  case 1: arm(f, n); r = all(f); break;
  case 2: arm(d, n); r = cd(d); break;
  default: arm(f, n); r = cf(f);
  }
  bool ok = (int)strlen(r) == n;
  for (int i = 0; ok && i < n; ++i) ok &= r[i] == text[i];
  CHECK(ok, "the text of a float is complete");
}
HARNESS(failures) {
  Out s;
  int before = sym_pick(0, 1, "before");
  if (before) insert(s, 0);
  mode = sym_pick(1, 2, "how");
  int op = sym_pick(0, 9, "op");
  insert(s, op);
  bool short_text = nwant - before == 0;
  if (short_text) return;
  CHECK(s.fail(), "a refused or shortened write shows in fail()");
  CHECK(s.errorStatus().flag() == WriteError, "it is a write error");
}
HARNESS(not_open) {
  Out s;
  is_open = false;
  mode = 1;
  bool threw = false;
  int op = sym_pick(0, 12, "op");
  try {
    insert(s, op);
  } catch (const StandardException &e) {
    threw = true;
    CHECK(e.flag() == OpenError, "a device that is not open is an open error");
  }
  CHECK(threw == debug, "debug builds refuse to stream to a device that is not open");
  CHECK(ngot == 0, "nothing is written");
}
HARNESS(formatted) {
  Out s;
  int v = sym_i32("v");
  Format<int> f(14, RightAlign, Hex);
  Format<std::string> g(5, LeftAlign);
  s << f(v);
  s << "," << g("ab") << ",";
  char t[40];
  memset(t, ' ', sizeof t);
  t[4] = '0';
  t[5] = 'x';
  for (int i = 0; i < 8; ++i) { int d = (v >> (28 - 4 * i)) & 15; t[6 + i] = d < 10 ? '0' + d : 'a' + d - 10; }
  expect(t, 14);
  expect(",ab   ,");
  compare();
}

// -------------------------------------------------------- string streams
HARNESS(string_streams) {
  StringStream s;
  char ref[40];
  int n = 0, rd = 0;
  for (int i = 0; i < OPS + 2; ++i) {
    char c[3];
    sym_bytes(c, 3, "text");
    switch (sym_pick(0, 4, "op")) {
    case 0: s << c[0]; ref[n++] = c[0]; break;
    case 1: s << std::string(c, 3); for (int k = 0; k < 3; ++k) ref[n++] = c[k]; break;
    case 2: s << -12; ref[n++] = '-', ref[n++] = '1', ref[n++] = '2'; break;
    case 3: s.clear(); n = rd = 0; break;
    default: {
      char x = 7;
      s.enableRawCharReads();
      s >> x;
      CHECK(s.fail() == (rd == n), "reading past the end fails");
      if (rd < n) { CHECK(x == ref[rd], "characters are read in order"); ++rd; }
    }
    }
    CHECK((int)s.device().remaining() == n - rd, "what is left to read");
    std::string t = s.str();
    CHECK((int)t.size() == n, "the string holds everything streamed");
    bool ok = true;
    for (int k = 0; k < n; ++k) ok &= t[k] == ref[k];
    CHECK(ok, "the string holds everything streamed in order");
    const char *p = s.c_str();
    ok = p[n] == 0;
    for (int k = 0; k < n; ++k) ok &= p[k] == ref[k];
    CHECK(ok, "the C string is the same and terminated");
  }
}

// ----------------------------------------------------------- log streams
static long secs;
extern "C" int fk_clock_gettime(clockid_t, struct timespec *t) {
  t->tv_sec = ++secs;
  t->tv_nsec = 5;
  return 0;
}
static void log_history(bool raii) {
  static const char *const heads[] = {"W", "ERR"};
  long leak = sym_live();
  {
    Dirty<LogStream> d;
    LogStream *p;
    if (raii) p = &d.make(fs::paths[0], New);
    else { p = &d.make0(); p->device().open(fs::paths[0], New); }
    LogStream &s = *p;
    bool header = true, stamp = true, on[2] = {false, false};
    int head[2] = {0, 0};
    for (int i = 0; i < OPS + 2; ++i) {
      int m = sym_pick(0, 1, "mode"), o = sym_pick(0, 4, "op"), x;
      switch (o) {
      case 0: if (m) s.enableHeader(); else s.disableHeader(); header = m; break;
      case 1: if (m) s.enableTimeStamp(); else s.disableTimeStamp(); stamp = m; break;
      case 2: x = sym_pick(0, 1, "head"); s.enableMode(m, heads[x]); on[m] = true; head[m] = x; break;
      case 3: s.disableMode(m); on[m] = false; break;
      default:
        LOG(s, m) << "m" << 1;
        if (on[m]) {
          char t[3] = {(char)('0' + secs % 10), 0, 0};
          if (stamp) { expect(t); expect(".000000005 "); }
          if (header) { expect("["); expect(heads[head[m]]); expect("] "); }
          if (stamp || header) expect(": ");
          expect("m1");
        }
      }
      CHECK(s.isEnabled() == (on[0] || on[1]), "whether any mode is enabled");
      CHECK(s.isModeEnabled(0) == on[0] && s.isModeEnabled(1) == on[1], "which modes are enabled");
      CHECK(!s.fail(), "logging to a sound file does not fail");
    }
    if (sym_pick(0, 1, "flush")) {
      FLUSH(s);
      if (on[0] || on[1]) CHECK((int)fs::files[0].len == nwant, "flushed messages are in the file");
    }
  }
  CHECK((int)fs::files[0].len == nwant, "the file holds every enabled message, complete");
  bool ok = true;
  for (int i = 0; i < nwant && i < (int)fs::files[0].len; ++i) ok &= fs::files[0].data[i] == want[i];
  CHECK(ok, "messages carry the stamp and header asked for, in order");
  CHECK(fs::open_fds() == 0, "the file is closed");
  CHECK(sym_live() == leak, "nothing is leaked");
}
HARNESS(log_streams) { log_history(true); }
HARNESS(log_streams_opened_later) { log_history(false); }

// ---------------------------------------------- convenience constructors
extern "C" {
int fk_socket(int, int, int) { errno = EACCES; return -1; }
struct hostent *fk_gethostbyname(const char *) { h_errno = HOST_NOT_FOUND; return 0; }
}
template <class S, class... A> static void construct(bool can_work, A... a) {
  long leak = sym_live();
  bool threw = false;
  {
    Dirty<S> d;
    try {
      S &s = d.make(a...);
      fs::budget = 0; // only the opening may fail
      bool ok = can_work && !fs::failed;
      CHECK(s.fail() == !ok, "a stream that could not be opened has failed");
      CHECK(s.device().open() == ok, "the device is open when the constructor succeeds");
      if (ok) {
        s << "dude";
        CHECK(!s.fail(), "an opened stream can be used");
      } else {
        CHECK(s.errorStatus().flag() != NoError, "the failure is reported");
      }
    } catch (const StandardException &e) {
      threw = true;
      fs::budget = 0;
      CHECK(e.flag() != NoError, "the failure is reported");
    }
  }
  if (threw) CHECK(!can_work || fs::failed, "only failures are thrown");
  if (debug && (!can_work || fs::failed)) CHECK(threw, "failures are thrown in debug builds");
  CHECK(fs::open_fds() == 0, "nothing is left open");
  if (!threw) CHECK(sym_live() == leak, "nothing is leaked");
}
HARNESS(file_stream) {
  fs::budget = 1;
  WriteMode m = sym_pick(0, 1, "append") ? Append : New;
  bool bad = sym_pick(0, 1, "fails");
  if (!bad) fs::budget = 0;
  int which = sym_pick(0, 2, "which");
  if (which == 0) construct<OFileStream>(true, fs::paths[0], m);
  else if (which == 1) construct<SharedFileStream>(true, fs::paths[0], m);
  else construct<LogStream>(true, fs::paths[0], m);
}
HARNESS(serial_stream) {
  fs::budget = 0;
  fs::files[0].exists = false; // open fails: no such file
  construct<SerialStream>(false, fs::paths[0]);
}
HARNESS(socket_streams) {
  if (sym_pick(0, 1, "server")) construct<SocketServerStream>(false, 2000u);
  else construct<SocketClientStream>(false, "nowhere", 2000u);
}
