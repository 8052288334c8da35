// Serial devices: configuration, exclusive lock, faithful transfers, read timeouts, no leaked descriptors.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_devices/src/lib/detail/error_handler.cpp ecl_devices/src/lib/detail/exception_handler_pos.cpp ecl_devices/src/lib/serial_pos.cpp ecl_time/src/lib/snooze_pos.cpp ecl_time/src/lib/timestamp_pos.cpp ecl_time/src/lib/timestamp_base.cpp
//@ default time=150
//@ bound every combination of the parameter enumerations; every system call during opening failing with any errno; histories of 3 (thorough: 4) operations (open, close, read, write, block, unblock, status) with any kernel result; blocking reads with every timeout up to 99 ms and data arriving at any poll (every timeout from 100 ms to 10^9 ms for the termios setting)
//@ assume termios, fcntl, read and write behave as documented (stand-ins); the clock is the model's, code between calls takes no time
//@ outside real serial lines; devices that ignore their termios settings
#include <symx.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <ecl/devices/serial.hpp>
#include <ecl/devices/detail/error_handler.hpp>
using namespace ecl;
#ifdef SYMX_THOROUGH
static const int OPS = 4;
#else
static const int OPS = 3;
#endif
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif
static const int FD = 50;
static int opened, open_now, next_fd;
static bool fd_open[8];
static bool faults, failed;
static int last_errno;
static int flags_now;           // status flags after the last F_SETFL
static bool lock_tried, lock_whole, lock_held;
static termios set_to;
static int sets;
static bool flushed;
static speed_t speed;
static bool present = true;
static long long now_ns;
static bool fault(const char *n) {
  if (!faults || failed || !sym_bool(n)) return false;
  failed = true;
  int e = sym_i32("errno");
  ASSUME(e > 0 && e < 134);
  errno = last_errno = e;
  return true;
}
static void valid(int fd) { CHECK(fd >= FD && fd < FD + next_fd && fd_open[fd - FD], "descriptor_is_open"); }
// results of the transfers
static int n_calls, arrives_at; // poll at which data is there (-1: this call decides symbolically)
static long result;
static const void *buf_p;
static size_t buf_n;
static unsigned char incoming[4];
extern "C" {
int fk_open(const char *p, int flags, ...) {
  CHECK((flags & O_ACCMODE) == O_RDWR, "opened_read_write");
  CHECK(flags & O_NOCTTY, "not_the_controlling_terminal");
  CHECK(p[0] == 't', "device_name");
  if (fault("open_fails")) return -1;
  flags_now = flags;
  fd_open[next_fd] = true;
  lock_tried = lock_held = false;
  ++open_now;
  return FD + next_fd++;
}
int fk_close(int fd) {
  valid(fd);
  fd_open[fd - FD] = false;
  --open_now;
  return 0;
}
int fk_fcntl(int fd, int cmd, ...) {
  valid(fd);
  va_list ap;
  va_start(ap, cmd);
  if (cmd == F_SETFL) flags_now = va_arg(ap, int);
  else if (cmd == F_SETLK) {
    struct flock *l = va_arg(ap, struct flock *);
    lock_tried = true;
    lock_whole = l->l_type == F_WRLCK && l->l_whence == SEEK_SET && l->l_start == 0 && l->l_len == 0;
    if (fault("lock_fails")) { va_end(ap); return -1; }
    lock_held = true;
  } else sym_fail("unexpected_fcntl");
  va_end(ap);
  return 0;
}
int fk_cfsetspeed(struct termios *t, speed_t s) {
  if (fault("cfsetspeed_fails")) return -1;
  speed = s;
  t->c_ispeed = t->c_ospeed = s;
  return 0;
}
int fk_tcsetattr(int fd, int, const struct termios *t) { valid(fd); set_to = *t; ++sets; return 0; }
int fk_tcflush(int fd, int what) { valid(fd); if (what == TCIOFLUSH) flushed = true; return 0; }
int fk_access(const char *, int) { return present ? 0 : -1; }
int fk_getpid() { return 7; }
static ssize_t transfer(int fd, const void *p, size_t n) {
  valid(fd);
  buf_p = p;
  buf_n = n;
  int call = n_calls++;
  if (arrives_at >= 0) return call == arrives_at ? result : 0;
  if (fault("transfer_fails")) return -1;
  return result;
}
ssize_t fk_read(int fd, void *p, size_t n) {
  ssize_t r = transfer(fd, p, n);
  for (ssize_t i = 0; i < r; ++i) ((unsigned char *)p)[i] = incoming[i];
  return r;
}
ssize_t fk_write(int fd, const void *p, size_t n) { return transfer(fd, p, n); }
int fk_ioctl(int fd, unsigned long what, ...) {
  valid(fd);
  CHECK(what == FIONREAD, "asks_for_the_number_of_bytes");
  va_list ap;
  va_start(ap, what);
  int *p = va_arg(ap, int *);
  va_end(ap);
  *p = (int)result; // the kernel stores an int
  return 0;
}
int fk_clock_gettime(clockid_t, struct timespec *t) { t->tv_sec = now_ns / 1000000000; t->tv_nsec = now_ns % 1000000000; return 0; }
int fk_clock_nanosleep(clockid_t, int flags, const struct timespec *t, struct timespec *) {
  long long w = t->tv_sec * 1000000000LL + t->tv_nsec;
  CHECK(t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "valid_sleep");
  if (flags & TIMER_ABSTIME) { if (w > now_ns) now_ns = w; }
  else now_ns += w;
  return 0;
}
}
static ErrorFlag as(Error (*f)()) { errno = last_errno; return f().flag(); }
static const speed_t speeds[] = {B110, B300, B600, B1200, B2400, B4800, B9600, B19200, B38400, B57600, B115200, B230400, B460800, B921600};
static const tcflag_t sizes[] = {CS5, CS6, CS7, CS8};
static void configured(BaudRate b, DataBits d, StopBits s, Parity p) {
  CHECK(lock_tried && lock_whole && lock_held, "locked_for_this_process");
  CHECK(!(flags_now & O_NONBLOCK), "blocking_descriptor");
  CHECK(flushed, "buffers_cleared");
  CHECK(sets > 0, "settings_applied");
  CHECK(speed == speeds[b] && set_to.c_ospeed == speeds[b], "baud_rate");
  tcflag_t c = set_to.c_cflag;
  CHECK((c & CSIZE) == sizes[d], "data_bits");
  CHECK(!!(c & CSTOPB) == (s == StopBits_2), "stop_bits");
  CHECK(!!(c & PARENB) == (p != NoParity), "parity_enabled");
  if (p != NoParity) CHECK(!!(c & PARODD) == (p == OddParity), "parity_kind");
  CHECK((c & CREAD) && (c & CLOCAL), "receiver_enabled");
  CHECK(!(c & CRTSCTS) && !(set_to.c_iflag & (IXON | IXOFF | IXANY)), "no_flow_control");
  CHECK(!(set_to.c_lflag & (ICANON | ECHO | ECHOE | ISIG)) && !(set_to.c_oflag & OPOST), "raw");
  CHECK(set_to.c_cc[VMIN] == 0 && set_to.c_cc[VTIME] == 50, "waits_five_seconds");
}
HARNESS(opening) {
  faults = true;
  BaudRate b = (BaudRate)sym_pick(0, 13, "baud");
  DataBits d = (DataBits)sym_pick(0, 3, "data");
  StopBits s = (StopBits)sym_pick(0, 2, "stop");
  Parity p = (Parity)sym_pick(0, 2, "parity");
  bool raii = sym_bool("raii"), threw = false;
  ErrorFlag flag = NoError;
  {
    Dirty<Serial> m;
    try {
      Serial &x = raii ? m.make("tty", b, d, s, p) : m.make0();
      bool r = true;
      if (!raii) { CHECK(!x.open(), "starts_closed"); r = x.open("tty", b, d, s, p); }
      CHECK(r && x.open(), "opened");
      CHECK(open_now == 1, "one_descriptor");
      configured(b, d, s, p);
      CHECK(x.error().flag() == NoError, "no_error");
    } catch (const StandardException &e) {
      threw = true;
      flag = e.flag();
      if (!raii) CHECK(!m.get().open(), "not_open_after_failure");
    }
    CHECK(threw == (failed || s == StopBits_15), "throws_exactly_when_it_fails");
    if (threw) {
      CHECK(open_now == 0, "nothing_left_open_after_failure");
      ErrorFlag want = s == StopBits_15 ? ConfigurationError : next_fd == 0 ? as(devices::open_error) : lock_tried && !lock_held ? OpenError : ConfigurationError;
      CHECK(flag == want, "exception_flag");
    }
  }
  CHECK(open_now == 0, "nothing_left_open");
}
HARNESS(unsupported_rate) {
  Serial x;
  bool threw = false;
  try { x.open("tty", (BaudRate)14); } catch (const StandardException &e) { threw = e.flag() == ConfigurationError; }
  CHECK(threw && !x.open() && open_now == 0, "refused");
}
template <class F> static void moving(Serial &x, bool open, bool reading, const void *p, size_t n, F op) {
  bool threw = false;
  ErrorFlag flag = NoError;
  long r = -9;
  failed = false;
  n_calls = 0;
  arrives_at = -1;
  result = sym_pick(0, (int)n, "moved");
  try { r = op(); } catch (const StandardException &e) { threw = true; flag = e.flag(); }
  bool ok = open && !failed;
  ErrorFlag want = !open ? OpenError : as(reading ? devices::read_error : devices::write_error);
  if (!ok) {
    CHECK(threw == debug, "failure_throws_in_debug_builds");
    if (threw) CHECK(flag == want, "exception_flag");
    else CHECK(r == -1 && x.error().flag() == want, "failure_reported");
  } else {
    CHECK(!threw && r == result, "count_reported");
    CHECK(x.error().flag() == NoError, "no_error");
    CHECK(n_calls == 1 && buf_p == p && buf_n == n, "passes_the_buffer_on");
  }
}
HARNESS(history) {
  {
    Dirty<Serial> m;
    Serial &x = m.make0();
    bool open = false;
    for (int i = 0; i < OPS; ++i) {
      faults = true;
      failed = false;
      unsigned char b[2];
      switch (sym_pick(0, 8, "op")) {
      case 0: {
        bool threw = false;
        try { x.open("tty"); } catch (const StandardException &) { threw = true; }
        CHECK(threw == failed, "open_throws");
        open = !threw;
        if (open) configured(BaudRate_115200, DataBits_8, StopBits_1, NoParity);
        break;
      }
      case 1: x.close(); open = false; break;
      case 2: moving(x, open, true, b, 1, [&] { return x.read(b[0]); }); break;
      case 3: moving(x, open, true, b, 2, [&] { return x.read(b, 2); }); break;
      case 4: { char c = 'q'; moving(x, open, false, &c, 1, [&] { return x.write(c); }); break; }
      case 5: moving(x, open, false, b, 2, [&] { return x.write(b, 2); }); break;
      case 6:
        if (!open) break;
        result = sym_i32("waiting");
        ASSUME(result >= 0);
        CHECK(x.remaining() == result, "remaining");
        break;
      case 7: present = !present; if (!present) open = false; CHECK(x.open() == open, "notices_a_missing_device"); present = true; break;
      default:
        if (!open) break;
        if (sym_bool("unblock")) { x.unblock(); CHECK(set_to.c_cc[VMIN] == 0 && set_to.c_cc[VTIME] == 0, "does_not_wait"); x.block(5000); }
        else { x.block(500); CHECK(set_to.c_cc[VMIN] == 0 && set_to.c_cc[VTIME] == 5, "waits"); x.block(5000); }
      }
      CHECK(x.open() == open, "open_state");
      CHECK(open_now == (open ? 1 : 0), "descriptors");
    }
  }
  CHECK(open_now == 0, "nothing_left_open");
}
HARNESS(timeouts) {
  Serial x;
  x.open("tty");
  unsigned long t = sym_u64("timeout");
  ASSUME(t >= 100 && t <= 1000000000ul);
  x.block(t);
  unsigned long want = t / 100 > 255 ? 255 : t / 100;
  CHECK(set_to.c_cc[VMIN] == 0, "returns_as_soon_as_something_is_there");
  CHECK(set_to.c_cc[VTIME] == want, "tenths_of_a_second");
}
HARNESS(short_timeouts) {
  Serial x;
  x.open("tty");
  now_ns = 3000000000LL;
  int t = sym_pick(0, 99, "timeout");
  x.block(t);
  CHECK(set_to.c_cc[VMIN] == 0 && set_to.c_cc[VTIME] == 0, "polls");
  int every = t < 5 ? 1 : t < 20 ? 2 : 5, polls = (t + every - 1) / every;
  bool comes = polls > 0 && sym_bool("comes"), one = sym_bool("single");
  int at = !comes ? 1000 : sym_bool("last") ? polls - 1 : sym_bool("first") ? 0 : polls / 2;
  arrives_at = at;
  result = 1;
  incoming[0] = sym_u8("byte");
  n_calls = 0;
  unsigned char b[2] = {0, 0};
  long long start = now_ns;
  long r = one ? x.read(b[0]) : x.read(b, 2);
  long long waited = now_ns - start;
  if (comes) {
    CHECK(r == 1 && b[0] == incoming[0], "data_returned");
    CHECK(waited == (long long)at * every * 1000000, "returns_when_it_arrives");
  } else {
    CHECK(r == 0, "nothing_read");
    CHECK(waited >= (long long)t * 1000000 && waited < (long long)(t + every) * 1000000, "waits_for_the_timeout");
  }
  // back to waiting in the kernel
  x.block(300);
  arrives_at = 0;
  n_calls = 0;
  CHECK(x.read(b, 2) == 1 && n_calls == 1, "kernel_waits");
  x.unblock();
  n_calls = 0;
  arrives_at = 5;
  CHECK(x.read(b, 2) == 0 && n_calls == 1, "unblocked");
}
