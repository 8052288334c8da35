// Sockets: connection state, status codes and descriptors stay right whatever the network does.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp ecl_devices/src/lib/socket_client_pos.cpp ecl_devices/src/lib/socket_server_pos.cpp
//@ default time=150
//@ bound every history of 3 (thorough: 4) operations on a client and on a server (open, reopen, listen, read, write, peek, remaining, close), every port number, each system call succeeding with any short count or failing with any errno in the last operation and with ECONNRESET or EPIPE before (lookup: any h_errno)
//@ assume the socket calls behave as documented (stand-ins)
//@ outside a second client accepted while one is connected; zero-length reads; the wording of messages
#include <symx.h>
#include <errno.h>
#include <netdb.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <ecl/devices/socket.hpp>
#include <ecl/devices/detail/socket_error_handler_pos.hpp>
#include <ecl/devices/detail/socket_exception_handler_pos.hpp>
using namespace ecl;
#ifdef SYMX_THOROUGH
static const int OPS = 4;
#else
static const int OPS = 3;
#endif
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif
static const int FD = 60;
static bool fd_open[16];
static int n_fd, open_now;
static const char *failed_call;
static int last_errno;
static int h_err;
static unsigned port_seen;
static bool listening;
static long count;
static int flags_seen, fd_seen;
static const void *p_seen;
static size_t n_seen;
static bool any_errno = true; // else one of two
static int fail_mode; // 0 never, 1 may
static bool fault(const char *n) {
  if (!fail_mode || failed_call) return false;
  if (!sym_bool(n)) return false;
  failed_call = n;
  int e;
  if (any_errno) {
    e = sym_i32("errno");
    ASSUME(e > 0 && e < 134);
  } else {
    static const int some[] = {ECONNRESET, EPIPE};
    e = some[sym_pick(0, 1, "errno")];
  }
  errno = last_errno = e;
  return true;
}
static void valid(int fd) { CHECK(fd >= FD && fd < FD + n_fd && fd_open[fd - FD], "descriptor_is_open"); }
static int fresh() { CHECK(n_fd < 16, "model_size"); fd_open[n_fd] = true; ++open_now; return FD + n_fd++; }
extern "C" {
int *fk___h_errno_location() { return &h_err; }
int fk_socket(int d, int t, int) { CHECK(d == AF_INET && t == SOCK_STREAM, "tcp_over_ipv4"); return fault("socket_fails") ? -1 : fresh(); }
int fk_close(int fd) { valid(fd); fd_open[fd - FD] = false; --open_now; return 0; }
struct hostent *fk_gethostbyname(const char *name) {
  static struct hostent h;
  static struct in_addr a;
  static char *list[2] = {(char *)&a, 0};
  CHECK(!strcmp(name, "host"), "host_name");
  if (fault("lookup_fails")) { h_err = sym_i32("h_errno"); ASSUME(h_err > 0 && h_err < 6); return 0; }
  a.s_addr = 0x0100007f;
  h.h_addr_list = list;
  h.h_length = 4;
  return &h;
}
static void address(int fd, const struct sockaddr *a, socklen_t n, unsigned want) {
  valid(fd);
  const struct sockaddr_in *in = (const struct sockaddr_in *)a;
  CHECK(n == sizeof(*in) && in->sin_family == AF_INET, "ipv4_address");
  CHECK(in->sin_addr.s_addr == want, "address");
  port_seen = ntohs(in->sin_port);
}
int fk_connect(int fd, const struct sockaddr *a, socklen_t n) { address(fd, a, n, 0x0100007f); return fault("connect_fails") ? -1 : 0; }
int fk_bind(int fd, const struct sockaddr *a, socklen_t n) { address(fd, a, n, INADDR_ANY); return fault("bind_fails") ? -1 : 0; }
int fk_listen(int fd, int n) { valid(fd); CHECK(n >= 1, "backlog"); listening = true; return 0; }
int fk_accept(int fd, struct sockaddr *, socklen_t *n) {
  valid(fd);
  CHECK(listening && *n == sizeof(struct sockaddr_in), "listening");
  return fault("accept_fails") ? -1 : fresh();
}
int fk_setsockopt(int fd, int, int, const void *, socklen_t) { valid(fd); return 0; }
static ssize_t transfer(int fd, const void *p, size_t n, int flags, const char *f) {
  valid(fd);
  fd_seen = fd;
  p_seen = p;
  n_seen = n;
  flags_seen = flags;
  return fault(f) ? -1 : count;
}
ssize_t fk_recv(int fd, void *p, size_t n, int flags) { return transfer(fd, p, n, flags, "recv_fails"); }
ssize_t fk_send(int fd, const void *p, size_t n, int flags) {
  CHECK(flags & MSG_NOSIGNAL, "no_signal_when_the_other_end_is_gone");
  return transfer(fd, p, n, flags, "send_fails");
}
ssize_t fk_write(int, const void *, size_t) { sym_fail("write_could_raise_a_signal"); }
int fk_ioctl(int fd, unsigned long what, ...) {
  valid(fd);
  CHECK(what == FIONREAD, "asks_for_the_number_of_bytes");
  fd_seen = fd;
  va_list ap;
  va_start(ap, what);
  int *p = va_arg(ap, int *);
  va_end(ap);
  if (fault("ioctl_fails")) return -1;
  *p = (int)count; // the kernel stores an int
  return 0;
}
}
static ErrorFlag as(Error (*f)()) { errno = last_errno; return f().flag(); }
// one operation that moves or inspects data; conn: descriptor of the connection or -1
template <class D> static int data_op(D &x, int op, int conn, bool client) {
  char b[2] = {0, 0};
  long r = -99;
  bool threw = false;
  ErrorFlag flag = NoError;
  int n = 0;
  count = 0;
  int kind = op; // 0,1 read; 2,3 write; 4 peek; 5 remaining
  n = kind == 0 || kind == 2 ? 1 : 2;
  count = kind == 5 ? sym_i32("waiting") : sym_pick(0, n, "moved");
  if (kind == 5) ASSUME(count >= 0);
  if (kind == 2 || kind == 3) ASSUME(count >= 1);
  p_seen = 0;
  fail_mode = 1;
  try {
    switch (kind) {
    case 0: r = x.read(b[0]); break;
    case 1: r = x.read(b, 2); break;
    case 2: r = x.write(b[0]); break;
    case 3: r = x.write(b, 2); break;
    case 4: r = x.peek(b, 2); break;
    default: r = x.remaining();
    }
  } catch (const StandardException &e) { threw = true; flag = e.flag(); }
  fail_mode = 0;
  if (conn < 0) {
    CHECK(!threw && r == ConnectionDisconnected, "disconnected");
    CHECK(!p_seen && !failed_call, "nothing_attempted");
    return conn;
  }
  CHECK(fd_seen == conn, "uses_the_connection");
  if (kind != 5) {
    CHECK(p_seen == b && (int)n_seen == n, "passes_the_buffer_on");
    CHECK(!!(flags_seen & MSG_PEEK) == (kind == 4), "peek_leaves_the_data");
  }
  bool reading = kind < 2, writing = kind == 2 || kind == 3;
  bool hung = (reading && !failed_call && count == 0) || (reading && client && failed_call && last_errno == ECONNRESET) || (writing && failed_call && last_errno == EPIPE);
  if (hung) {
    CHECK(!threw && r == ConnectionHungUp, "hung_up");
    CHECK(!x.open(), "closed_after_hang_up");
    return -1;
  }
  if (failed_call) {
    ErrorFlag want = as(writing ? devices::send_error : kind == 5 ? devices::ioctl_error : devices::receive_error);
    CHECK(threw == debug, "failure_throws_in_debug_builds");
    if (threw) CHECK(flag == want, "exception_flag");
    else CHECK(r == ConnectionProblem && x.error().flag() == want, "failure_reported");
  } else {
    CHECK(!threw && r == count, "count_reported");
    CHECK(x.error().flag() == NoError, "no_error");
  }
  CHECK(x.open(), "still_open");
  return conn;
}
static ErrorFlag open_flag() {
  if (!strcmp(failed_call, "socket_fails")) return as(devices::socket_error);
  if (!strcmp(failed_call, "lookup_fails")) return devices::gethostbyname_error().flag();
  if (!strcmp(failed_call, "bind_fails")) return as(devices::bind_error);
  return as(devices::connection_error);
}
static void client(bool raii) {
  unsigned port = sym_u32("port");
  ASSUME(port < 65536);
  {
    Dirty<SocketClient> m;
    bool threw = false;
    int conn = -1;
    if (raii) {
      fail_mode = 1;
      ErrorFlag flag = NoError;
      try { m.make("host", port); } catch (const StandardException &e) { threw = true; flag = e.flag(); }
      CHECK(threw == !!failed_call, "constructor_throws");
      if (threw) { CHECK(flag == open_flag(), "exception_flag"); CHECK(open_now == 0, "nothing_left_open_after_failure"); return; }
      conn = FD + n_fd - 1;
    } else m.make0();
    SocketClient &x = m.get();
    for (int i = 0; i < OPS; ++i) {
      failed_call = 0;
      any_errno = i == OPS - 1;
      int op = sym_pick(0, 7, "op");
      if (op < 6) conn = data_op(x, op, conn, true);
      else if (op == 6) {
        bool t = false, r = false;
        fail_mode = 1;
        ErrorFlag flag = NoError;
        try { r = x.open("host", port); } catch (const StandardException &e) { t = true; flag = e.flag(); }
        fail_mode = 0;
        CHECK(t == !!failed_call && r == !t, "open_throws");
        if (t) { CHECK(flag == open_flag(), "exception_flag"); conn = -1; }
        else { conn = FD + n_fd - 1; CHECK(port_seen == port, "port"); }
      } else { x.close(); conn = -1; }
      CHECK(x.open() == (conn >= 0), "open_state");
      CHECK(open_now == (conn >= 0 ? 1 : 0), "descriptors");
    }
  }
  CHECK(open_now == 0, "nothing_left_open");
}
HARNESS(client_constructed_open) { client(true); }
HARNESS(client_opened_later) { client(false); }
static void server(bool raii) {
  unsigned port = sym_u32("port");
  ASSUME(port < 65536);
  {
    Dirty<SocketServer> m;
    bool threw = false, open = false;
    int conn = -1;
    if (raii) {
      fail_mode = 1;
      ErrorFlag flag = NoError;
      try { m.make(port); } catch (const StandardException &e) { threw = true; flag = e.flag(); }
      CHECK(threw == !!failed_call, "constructor_throws");
      if (threw) { CHECK(flag == open_flag(), "exception_flag"); CHECK(open_now == 0, "nothing_left_open_after_failure"); return; }
      open = true;
      CHECK(port_seen == port, "port");
    } else m.make0();
    SocketServer &x = m.get();
    for (int i = 0; i < OPS; ++i) {
      failed_call = 0;
      any_errno = i == OPS - 1;
      int op = sym_pick(0, 8, "op");
      if (op < 6) {
        int c = data_op(x, op, conn, false);
        if (c != conn) { open = false; conn = -1; }
      } else if (op == 6) {
        bool t = false, r = false;
        fail_mode = 1;
        ErrorFlag flag = NoError;
        try { r = x.open(port); } catch (const StandardException &e) { t = true; flag = e.flag(); }
        fail_mode = 0;
        CHECK(t == !!failed_call && r == !t, "open_throws");
        conn = -1;
        if (t) { CHECK(flag == open_flag(), "exception_flag"); open = false; }
        else { open = true; CHECK(port_seen == port, "port"); }
        listening = false;
      } else if (op == 7) {
        x.close();
        open = false;
        conn = -1;
        listening = false;
      } else if (open && conn < 0) {
        fail_mode = 1;
        bool t = false;
        int r = -5;
        ErrorFlag flag = NoError;
        try { r = x.listen(); } catch (const StandardException &e) { t = true; flag = e.flag(); }
        fail_mode = 0;
        CHECK(t == !!failed_call, "listen_throws");
        if (t) CHECK(flag == as(devices::accept_error), "exception_flag");
        else { conn = FD + n_fd - 1; CHECK(r == conn, "client_descriptor"); }
      }
      CHECK(x.open() == open, "open_state");
      CHECK(open_now == (open ? 1 : 0) + (conn >= 0 ? 1 : 0), "descriptors");
    }
  }
  CHECK(open_now == 0, "nothing_left_open");
}
HARNESS(server_constructed_open) { server(true); }
HARNESS(server_opened_later) { server(false); }
