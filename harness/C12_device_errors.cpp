// System call failures of devices are classified the same way with and without exceptions.
//@ config rel
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_devices/src/lib/detail/error_handler.cpp ecl_devices/src/lib/detail/exception_handler_pos.cpp ecl_devices/src/lib/detail/socket_exception_handler_pos.cpp
//@ default time=90
//@ bound every 32-bit errno (and h_errno) value for each of the thirteen handler pairs; file and host names of 0..2 arbitrary characters
//@ outside the wording of the messages, except that the file name they concern is in them where one is given
#include <symx.h>
#include <string>
#include <string.h>
#include <errno.h>
#include <netdb.h>
#include <ecl/exceptions/standard_exception.hpp>
#include <ecl/devices/detail/error_handler.hpp>
#include <ecl/devices/detail/exception_handler_pos.hpp>
#include <ecl/devices/detail/socket_error_handler_pos.hpp>
#include <ecl/devices/detail/socket_exception_handler_pos.hpp>
using namespace ecl;
using namespace ecl::devices;
static int h_err;
extern "C" int *fk___h_errno_location() { return &h_err; }
struct Row { int e; ErrorFlag f; };
template <unsigned N> static ErrorFlag wanted(const Row (&t)[N], int e) {
  ErrorFlag f = UnknownError;
  for (unsigned i = 0; i < N; ++i) f = e == t[i].e ? t[i].f : f;
  return f;
}
static const Row open_t[] = {{ENOENT, NotFoundError}, {EINVAL, InvalidArgError}, {EACCES, PermissionsError}, {EFBIG, OutOfResourcesError}, {EOVERFLOW, OutOfResourcesError},
  {EINTR, InterruptedError}, {EISDIR, InvalidObjectError}, {ELOOP, SystemFailureError}, {EMFILE, OutOfResourcesError}, {ENFILE, OutOfResourcesError},
  {ENAMETOOLONG, InvalidArgError}, {ENOMEM, MemoryError}, {ENOSPC, OutOfResourcesError}, {ENOTDIR, InvalidObjectError}, {EROFS, PermissionsError}, {ETXTBSY, UsageError}};
static const Row write_t[] = {{EAGAIN, BlockingError}, {EBADF, InvalidObjectError}, {EINVAL, InvalidObjectError}, {EFAULT, OutOfRangeError}, {EFBIG, MemoryError}, {EINTR, InterruptedError},
  {EIO, SystemFailureError}, {ENOSPC, OutOfResourcesError}, {EPIPE, PermissionsError}};
static const Row read_t[] = {{EAGAIN, BlockingError}, {EBADF, PermissionsError}, {EINVAL, PermissionsError}, {EFAULT, OutOfRangeError}, {EINTR, InterruptedError}, {EIO, SystemFailureError}, {EISDIR, InvalidObjectError}};
static const Row sync_t[] = {{EBADF, InvalidArgError}, {EIO, CloseError}, {EROFS, NotSupportedError}, {EINVAL, NotSupportedError}};
static const Row close_t[] = {{EBADF, InvalidArgError}, {EIO, SystemFailureError}, {EINTR, InterruptedError}};
static const Row socket_t[] = {{EACCES, OpenError}, {EAFNOSUPPORT, NotSupportedError}, {EINVAL, InvalidArgError}, {EMFILE, OutOfRangeError}, {ENFILE, OutOfResourcesError}, {ENOBUFS, MemoryError}, {ENOMEM, MemoryError}, {EPROTONOSUPPORT, NotSupportedError}};
static const Row bind_t[] = {{EACCES, PermissionsError}, {EADDRINUSE, BusyError}, {EBADF, InvalidObjectError}, {EINVAL, BusyError}, {ENOTSOCK, InvalidObjectError}, {EADDRNOTAVAIL, InvalidObjectError},
  {EFAULT, OutOfRangeError}, {ELOOP, SystemFailureError}, {ENAMETOOLONG, InvalidArgError}, {ENOENT, InvalidObjectError}, {ENOMEM, MemoryError}, {ENOTDIR, InvalidArgError}, {EROFS, PermissionsError}};
static const Row accept_t[] = {{EWOULDBLOCK, BlockingError}, {EBADF, InvalidObjectError}, {ECONNABORTED, InterruptedError}, {EINTR, InterruptedError}, {EINVAL, UsageError}, {EMFILE, OutOfResourcesError},
  {ENFILE, OutOfResourcesError}, {ENOTSOCK, InvalidObjectError}, {EOPNOTSUPP, InvalidObjectError}, {EFAULT, PermissionsError}, {ENOBUFS, MemoryError}, {ENOMEM, MemoryError}, {EPROTO, InvalidArgError}, {EPERM, PermissionsError}};
static const Row receive_t[] = {{EAGAIN, InterruptedError}, {EWOULDBLOCK, InterruptedError}, {EBADF, InvalidObjectError}, {ECONNREFUSED, ConnectionError}, {EFAULT, SystemFailureError}, {EINTR, InterruptedError},
  {EINVAL, InvalidArgError}, {ENOMEM, MemoryError}, {ENOTCONN, ConnectionError}, {ENOTSOCK, InvalidObjectError}};
static const Row ioctl_t[] = {{EBADF, InvalidObjectError}, {EFAULT, OutOfRangeError}, {EINVAL, InvalidArgError}, {ENOTTY, InvalidObjectError}};
static const Row send_t[] = {{EAGAIN, BlockingError}, {EWOULDBLOCK, BlockingError}, {EACCES, PermissionsError}, {EBADF, InvalidObjectError}, {ECONNRESET, InterruptedError}, {EFAULT, SystemFailureError}, {EINTR, InterruptedError},
  {EINVAL, InvalidArgError}, {EISCONN, ConnectionError}, {EMSGSIZE, WriteError}, {ENOBUFS, OutOfResourcesError}, {ENOMEM, MemoryError}, {ENOTCONN, ConnectionError}, {ENOTSOCK, InvalidObjectError}, {EOPNOTSUPP, NotSupportedError}, {EPIPE, InterruptedError}};
static const Row host_t[] = {{HOST_NOT_FOUND, OpenError}, {TRY_AGAIN, OpenError}, {NO_ADDRESS, InvalidArgError}};
static const Row connect_t[] = {{EACCES, PermissionsError}, {EPERM, PermissionsError}, {EADDRINUSE, BusyError}, {EAFNOSUPPORT, NotSupportedError}, {EAGAIN, OutOfResourcesError}, {EALREADY, BlockingError}, {EBADF, InvalidObjectError},
  {ECONNREFUSED, ConnectionRefusedError}, {EFAULT, OutOfRangeError}, {EINPROGRESS, BlockingError}, {EINTR, InterruptedError}, {EISCONN, ConnectionError}, {ENETUNREACH, NotFoundError}, {EHOSTUNREACH, NotFoundError}, {ENOTSOCK, InvalidObjectError}, {ETIMEDOUT, TimeOutError}};

static std::string name() {
  int k = sym_pick(0, 2, "name_length");
  std::string s;
  for (int i = 0; i < k; ++i) { char c = (char)sym_u8("c"); ASSUME(c != 0); s += c; }
  return s;
}
static bool has(const std::string &t, const std::string &n) { return t.find(n) != std::string::npos; }
// Two handlers of the same failure, each run on the same errno.
template <unsigned N, class E, class X> static void pair(const Row (&t)[N], int &err, E code, X except) {
  int e = sym_i32("errno");
  ErrorFlag want = wanted(t, e);
  err = e;
  ErrorFlag a = code().flag();
  err = e;
  ErrorFlag b = except();
  CHECK(a != NoError, "never_success");
  CHECK(a == want, "error_flag");
  CHECK(b == want, "exception_flag");
}
HARNESS(opening) {
  std::string n = name();
  pair(open_t, errno, [] { return open_error(); }, [&] {
    int e = errno;
    StandardException x = open_exception("here", n);
    bool known = wanted(open_t, e) != UnknownError && e != EINVAL;
    if (known) CHECK(has(x.message(), n), "names_the_file");
    return x.flag();
  });
}
HARNESS(closing) {
  std::string n = name();
  pair(close_t, errno, [] { return close_error(); }, [&] { return close_exception("here", n).flag(); });
}
HARNESS(syncing) {
  std::string n = name();
  pair(sync_t, errno, [] { return sync_error(); }, [&] { return sync_exception("here", n).flag(); });
}
HARNESS(writing) { pair(write_t, errno, [] { return write_error(); }, [] { return write_exception("here").flag(); }); }
HARNESS(reading) { pair(read_t, errno, [] { return read_error(); }, [] { return read_exception("here").flag(); }); }
HARNESS(sockets) { pair(socket_t, errno, [] { return socket_error(); }, [] { return socket_exception("here").flag(); }); }
HARNESS(binding) { pair(bind_t, errno, [] { return bind_error(); }, [] { return bind_exception("here").flag(); }); }
HARNESS(accepting) { pair(accept_t, errno, [] { return accept_error(); }, [] { return accept_exception("here").flag(); }); }
HARNESS(receiving) { pair(receive_t, errno, [] { return receive_error(); }, [] { return receive_exception("here").flag(); }); }
HARNESS(sending) { pair(send_t, errno, [] { return send_error(); }, [] { return send_exception("here").flag(); }); }
HARNESS(controlling) { pair(ioctl_t, errno, [] { return ioctl_error(); }, [] { return ioctl_exception("here").flag(); }); }
HARNESS(connecting) { pair(connect_t, errno, [] { return connection_error(); }, [] { return connection_exception("here").flag(); }); }
HARNESS(resolving) {
  std::string n = name();
  pair(host_t, h_err, [] { return gethostbyname_error(); }, [&] { return gethostbyname_exception("here", n).flag(); });
}
