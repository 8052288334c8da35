// Model of the file system calls the output devices use.  Each call may fail once the harness
// enables faults (every errno); descriptors, streams and file contents are tracked exactly.
#pragma once
#include <symx.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/types.h>
namespace fs {
static const int NPATH = 2, NFD = 12, CAP = 3 * 4096;
struct File { bool exists; unsigned long len; char data[CAP]; };
struct Fd { bool open, append; int file; unsigned long pos; bool stream; };
static File files[NPATH];
static Fd fds[NFD];
static char streams[NFD];
static int nfd;
static int budget;        // number of faults that may still be injected
static int last_errno;    // errno set by the last injected fault
static bool failed;       // an injected fault happened since reset
static const char *const paths[NPATH] = {"a", "b"};
static const int BASE = 40;
static int which(const char *p) {
  for (int i = 0; i < NPATH; ++i) if (!strcmp(p, paths[i])) return i;
  sym_fail("unexpected_path");
}
static bool fault(const char *n) {
  if (budget <= 0) return false;
  if (!sym_bool(n)) return false;
  --budget;
  failed = true;
  int e = sym_i32("errno");
  ASSUME(e > 0 && e < 134);
  last_errno = e;
  errno = e;
  return true;
}
static int open_fds() { int n = 0; for (int i = 0; i < nfd; ++i) n += fds[i].open; return n; }
static int do_open(const char *p, int flags) {
  int f = which(p);
  if (fault("open_fails")) return -1;
  if (!files[f].exists) {
    if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
    files[f].exists = true;
    files[f].len = 0;
  }
  if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  CHECK((flags & O_ACCMODE) != O_RDONLY, "opened_for_writing");
  if (flags & O_TRUNC) files[f].len = 0;
  CHECK(nfd < NFD, "descriptors_in_the_model");
  fds[nfd].open = true;
  fds[nfd].append = flags & O_APPEND;
  fds[nfd].file = f;
  fds[nfd].pos = 0;
  fds[nfd].stream = false;
  return BASE + nfd++;
}
static int index(int fd) {
  int i = fd - BASE;
  CHECK(i >= 0 && i < nfd, "valid_descriptor");
  if (i < 0 || i >= nfd) sym_stop();
  return i;
}
static Fd &of(FILE *s) {
  long i = (char *)s - streams;
  CHECK(i >= 0 && i < nfd && fds[i].stream && fds[i].open, "stream_is_open");
  if (!(i >= 0 && i < nfd)) sym_stop();
  return fds[i];
}
static void put(Fd &d, const char *p, unsigned long n) {
  File &f = files[d.file];
  if (d.append) d.pos = f.len;
  CHECK(d.pos + n <= CAP, "contents_fit_the_model");
  for (unsigned long i = 0; i < n; ++i) f.data[d.pos + i] = p[i];
  d.pos += n;
  if (d.pos > f.len) f.len = d.pos;
}
static FILE *do_fdopen(int fd, const char *mode) {
  int i = index(fd);
  CHECK(fds[i].open, "descriptor_is_open");
  if (fault("fdopen_fails")) return NULL;
  if (mode[0] == 'a') fds[i].append = true;
  fds[i].stream = true;
  return (FILE *)(streams + i);
}
}
extern "C" {
int fk_open(const char *p, int flags, ...) { return fs::do_open(p, flags); }
int fk_close(int fd) {
  int i = fs::index(fd);
  CHECK(fs::fds[i].open && !fs::fds[i].stream, "closed_once");
  fs::fds[i].open = false;
  return 0;
}
FILE *fk_fdopen(int fd, const char *mode) { return fs::do_fdopen(fd, mode); }
FILE *fk_fopen(const char *p, const char *mode) {
  int fd = fs::do_open(p, mode[0] == 'a' ? O_WRONLY | O_CREAT | O_APPEND : O_WRONLY | O_CREAT | O_TRUNC);
  if (fd < 0) return NULL;
  fs::fds[fd - fs::BASE].stream = true;
  return (FILE *)(fs::streams + (fd - fs::BASE));
}
int fk_fclose(FILE *s) {
  fs::Fd &d = fs::of(s);
  d.open = false;  // the stream and descriptor are released whatever the result
  return fs::fault("fclose_fails") ? EOF : 0;
}
size_t fk_fwrite(const void *p, size_t size, size_t n, FILE *s) {
  fs::Fd &d = fs::of(s);
  if (size == 0 || n == 0) return 0;
  CHECK(sym_readable(p, size * n), "reads_inside_the_buffer");
  if (fs::fault("fwrite_fails")) {
    size_t k = sym_pick(0, n > 1 ? 1 : 0, "items_written");
    fs::put(d, (const char *)p, k * size);
    return k;
  }
  fs::put(d, (const char *)p, size * n);
  return n;
}
int fk_fputc(int c, FILE *s) { char k = (char)c; return fk_fwrite(&k, 1, 1, s) == 1 ? (unsigned char)c : EOF; }
int fk_fflush(FILE *s) {
  if (s) fs::of(s);
  return fs::fault("fflush_fails") ? EOF : 0;
}
int fk_fileno(FILE *s) { return fs::BASE + (int)((char *)s - fs::streams); }
int fk_fsync(int) { return 0; }
}
