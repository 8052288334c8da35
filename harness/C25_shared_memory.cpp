// Shared memory objects of one name are one block, initialised once, and only its creator removes it.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_ipc/src/lib/shared_memory_pos.cpp
//@ default time=150
//@ bound every history of 5 operations (construct, destroy, write and read) by three users of two names, and of 4 with any one call failing with any errno; any contents
//@ assume the shared memory calls behave as documented (stand-ins)
//@ outside users that build blocks of different types under one name; copies of a shared memory object; other processes
#include <symx.h>
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <ecl/ipc/shared_memory.hpp>
using namespace ecl;
struct Data {
  int a; char b[8];
  Data() : a(4711) { memcpy(b, "initial", 8); }
};
struct O { char name[16]; alignas(16) unsigned char data[sizeof(Data)]; long size; bool linked; int maps; bool mine; };
static O objs[6];
static int nobj, fds[8], nfd, open_now, inject, injected;
#define INJECT(r) do { if (inject > 0 && --inject == 0) { injected = sym_i32("errno"); ASSUME(injected > 0 && injected < 134 && injected != EEXIST); errno = injected; return r; } } while (0)
static O *find(const char *n) {
  for (int i = 0; i < nobj; ++i) if (objs[i].linked && strcmp(objs[i].name, n) == 0) return &objs[i];
  return 0;
}
static O &at(int fd) {
  if (fd < 100 || fd >= 100 + nfd || fds[fd - 100] < 0) sym_fail("not_an_open_descriptor");
  return objs[fds[fd - 100]];
}
extern "C" {
int fk_shm_open(const char *n, int flags, mode_t m) {
  INJECT(-1);
  CHECK(n[0] == '/' && strchr(n + 1, '/') == 0, "name");
  CHECK((flags & O_ACCMODE) == O_RDWR, "read_and_write");
  O *o = find(n);
  if (o && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (!o && !(flags & O_CREAT)) { errno = ENOENT; return -1; }
  if (!o) {
    o = &objs[nobj++];
    strcpy(o->name, n);
    o->linked = true;
    sym_bytes(o->data, sizeof o->data, "old_contents");
    CHECK((m & (S_IRUSR | S_IWUSR)) == (S_IRUSR | S_IWUSR), "usable_by_its_owner");
  }
  fds[nfd] = o - objs;
  ++open_now;
  return 100 + nfd++;
}
int fk_shm_unlink(const char *n) {
  O *o = find(n);
  errno = ENOENT;
  if (!o) return -1;
  o->linked = false;
  return 0;
}
int fk_ftruncate(int fd, off_t n) {
  O &o = at(fd);
  INJECT(-1);
  o.size = n;
  return 0;
}
int fk_close(int fd) { at(fd); fds[fd - 100] = -1; --open_now; return 0; }
void *fk_mmap(void *, size_t n, int prot, int flags, int fd, off_t off) {
  O &o = at(fd);
  INJECT(MAP_FAILED);
  CHECK(n == sizeof(Data) && off == 0, "maps_the_block");
  CHECK(prot == (PROT_READ | PROT_WRITE) && (flags & MAP_SHARED), "maps_it_shared");
  ++o.maps;
  return o.data;
}
int fk_munmap(void *p, size_t n) {
  for (int i = 0; i < nobj; ++i)
    if (p == objs[i].data) {
      CHECK(n == sizeof(Data) && objs[i].maps > 0, "unmaps_what_was_mapped");
      --objs[i].maps;
      return 0;
    }
  sym_fail("unmaps_what_was_never_mapped");
}
}
typedef SharedMemory<Data> Mem;
static const char *names[] = {"x", "yz"};
static void history(int n, int first) {
  struct { Mem *m; int obj; bool creator; } u[3] = {};
  Data shadow[6];
  for (int i = 0; i < n; ++i) {
    int k = i == 0 ? 0 : sym_pick(0, 2, "user");
    if (u[k].m == 0) {
      int w = i == 0 ? first : sym_pick(0, 1, "name");
      std::string full = std::string("/") + names[w];
      O *before = find(full.c_str());
      int was = nobj;
      injected = 0;
      try {
        u[k].m = new Mem(names[w]);
      } catch (const StandardException &e) {
        CHECK(injected != 0, "construction_fails_only_if_a_call_fails");
        CHECK(before ? before->linked : find(full.c_str()) == 0, "only_its_own_name_is_removed_on_failure");
        CHECK(!before || nobj == was, "no_other_block");
        CHECK(open_now == 0, "no_descriptor_left");
        continue;
      }
      CHECK(injected == 0, "failures_reported");
      O *o = find(full.c_str());
      CHECK(o && u[k].m->data() == (void *)o->data && o->size == (long)sizeof(Data), "the_block_of_that_name");
      u[k].obj = o - objs;
      u[k].creator = before == 0;
      if (before == 0) shadow[u[k].obj] = Data();
      else CHECK(o == before, "same_block");
    } else switch (sym_pick(0, 1, "op")) {
    case 0: {
      u[k].m->data()->a = shadow[u[k].obj].a = sym_i32("value");
      u[k].m->data()->b[3] = shadow[u[k].obj].b[3] = (char)sym_u8("byte");
    } break;
    default: {
      O &o = objs[u[k].obj];
      int maps = o.maps;
      bool linked = o.linked;
      delete u[k].m;
      u[k].m = 0;
      CHECK(o.maps == maps - 1, "unmapped");
      CHECK(o.linked == (linked && !u[k].creator), "removed_by_its_creator_only");
    }
    }
    CHECK(open_now == 0, "descriptors_closed");
    for (auto &x : u)
      if (x.m) CHECK(memcmp(x.m->data(), &shadow[x.obj], sizeof(Data)) == 0, "everyone_sees_what_was_written");
  }
  for (auto &x : u) delete x.m;
  for (int i = 0; i < nobj; ++i) CHECK(objs[i].maps == 0, "nothing_left_mapped");
}
HARNESS(histories) { history(5, 0); }
HARNESS(histories_with_a_failure) {
  inject = sym_pick(1, 10, "fails_at");
  history(4, 1);
}
static ErrorFlag open_meaning(int e) {
  switch (e) {
  case EACCES: return PermissionsError;
  case EMFILE: case ENFILE: return OutOfResourcesError;
  case ENOENT: case ENAMETOOLONG: case EINVAL: return InvalidArgError;
  case ENOSYS: return NotSupportedError;
  default: return UnknownError;
  }
}
static ErrorFlag map_meaning(int e) {
  switch (e) {
  case EACCES: case EPERM: return PermissionsError;
  case EAGAIN: case ENOMEM: return MemoryError;
  case EBADF: case EINVAL: return InvalidArgError;
  case ENFILE: return OutOfResourcesError;
  case ENODEV: return NotSupportedError;
  default: return UnknownError;
  }
}
HARNESS(meanings) {
  inject = sym_pick(1, 3, "fails_at");
  int at = inject;
  try {
    Mem m("x");
    sym_fail("failure_reported");
  } catch (const StandardException &e) {
    CHECK(e.flag() == (at == 1 ? open_meaning(injected) : at == 2 ? map_meaning(injected) : OpenError), "flag");
  }
}
