// Native implementation of the harness interface, used to replay
// counterexamples against the real build.
#include "symx.h"
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <ucontext.h>
#include <unistd.h>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
void *__asan_region_is_poisoned(void *, size_t);
void __sanitizer_start_switch_fiber(void **, const void *, size_t);
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *);
}
#endif

namespace {
std::atomic<long> live{0};
bool counting = false;
struct Store {
  std::map<std::string, std::vector<unsigned char>> v;
  std::map<std::string, unsigned> cnt;
};
Store *S;
void die(int code, const char *what, const char *id) {
  printf("SYMX-%s %s\n", what, id);
  fflush(stdout);
  _exit(code);
}
std::vector<unsigned char> *find(const char *name) {
  std::vector<unsigned char> *r;
  counting = false;
  {
    unsigned k = S->cnt[name]++;
    std::string key = name;
    for (char &c : key)
      if (c == ' ') c = '_'; // as written by check.py
    auto it = S->v.find(key + "#" + std::to_string(k));
    r = it == S->v.end() ? nullptr : &it->second;
  }
  counting = true;
  return r;
}
bool get(void *p, size_t n, const char *name) {
  auto *v = find(name);
  if (!v) return false;
  unsigned char *q = (unsigned char *)p;
  for (size_t i = 0; i < n; ++i) q[i] = i < v->size() ? (*v)[i] : 0;
  return true;
}
struct Th {
  ucontext_t ctx;
  void *(*fn)(void *);
  void *arg;
  bool done = false, blocked = false;
  const void *on = nullptr;
  void *stack = nullptr;
  void *fake = nullptr;
};
std::vector<Th *> *T;
unsigned cur = 0;
void sw(unsigned to) {
  if (to == cur) return;
  Th *a = (*T)[cur], *b = (*T)[to];
  cur = to;
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_start_switch_fiber(&a->fake, b->stack ? b->stack : nullptr, b->stack ? 1 << 18 : 0);
#endif
  swapcontext(&a->ctx, &b->ctx);
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber((*T)[cur]->fake, nullptr, nullptr);
#endif
}
void sched() {
  unsigned run[64], n = 0; // no heap: this must not show in the count of live blocks
  for (unsigned i = 0; i < T->size() && n < 64; ++i)
    if (!(*T)[i]->done && !(*T)[i]->blocked) run[n++] = i;
  if (!n) die(79, "DEADLOCK", "all threads blocked");
  unsigned to = run[0];
  if (n > 1) {
    unsigned char c = 0;
    counting = false;
    bool have = get(&c, 1, "sched");
    counting = true;
    to = have ? c : cur;
    bool ok = false;
    for (unsigned i = 0; i < n; ++i) ok |= run[i] == to;
    if (!ok) to = run[0];
  }
  sw(to);
}
void entry() {
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
#endif
  Th *t = (*T)[cur];
  t->fn(t->arg);
  t->done = true;
  for (auto *x : *T)
    if (x->blocked && x->on == t) x->blocked = false;
  sched();
  abort();
}
} // namespace

extern "C" {
void sym_bytes(void *p, size_t n, const char *name) {
  if (n && !get(p, n, name)) memset(p, 0, n);
}
#define GEN(T, f) T f(const char *n) { T v = 0; get(&v, sizeof v, n); return v; }
GEN(uint64_t, sym_u64)
GEN(uint32_t, sym_u32)
GEN(uint16_t, sym_u16)
GEN(uint8_t, sym_u8)
GEN(double, sym_f64)
GEN(float, sym_f32)
int sym_bool(const char *n) { unsigned char v = 0; get(&v, 1, n); return v & 1; }
double sym_real(const char *n, double lo, double hi) {
  double v = lo <= 0 && hi >= 0 ? 0 : lo;
  get(&v, sizeof v, n);
  if (!(v >= lo && v <= hi)) die(78, "ASSUME", "range");
  return v;
}
float sym_realf(const char *n, float lo, float hi) {
  float v = lo <= 0 && hi >= 0 ? 0 : lo;
  get(&v, sizeof v, n);
  if (!(v >= lo && v <= hi)) die(78, "ASSUME", "range");
  return v;
}
void sym_assume(int c) { if (!c) die(78, "ASSUME", "false"); }
void sym_assert(int c, const char *id) { if (!c) die(77, "ASSERT", id); }
void sym_close(double a, double b, double tol, const char *id) {
  if (!(std::fabs(a - b) <= tol)) {
    printf("%.17g vs %.17g\n", a, b);
    die(77, "ASSERT", id);
  }
}
void sym_fail(const char *id) { die(77, "ASSERT", id); abort(); }
void sym_reach(const char *tag) {}
void sym_out(const char *n, uint64_t v) { printf("SYMX-OUT %s %lX\n", n, v); }
int sym_choose(int n, const char *name) {
  unsigned v = 0;
  get(&v, 4, name);
  if (v >= (unsigned)n) die(78, "ASSUME", "choose");
  return v;
}
uint64_t sym_concrete(uint64_t v) { return v; }
void sym_split(int) {}
long sym_live(void) { return live; }
int sym_native(void) { return 1; }
int sym_readable(const void *p, size_t n) {
#if defined(__SANITIZE_ADDRESS__)
  if ((uintptr_t)p < 4096) return 0;
  return __asan_region_is_poisoned((void *)p, n) == nullptr;
#else
  return 1;
#endif
}
void sym_stop(void) { die(0, "DONE", ""); abort(); }
int sym_thread_create(void *(*fn)(void *), void *arg) {
  counting = false;
  Th *t = new Th;
  t->fn = fn;
  t->arg = arg;
  t->stack = malloc(1 << 18);
  getcontext(&t->ctx);
  t->ctx.uc_stack.ss_sp = t->stack;
  t->ctx.uc_stack.ss_size = 1 << 18;
  t->ctx.uc_link = nullptr;
  makecontext(&t->ctx, entry, 0);
  T->push_back(t);
  counting = true;
  return T->size() - 1;
}
int sym_self(void) { return cur; }
void sym_yield(void) { sched(); }
void sym_block(const void *on) {
  (*T)[cur]->blocked = true;
  (*T)[cur]->on = on;
  sched();
}
void sym_wake(const void *on) {
  for (auto *t : *T)
    if (t->blocked && t->on == on) t->blocked = false;
}
void sym_join(int id) {
  if ((*T)[id]->done) return;
  (*T)[cur]->blocked = true;
  (*T)[cur]->on = (*T)[id];
  sched();
}
void symx_entry(const char *);
}
#if defined(__SANITIZE_ADDRESS__)
static void mh(const volatile void *, size_t) { if (counting) live++; }
static void fh(const volatile void *p) { if (counting && p) live--; }
#endif

typedef void (*Fn)();
struct Entry { const char *name; Fn fn; };
extern Entry symx_entries[];

int main(int argc, char **argv) {
  S = new Store;
  T = new std::vector<Th *>;
  T->push_back(new Th);
  if (argc > 2)
    if (FILE *f = fopen(argv[2], "r")) {
      char name[512], hex[1 << 16];
      unsigned w;
      while (fscanf(f, "%511s %u %65535s", name, &w, hex) == 3) {
        std::vector<unsigned char> b((w + 7) / 8, 0);
        size_t L = strlen(hex);
        for (size_t i = 0; i < L && i / 2 < b.size(); ++i) {
          char c = hex[L - 1 - i];
          unsigned d = c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
          b[i / 2] |= d << (4 * (i % 2));
        }
        S->v[name] = b;
      }
      fclose(f);
    }
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_install_malloc_and_free_hooks(mh, fh);
#endif
  for (Entry *e = symx_entries; e->name; ++e)
    if (!strcmp(e->name, argv[1])) {
      counting = true;
      e->fn();
      counting = false;
      printf("SYMX-DONE\n");
      fflush(stdout);
      _exit(0);
    }
  fprintf(stderr, "no entry\n");
  return 3;
}
