// Arrays as values: copies, assignment, resizing, clearing, constant blueprints,
// element lifetimes and failing allocations (ecl_containers).
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp
//@ default time=60
//@ bound dynamic arrays of 0..4 elements, fixed arrays of 1..4; every history of 3 (thorough: 4) operations (copy, assign, self-assign, resize, clear, blueprint, write) over two arrays, every allocation may fail once; contents symbolic; element types int and a type counting its own constructions
//@ outside element types whose own operations throw; non-trivial element types under ECL_MEM_CHECK_ARRAYS
#include <symx.h>
#include <new>
#include <ecl/containers/array.hpp>
using namespace ecl;
#ifdef SYMX_THOROUGH
#define STEPS 4
#else
#define STEPS 3
#endif
static long fail_at = -1; // the allocation that fails
#ifndef ECL_MEM_CHECK_ARRAYS
extern "C" void *_ZnamRKSt9nothrow_t(size_t, const void *);
extern "C" void *fk__Znam(size_t n) {
  if (fail_at == 0) { fail_at = -1; throw std::bad_alloc(); }
  if (fail_at > 0) --fail_at;
  return _ZnamRKSt9nothrow_t(n, 0);
}
#endif
static int live, ids;
struct Obj { // counts instances and knows whether it is alive
  int v;
  int magic;
  Obj() : v(0), magic(77) { ++live; }
  Obj(int x) : v(x), magic(77) { ++live; }
  Obj(const Obj &o) : v(o.v), magic(77) { CHECK(o.magic == 77, "copies_a_live_element"); ++live; }
  ~Obj() { CHECK(magic == 77, "destroys_a_live_element"); magic = 0; --live; }
  Obj &operator=(const Obj &o) { CHECK(magic == 77 && o.magic == 77, "assigns_live_elements"); v = o.v; return *this; }
};
static int val(const Obj &o) { return o.v; }
static int val(int o) { return o; }
struct Model {
  unsigned n;
  int v[4];
  bool known; // contents specified (not after a plain resize of a trivial type)
  Model() : n(0), known(true) {}
};
template <class T> static void agree(const Array<T> &a, const Model &m) {
  CHECK(a.size() == m.n, "size");
  if (m.known) for (unsigned i = 0; i < m.n; ++i) CHECK(val(a[i]) == m.v[i], "contents");
}
template <class T, bool OOM> static void history() {
  const long base = sym_live();
  {
    Array<T> a[2];
    Model m[2];
    for (int step = 0; step < STEPS; ++step) {
      int w = sym_pick(0, 1, "which");
      Array<T> &x = a[w], &y = a[1 - w];
      Model &mx = m[w], &my = m[1 - w];
      int op = sym_pick(0, 6, "op");
      unsigned n = 0;
      int v = 0;
      if (op == 0 || op == 5) { n = sym_pick(0, OOM ? 2 : 4, "n"); v = sym_i32("v"); }
      if (OOM) fail_at = sym_pick(-1, 0, "fail");
      bool failed = false;
      try {
        switch (op) {
        case 0: x.resize(n); break;
        case 1: x = y; break;
        case 2: x = x; break;
        case 3: x.clear(); break;
        case 4: { Array<T> c(y); fail_at = -1; agree(c, my); if (c.size()) { c[0] = T(12345); agree(y, my); } break; }
        case 5: {
          Array<T> c(Array<T>::Constant(n, T(v)));
          CHECK(c.size() == n, "constant_size");
          for (unsigned i = 0; i < n; ++i) CHECK(val(c[i]) == v, "constant_contents");
          if (OOM) { fail_at = -1; }
          if (n) x = c;
          else x.clear();
          break;
        }
        default: break;
        }
      } catch (std::bad_alloc &) { failed = true; CHECK(OOM, "no_spurious_failure"); }
      fail_at = -1;
      if (!failed) switch (op) {
        case 0: mx.n = n; mx.known = n == 0; break;
        case 1: mx = my; break;
        case 3: mx = Model(); break;
        case 5: mx.n = n; mx.known = true; for (unsigned i = 0; i < n; ++i) mx.v[i] = v; break;
      } else if (op == 0 || op == 1) {
        CHECK(x.size() == 0, "a_failed_resize_leaves_nothing_usable");
        mx = Model();
      }
      if (!mx.known) { for (unsigned i = 0; i < mx.n; ++i) { mx.v[i] = sym_i32("e"); x[i] = T(mx.v[i]); } mx.known = true; }
      if (op == 6 && mx.n) { unsigned i = sym_pick(0, mx.n - 1, "i"); mx.v[i] = sym_i32("e"); x[i] = T(mx.v[i]); }
      agree(x, mx);
      agree(y, my);
      CHECK(mx.n == 0 || my.n == 0 || &x[0] != &y[0], "arrays_never_share_storage");
    }
    if (sizeof(T) == sizeof(Obj)) CHECK(live == (int)(m[0].n + m[1].n), "live_elements");
  }
  CHECK(live == 0, "every_element_destroyed");
  CHECK(sym_live() == base, "no_storage_leaked");
}
//@ entry history_int cfg=rel,dbg,mem
HARNESS(history_int) { history<int, false>(); }
HARNESS(history_obj) {
#ifndef ECL_MEM_CHECK_ARRAYS
  history<Obj, false>();
#endif
}
HARNESS(oom_int) {
#ifndef ECL_MEM_CHECK_ARRAYS
  history<int, true>();
#endif
}
HARNESS(oom_obj) {
#ifndef ECL_MEM_CHECK_ARRAYS
  history<Obj, true>();
#endif
}
HARNESS(oom_construct) { // construction from a size under a failing allocation
  const long base = sym_live();
  unsigned n = sym_pick(0, 4, "n");
  fail_at = 0;
  bool failed = false;
  try { Array<int> a(n); } catch (std::bad_alloc &) { failed = true; }
  CHECK(failed, "failure_reported");
  CHECK(sym_live() == base, "no_storage_leaked");
}
//@ entry oom_construct cfg=rel,dbg
template <class T, size_t N> static void fixed() {
  const long base = sym_live();
  {
    int v = sym_i32("v"), e = sym_i32("e");
    Array<T, N> a(Array<T, N>::Constant(T(v)));
    for (unsigned i = 0; i < N; ++i) CHECK(val(a[i]) == v, "constant_contents");
    Array<T, N> b(a), c;
    unsigned i = sym_pick(0, N - 1, "i");
    b[i] = T(e);
    for (unsigned k = 0; k < N; ++k) CHECK(val(a[k]) == v && val(b[k]) == (k == i ? e : v), "copies_are_independent");
    c = b;
    b = b;
    for (unsigned k = 0; k < N; ++k) CHECK(val(c[k]) == val(b[k]) && val(c[k]) == (k == i ? e : v), "assigned_contents");
    c[i] = T(v);
    CHECK(val(b[i]) == e, "copies_are_independent");
    if (sizeof(T) == sizeof(Obj)) CHECK(live == 3 * (int)N, "live_elements");
  }
  CHECK(live == 0, "every_element_destroyed");
  CHECK(sym_live() == base, "no_storage_leaked");
}
//@ entry fixed_int3 cfg=rel,dbg,mem
HARNESS(fixed_int3) { fixed<int, 3>(); }
//@ entry fixed_int1 cfg=rel,dbg,mem
HARNESS(fixed_int1) { fixed<int, 1>(); }
HARNESS(fixed_obj4) { fixed<Obj, 4>(); }
HARNESS(sized) { // construction from a size
  const long base = sym_live();
  {
    unsigned n = sym_pick(0, 4, "n");
    Array<Obj> a(n);
    CHECK(a.size() == n && live == (int)n, "elements_constructed");
    a.clear();
    CHECK(a.size() == 0 && live == 0, "elements_destroyed");
    Array<Obj> b(a);
    CHECK(b.size() == 0, "copy_of_nothing");
  }
  CHECK(live == 0, "every_element_destroyed");
  CHECK(sym_live() == base, "no_storage_leaked");
}
