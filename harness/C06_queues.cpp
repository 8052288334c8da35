// FiFo (sliding window of fixed length) and PushAndPop (ring queue), ecl_containers.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp
//@ default time=80
//@ bound lengths 1..4 (PushAndPop 0..4), every history of 6 operations (thorough: 8) with every argument and all values symbolic, wrap-around included
//@ assume FiFo: length > 0 before use, indices 0..length-1; PushAndPop: indices 0..size()-1, no pop of an empty container in release builds (its check is documented as debug-only)
#include <symx.h>
#include <ecl/containers/array.hpp>
#include <ecl/containers/fifo.hpp>
#include <ecl/containers/push_and_pop.hpp>
using namespace ecl;
#ifdef SYMX_THOROUGH
#define STEPS 8
#else
#define STEPS 6
#endif
#ifdef NDEBUG
#define DEBUGBUILD 0
#else
#define DEBUGBUILD 1
#endif
struct Ref { // reference: a plain sequence
  int v[16];
  int n;
  Ref() : n(0) {}
  void push(int x) { v[n++] = x; }
  void drop() { for (int i = 1; i < n; ++i) v[i - 1] = v[i]; --n; }
};
static void same(FiFo<int> &f, Ref &r) {
  const FiFo<int> &cf = f;
  for (int i = 0; i < r.n; ++i) CHECK(f[i] == r.v[i] && &cf[i] == &f[i], "oldest_to_newest");
}
//@ entry fifo cfg=rel,dbg,mem
HARNESS(fifo) {
  unsigned n = sym_pick(1, 4, "length");
  int v0 = sym_i32("v");
  FiFo<int> f(n, v0);
  Ref r;
  for (unsigned i = 0; i < n; ++i) r.push(v0);
  same(f, r);
  for (int s = 0; s < STEPS; ++s) {
    int v = sym_i32("v");
    switch (sym_pick(0, 3, "op")) {
    case 0: case 1: f.push_back(v); r.drop(); r.push(v); break;
    case 2: { int i = sym_pick(0, n - 1, "i"); f[i] = v; r.v[i] = v; break; }
    case 3: f.fill(v); for (unsigned i = 0; i < n; ++i) r.v[i] = v; break;
    }
    same(f, r);
    CHECK(f.get_idx() < n, "index_in_storage");
  }
}
//@ entry fifo_resize cfg=rel,dbg,mem
HARNESS(fifo_resize) {
  unsigned n = sym_pick(0, 3, "length");
  int v0 = sym_i32("v");
  FiFo<int> f(n);
  if (n) f.fill(v0);
  unsigned pushes = sym_pick(0, 3, "pushes");
  if (n) for (unsigned i = 0; i < pushes; ++i) f.push_back(sym_i32("p"));
  unsigned m = sym_pick(0, 4, "new_length");
  if (!DEBUGBUILD) ASSUME(m > 0);
  bool threw = false;
  Ref before;
  for (unsigned i = 0; i < n; ++i) before.push(f[i]);
  try { f.resize(m); } catch (StandardException &e) { threw = true; CHECK(e.flag() == OutOfRangeError, "error_kind"); }
  CHECK(threw == (m == 0), "zero_length_refused");
  if (threw) { same(f, before); return; }
  Ref r;
  int w = sym_i32("w");
  f.fill(w);
  for (unsigned i = 0; i < m; ++i) r.push(w);
  same(f, r);
  for (int k = 0; k < 5; ++k) {
    int v = sym_i32("v");
    f.push_back(v);
    r.drop();
    r.push(v);
    same(f, r);
  }
}
HARNESS(fifo_copy) {
  FiFo<int> f(3, 1);
  int k = sym_pick(0, 4, "pushes");
  Ref r;
  for (int i = 0; i < 3; ++i) r.push(1);
  for (int i = 0; i < k; ++i) { int v = sym_i32("v"); f.push_back(v); r.drop(); r.push(v); }
  FiFo<int> g(f), h(2, 0);
  h = f;
  f.push_back(9);
  same(g, r);
  same(h, r);
}
template <class Q> static void same(Q &q, Ref &r) {
  const Q &cq = q;
  CHECK(q.size() == (unsigned)r.n, "size");
  for (int i = 0; i < r.n; ++i) CHECK(q[i] == r.v[i] && &cq[i] == &q[i], "oldest_to_newest");
}
template <class Q> static void pop(Q &q, Ref &r) {
  if (r.n == 0) {
    if (!DEBUGBUILD) return;
    bool threw = false;
    try { q.pop_front(); } catch (StandardException &e) { threw = true; CHECK(e.flag() == OutOfRangeError, "error_kind"); }
    CHECK(threw, "debug_pop_of_empty_refused");
    return;
  }
  int v = q.pop_front();
  CHECK(v == r.v[0], "pops_the_oldest");
  r.drop();
}
template <class Q> static void push(Q &q, Ref &r, int cap, int v) {
  q.push_back(v);
  r.push(v);
  if (r.n > cap) r.drop();
}
template <class Q> static void step(Q &q, Ref &r, int cap) {
  switch (sym_pick(0, 3, "op")) {
  case 0: push(q, r, cap, sym_i32("v")); break;
  case 1: pop(q, r); break;
  case 2: if (r.n) { int i = sym_pick(0, r.n - 1, "i"); r.v[i] = sym_i32("v"); q[i] = r.v[i]; } break;
  case 3: q.clear(); r.n = 0; break;
  }
  same(q, r);
}
template <class Q> static void history(Q &q, int cap, int steps) {
  Ref r;
  same(q, r);
  CHECK(q.asize() == (unsigned)cap + 1, "allocated_size");
  for (int s = 0; s < steps; ++s) step(q, r, cap);
}
HARNESS(ring_fixed1) { PushAndPop<int, 1> q; history(q, 1, STEPS); }
HARNESS(ring_fixed3) { PushAndPop<int, 3> q; history(q, 3, STEPS); }
HARNESS(ring_fixed4_long) { // long enough to wrap twice, values only
  PushAndPop<int, 4> q(7);
  Ref r;
  for (int s = 0; s < 9; ++s) { if (sym_bool("push")) push(q, r, 4, sym_i32("v")); else pop(q, r); same(q, r); }
}
//@ entry ring_dynamic cfg=rel,dbg,mem
HARNESS(ring_dynamic) {
  int n = sym_pick(0, 3, "length");
  PushAndPop<int> q(n);
  history(q, n, STEPS - 1);
}
HARNESS(ring_fill) { // filling writes storage but is not a push
  int n = sym_pick(1, 3, "length"), v = sym_i32("v");
  PushAndPop<int> q(n, v);
  CHECK(q.size() == 0, "filled_is_empty");
  for (int i = 0; i < n; ++i) CHECK(q[i] == v, "fill_value");
  PushAndPop<int, 2> f(v);
  CHECK(f.size() == 0 && f[0] == v && f[1] == v, "fill_value_fixed");
}
//@ entry ring_resize cfg=rel,dbg,mem
HARNESS(ring_resize) {
  int n = sym_pick(0, 3, "length");
  PushAndPop<int> q(n);
  Ref r;
  int k = sym_pick(0, 4, "pushes");
  for (int i = 0; i < k; ++i) push(q, r, n, i);
  int pops = sym_pick(0, 2, "pops");
  for (int i = 0; i < pops; ++i) pop(q, r);
  int m = sym_pick(0, 4, "new_length");
  q.resize(m);
  Ref e;
  same(q, e);
  for (int i = 0; i < 6; ++i) { push(q, e, m, sym_i32("v")); same(q, e); }
}
HARNESS(ring_default_then_resize) {
  PushAndPop<int> q;
  CHECK(q.size() == 0, "size");
  int m = sym_pick(0, 3, "new_length");
  q.resize(m);
  Ref e;
  for (int i = 0; i < 5; ++i) { push(q, e, m, sym_i32("v")); same(q, e); }
}
template <class Q> static void copying(Q &a, Q &b, int ca, int cb) {
  Ref ra, rb;
  int k = sym_pick(0, 4, "pushes_a"), l = sym_pick(0, 3, "pushes_b");
  for (int i = 0; i < k; ++i) push(a, ra, ca, sym_i32("v"));
  for (int i = 0; i < l; ++i) push(b, rb, cb, sym_i32("v"));
  if (sym_bool("popped")) { pop(a, ra); pop(b, rb); }
  switch (sym_pick(0, 2, "how")) {
  case 0: b(a); break;
  case 1: b = a; break;
  case 2: { Q c(a); same(c, ra); for (int i = 0; i < 3; ++i) push(c, ra, ca, 5), same(c, ra); return; }
  }
  same(b, ra);
  same(a, ra);
  Ref rc = ra;
  for (int i = 0; i < 4; ++i) { push(b, rc, ca, sym_i32("w")); same(b, rc); same(a, ra); }
}
HARNESS(ring_copy_fixed) { PushAndPop<int, 2> a, b; copying(a, b, 2, 2); }
HARNESS(ring_copy_dynamic) {
  int ca = sym_pick(0, 3, "ca"), cb = sym_pick(0, 3, "cb");
  PushAndPop<int> a(ca), b(cb);
  copying(a, b, ca, cb);
}
