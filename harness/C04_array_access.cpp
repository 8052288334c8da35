// Element access of arrays and windows onto them (ecl_containers).
//@ config rel,dbg,mem
//@ src ecl_exceptions/src/lib/standard_exception.cpp
//@ default time=60
//@ bound fixed arrays of 1..5 elements, dynamic arrays of 0..5, raw buffers of 1..5; every 64-bit index, every 32-bit window start and length (release builds: windows inside the container); element values symbolic
//@ assume in release builds operator[] and window creation are only used within range (their checks are documented as debug-only)
#include <symx.h>
#include <string>
#include <vector>
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
using namespace ecl;
#ifdef NDEBUG
#define DEBUGBUILD 0
#else
#define DEBUGBUILD 1
#endif
template <class F> static int thrown(F f) { // 0 no, 1 out of range, 2 other
  try { f(); } catch (StandardException &e) { return e.flag() == OutOfRangeError ? 1 : 2; }
  return 0;
}
template <class A, class T> static void access(A &a, T *model, unsigned n) {
  const A &ca = a;
  CHECK(a.size() == n && ca.size() == n, "size");
  size_t i = sym_u64("index");
  T *p = 0;
  const T *cp = 0;
  int t = thrown([&] { p = &a.at(i); });
  CHECK(t == (i < n ? 0 : 1), "at_throws_exactly_out_of_range");
  int ct = thrown([&] { cp = &ca.at(i); });
  CHECK(ct == t, "const_at_same_range");
  if (i < n) {
    CHECK(*p == model[i] && cp == p, "at_reads_element");
    CHECK(thrown([&] { CHECK(&a[i] == p && &ca[i] == p, "index_same_element"); }) == 0, "index_in_range");
    CHECK(p == &*(a.begin() + i), "iterator_same_element");
    CHECK(&*(ca.begin() + i) == cp, "const_iterator_same_element");
    CHECK(&*(a.rbegin() + (n - 1 - i)) == p, "reverse_iterator_same_element");
    CHECK(&*(ca.rbegin() + (n - 1 - i)) == p, "const_reverse_iterator_same_element");
    T v = T(sym_u32("value"));
    a[i] = v;
    for (unsigned k = 0; k < n; ++k) CHECK(a[k] == (k == i ? v : model[k]), "write_touches_one_element");
    model[i] = v;
  } else if (DEBUGBUILD) {
    CHECK(thrown([&] { a[i]; }) == 1, "debug_index_checked");
    CHECK(thrown([&] { ca[i]; }) == 1, "debug_const_index_checked");
  }
  if (n) {
    CHECK(a.end() - a.begin() == (long)n && ca.end() - ca.begin() == (long)n, "range_length");
    CHECK(&a.front() == &a[0] && &a.back() == &a[n - 1], "front_back");
    CHECK(&ca.front() == &a[0] && &ca.back() == &a[n - 1], "const_front_back");
    CHECK(a.rend() - a.rbegin() == (long)n && ca.rend() - ca.rbegin() == (long)n, "reverse_range_length");
  }
}
template <class T, size_t N> static void fixed() {
  Array<T, N> a;
  T model[N];
  for (unsigned k = 0; k < N; ++k) a[k] = model[k] = T(sym_u32("e"));
  access(a, model, N);
}
HARNESS(fixed_int_1) { fixed<int, 1>(); }
HARNESS(fixed_int_3) { fixed<int, 3>(); }
HARNESS(fixed_char_5) { fixed<char, 5>(); }
HARNESS(fixed_double_2) { fixed<double, 2>(); }
HARNESS(dynamic) {
  unsigned n = sym_pick(0, 5, "n");
  Array<int> a(n);
  int model[5];
  for (unsigned k = 0; k < n; ++k) a[k] = model[k] = sym_i32("e");
  access(a, model, n);
}
HARNESS(dynamic_unsized) {
  Array<int> a;
  const Array<int> &ca = a;
  size_t i = sym_u64("index");
  CHECK(a.size() == 0, "size");
  CHECK(thrown([&] { a.at(i); }) == 1 && thrown([&] { ca.at(i); }) == 1, "at_throws_exactly_out_of_range");
  if (DEBUGBUILD) {
    CHECK(thrown([&] { a[i]; }) == 1 && thrown([&] { ca[i]; }) == 1, "debug_index_checked");
    CHECK(thrown([&] { a.front(); }) == 1 && thrown([&] { a.back(); }) == 1 && thrown([&] { a.begin(); }) == 1 && thrown([&] { a.end(); }) == 1, "debug_empty_checked");
    CHECK(thrown([&] { ca.front(); }) == 1 && thrown([&] { ca.back(); }) == 1 && thrown([&] { ca.begin(); }) == 1 && thrown([&] { ca.end(); }) == 1, "debug_const_empty_checked");
    CHECK(thrown([&] { a.rbegin(); }) == 1 && thrown([&] { a.rend(); }) == 1 && thrown([&] { ca.rbegin(); }) == 1 && thrown([&] { ca.rend(); }) == 1, "debug_reverse_empty_checked");
    CHECK(thrown([&] { a << 3; }) == 1, "debug_empty_initialiser_checked");
  }
}
// ---------------------------------------------------------------- windows
// a window [start, start+n) onto a container whose elements live at base[0..len)
template <class S, class T> static void window(S &s, T *base, unsigned len, unsigned start, unsigned n) {
  const S &cs = s;
  CHECK(s.size() == n, "window_size");
  CHECK(s.end() - s.begin() == (long)n && cs.end() - cs.begin() == (long)n, "window_range");
  CHECK(s.rend() - s.rbegin() == (long)n && cs.rend() - cs.rbegin() == (long)n, "window_reverse_range");
  if (n) {
    CHECK(&s.front() == base + start && &s.back() == base + start + n - 1, "window_front_back");
    CHECK(&cs.front() == base + start && &cs.back() == base + start + n - 1, "window_const_front_back");
    CHECK(&*s.rbegin() == base + start + n - 1 && &*cs.rbegin() == base + start + n - 1, "window_reverse");
  }
  unsigned long i = sym_u64("window_index");
  ASSUME(i < (1ul << 40)); // no pointer wrap-around
  T *p = 0;
  const T *cp = 0;
  int t = thrown([&] { p = (T *)&s.at(i); });
  int ct = thrown([&] { cp = &cs.at(i); });
  CHECK(t == ct && t != 2, "window_const_at_same");
  if (i < n) CHECK(t == 0 && p == base + start + i && cp == p, "window_at_element");
  if (t == 0) CHECK(p >= base && p < base + len, "window_at_stays_in_container");
  if (i >= len - start) CHECK(t == 1, "window_at_throws_past_container");
  if (i < n) CHECK(&s[i] == base + start + i && &cs[i] == base + start + i, "window_index_element");
  else if (DEBUGBUILD) {
    p = 0;
    t = thrown([&] { p = (T *)&s[i]; });
    if (t == 0) CHECK(p >= base && p < base + len, "window_index_stays_in_container");
    cp = 0;
    t = thrown([&] { cp = &cs[i]; });
    if (t == 0) CHECK(cp >= base && cp < base + len, "window_const_index_stays_in_container");
  }
}
template <class A> static void windows(A &a, unsigned len) {
  unsigned start = sym_u32("start"), n = sym_u32("n");
  bool ok = start < len && n <= len - start;
  if (!DEBUGBUILD) ASSUME(ok);
  ASSUME(ok || start < 16 || n < 16);
  bool made = false;
  int t = thrown([&] {
    Stencil<A> s = a.stencil(start, n);
    made = true;
    start = sym_concrete(start);
    n = sym_concrete(n);
    window(s, &*a.begin(), len, start, n);
  });
  if (ok) CHECK(t == 0 && made, "window_in_range_created");
  else CHECK(t == 1 && !made, "debug_window_out_of_range_refused");
}
HARNESS(window_fixed) {
  Array<int, 4> a;
  for (int i = 0; i < 4; ++i) a[i] = sym_i32("e");
  windows(a, 4);
}
HARNESS(window_dynamic) {
  unsigned n = sym_pick(1, 4, "len");
  Array<char> a(n);
  for (unsigned i = 0; i < n; ++i) a[i] = (char)sym_u8("e");
  windows(a, n);
}
template <class A> static void direct(A &a, unsigned len, bool nested) {
  unsigned start = sym_pick(0, 6, "start"), n = sym_pick(0, 6, "n");
  bool ok = start <= len && start + n <= len;
  if (!DEBUGBUILD) ASSUME(ok);
  bool made = false;
  int t = thrown([&] {
    Stencil<A> s(a, start, n);
    Stencil<A> s2(a, a.begin() + start, a.begin() + start + n);
    made = true;
    window(s, &*a.begin(), len, start, n);
    window(s2, &*a.begin(), len, start, n);
  });
  if (ok) CHECK(t == 0 && made, "window_in_range_created");
  else CHECK(t == 1 && !made, "debug_window_out_of_range_refused");
}
HARNESS(window_direct) {
  Array<int, 4> a;
  for (int i = 0; i < 4; ++i) a[i] = sym_i32("e");
  direct(a, 4, false);
}
HARNESS(window_vector) {
  std::vector<int> a(3);
  for (int i = 0; i < 3; ++i) a[i] = sym_i32("e");
  direct(a, 3, false);
}
HARNESS(window_string) {
  std::string a("abcd");
  for (int i = 0; i < 4; ++i) a[i] = (char)sym_u8("e");
  direct(a, 4, false);
}
template <class A> static void nested(A &a, unsigned len) { // window of a window, moving a window
  unsigned s0 = sym_pick(0, len - 1, "s0"), n0 = sym_pick(0, len, "n0");
  ASSUME(s0 + n0 <= len);
  Stencil<A> s(a, s0, n0);
  unsigned s1 = sym_pick(0, 3, "s1"), n1 = sym_pick(0, 4, "n1");
  if (sym_bool("resettle")) {
    bool ok = s1 <= len && s1 + n1 <= len;
    if (!DEBUGBUILD) ASSUME(ok);
    int t = thrown([&] { s.resettle(s1, n1); });
    CHECK(t == (ok ? 0 : 1), "resettle_checked");
    if (ok) window(s, &*a.begin(), len, s1, n1);
  } else {
    bool inside = s1 + n1 <= n0 && s0 + s1 < len; // within the outer window: must work
    bool outside = s0 + s1 + n1 > len;            // beyond the container: must not
    if (!DEBUGBUILD) ASSUME(inside);
    bool made = false;
    int t = thrown([&] {
      Stencil<A> w = s.stencil(s1, n1);
      made = true;
      window(w, &*a.begin(), len, s0 + s1, n1);
    });
    if (inside) CHECK(t == 0 && made, "nested_window_created");
    if (outside) CHECK(t == 1 && !made, "debug_nested_window_refused");
  }
}
HARNESS(window_nested) {
  Array<int, 3> a;
  for (int i = 0; i < 3; ++i) a[i] = sym_i32("e");
  nested(a, 3);
}
HARNESS(window_assign) {
  Array<int, 4> a, b;
  int ma[4], mb[4];
  for (int i = 0; i < 4; ++i) { a[i] = ma[i] = sym_i32("a"); b[i] = mb[i] = sym_i32("b"); }
  unsigned s0 = sym_pick(0, 2, "s0"), n0 = sym_pick(0, 2, "n0"), s1 = sym_pick(0, 2, "s1"), n1 = sym_pick(0, 2, "n1");
  Stencil<Array<int, 4> > x(a, s0, n0);
  if (sym_bool("same")) {
    Stencil<Array<int, 4> > y(a, s1, n1);
    x = y;
    window(x, &a[0], 4, s1, n1);
    for (int i = 0; i < 4; ++i) CHECK(a[i] == ma[i], "contents_kept");
  } else {
    Stencil<Array<int, 4> > y(b, s1, n1);
    if (!DEBUGBUILD) ASSUME(n1 <= n0);
    int t = thrown([&] { x = y; });
    CHECK(t == (n1 <= n0 ? 0 : 1), "debug_larger_source_refused");
    for (unsigned i = 0; i < 4; ++i) {
      CHECK(b[i] == mb[i], "source_kept");
      CHECK(a[i] == (t == 0 && i >= s0 && i < s0 + n1 ? mb[s1 + i - s0] : ma[i]), "contents_copied");
    }
  }
}
template <class P, class T> static void raw() {
  unsigned len = sym_pick(1, 4, "len");
  T *buf = (T *)malloc(len * sizeof(T));
  for (unsigned i = 0; i < len; ++i) buf[i] = T(sym_u32("e"));
  unsigned start = sym_pick(0, 5, "start"), n = sym_pick(0, 5, "n");
  bool ok = start <= len && start + n <= len;
  if (!DEBUGBUILD) ASSUME(ok);
  bool made = false;
  int t = thrown([&] {
    Stencil<P> s(buf, len, start, n);
    Stencil<P> s2(buf, len, buf + start, buf + start + n);
    made = true;
    window(s, buf, len, start, n);
    window(s2, buf, len, start, n);
    unsigned q = sym_pick(0, 2, "q");
    if (q <= n) {
      Stencil<P> w = s.stencil(q, n - q);
      window(w, buf, len, start + q, n - q);
      s2.resettle(0, q);
      window(s2, buf, len, 0, q);
      s2 = w;
      window(s2, buf, len, start + q, n - q);
    }
  });
  if (ok) CHECK(t == 0 && made, "window_in_range_created");
  else CHECK(t == 1 && !made, "debug_window_out_of_range_refused");
  free(buf);
}
HARNESS(window_raw_uchar) { raw<unsigned char *, unsigned char>(); }
HARNESS(window_raw_cuchar) { raw<const unsigned char *, unsigned char>(); }
// ---------------------------------------------------------------- comma initialisation
template <class A> static void comma(A &a, unsigned len) {
  unsigned k = sym_pick(1, 5, "count");
  if (!DEBUGBUILD) ASSUME(k <= len);
  int v[5], before[5];
  for (unsigned i = 0; i < 5; ++i) v[i] = sym_i32("v");
  for (unsigned i = 0; i < len; ++i) a[i] = before[i] = sym_i32("before");
  int t = thrown([&] {
    switch (k) {
    case 1: a << v[0]; break;
    case 2: a << v[0], v[1]; break;
    case 3: a << v[0], v[1], v[2]; break;
    case 4: a << v[0], v[1], v[2], v[3]; break;
    case 5: a << v[0], v[1], v[2], v[3], v[4]; break;
    }
  });
  CHECK(t == (k <= len ? 0 : 1), "debug_too_many_values_refused");
  for (unsigned i = 0; i < len; ++i) CHECK(a[i] == (i < k ? v[i] : before[i]), "values_stored_in_order");
}
HARNESS(comma_fixed) { Array<int, 3> a; comma(a, 3); }
HARNESS(comma_fixed5) { Array<int, 5> a; comma(a, 5); }
HARNESS(comma_dynamic) {
  unsigned n = sym_pick(1, 4, "len");
  Array<int> a(n);
  comma(a, n);
}
HARNESS(comma_window) {
  Array<int, 4> a;
  for (int i = 0; i < 4; ++i) a[i] = 100 + i;
  Stencil<Array<int, 4> > s(a, 1, 3);
  int v = sym_i32("v"), w = sym_i32("w");
  s << v, w;
  CHECK(a[0] == 100 && a[1] == v && a[2] == w && a[3] == 103, "values_stored_in_window");
}
HARNESS(comma_raw) {
  unsigned char b[4] = {1, 2, 3, 4};
  Stencil<unsigned char *> s(b, 4, 1, 2);
  unsigned char v = sym_u8("v"), w = sym_u8("w");
  s << v, w;
  CHECK(b[0] == 1 && b[1] == v && b[2] == w && b[3] == 4, "values_stored_in_window");
  if (DEBUGBUILD) CHECK(thrown([&] { s << v, w, v; }) == 1 && b[3] == 4, "debug_too_many_values_refused");
}
#ifdef ECL_MEM_CHECK_ARRAYS
//@ entry guard_sections cfg=mem
HARNESS(guard_sections) { // writes next to the storage are reported, writes inside are not
  unsigned n = sym_pick(1, 4, "len");
  Array<char> d(n);
  Array<char, 4> f;
  for (unsigned i = 0; i < n; ++i) d[i] = (char)sym_u8("e");
  for (unsigned i = 0; i < 4; ++i) f[i] = (char)sym_u8("e");
  CHECK(!d.bufferOverFlow() && !d.bufferOverRun() && !d.bufferUnderRun(), "clean_dynamic");
  CHECK(!f.bufferOverFlow() && !f.bufferOverRun() && !f.bufferUnderRun(), "clean_fixed");
  int k = sym_pick(0, 3, "offset");
  char v = (char)sym_u8("v");
  ASSUME(v != (char)0xCC);
  char *p = &d[0], *q = &f[0];
  if (sym_bool("over")) {
    p[n + k] = v;
    q[4 + k] = v;
    CHECK(d.bufferOverRun() && d.bufferOverFlow() && !d.bufferUnderRun(), "dynamic_overrun_seen");
    CHECK(f.bufferOverRun() && f.bufferOverFlow() && !f.bufferUnderRun(), "fixed_overrun_seen");
  } else {
    p[-1 - k] = v;
    q[-1 - k] = v;
    CHECK(d.bufferUnderRun() && d.bufferOverFlow() && !d.bufferOverRun(), "dynamic_underrun_seen");
    CHECK(f.bufferUnderRun() && f.bufferOverFlow() && !f.bufferOverRun(), "fixed_underrun_seen");
  }
  d.resize(3);
  CHECK(!d.bufferOverFlow(), "clean_after_resize");
}
#else
HARNESS(guard_sections) {}
#endif
