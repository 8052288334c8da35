// In-memory devices: fixed character buffers and the growing string device (ecl_devices).
//@ config rel,dbg
//@ src ecl_devices/src/lib/detail/character_buffer.cpp ecl_devices/src/lib/string.cpp
//@ default time=90
//@ bound fixed buffers: every history of 3 appends/clears whose lengths lie near 0, the remaining room and beyond it, contents symbolic; string device: initial text of 0..3 bytes (and long ones around the growth step), every history of 4 (thorough: 5) reads/writes/clears with lengths 0..3 and around 256, contents and embedded zero bytes symbolic, allocation failure in clear
//@ outside strings beyond 2^31 bytes, writing a device's own buffer to itself
#include <symx.h>
#include <new>
#include <string>
#include <string.h>
#include <ecl/devices/detail/character_buffer.hpp>
#include <ecl/devices/string.hpp>
using namespace ecl;
#ifdef SYMX_THOROUGH
#define STEPS 5
#else
#define STEPS 4
#endif
static char pattern[5000];
static void fillpattern() { for (int i = 0; i < 5000; ++i) pattern[i] = (char)(i * 7 + 1); }
template <class B> static unsigned used(B &b) { return B::buffer_size - b.remaining(); }
static char *data(devices::CharBuffer &b) { return b.c_ptr(); }
static const char *data(devices::CharStringBuffer &b) {
  const char *p = b.c_str();
  CHECK(p[used(b)] == 0, "terminated");
  return p;
}
static unsigned sz(devices::CharBuffer &b) { return b.size(); }
static unsigned sz(devices::CharStringBuffer &b) { return used(b); }
template <class B> static void buffers() {
  fillpattern();
  B *pb = new B();
  B &b = *pb;
  const unsigned cap = B::buffer_size;
  static char model[5000];
  unsigned n = 0;
  char tail = (char)sym_u8("tail");
  for (int s = 0; s < 3; ++s) {
    switch (sym_pick(0, 2, "op")) {
    case 0: {
      char c = (char)sym_u8("c");
      long r = b.append(c);
      CHECK(r == (n < cap ? 1 : 0), "single_append_count");
      if (n < cap) model[n++] = c;
      break;
    }
    case 1: {
      int k = sym_pick(0, 7, "length");
      unsigned long room = cap - n, len = k == 0 ? 0 : k == 1 ? 3 : k == 2 ? room - (room > 0) : k == 3 ? room : k == 4 ? room + 1 : k == 5 ? room / 2 : k == 6 ? 1 : room + 20;
      if (len) pattern[len - 1] = tail;
      long r = b.append(pattern, len);
      unsigned long took = len < room ? len : room;
      CHECK(r == (long)took, "append_takes_what_fits");
      memcpy(model + n, pattern, took);
      n += took;
      break;
    }
    case 2: b.clear(); n = 0; break;
    }
    CHECK(sz(b) == n && b.remaining() == cap - n && b.full() == (n == cap), "bookkeeping");
  }
  const char *d = data(b);
  unsigned i = sym_pick(0, 4, "at");
  unsigned at = i == 0 ? 0 : i == 1 ? n / 2 : i == 2 ? n - 1 : i == 3 ? n - 2 : n / 3;
  if (at < n) CHECK(d[at] == model[at], "contents");
  CHECK(memcmp(d, model, n < 64 ? n : 64) == 0, "contents");
  delete pb;
}
HARNESS(char_buffer) { buffers<devices::CharBuffer>(); }
HARNESS(char_string_buffer) { buffers<devices::CharStringBuffer>(); }
// ---------------------------------------------------------------- string device
static int fail_clear;
extern "C" void *_ZnamRKSt9nothrow_t(size_t, const void *);
extern "C" void *fk__Znam(size_t n) {
  if (fail_clear) { fail_clear = 0; throw std::bad_alloc(); }
  return _ZnamRKSt9nothrow_t(n, 0);
}
struct Model { char v[1400]; unsigned n, rd; };
static Model m;
static void agree(String &s) {
  CHECK(s.size() == m.n, "size");
  CHECK(s.remaining() == m.n - m.rd, "remaining");
  const char *c = s.c_str();
  CHECK(c[m.n] == 0, "terminated");
  CHECK(s.isOpen() && s.open(), "always_open");
}
static void contents(String &s) {
  const char *c = s.c_str();
  std::string t = s.str();
  CHECK(t.size() == m.n, "str_size");
  bool ok = true, ok2 = true;
  for (unsigned i = 0; i < m.n; ++i) { ok &= c[i] == m.v[i]; ok2 &= t[i] == m.v[i]; }
  CHECK(ok, "text_contents");
  CHECK(ok2, "str_contents");
}
static void readsome(String &s, unsigned k) {
  char buf[1400];
  buf[k] = 0x33;
  unsigned avail = m.n - m.rd, want = k < avail ? k : avail;
  long r = s.read(buf, k);
  CHECK(r == (long)want, "read_count");
  bool ok = true;
  for (unsigned i = 0; i < want; ++i) ok &= buf[i] == m.v[m.rd + i];
  CHECK(ok, "reads_in_order");
  CHECK(buf[k] == 0x33, "read_stays_in_the_callers_buffer");
  m.rd += want;
}
static void writesome(String &s, const char *p, unsigned k) {
  CHECK(s.write(p, k) == (long)k, "write_count");
  memcpy(m.v + m.n, p, k);
  m.n += k;
}
static void step(String &s) {
  switch (sym_pick(0, 4, "op")) {
  case 0: {
    char c = (char)sym_u8("c");
    CHECK(s.write(c) == 1, "write_count");
    m.v[m.n++] = c;
    break;
  }
  case 1: {
    char b[3];
    sym_bytes(b, 3, "bytes");
    writesome(s, b, sym_pick(0, 3, "k"));
    break;
  }
  case 2: {
    char c = 0x44;
    long r = s.read(c);
    if (m.rd < m.n) { CHECK(r == 1 && c == m.v[m.rd], "reads_in_order"); ++m.rd; }
    else CHECK(r == 0 && c == 0x44, "nothing_left");
    break;
  }
  case 3: readsome(s, sym_pick(1, 3, "k")); break;
  case 4: s.clear(); m.n = m.rd = 0; break;
  }
}
HARNESS(string_history) {
  char init[4];
  unsigned n = sym_pick(0, 2, "initial");
  for (unsigned i = 0; i < n; ++i) { init[i] = (char)sym_u8("c"); ASSUME(init[i] != 0); }
  init[n] = 0;
  const long base = sym_live();
  {
    String s(init);
    memcpy(m.v, init, n);
    m.n = n;
    m.rd = 0;
    agree(s);
    for (int k = 0; k < STEPS; ++k) { step(s); agree(s); }
    contents(s);
  }
  CHECK(sym_live() == base, "storage_returned");
}
HARNESS(string_growth) { // single characters across several growth steps
  fillpattern();
  String s(sym_bool("initial") ? "abc" : "");
  m.n = s.size();
  memcpy(m.v, "abc", m.n);
  m.rd = 0;
  if (sym_bool("cleared")) { s.clear(); m.n = 0; }
  int total = 255 + sym_pick(0, 3, "count") + 256 * sym_pick(0, 1, "more");
  char special = (char)sym_u8("c");
  for (int i = 0; i < total; ++i) { char c = i == total - 1 ? special : pattern[i]; CHECK(s.write(c) == 1, "write_count"); m.v[m.n++] = c; }
  agree(s);
  readsome(s, sym_bool("all") ? m.n : 7);
  agree(s);
  contents(s);
}
HARNESS(string_growth_blocks) {
  fillpattern();
  String s;
  m.n = m.rd = 0;
  for (int k = 0; k < 3; ++k) {
    int w = sym_pick(0, 4, "block");
    writesome(s, pattern + k, w == 0 ? 1 : w == 1 ? 255 : w == 2 ? 256 : w == 3 ? 257 : 300);
    agree(s);
    if (sym_bool("char")) { char c = (char)sym_u8("c"); s.write(c); m.v[m.n++] = c; agree(s); }
    if (k == 0) readsome(s, 2);
  }
  readsome(s, m.n);
  contents(s);
}
HARNESS(string_clear_oom) {
  const long base = sym_live();
  {
    String s("abc");
    fail_clear = 1;
    bool threw = false;
    try { s.clear(); } catch (std::bad_alloc &) { threw = true; }
    CHECK(threw && s.size() == 3, "failed_clear_keeps_the_text");
  }
  CHECK(sym_live() == base, "storage_returned");
}
