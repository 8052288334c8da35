// Formatters: what is printed is the value, padded as asked, with settings that last as long as documented.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_formatters/src/lib/strings.cpp
//@ default time=150
//@ bound every value of every integral type; widths below, at and above the length of the text; every alignment and base; every history of two setting changes or uses (thorough: three) followed by a plain use, on formatters built in storage of arbitrary content; floats of every bit pattern with 0 to 20 decimals and texts of 1 to 330 characters; strings of up to 4 arbitrary characters; containers of 3 elements
//@ assume snprintf with a fixed point conversion as documented (stand-in: an arbitrary text of the right length class, cut at the buffer's end); the text of integers is that of ecl::Converter (C01)
//@ outside scientific notation (the code says it is not supported); precisions above 20; setting parameters between handing over a value with temporary parameters and printing it; the column width FloatContainerFormatter chooses when none is given; empty containers
#include <symx.h>
#include <stdio.h>
#include <stdarg.h>
#include <string.h>
#include <string>
#include <ecl/formatters.hpp>
#include <ecl/converters/char_strings.hpp>
#include <ecl/containers/array.hpp>
#include <ecl/containers/stencil.hpp>
#include <ecl/containers/push_and_pop.hpp>
using namespace ecl;
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif
#ifdef SYMX_THOROUGH
static const int OPS = 3;
#else
static const int OPS = 2;
#endif

struct Sink {
  char buf[900];
  int n = 0, flushes = 0;
  void add(char c) {
    CHECK(n < (int)sizeof buf, "no more is printed than asked for");
    buf[n++] = c;
  }
  Sink &operator<<(char c) { add(c); return *this; }
  Sink &operator<<(const char *s) { while (*s) add(*s++); return *this; }
  Sink &operator<<(const std::string &s) { for (size_t i = 0; i < s.size(); ++i) add(s[i]); return *this; }
  Sink &flush() { ++flushes; return *this; }
};

// the text `body` of `n` characters in a field of width w
static int expect(const Sink &k, int from, const char *body, int n, int w, int a) {
  int fill = (w > n && a != NoAlign) ? w - n : 0;
  int pre = a == RightAlign ? fill : 0;
  if (a == CentreAlign) {
    pre = fill / 2;
    if (fill % 2 && from + fill + n <= k.n && k.buf[from + pre] == ' ' && (!n || body[0] != ' ')) ++pre;
  }
  CHECK(k.n >= from + n + fill, "the text is printed in full with its padding");
  bool ok = true;
  for (int i = 0; i < pre; ++i) ok &= k.buf[from + i] == ' ';
  for (int i = 0; i < n; ++i) ok &= k.buf[from + pre + i] == body[i];
  for (int i = pre; i < fill; ++i) ok &= k.buf[from + n + i] == ' ';
  CHECK(ok, "the text is the value, aligned in the width asked for");
  return from + n + fill;
}
template <class F> static void nothing(F &f, const char *what) {
  Sink k;
  bool threw = false;
  try {
    k << f;
  } catch (const StandardException &e) {
    threw = true;
    CHECK(e.flag() == UsageError, "using a formatter without a value is a usage error");
  }
  CHECK(threw == debug, "using a formatter without a value throws in debug builds only");
  CHECK(k.n == 0, what);
}

// ---------------------------------------------------------------- integers
template <class N> static int textof(N v, IntegralBase b, char *out) {
  typedef unsigned long U;
  int bits = 8 * sizeof(N);
  int n = 0;
  if (b == Dec) {
    static Converter<char *> conv;
    const char *s = conv(v);
    while (s[n]) out[n] = s[n], ++n;
    return n;
  }
  out[n++] = '0';
  out[n++] = b == Bin ? 'b' : 'x';
  int step = b == Bin ? 1 : 4;
  for (int i = bits - step; i >= 0; i -= step) {
    unsigned d = ((U)v >> i) & (b == Bin ? 1 : 15);
    out[n++] = d < 10 ? '0' + d : 'a' + (d - 10);
  }
  return n;
}
struct Model {
  int w, a, b;
  void width(int x) { w = x; if (w > 0 && a == NoAlign) a = RightAlign; }
  void align(int x) { a = x; if (a == NoAlign) w = 0; }
};
template <class N> static void printed(Format<N> &f, N v, const Model &m) {
  Sink k;
  k << f;
  char t[80];
  int n = textof<N>(v, (IntegralBase)m.b, t);
  int e = expect(k, 0, t, n, m.w, m.a);
  CHECK(k.n == e, "nothing else is printed");
}
template <class N> static N value() { return (N)sym_u64("value"); }

template <class N> static void values() {
  Dirty<Format<N>> d;
  IntegralBase b = (IntegralBase)sym_pick(Bin, Dec, "base");
  Model m = {-1, sym_pick(NoAlign, CentreAlign, "align"), b};
  N v = value<N>();
  char t[80];
  int n = textof<N>(v, b, t);
  const int off[] = {-1000, -1, 0, 1, 2, 5};
  m.w = n + off[sym_pick(0, 5, "width")];
  Format<N> &f = d.make(m.w, (Alignment)m.a, b);
  f(v);
  printed<N>(f, v, m);
  nothing(f, "a value is printed once");
}
HARNESS(char_values) { values<char>(); }
HARNESS(schar_values) { values<signed char>(); }
HARNESS(uchar_values) { values<unsigned char>(); }
HARNESS(short_values) { values<short>(); }
HARNESS(ushort_values) { values<unsigned short>(); }
HARNESS(int_values) { values<int>(); }
HARNESS(uint_values) { values<unsigned int>(); }
HARNESS(long_values) { values<long>(); }
HARNESS(ulong_values) { values<unsigned long>(); }

template <class N> static void step(Format<N> &f, Model &m, int op, int wide) {
  int w = sym_pick(0, 1, "w") ? wide : -1;
  N v = value<N>();
  Model t = m;
  int a, b;
  switch (op) {
  case 0: f.width(w); m.width(w); break;
  case 1: a = sym_pick(NoAlign, CentreAlign, "a"); f.align((Alignment)a); m.align(a); break;
  case 2: b = sym_pick(Bin, Dec, "b"); f.base((IntegralBase)b); m.b = b; break;
  case 3:
    a = sym_pick(NoAlign, RightAlign, "a"), b = sym_pick(Hex, Dec, "b");
    f(w, (Alignment)a, (IntegralBase)b);
    m.b = b; m.width(w); m.align(a);
    break;
  case 4: f(v); printed<N>(f, v, m); break;
  case 5:
    b = sym_pick(Hex, Dec, "b");
    f(v, w, (IntegralBase)b);
    t.b = b; t.width(w);
    printed<N>(f, v, t);
    break;
  default:
    a = sym_pick(NoAlign, CentreAlign, "a"), b = sym_pick(Bin, Dec, "b");
    f(v, w, (Alignment)a, (IntegralBase)b);
    t.b = b; t.width(w); t.align(a);
    printed<N>(f, v, t);
  }
}
template <class N> static void number_history(int first) {
  Dirty<Format<N>> d;
  Model m = {-1, NoAlign, Dec};
  if (sym_pick(0, 1, "defaults")) {
    d.make0();
  } else {
    m.w = sym_pick(0, 1, "w0") ? 6 : -1;
    m.a = sym_pick(NoAlign, LeftAlign, "a0");
    m.b = Hex;
    d.make(m.w, (Alignment)m.a, (IntegralBase)m.b);
  }
  Format<N> &f = d.get();
  step<N>(f, m, first, 9);
  for (int i = 1; i < OPS; ++i) step<N>(f, m, sym_pick(0, 6, "op"), 7);
  N v = value<N>();
  f(v);
  printed<N>(f, v, m);
}
HARNESS(number_width_first) { number_history<unsigned char>(0); }
HARNESS(number_align_first) { number_history<unsigned char>(1); }
HARNESS(number_base_first) { number_history<unsigned char>(2); }
HARNESS(number_combo_first) { number_history<unsigned char>(3); }
HARNESS(number_plain_first) { number_history<signed char>(4); }
HARNESS(number_temp_first) { number_history<signed char>(5); }
HARNESS(number_temp_all_first) { number_history<unsigned char>(6); }

HARNESS(number_copies) {
  Dirty<Format<signed char>> d, e;
  Model m = {sym_pick(0, 1, "w0") ? 6 : -1, sym_pick(NoAlign, CentreAlign, "a0"), sym_pick(Hex, Dec, "b0")};
  Format<signed char> &f = d.make(m.w, (Alignment)m.a, (IntegralBase)m.b);
  bool assign = sym_pick(0, 1, "assign");
  signed char v = value<signed char>(), u = value<signed char>();
  int when = sym_pick(0, 2, "when");                       // before a value, with one, with a temporary one
  Model t = m;
  if (when == 1) f(v);
  if (when == 2) { f(v, 8, LeftAlign, Bin); t = Model{8, LeftAlign, Bin}; }
  Format<signed char> &g = assign ? (e.make(3, RightAlign, Bin) = f) : e.make(f);
  f(2, RightAlign, Bin);
  f.width(1);
  f(1);
  if (sym_pick(0, 1, "gone")) {
    d.kill();
    memset(d.buf, 0x5a, sizeof d.buf);
  }
  if (when) printed<signed char>(g, v, when == 1 ? m : t);
  g(u);
  printed<signed char>(g, u, m);
}
HARNESS(number_unused) {
  Dirty<Format<unsigned int>> d;
  Format<unsigned int> &f = sym_pick(0, 1, "c") ? d.make(4, RightAlign, Hex) : d.make0();
  nothing(f, "a formatter without a value prints nothing");
  unsigned v = value<unsigned>();
  f(v, 12, Hex);
  Model m = {12, RightAlign, Hex};
  printed<unsigned>(f, v, m);
  nothing(f, "a value is printed once");
}

// ------------------------------------------------------------------ floats
static double given;
static int decimals, text_len, calls;
static char text[400];
static bool any_value;
extern "C" int fk_snprintf(char *o, size_t n, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  ++calls;
  CHECK(f[0] == '%' && f[1] == '.', "fixed point text is asked for");
  int i = 2, p = 0;
  if (f[i] == '*') {
    p = va_arg(ap, int);
    ++i;
  } else {
    for (; f[i] >= '0' && f[i] <= '9'; ++i) p = 10 * p + (f[i] - '0');
  }
  CHECK((f[i] == 'f' || f[i] == 'F') && f[i + 1] == 0, "fixed point text is asked for");
  CHECK(p == decimals, "the number of decimals is the precision");
  double x = va_arg(ap, double);
  va_end(ap);
  if (!any_value) {
    unsigned long a, b;
    memcpy(&a, &x, 8);
    memcpy(&b, &given, 8);
    CHECK(a == b, "the value printed is the one given");
  }
  for (size_t j = 0; j < n; ++j) {
    o[j] = j + 1 < n && j < (size_t)text_len ? text[j] : 0;
    if ((int)j == text_len) break;
  }
  return text_len;
}
static void new_text(int n) {
  text_len = n;
  for (int i = 0; i < n; ++i) text[i] = '0' + i % 10;
}
struct FModel {
  int w, a, p;
  void width(int x) { w = x; if (w > 0 && a == NoAlign) a = RightAlign; }
  void align(int x) { a = x; if (a == NoAlign) w = 0; }
};
template <class N> static N fvalue();
template <> float fvalue<float>() { return sym_f32("value"); }
template <> double fvalue<double>() { return sym_f64("value"); }
template <class N, class F> static void fexpect(N v, const FModel &m, F f) {
  given = v;
  ASSUME(v == v);
  decimals = m.p;
  calls = 0;
  Sink k;
  k << f();
  CHECK(calls == 1, "the value is printed once");
  int e = expect(k, 0, text, text_len, m.w, m.a);
  CHECK(k.n == e, "nothing else is printed");
}
template <class N> static void float_values() {
  Dirty<Format<N>> d;
  static const int lens[] = {1, 6, 29, 30, 31, 310, 330};
  new_text(lens[sym_pick(0, 6, "length")]);
  FModel m;
  m.a = sym_pick(NoAlign, CentreAlign, "align");
  m.p = sym_pick(0, 20, "precision");
  m.w = sym_pick(0, 1, "wide") ? text_len + 3 : text_len - 2;
  Format<N> &f = d.make(m.w, m.p, (Alignment)m.a, Fixed);
  CHECK(f.precision() == m.p && f.width() == m.w, "the settings read back");
  N v = fvalue<N>();
  fexpect<N>(v, m, [&]() -> Format<N> & { f(v); return f; });
  nothing(f, "a value is printed once");
}
HARNESS(float_values) { ::float_values<float>(); }
HARNESS(double_values) { ::float_values<double>(); }

template <class N> static void fstep(Format<N> &f, FModel &m, int op, int wide, int prec) {
  int w = sym_pick(0, 1, "w") ? wide : -1;
  N v = fvalue<N>();
  FModel t = m;
  int a;
  switch (op) {
  case 0: f.width(w); m.width(w); break;
  case 1: a = sym_pick(NoAlign, CentreAlign, "a"); f.align((Alignment)a); m.align(a); break;
  case 2: f.precision(prec); m.p = prec; break;
  case 3:
    a = sym_pick(NoAlign, CentreAlign, "a");
    f(prec, w, (Alignment)a, Fixed);
    m.p = prec; m.width(w); m.align(a);
    break;
  case 4: f((unsigned)prec, w); m.p = prec; m.width(w); break;
  case 5: fexpect<N>(v, m, [&]() -> Format<N> & { f(v); return f; }); break;
  case 6:
    t.p = prec; t.width(w);
    fexpect<N>(v, t, [&]() -> Format<N> & { f(v, (unsigned)prec, w); return f; });
    break;
  default:
    a = sym_pick(NoAlign, CentreAlign, "a");
    t.p = prec; t.width(w); t.align(a);
    fexpect<N>(v, t, [&]() -> Format<N> & { f(v, (unsigned)prec, w, (Alignment)a, Fixed); return f; });
  }
}
template <class N> static void float_history(int lo, int hi) {
  new_text(4);
  Dirty<Format<N>> d;
  FModel m = {-1, NoAlign, 4};
  if (sym_pick(0, 1, "defaults")) {
    d.make0();
  } else {
    m.w = sym_pick(0, 1, "w0") ? 6 : -1;
    m.a = sym_pick(NoAlign, LeftAlign, "a0");
    m.p = 11;
    d.make(m.w, m.p, (Alignment)m.a, Fixed);
  }
  Format<N> &f = d.get();
  fstep<N>(f, m, sym_pick(lo, hi, "op"), 9, 0);
  for (int i = 1; i < OPS; ++i) fstep<N>(f, m, sym_pick(0, 7, "op"), 7, 19);
  CHECK(f.precision() == m.p, "the stored precision reads back");
  N v = fvalue<N>();
  fexpect<N>(v, m, [&]() -> Format<N> & { f(v); return f; });
}
HARNESS(float_set_first) { float_history<float>(0, 4); }
HARNESS(float_use_first) { float_history<float>(5, 7); }
HARNESS(double_set_first) { float_history<double>(0, 4); }
HARNESS(double_use_first) { float_history<double>(5, 7); }
HARNESS(float_copies) {
  new_text(4);
  Dirty<Format<double>> d, e;
  FModel m = {sym_pick(0, 1, "w0") ? 6 : -1, sym_pick(NoAlign, CentreAlign, "a0"), 3};
  Format<double> &f = d.make(m.w, m.p, (Alignment)m.a, Fixed);
  bool assign = sym_pick(0, 1, "assign");
  double v = fvalue<double>(), u = fvalue<double>();
  int when = sym_pick(0, 2, "when");
  FModel t = m;
  if (when == 1) f(v);
  if (when == 2) { f(v, 8, 7, LeftAlign, Fixed); t = FModel{7, LeftAlign, 8}; }
  Format<double> &g = assign ? (e.make(3, 1, RightAlign, Fixed) = f) : e.make(f);
  f(2, 5, RightAlign, Fixed);
  f.precision(1);
  f.width(1);
  f(1.0);
  if (sym_pick(0, 1, "gone")) {
    d.kill();
    memset(d.buf, 0x5a, sizeof d.buf);
  }
  if (when) fexpect<double>(v, when == 1 ? m : t, [&]() -> Format<double> & { return g; });
  CHECK(g.precision() == m.p, "a copy keeps the precision");
  fexpect<double>(u, m, [&]() -> Format<double> & { g(u); return g; });
}
HARNESS(float_unused) {
  Dirty<Format<float>> d;
  Format<float> &f = sym_pick(0, 1, "c") ? d.make(4, 2, RightAlign, Fixed) : d.make0();
  nothing(f, "a formatter without a value prints nothing");
}

// ----------------------------------------------------------------- strings
struct SModel { int w, a; };
static char chars[8];
static std::string some_string(int n) {
  for (int i = 0; i < n; ++i) chars[i] = (char)(sym_u8("char"));
  for (int i = 0; i < n; ++i) ASSUME(chars[i] != 0);
  return std::string(chars, n);
}
static void sprinted(Format<std::string> &f, const char *s, int n, const SModel &m) {
  Sink k;
  k << f;
  ASSUME(n == 0 || s[0] != ' ');
  int e = expect(k, 0, s, n, m.w, m.a);
  CHECK(k.n == e, "nothing else is printed");
}
static void sstep(Format<std::string> &f, SModel &m, int op, int wide) {
  int w = sym_pick(0, 1, "w") ? wide : -1;
  int a = sym_pick(NoAlign, CentreAlign, "a");
  char local[4];
  int n = sym_pick(0, 1, "len") * 3;
  std::string s = some_string(n);
  memcpy(local, chars, 4);
  switch (op) {
  case 0: f.width(w); m.w = w; break;
  case 1: f.align((Alignment)a); m.a = a; break;
  case 2: f(w, (Alignment)a); m.w = w; m.a = a; break;
  case 3: f(s); sprinted(f, local, n, m); break;
  case 4: f(s, w); sprinted(f, local, n, SModel{w, m.a}); break;
  default: f(s, w, (Alignment)a); sprinted(f, local, n, SModel{w, a});
  }
}
static void string_history(int first) {
  Dirty<Format<std::string>> d;
  SModel m = {-1, NoAlign};
  if (sym_pick(0, 1, "defaults")) {
    d.make0();
  } else {
    m.w = 6, m.a = sym_pick(NoAlign, CentreAlign, "a0");
    d.make(m.w, (Alignment)m.a);
  }
  sstep(d.get(), m, first, 5);
  if (OPS > 2) sstep(d.get(), m, sym_pick(0, 5, "op"), 4);
  std::string s = some_string(4);
  d.get()(s);
  sprinted(d.get(), chars, 4, m);
  nothing(d.get(), "a string is printed once");
  d.kill();
}
HARNESS(string_width) { string_history(0); }
HARNESS(string_align) { string_history(1); }
HARNESS(string_both) { string_history(2); }
HARNESS(string_plain) { string_history(3); }
HARNESS(string_temp_width) { string_history(4); }
HARNESS(string_temp_both) { string_history(5); }
HARNESS(string_unused) {
  Dirty<Format<std::string>> d;
  if (sym_pick(0, 1, "c")) d.make(4, RightAlign); else d.make0();
  nothing(d.get(), "a formatter without a string prints nothing");
}

// -------------------------------------------------------------- containers
template <class B> static void byte_text(const Sink &k, const B *v, int n) {
  CHECK(k.n == 3 + 5 * n && k.buf[0] == '[' && k.buf[1] == ' ' && k.buf[k.n - 1] == ']', "a byte container prints one word per element");
  for (int i = 0; i < n; ++i) {
    char t[80];
    textof<B>(v[i], Hex, t);
    bool ok = true;
    for (int j = 0; j < 4; ++j) ok &= k.buf[2 + 5 * i + j] == t[j];
    CHECK(ok && k.buf[6 + 5 * i] == ' ', "every byte is printed in hexadecimal, in order");
  }
}
template <class B> static void byte_containers() {
  Array<B, 3> a;
  B v[3];
  for (int i = 0; i < 3; ++i) a[i] = v[i] = value<B>();
  typename Array<B, 3>::Formatter f;
  {
    Sink k;
    k << f(a);
    byte_text(k, v, 3);
  }
  {
    Sink k;
    k << f(a.begin() + 1, a.end());
    byte_text(k, v + 1, 2);
  }
  {
    Sink k;
    k << f(a.stencil(0, 2));
    byte_text(k, v, 2);
  }
}
HARNESS(uchar_arrays) { byte_containers<unsigned char>(); }
HARNESS(char_arrays) { byte_containers<char>(); }
HARNESS(byte_push_and_pop) {
  PushAndPop<unsigned char, 3> p;
  unsigned char v[5];
  int n = sym_pick(0, 5, "pushed");
  for (int i = 0; i < n; ++i) p.push_back(v[i] = value<unsigned char>());
  formatters::PushAndPopFormatter<unsigned char, 3> f;
  Sink k;
  k << f(p);
  int kept = (int)p.size();
  byte_text(k, v + n - kept, kept);
}
template <class N> static void float_text(const Sink &k, int n, int w) {
  int len = text_len < w ? w : text_len;
  CHECK(k.n == 3 + (len + 1) * n && k.buf[0] == '[' && k.buf[1] == ' ' && k.buf[k.n - 1] == ']', "a float container prints one word per element");
  int at = 2;
  for (int i = 0; i < n; ++i) {
    at = expect(k, at, text, text_len, w, RightAlign);
    CHECK(k.buf[at++] == ' ', "elements are separated");
  }
}
template <class N> static void float_containers() {
  new_text(5);
  any_value = true;
  Array<N, 3> a;
  for (int i = 0; i < 3; ++i) a[i] = (N)1;
  typedef typename Array<N, 3>::Formatter F;
  Dirty<F> d, e;
  int w0 = sym_pick(0, 1, "w0") ? 4 : 8, p0 = 3;
  F *f = &d.make(p0, w0);
  int op = sym_pick(0, 4, "op");
  int w = w0, p = p0;
  if (op == 1) { f->width(w = 7); }
  if (op == 2) { f->precision(p = 6); }
  if (op == 3) { (*f)(p = 5, w = 9); }
  if (op == 4) {
    Sink k;
    decimals = 1;
    k << (*f)(a, 1, 11);
    float_text<N>(k, 3, 11);
  }
  if (sym_pick(0, 1, "copy")) {
    f = &e.make(*f);
    d.get().width(2);
    d.kill();
    memset(d.buf, 0x5a, sizeof d.buf);
  }
  decimals = p;
  calls = 0;
  Sink k;
  k << (*f)(a);
  CHECK(calls == 3, "every element is printed once");
  float_text<N>(k, 3, w);
  nothing(*f, "a container is printed once");
}
HARNESS(float_arrays) { float_containers<float>(); }
HARNESS(double_arrays) { float_containers<double>(); }
