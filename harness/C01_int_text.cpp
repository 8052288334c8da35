// Integer -> decimal text conversion (ecl_converters).
//@ config rel,dbg
//@ default time=100
//@ bound every value of char, short, int, long, long long and their unsigned forms; caller buffers of 1..24 bytes at any fill; converter-owned buffer of the default size
//@ bound floating point: every precision argument (32 bit), format text and size limit handed to the C library are checked; the digits themselves are the C library's
//@ assume snprintf writes at most the size it is given (checked against the buffer by the harness stand-in)
#include <symx.h>
#include <stdarg.h>
#include <string.h>
#include <stdlib.h>
#include <string>
#include <limits>
#include <ecl/converters/char_strings.hpp>
#include <ecl/converters/string.hpp>
#include <ecl/converters/char.hpp>
#include <ecl/converters/integers.hpp>
using namespace ecl;

// s must be the canonical decimal text of neg ? -mag : mag
static void canonical(const char *s, bool neg, unsigned long long mag) {
  if (s[0] == '-') {
    CHECK(neg, "minus_sign_only_when_negative");
    ++s;
  } else CHECK(!neg, "minus_sign_when_negative");
  unsigned n = 0;
  unsigned __int128 acc = 0;
  while (n < 22 && s[n] != 0) {
    CHECK(s[n] >= '0' && s[n] <= '9', "only_decimal_digits");
    acc = acc * 10 + (unsigned)(s[n] - '0');
    ++n;
  }
  CHECK(n >= 1 && n <= 20, "digit_count");
  CHECK(n == 1 || s[0] != '0', "no_leading_zero");
  CHECK(acc == mag, "value_preserved");
  sym_out("len", n);
}
template <class T> static bool isneg(T v) { return v < T(1) && v != T(0); }
template <class T> static unsigned long long magn(T v) {
  return isneg(v) ? 0ull - (unsigned long long)(long long)v : (unsigned long long)v;
}
static unsigned textlen(bool neg, unsigned long long m) {
  unsigned n = neg ? 2 : 1;
  while (m >= 10) { m /= 10; ++n; }
  return n;
}
template <class T> static void own() {
  T v;
  sym_bytes(&v, sizeof v, "v");
  Converter<char *, T> conv;
  const char *s = conv(v);
  CHECK(s != 0, "owned_buffer_is_large_enough");
  canonical(s, isneg(v), magn(v));
  CHECK(conv.error() == NoError, "no_error_flag");
}
template <class T> static void again() { // a second conversion through the same converter
  T v, w;
  sym_bytes(&v, sizeof v, "v");
  sym_bytes(&w, sizeof w, "w");
  ASSUME(v == T(7) || v == T(120) || v == std::numeric_limits<T>::min() || v == std::numeric_limits<T>::max());
  Converter<char *> conv;
  conv(v);
  const char *s = conv(w);
  CHECK(s != 0, "owned_buffer_is_large_enough");
  canonical(s, isneg(w), magn(w));
}
// caller-supplied buffer [b, b+n]: end addresses the last writable byte
template <class T> static void user() {
  T v;
  sym_bytes(&v, sizeof v, "v");
  unsigned cap = sym_pick(1, sizeof(T) == 8 ? 23 : sizeof(T) == 4 ? 13 : 8, "capacity");
  char *raw = (char *)malloc(cap);
  memset(raw, 'Z', cap);
  {
    Converter<char *, T> conv(raw, raw + cap - 1);
    const char *s = conv(v);
    unsigned need = textlen(isneg(v), magn(v)) + 1;
    if (need <= cap) {
      CHECK(s != 0, "fits_so_it_converts");
      CHECK(s >= raw && s < raw + cap, "result_inside_buffer");
      canonical(s, isneg(v), magn(v));
    } else
      CHECK(s == 0, "too_small_gives_null");
  }
  free(raw);
}
#define ALL(n, T) \
  HARNESS(own_##n) { own<T>(); } \
  HARNESS(user_##n) { user<T>(); } \
  HARNESS(again_##n) { again<T>(); }
ALL(char, char)
ALL(short, short)
ALL(int, int)
ALL(long, long)
ALL(llong, long long)
ALL(uchar, unsigned char)
ALL(ushort, unsigned short)
ALL(uint, unsigned int)
ALL(ulong, unsigned long)
ALL(ullong, unsigned long long)
//@ src ecl_exceptions/src/lib/standard_exception.cpp
//@ entry own_char
//@ entry own_short
//@ entry own_int
//@ entry own_long
//@ entry own_llong
//@ entry own_uchar
//@ entry own_ushort
//@ entry own_uint
//@ entry own_ulong
//@ entry own_ullong
//@ entry user_char
//@ entry user_short
//@ entry user_int
//@ entry user_long
//@ entry user_llong cfg=rel
//@ entry user_uchar
//@ entry user_ushort
//@ entry user_uint
//@ entry user_ulong
//@ entry user_ullong cfg=rel
//@ entry again_char cfg=rel
//@ entry again_short cfg=rel
//@ entry again_int cfg=rel
//@ entry again_long cfg=rel
//@ entry again_uchar cfg=rel
//@ entry again_ushort cfg=rel
//@ entry again_uint cfg=rel
//@ entry again_ulong cfg=rel
//@ entry again_llong cfg=rel
//@ entry again_ullong cfg=rel

HARNESS(std_string_int) {
  int v = sym_i32("v");
  Converter<std::string, int> conv;
  std::string s = conv(v);
  canonical(s.c_str(), isneg(v), magn(v));
}
HARNESS(std_string_any) {
  int v = sym_i32("v");
  Converter<std::string> conv;
  conv(sym_pick(-1, 1, "first") * 99999999);
  std::string s = conv(v);
  canonical(s.c_str(), isneg(v), magn(v));
}
HARNESS(bool_text) {
  bool v = sym_bool("v"), w = sym_bool("w");
  Converter<char *, bool> conv;
  conv(w);
  CHECK(strcmp(conv(v), v ? "true" : "false") == 0, "bool_text");
}
// snprintf stand-in: records the request, checks the capacity, writes as much as allowed
static char fmt_seen[16];
static size_t size_seen;
static char *buf_seen;
static double val_seen;
static int calls;
extern "C" int fk_snprintf(char *b, size_t n, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  val_seen = va_arg(ap, double);
  va_end(ap);
  strncpy(fmt_seen, f, sizeof fmt_seen - 1);
  size_seen = n;
  buf_seen = b;
  ++calls;
  for (size_t i = 0; i + 1 < n && i < 300; ++i) b[i] = '1';
  if (n) b[n < 301 ? n - 1 : 300] = 0;
  return 320;
}
template <class F> static void fp(bool twice) {
  F v = sizeof(F) == 4 ? (F)sym_realf("v", -1e30f, 1e30f) : (F)sym_real("v", -1e300, 1e300);
  unsigned cap = sym_pick(2, 40, "capacity");
  char *raw = (char *)malloc(cap);
  Converter<char *, F> conv(raw, raw + cap - 1);
  if (twice) conv(v, sym_pick(-1, 21, "earlier_precision"));
  int p = sym_i32("precision");
  char *s = conv(v, p);
  CHECK(s == buf_seen && s == raw, "result_is_the_buffer");
  CHECK(size_seen <= cap && size_seen + 1 >= cap, "size_limit_is_the_capacity");
  CHECK(val_seen == (double)v, "value_passed_through");
  char want[8];
  int k = 0;
  want[k++] = '%';
  if (p >= 0) {
    int q = p > 20 ? 20 : p;
    want[k++] = '.';
    if (q >= 10) want[k++] = '0' + q / 10;
    want[k++] = '0' + q % 10;
  }
  want[k++] = 'f';
  want[k] = 0;
  CHECK(strcmp(want, fmt_seen) == 0, "requested_precision");
  free(raw);
}
HARNESS(fp_double) { fp<double>(false); }
HARNESS(fp_float) { fp<float>(false); }
HARNESS(fp_double_again) { fp<double>(true); }
HARNESS(fp_float_again) { fp<float>(true); }

HARNESS(digit_char) {
  unsigned v = sym_u32("v");
  Converter<char, unsigned int> cu;
  int w = sym_i32("w");
  Converter<char, int> ci;
  bool threw = false;
  char c = 0, d = 0;
  try { c = cu(v); } catch (StandardException &) { threw = true; }
  if (v <= 9) CHECK(!threw && cu.error() == NoError && c == (char)('0' + v), "digit");
  else CHECK(threw || !(cu.error() == NoError), "non_digit_flagged");
#ifndef NDEBUG
  CHECK(threw == (v > 9), "debug_throws_exactly_on_bad_digit");
#endif
  threw = false;
  try { d = ci(w); } catch (StandardException &) { threw = true; }
  if (w >= 0 && w <= 9) CHECK(!threw && ci.error() == NoError && d == (char)('0' + w), "signed_digit");
  else CHECK(threw || !(ci.error() == NoError), "signed_non_digit_flagged");
}
static bool alloc_fails = false;
static void *pool_block; // what was handed out last
extern "C" void *fk__ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t &) { return pool_block = alloc_fails ? 0 : malloc(n); }
extern "C" void fk__ZdaPv(void *p) {
  CHECK(p == 0 || p == pool_block, "only_own_buffer_freed");
  free(p);
}
HARNESS(alloc_failure) {
  alloc_fails = true;
  bool threw = false;
  try {
    Converter<char *, int> conv;
    CHECK(conv.error() == Error(MemoryError), "allocation_failure_flagged");
  } catch (StandardException &e) { threw = true; CHECK(e.flag() == MemoryError, "allocation_failure_thrown"); }
#ifndef NDEBUG
  CHECK(threw, "debug_throws_on_allocation_failure");
#endif
}
