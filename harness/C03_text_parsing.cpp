// Text -> bytes / integers (ecl_converters).
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp
//@ default time=100
//@ bound hexadecimal text of up to 9 arbitrary characters (two complete bytes and a partial token); every single character; decimal strings of up to 4 arbitrary characters
#include <symx.h>
#include <string>
#include <limits.h>
#include <vector>
#include <ecl/converters/to_byte_array.hpp>
#include <ecl/converters/integers.hpp>
#include <ecl/converters/char.hpp>
using namespace ecl;

static int hexv(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
// reference: spaces* ( '0' 'x' H H spaces* )*
static bool reference(const char *s, unsigned char *out, unsigned &n) {
  n = 0;
  for (;;) {
    while (*s == ' ') ++s;
    if (!*s) return true;
    if (s[0] != '0' || s[1] != 'x') return false;
    if (hexv(s[2]) < 0 || hexv(s[3]) < 0) return false;
    out[n++] = hexv(s[2]) * 16 + hexv(s[3]);
    s += 4;
  }
}
static void hex(unsigned maxlen) {
  unsigned len = sym_pick(0, maxlen, "length");
  char s[16];
  for (unsigned i = 0; i < len; ++i) {
    s[i] = (char)sym_u8("c");
    ASSUME(s[i] != 0);
  }
  s[len] = 0;
  unsigned char want[4];
  unsigned n;
  bool ok = reference(s, want, n);
  Converter<std::vector<char>, char *> conv;
  bool threw = false;
  std::vector<char> got;
  try { got = conv(s); } catch (StandardException &e) { threw = true; CHECK(e.flag() == ConversionError, "error_kind"); }
  if (ok) {
    CHECK(!threw && conv.error() == NoError, "well_formed_accepted");
    CHECK(got.size() == n, "byte_count");
    for (unsigned i = 0; i < n; ++i) CHECK((unsigned char)got[i] == want[i], "byte_value");
    sym_out("n", n);
  } else {
    CHECK(threw || conv.error() == Error(ConversionError), "malformed_flagged");
    CHECK(got.empty(), "nothing_returned_on_error");
  }
}
HARNESS(hex_text) { hex(9); }
HARNESS(hex_reuse) { // a converter that has seen a partial token starts afresh
  Converter<std::vector<char>, char *> conv;
  const char *first[] = {"0x12", "0", "0x", "0xf", "zz"};
  try { conv(first[sym_choose(5, "first")]); } catch (StandardException &) {}
  char s[5] = {'0', 'x', (char)sym_u8("h"), (char)sym_u8("l"), 0};
  ASSUME(hexv(s[2]) >= 0 && hexv(s[3]) >= 0);
  std::vector<char> b = conv(s);
  CHECK(b.size() == 1 && (unsigned char)b[0] == hexv(s[2]) * 16 + hexv(s[3]), "independent_of_history");
}
HARNESS(digit) {
  char c = (char)sym_u8("c");
  Converter<int, char> conv;
  bool threw = false;
  int v = 0;
  try { v = conv(c); } catch (StandardException &e) { threw = true; CHECK(e.flag() == ConversionError, "error_kind"); }
  bool ok = c >= '0' && c <= '9';
  if (ok) CHECK(!threw && conv.error() == NoError && v == c - '0', "digit_value");
  else {
    CHECK(threw || conv.error() == Error(ConversionError), "non_digit_flagged");
    CHECK(threw || v == -1, "documented_failure_value");
  }
#ifndef NDEBUG
  CHECK(threw == !ok, "debug_throws_exactly_on_error");
#endif
}
HARNESS(decimal) {
  unsigned len = sym_pick(0, 4, "length");
  std::string s;
  for (unsigned i = 0; i < len; ++i) {
    char c = (char)sym_u8("c");
    // leading blanks are a matter for the stream
    ASSUME(c != ' ' && !(c >= 9 && c <= 13));
    s.push_back(c);
  }
  unsigned k = 0;
  bool neg = false;
  if (k < len && (s[k] == '-' || s[k] == '+')) neg = s[k++] == '-';
  bool ok = k < len;
  int ref = 0;
  for (unsigned i = k; i < len; ++i) {
    if (s[i] < '0' || s[i] > '9') { ok = false; break; }
    ref = ref * 10 + (s[i] - '0');
  }
  Converter<int, std::string> conv;
  bool threw = false;
  int v = 0;
  try { v = conv(s); } catch (StandardException &e) { threw = true; CHECK(e.flag() == ConversionError, "error_kind"); }
  if (ok) CHECK(!threw && conv.error() == NoError && v == (neg ? -ref : ref), "decimal_value");
  else {
    CHECK(threw || conv.error() == Error(ConversionError), "malformed_decimal_flagged");
    CHECK(threw || v == INT_MIN, "documented_failure_value");
  }
}
