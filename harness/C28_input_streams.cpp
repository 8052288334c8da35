// Input text streams: what is read is exactly the value written in the text; failures show and change nothing.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_formatters/src/lib/strings.cpp ecl_streams/src/lib/manipulators.cpp
//@ src ecl_devices/src/lib/string.cpp ecl_devices/src/lib/detail/error_handler.cpp ecl_devices/src/lib/detail/exception_handler_pos.cpp ecl_devices/src/lib/detail/character_buffer.cpp
//@ default time=150
//@ bound integers of every type: all texts of up to 3 (thorough: 4) characters, and every text that continues a prefix near a limit of the type by up to 3 characters; floats with up to 3 digits of any value and with up to 40 digits of a fixed value; words of up to 4 (thorough: 5) characters; the device ends or fails after any of them
//@ assume floats are read in real arithmetic, and compared to 1e-12 (double) or 1e-5 (float) relative
//@ outside what follows a number without white space between ("5abc"); exponents; tabs as white space; devices that recover after an end or an error
#include "fs_model.hpp"
#include <string>
#include <cstring>
#include <limits>
#include <unistd.h>
#include <ecl/streams/text_stream.hpp>
#include <ecl/streams/string_stream.hpp>
using namespace ecl;
#ifdef SYMX_THOROUGH
static const int NARROW = 4, WORDS = 5;
#else
static const int NARROW = 3, WORDS = 4;
#endif
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif

// ------------------------------------------------ a device of our own
static char text[80];
static int len, at;
static bool fails_at_end, is_open = true;
class Dev {
public:
  bool open() { return is_open; }
  long read(char &c) {
    if (at < len) { c = text[at++]; return 1; }
    return fails_at_end ? -1 : 0;
  }
  long read(char *s, unsigned long n) {
    unsigned long i = 0;
    while (i < n && at < len) s[i++] = text[at++];
    return i == 0 && fails_at_end ? -1 : (long)i;
  }
};
namespace ecl {
template <> class is_source<Dev> : public True {};
}
typedef TextStream<Dev> In;

static bool space(char c) { return c == ' ' || c == '\n'; }
static bool digit(char c) { return c >= '0' && c <= '9'; }
static void put(const char *s) { while (*s) text[len++] = *s++; }

template <class T> static bool get(In &s, T &v) { // false: refused for not being open
  try {
    s >> v;
    return true;
  } catch (const StandardException &e) {
    CHECK(debug && !is_open && e.flag() == OpenError, "only streaming from a closed device is refused");
    return false;
  }
}

// ------------------------------------------------ integers
// What the text says, by its grammar. outcome: 0 value, 1 out of range, 2 not a number, 3 ended or failed too early
template <class N> struct Reading {
  typedef std::numeric_limits<N> L;
  int outcome = 3, used = 0;
  bool open_ended = false; // the number runs into something other than white space
  bool negative = false;
  unsigned __int128 mag = 0;
  Reading() {
    int i = 0;
    while (i < len && space(text[i])) ++i;
    if (i == len) return;
    bool hex = false;
    if (L::is_signed && text[i] == '-') { negative = true; ++i; }
    else if (text[i] == '+') ++i;
    else if (text[i] == 'x') { hex = true; ++i; }
    else if (text[i] == '0' && i + 1 < len && text[i + 1] == 'x') { hex = true; i += 2; }
    if (i == len) return;
    int n = 0;
    for (; i < len; ++i, ++n) {
      char c = text[i];
      int d = digit(c) ? c - '0' : hex && c >= 'a' && c <= 'f' ? c - 'a' + 10 : hex && c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
      if (d < 0) break;
      mag = mag * (hex ? 16 : 10) + d;
    }
    if (n == 0) { outcome = 2; return; }
    used = i < len ? i + 1 : i;
    if (i == len && fails_at_end) { outcome = 3; return; }
    if (i < len && !space(text[i])) open_ended = true;
    unsigned __int128 limit = (unsigned __int128)L::max() + (negative ? 1 : 0);
    outcome = mag > limit ? 1 : 0;
  }
};
template <class N> static void integer() {
  fails_at_end = sym_bool("device fails");
  is_open = sym_pick(0, 9, "open") != 0;
  Dirty<In> d;
  In &s = d.make();
  CHECK(!s.fail(), "a new stream has not failed");
  N before = (N)sym_u8("before"), v = before;
  if (!get(s, v)) {
    CHECK(v == before && at == 0, "a refused read changes nothing");
    d.kill();
    return;
  }
  if (!is_open) { d.kill(); return; }
  Reading<N> r;
  ErrorFlag e = s.errorStatus().flag();
  CHECK(s.fail() == (e != NoError), "fail() tells of any error");
  if (r.outcome != 0) {
    CHECK(s.fail(), "what is not a number of the type is an error");
    CHECK(v == before, "a failed read leaves the value alone");
    if (r.outcome == 1 && !r.open_ended) CHECK(e == OutOfRangeError, "a number beyond the type is out of range");
    if (r.outcome == 3) CHECK(e == ReadError, "a failing device is a read error");
    if (r.outcome == 2) CHECK(e == ConversionError || e == ReadError, "text that is not a number is an error");
  } else if (!r.open_ended) {
    CHECK(!s.fail(), "a number is read without error");
    CHECK(v == (N)(r.negative ? -(__int128)r.mag : (__int128)r.mag), "the number read is the number written");
    CHECK(at == r.used, "the number and what ends it are consumed, no more");
  }
  d.kill();
}
template <class N> static void narrow(int prefix_spaces) {
  for (int i = 0; i < prefix_spaces; ++i) text[len++] = ' ';
  int n = sym_pick(0, NARROW, "length");
  sym_bytes(text + len, n, "text");
  len += n;
  integer<N>();
}
HARNESS(short_texts_short) { narrow<short>(0); }
HARNESS(short_texts_unsigned_short) { narrow<unsigned short>(0); }
HARNESS(short_texts_unsigned_char) { narrow<unsigned char>(0); }
HARNESS(short_texts_int) { narrow<int>(0); }
HARNESS(short_texts_unsigned_int) { narrow<unsigned int>(0); }
HARNESS(short_texts_long) { narrow<long>(1); }
HARNESS(short_texts_unsigned_long) { narrow<unsigned long>(1); }
HARNESS(short_texts_long_long) { narrow<long long>(1); }
HARNESS(short_texts_unsigned_long_long) { narrow<unsigned long long>(1); }
template <class N> static void wide(const char *dec, const char *negdec, const char *hex) {
  static const char *const lead[4] = {"", "-", "+", "0x"};
  int k = sym_pick(0, std::numeric_limits<N>::is_signed ? 3 : 2, "form");
  if (!std::numeric_limits<N>::is_signed && k > 0) ++k;
  if (sym_pick(0, 1, "space")) text[len++] = '\n';
  put(lead[k]);
  put(k == 1 ? negdec : k == 3 ? hex : dec);
  int n = sym_pick(0, 3, "more");
  sym_bytes(text + len, n, "text");
  len += n;
  integer<N>();
}
HARNESS(shorts) { wide<short>("327", "327", "7f"); }
HARNESS(unsigned_shorts) { wide<unsigned short>("655", "", "fF"); }
HARNESS(unsigned_chars) { wide<unsigned char>("2", "", ""); }
HARNESS(ints) { wide<int>("21474836", "21474836", "7fffff"); }
HARNESS(unsigned_ints) { wide<unsigned int>("42949672", "", "ffffff"); }
HARNESS(longs) { wide<long>("92233720368547758", "92233720368547758", "7fffFFFffffffF"); }
HARNESS(unsigned_longs) { wide<unsigned long>("184467440737095516", "", "ffffffffFfffff"); }
HARNESS(long_longs) { wide<long long>("92233720368547758", "92233720368547758", "7ffffffffFffff"); }
HARNESS(unsigned_long_longs) { wide<unsigned long long>("184467440737095516", "", "FfffffffFfffff"); }

// ------------------------------------------------ floats
static int sym_digit() {
  int d = sym_u8("digit") & 15;
  ASSUME(d < 10);
  return d;
}
template <class T> static void real() {
  static const int pow10[4] = {1, 10, 100, 1000};
  int whole = sym_pick(0, 3, "whole"), frac = sym_pick(-1, 3 - whole, "frac"); // -1: no point
  int sign = sym_pick(0, 2, "sign"), term = sym_pick(0, 3, "end");
  if (sym_pick(0, 1, "space")) put(" \n");
  if (sign) text[len++] = sign == 1 ? '-' : '+';
  int mant = 0;
  for (int i = 0; i < whole; ++i) {
    int d = sym_digit();
    text[len++] = '0' + d;
    mant = mant * 10 + d;
  }
  if (frac >= 0) text[len++] = '.';
  for (int i = 0; i < frac; ++i) {
    int d = sym_digit();
    text[len++] = '0' + d;
    mant = mant * 10 + d;
  }
  int number_ends = len;
  fails_at_end = term == 3;
  if (term == 1) put(" ");
  if (term == 2) put("\n7");
  Dirty<In> d;
  In &s = d.make();
  T v = (T)-17;
  s >> v;
  bool empty = whole == 0 && frac < 1;
  if (empty && frac < 0 && !sign) { s.errorStatus(); d.kill(); return; } // only white space
  if (empty || term == 3) {
    CHECK(s.fail() && s.errorStatus().flag() != NoError, "what is not a number, or a failing device, is an error");
    CHECK(v == (T)-17, "a failed read leaves the value alone");
    if (!empty) CHECK(s.errorStatus().flag() == ReadError, "a failing device is a read error");
  } else {
    CHECK(!s.fail(), "a number is read without error");
    double want = (double)(sign == 1 ? -mant : mant) / pow10[frac > 0 ? frac : 0];
    double tol = sizeof(T) == 4 ? 2e-2 : 1e-7; // of numbers up to a thousand
    sym_close((double)v, want, tol, "the number read is the number written");
    CHECK(at == (term ? number_ends + 1 : number_ends), "the number and what ends it are consumed, no more");
    if (term == 2) {
      int next = 0;
      s >> next;
      CHECK(!s.fail() && next == 7, "the next word can be read");
    }
  }
  d.kill();
}
//@ entry doubles theory=real
HARNESS(doubles) { real<double>(); }
//@ entry floats theory=real
HARNESS(floats) { real<float>(); }
// many digits: as precise as the type, and nothing is left behind
template <class T> static void precise(const char *digits, double want, double rel) {
  int zeros = sym_pick(0, 2, "zeros") * 10;
  put(sym_pick(0, 1, "sign") ? "-" : "");
  bool negative = text[0] == '-';
  for (int i = 0; i < zeros; ++i) text[len++] = '0';
  put(digits);
  put(sym_pick(0, 1, "frac") ? "00000000000000000000 42" : " 42");
  In s;
  T v = 0;
  s >> v;
  CHECK(!s.fail(), "a number is read without error");
  double x = negative ? -(double)v : (double)v, err = x > want ? x - want : want - x;
  CHECK(err <= rel * want, "as precisely as the type allows");
  int next = 0;
  s >> next;
  CHECK(!s.fail() && next == 42, "the next word can be read");
}
HARNESS(many_digits) {
  switch (sym_pick(0, 4, "number")) {
  case 0: precise<double>("3.14159265358979", 3.14159265358979, 1e-14); break;
  case 1: precise<double>("123456789012.25", 123456789012.25, 1e-14); break;
  case 2: precise<float>("16777.216", 16777.216, 1e-6); break;
  case 3: precise<double>("0.0000012345678901234", 0.0000012345678901234, 1e-13); break;
  default: precise<float>("123456789012345678901234567890.0", 1.2345678901234568e29, 1e-6); break;
  }
}

// ------------------------------------------------ words, truth values, characters
HARNESS(words) {
  int n = sym_pick(0, WORDS, "length");
  sym_bytes(text, n, "text");
  len = n;
  fails_at_end = sym_bool("device fails");
  long leak = sym_live();
  {
    In s;
    std::string w("before");
    int i = 0;
    for (int k = 0; k < 2; ++k) {
      while (i < len && space(text[i])) ++i;
      int b = i;
      while (i < len && !space(text[i])) ++i;
      std::string old = w;
      s >> w;
      if (b == len) {
        CHECK(s.fail() && s.errorStatus().flag() == ReadError, "no word to read is an error");
        CHECK(w == old, "a failed read leaves the value alone");
        CHECK(at == len, "all was read");
      } else {
        bool cut = i == len && fails_at_end;
        CHECK(s.fail() == cut, "a word is read without error, unless the device failed");
        if (!cut) {
          CHECK(w.size() == (size_t)(i - b), "the word is complete");
          bool ok = true;
          for (int j = b; j < i && j - b < (int)w.size(); ++j) ok &= w[j - b] == text[j];
          CHECK(ok, "the word is the one written");
        }
        if (i < len) ++i; // the white space after it
        CHECK(at == i, "the word and what ends it are consumed, no more");
      }
    }
  }
  CHECK(sym_live() == leak, "nothing is leaked");
}
HARNESS(truth_values) {
  static const char *const words[10] = {"true", "TRUE", "True", "false", "FALSE", "False", "truE", "tru", "falsey", "1"};
  int w = sym_pick(0, 9, "word"), pos = sym_pick(-1, 5, "changed");
  if (sym_pick(0, 1, "space")) put(" ");
  int b = len;
  put(words[w]);
  if (pos >= 0 && b + pos < len) text[b + pos] = (char)sym_u8("char");
  int e = len;
  int end = sym_pick(0, 2, "end");
  fails_at_end = end == 2;
  if (end == 1) put(" x");
  int i = b;
  while (i < e && space(text[i])) ++i;
  int j = i;
  while (j < e && !space(text[j])) ++j;
  In s;
  bool before = sym_bool("before"), v = before;
  s >> v;
  bool yes = false, no = false;
  for (int k = 0; k < 6; ++k) {
    bool same = (int)strlen(words[k]) == j - i;
    for (int m = i; m < j && same; ++m) same = text[m] == words[k][m - i];
    (k < 3 ? yes : no) |= same;
  }
  bool cut = fails_at_end && j == len;
  CHECK(s.fail() == (cut || (!yes && !no)), "true and false in their three spellings are read, nothing else");
  CHECK(v == (s.fail() ? before : yes), "the value is the one written, or unchanged after a failure");
  if (!cut && i < j && s.fail()) CHECK(s.errorStatus().flag() == ConversionError, "another word is a conversion error");
}
HARNESS(characters) {
  int n = sym_pick(0, WORDS, "length");
  sym_bytes(text, n, "text");
  len = n;
  fails_at_end = sym_bool("device fails");
  In s;
  int i = 0;
  for (int k = 0; k < 3; ++k) {
    bool raw = sym_pick(0, 2, "raw") == 1;
    if (raw) s.enableRawCharReads(); else if (k > 0 || sym_pick(0, 1, "explicit")) s.disableRawCharReads();
    if (!raw) while (i < len && space(text[i])) ++i;
    char c = 'q';
    s >> c;
    if (i == len) {
      CHECK(s.fail() && s.errorStatus().flag() == ReadError, "no character to read is an error");
    } else {
      CHECK(!s.fail() && c == text[i], "raw reads give every character, others skip white space");
      ++i;
    }
    CHECK(at == i, "no more is consumed");
  }
}

// ------------------------------------------------ errors do not stick, sequences, round trips
HARNESS(recovery) {
  put("zz ");
  int a = sym_pick(-300, 300, "value") ;
  a = a < 0 ? -a : a;
  char tmp[4];
  int n = 0, b = a;
  do tmp[n++] = '0' + b % 10; while (b /= 10);
  while (n) text[len++] = tmp[--n];
  put(" true word");
  In s;
  int v = -1;
  s >> v;
  CHECK(s.fail() && v == -1, "text is not a number");
  std::string w;
  s >> w;
  CHECK(!s.fail() && w == "z", "the next read succeeds after a failure");
  bool t = false;
  s >> v >> t >> w;
  CHECK(!s.fail() && v == a && t && w == "word", "reads can be chained");
  s >> v;
  CHECK(s.fail() && v == a, "the end is an error");
}
template <class T> static void round_trip(const char *) {
  T a, b, x = 0, y = 0;
  // the values near the limits and small ones: digits must be concretely many
  int pick = sym_pick(0, 3, "where");
  typedef std::numeric_limits<T> L;
  T lo = pick == 0 ? L::min() : pick == 1 ? (T)(L::max() - 15) : pick == 2 ? (T)0 : (T)90;
  a = (T)(lo + (T)sym_pick(0, 15, "offset"));
  b = (T)~a;
  StringStream s;
  s << a << ' ' << b << '\n';
  CHECK(!s.fail(), "written");
  s >> x >> y;
  CHECK(!s.fail() && x == a && y == b, "what is written to a string stream is read back from it");
}
HARNESS(round_trips) {
  switch (sym_pick(0, 7, "type")) {
  case 0: round_trip<short>("short"); break;
  case 1: round_trip<int>("int"); break;
  case 2: round_trip<long>("long"); break;
  case 3: round_trip<long long>("long long"); break;
  case 4: round_trip<unsigned short>("unsigned short"); break;
  case 5: round_trip<unsigned int>("unsigned int"); break;
  case 6: round_trip<unsigned long>("unsigned long"); break;
  default: round_trip<unsigned long long>("unsigned long long"); break;
  }
}
HARNESS(bool_and_word_round_trips) {
  StringStream s;
  bool a = sym_bool("a"), b = sym_bool("b"), x = !a, y = !b;
  char c = (char)sym_u8("c"), d = 0;
  ASSUME(!space(c) && c != 0);
  std::string w("dude"), r;
  s << a << ' ' << w << ' ' << c << ' ' << b;
  s >> x >> r >> d >> y;
  CHECK(!s.fail() && x == a && y == b && r == w && d == c, "what is written to a string stream is read back from it");
}
