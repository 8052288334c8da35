// Consoles: what was written arrives, in order and once; what was typed is handed over.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_devices/src/lib/console.cpp ecl_devices/src/lib/detail/character_buffer.cpp
//@ default time=120
//@ bound every history of 4 (thorough: 5) writes (single characters; blocks of lengths around 0, 1, the internal buffer and twice it, with symbolic bytes at the edges, zero bytes included) and flushes, the flush of the standard stream succeeding or failing; reads of every byte and of lines of up to 6 characters
//@ assume fwrite to a standard stream stores everything; fgetc, fgets as documented (stand-ins)
//@ outside zero bytes inside a line that is read; formatting (see the streams); the destructor (documented not to flush)
#include <symx.h>
#include <stdio.h>
#include <string.h>
#include <ecl/devices/console.hpp>
using namespace ecl;
#ifdef SYMX_THOROUGH
static const int OPS = 5;
#else
static const int OPS = 4;
#endif
#ifdef NDEBUG
static const bool debug = false;
#else
static const bool debug = true;
#endif
static const long CAP = 5 * 9000;
static char sink[CAP], want[CAP];
static long sunk, wanted;
static FILE *expected;
static bool flush_fails;
static int flushes;
static const unsigned char *text;
static int text_len, text_at;
static void put(const void *p, size_t n, FILE *f) {
  CHECK(f == expected, "right_stream");
  CHECK(sunk + (long)n <= CAP, "model_size");
  memcpy(sink + sunk, p, n);
  sunk += n;
}
extern "C" {
size_t fk_fwrite(const void *p, size_t s, size_t n, FILE *f) { put(p, s * n, f); return n; }
int fk_fputs(const char *s, FILE *f) { put(s, strlen(s), f); return 0; }
int fk_fputc(int c, FILE *f) { char x = (char)c; put(&x, 1, f); return c; }
int fk_putc(int c, FILE *f) { return fk_fputc(c, f); }
int fk_fflush(FILE *f) {
  CHECK(f == expected, "right_stream");
  ++flushes;
  if (flush_fails && sym_bool("flush_fails")) return EOF;
  return 0;
}
int fk_fgetc(FILE *f) {
  CHECK(f == expected, "right_stream");
  if (text_at >= text_len) return EOF;
  return text[text_at++];
}
int fk_getc(FILE *f) { return fk_fgetc(f); }
int fk_getchar() { return fk_fgetc(stdin); }
int fk_feof(FILE *) { return text_at >= text_len; }
int fk_ferror(FILE *) { return 0; }
char *fk_fgets(char *s, int n, FILE *f) {
  CHECK(f == expected, "right_stream");
  int i = 0;
  while (i < n - 1 && text_at < text_len) {
    char c = text[text_at++];
    s[i++] = c;
    if (c == '\n') break;
  }
  if (i == 0) return 0;
  s[i] = 0;
  return s;
}
}
static char block[9000];
static long mark[32];
static int marks;
template <class C> static void history(FILE *f) {
  expected = f;
  {
    Dirty<C> d;
    C &c = d.make();
    CHECK(c.open(), "open");
    for (int i = 0; i < 9000; ++i) block[i] = (char)(i % 251);
    static const int lens[] = {0, 1, 3, 4094, 4095, 4096, 8191};
    for (int i = 0; i < OPS; ++i) {
      switch (sym_pick(0, 2, "op")) {
      case 0: {
        char b = (char)sym_u8("byte");
        CHECK(c.write(b) == 1, "write_counts");
        mark[marks++] = wanted;
        want[wanted++] = b;
        break;
      }
      case 1: {
        int n = lens[sym_pick(0, 6, "length")];
        if (n > 0) block[0] = (char)sym_u8("byte");
        if (n > 1) block[n - 1] = (char)sym_u8("byte");
        CHECK(c.write(block, n) == n, "write_counts");
        if (n > 0) { mark[marks++] = wanted; mark[marks++] = wanted + n / 2; mark[marks++] = wanted + n - 1; }
        memcpy(want + wanted, block, n);
        wanted += n;
        break;
      }
      case 2: {
        int before = flushes;
        c.flush();
        CHECK(sunk == wanted, "flush_delivers_everything");
        CHECK(flushes == before + 1, "flush_flushes_the_stream");
        break;
      }
      }
      CHECK(sunk <= wanted && wanted - sunk <= 4095, "nothing_invented_and_little_held_back");
    }
    c.flush();
    CHECK(sunk == wanted, "flush_delivers_everything");
    for (int i = 0; i < marks; ++i)
      for (long at = mark[i] - 1; at <= mark[i]; ++at)
        if (at >= 0 && at < wanted) CHECK(sink[at] == want[at], "bytes_in_order");
    for (long at = 0; at < wanted; at += 4095)
      for (long k = at; k < at + 2 && k < wanted; ++k) CHECK(sink[k] == want[k], "bytes_in_order");
  }
  CHECK(sunk == wanted, "nothing_written_twice");
  CHECK(sym_live() == 0, "no_leaks");
}
HARNESS(standard_output) { history<OConsole>(stdout); }
HARNESS(standard_error) { history<EConsole>(stderr); }

template <class C> static void failing(FILE *f) {
  expected = f;
  C c;
  flush_fails = true;
  char s[3];
  sym_bytes(s, 3, "bytes");
  c.write(s, 3);
  bool threw = false;
  int f0 = flushes;
  bool fails = false;
  try { c.flush(); } catch (const StandardException &e) { threw = true; CHECK(e.flag() == WriteError, "write_error"); }
  (void)fails;
  CHECK(flushes == f0 + 1, "flushed");
  CHECK(debug || !threw, "no_exceptions_in_release");
  // what was handed to the stream is not sent again
  flush_fails = false;
  char t = (char)sym_u8("byte");
  c.write(t);
  c.flush();
  CHECK(sunk == 4 && sink[0] == s[0] && sink[1] == s[1] && sink[2] == s[2] && sink[3] == t, "each_byte_once");
}
HARNESS(failing_output) { failing<OConsole>(stdout); }
HARNESS(failing_error) { failing<EConsole>(stderr); }

HARNESS(read_characters) {
  expected = stdin;
  unsigned char in[3];
  text_len = sym_pick(0, 3, "length");
  sym_bytes(in, 3, "input");
  text = in;
  Dirty<IConsole> d;
  IConsole &c = d.make();
  CHECK(c.open(), "open");
  for (int i = 0; i < text_len; ++i) {
    char x = 0;
    CHECK(c.read(x) == 1, "one_character");
    CHECK(x == (char)in[i], "that_character");
  }
  bool threw = false;
  long n = 0;
  char x;
  try { n = c.read(x); } catch (const StandardException &e) { threw = true; CHECK(e.flag() == ReadError, "read_error"); }
  CHECK(threw == debug, "end_reported");
  CHECK(n == 0, "nothing_at_the_end");
}
HARNESS(read_lines) {
  expected = stdin;
  unsigned char in[6];
  text_len = sym_pick(0, 6, "length");
  sym_bytes(in, 6, "input");
  for (int i = 0; i < text_len; ++i) ASSUME(in[i] != 0);
  text = in;
  IConsole c;
  int at = 0;
  for (int k = 0; k < 3; ++k) {
    char buf[5];
    int size = sym_pick(2, 5, "size");
    int n = 0;
    while (at + n < text_len && n < size - 1) { ++n; if (in[at + n - 1] == '\n') break; }
    if (n == 0) {
      bool threw = false;
      long r = 0;
      try { r = c.read(buf, size); } catch (const StandardException &e) { threw = true; CHECK(e.flag() == ReadError, "read_error"); }
      CHECK(threw == debug && r == 0, "end_reported");
      break;
    }
    CHECK(c.read(buf, size) == n, "length_of_the_line");
    for (int i = 0; i < n; ++i) CHECK(buf[i] == (char)in[at + i], "characters_of_the_line");
    CHECK(buf[n] == 0, "terminated");
    at += n;
  }
}
