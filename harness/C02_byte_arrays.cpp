// Integer <-> little-endian byte vectors (ecl_converters).
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp
//@ default time=60
//@ bound every value of int, unsigned, long, unsigned long, long long (and short for decoding); vectors of 0..10 bytes of char, signed char and unsigned char, all contents symbolic
#include <symx.h>
#include <vector>
#include <ecl/converters/to_byte_array.hpp>
#include <ecl/converters/from_byte_array.hpp>
using namespace ecl;

template <class I, class B> static void roundtrip() {
  I v;
  sym_bytes(&v, sizeof v, "v");
  std::vector<B> b(sizeof(I), B(0x5a));
  Converter<std::vector<B>, I> enc;
  const std::vector<B> &r = enc(b, v);
  CHECK(&r == &b, "returns_the_argument");
  CHECK(enc.error() == NoError, "encode_ok");
  CHECK(b.size() == sizeof(I), "size_kept");
  unsigned long long u = (unsigned long long)v;
  for (unsigned i = 0; i < sizeof(I); ++i) CHECK((unsigned char)b[i] == (unsigned char)(u >> (8 * i)), "little_endian_bytes");
  Converter<I, std::vector<B> > dec;
  I w = dec(b);
  CHECK(dec.error() == NoError, "decode_ok");
  CHECK(w == v, "roundtrip");
  sym_out("b0", (unsigned char)b[0]);
}
template <class I, class B> static void badsize() {
  I v;
  sym_bytes(&v, sizeof v, "v");
  unsigned n = sym_pick(0, 10, "size");
  ASSUME(n != sizeof(I));
  std::vector<B> b(n, B(0x5a));
  Converter<std::vector<B>, I> enc;
  bool threw = false;
  try { enc(b, v); } catch (StandardException &e) { threw = true; }
  CHECK(threw || enc.error() == Error(ConversionError), "size_mismatch_flagged");
#ifndef NDEBUG
  CHECK(threw, "debug_throws_on_size_mismatch");
#endif
  CHECK(b.size() == n, "size_kept");
  for (unsigned i = 0; i < n; ++i) CHECK(b[i] == B(0x5a), "bytes_untouched_on_error");
}
template <class I, class B> static void decode() {
  unsigned n = sym_pick(0, 10, "size");
  std::vector<B> b(n);
  for (unsigned i = 0; i < n; ++i) b[i] = (B)sym_u8("byte");
  Converter<I, std::vector<B> > dec;
  bool threw = false;
  I w = 0;
  try { w = dec(b); } catch (StandardException &e) { threw = true; CHECK(e.flag() == ConversionError, "error_kind"); }
  if (n > sizeof(I)) {
    CHECK(threw || dec.error() == Error(ConversionError), "too_long_flagged");
  } else {
    CHECK(!threw && dec.error() == NoError, "fits_so_no_error");
    unsigned long long u = 0;
    for (unsigned i = 0; i < n; ++i) u |= (unsigned long long)(unsigned char)b[i] << (8 * i);
    CHECK(w == (I)u, "little_endian_value");
  }
}
#define RT(n, I, B) HARNESS(rt_##n) { roundtrip<I, B>(); } HARNESS(bad_##n) { badsize<I, B>(); }
RT(int_c, int, char)
RT(int_u, int, unsigned char)
RT(int_s, int, signed char)
RT(uint_c, unsigned, char)
RT(uint_u, unsigned, unsigned char)
RT(uint_s, unsigned, signed char)
RT(long_c, long, char)
RT(long_u, long, unsigned char)
RT(long_s, long, signed char)
RT(ulong_c, unsigned long, char)
RT(ulong_u, unsigned long, unsigned char)
RT(ulong_s, unsigned long, signed char)
RT(ll_c, long long, char)
RT(ll_u, long long, unsigned char)
RT(ll_s, long long, signed char)
#define DEC(n, I, B) HARNESS(dec_##n) { decode<I, B>(); }
DEC(short_c, short, char)
DEC(ushort_u, unsigned short, unsigned char)
DEC(int_c, int, char)
DEC(int_s, int, signed char)
DEC(uint_u, unsigned, unsigned char)
DEC(long_c, long, char)
DEC(ulong_u, unsigned long, unsigned char)
DEC(ll_s, long long, signed char)
HARNESS(generic) { // the type-deducing converter chooses the same encoding
  Converter<std::vector<char> > any;
  int v = sym_i32("v");
  std::vector<char> b(4);
  any(b, v);
  CHECK((Converter<int, std::vector<char> >()(b)) == v, "generic_roundtrip");
  unsigned long w = sym_u64("w");
  std::vector<unsigned char> c(8);
  Converter<std::vector<unsigned char> > anyu;
  anyu(c, w);
  CHECK((Converter<unsigned long, std::vector<unsigned char> >()(c)) == w, "generic_roundtrip_64");
}
//@ entry rt_int_c
//@ entry bad_int_c
//@ entry rt_int_u
//@ entry bad_int_u
//@ entry rt_int_s
//@ entry bad_int_s
//@ entry rt_uint_c
//@ entry bad_uint_c
//@ entry rt_uint_u
//@ entry bad_uint_u
//@ entry rt_uint_s
//@ entry bad_uint_s
//@ entry rt_long_c
//@ entry bad_long_c
//@ entry rt_long_u
//@ entry bad_long_u
//@ entry rt_long_s
//@ entry bad_long_s
//@ entry rt_ulong_c
//@ entry bad_ulong_c
//@ entry rt_ulong_u
//@ entry bad_ulong_u
//@ entry rt_ulong_s
//@ entry bad_ulong_s
//@ entry rt_ll_c
//@ entry bad_ll_c
//@ entry rt_ll_u
//@ entry bad_ll_u
//@ entry rt_ll_s
//@ entry bad_ll_s
//@ entry dec_short_c
//@ entry dec_ushort_u
//@ entry dec_int_c
//@ entry dec_int_s
//@ entry dec_uint_u
//@ entry dec_long_c
//@ entry dec_ulong_u
//@ entry dec_ll_s
// ---------------------------------------------------------------- ecl containers
#include <ecl/containers/array.hpp>
#include <ecl/containers/array/converters.hpp>
#include <ecl/containers/stencil.hpp>
#include <ecl/containers/stencil/converters.hpp>
template <class I, class B> static void array_rt() {
  I v;
  sym_bytes(&v, sizeof v, "v");
  Array<B> b(sizeof(I) + 2);
  for (unsigned i = 0; i < b.size(); ++i) b[i] = B(0x5a);
  unsigned off = sym_pick(0, 2, "offset");
  { // through a window onto a larger array
    Stencil<Array<B> > w = b.stencil(off, sizeof(I));
    Converter<Stencil<Array<B> >, I> enc;
    enc(w, v);
    CHECK(enc.error() == NoError, "encode_ok");
    unsigned long long u = (unsigned long long)v;
    for (unsigned i = 0; i < b.size(); ++i)
      CHECK((unsigned char)b[i] == (i >= off && i < off + sizeof(I) ? (unsigned char)(u >> (8 * (i - off))) : 0x5a), "little_endian_bytes_in_window");
    Converter<I, Stencil<Array<B> > > dec;
    CHECK(dec(w) == v, "roundtrip");
    CHECK(dec.error() == NoError, "decode_ok");
  }
  Array<B> c(sizeof(I));
  Converter<Array<B>, I> enc;
  enc(c, v);
  Converter<I, Array<B, DynamicStorage> > dec;
  CHECK(dec(c) == v, "roundtrip");
  Array<B, sizeof(I)> f;
  for (unsigned i = 0; i < sizeof(I); ++i) f[i] = c[i];
  Converter<I, Array<B, sizeof(I)> > decf;
  CHECK(decf(f) == v, "roundtrip_fixed");
  unsigned n = sym_pick(0, sizeof(I), "short");
  Array<B> s(n);
  for (unsigned i = 0; i < n; ++i) s[i] = c[i];
  I part = dec(s);
  unsigned long long u = (unsigned long long)v;
  if (n < 8) u &= (1ull << (8 * n)) - 1;
  CHECK(part == (I)u, "short_arrays_zero_extend");
}
HARNESS(array_int_c) { array_rt<int, char>(); }
HARNESS(array_int_u) { array_rt<int, unsigned char>(); }
HARNESS(array_uint_s) { array_rt<unsigned, signed char>(); }
HARNESS(array_long_c) { array_rt<long, char>(); }
HARNESS(array_llong_u) { array_rt<long long, unsigned char>(); }
HARNESS(window_raw) {
  unsigned char b[6];
  for (int i = 0; i < 6; ++i) b[i] = sym_u8("byte");
  unsigned off = sym_pick(0, 2, "offset"), n = sym_pick(0, 4, "n");
  Stencil<const unsigned char *> w(b, 6, off, n);
  Converter<unsigned, Stencil<const unsigned char *> > dec;
  unsigned u = 0;
  for (unsigned i = 0; i < n; ++i) u |= (unsigned)b[off + i] << (8 * i);
  CHECK(dec(w) == u, "little_endian_value");
}
HARNESS(window_vector) {
  std::vector<unsigned char> b(6, 1);
  unsigned v = sym_u32("v");
  unsigned off = sym_pick(0, 2, "offset");
  Stencil<std::vector<unsigned char> > w(b, off, 4);
  Converter<Stencil<std::vector<unsigned char> >, unsigned> enc;
  enc(w, v);
  for (unsigned i = 0; i < 6; ++i) CHECK(b[i] == (i >= off && i < off + 4 ? (unsigned char)(v >> (8 * (i - off))) : 1), "little_endian_bytes_in_window");
}
