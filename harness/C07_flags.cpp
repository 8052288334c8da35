// Bit flag sets (ecl_utilities).
//@ config rel,dbg
//@ default time=60
//@ bound every 32-bit flag set, enumerator value and mask; every single operation and every chain of two compound assignments
#include <symx.h>
#include <ecl/utilities/flags.hpp>
using namespace ecl;
enum E { e0 = 0, e1 = 1, e2 = 2, e4 = 4, emax = 0x7fffffff, emin = -0x7fffffff - 1 };
static E anyE(const char *n) { return (E)sym_i32(n); }
template <class F> static F mk(int v) { F f; f |= (E)v; return f; }
HARNESS(operators) {
  E a = anyE("a"), b = anyE("b");
  int m = sym_i32("mask");
  const Flags<E> f(a), g(b);
  CHECK((int)Flags<E>() == 0, "empty_by_default");
  CHECK((int)f == (int)a, "from_enumerator");
  CHECK((int)Flags<E>(f) == (int)a, "copy");
  CHECK((int)(f & m) == ((int)a & m), "and_mask");
  CHECK((int)(f & b) == ((int)a & (int)b), "and_flag");
  CHECK((int)(f | g) == ((int)a | (int)b), "or_flags");
  CHECK((int)(f | b) == ((int)a | (int)b), "or_flag");
  CHECK((int)(b | f) == ((int)a | (int)b), "flag_or_flags");
  CHECK((int)(f ^ g) == ((int)a ^ (int)b), "xor_flags");
  CHECK((int)(f ^ b) == ((int)a ^ (int)b), "xor_flag");
  CHECK((int)(~f) == ~(int)a, "not");
  CHECK((int)f == (int)a && (int)g == (int)b, "operands_unchanged");
  sym_out("v", (int)(f ^ g));
}
HARNESS(test_flag) {
  E a = anyE("a"), t = anyE("t");
  const Flags<E> f(a);
  bool r = f.testFlag(t);
  if (t == 0) CHECK(r == (a == 0), "zero_flag_only_in_the_empty_set");
  else if (((unsigned)t & ((unsigned)t - 1)) == 0) CHECK(r == (((int)a & (int)t) == (int)t), "single_flag_present");
  else {
    if (((int)a & (int)t) == 0) CHECK(!r, "absent_flags");
    if (((int)a & (int)t) == (int)t) CHECK(r, "all_flags_present");
  }
}
HARNESS(assignments) {
  int v = sym_i32("a");
  Flags<E> f((E)v);
  for (int s = 0; s < 2; ++s) {
    int x = sym_i32("x");
    Flags<E> *r = 0, g((E)x);
    switch (sym_pick(0, 7, "op")) {
    case 0: r = &(f = g); v = x; break;
    case 1: r = &(f = (E)x); v = x; break;
    case 2: r = &(f &= x); v &= x; break;
    case 3: r = &(f |= g); v |= x; break;
    case 4: r = &(f |= (E)x); v |= x; break;
    case 5: r = &(f ^= g); v ^= x; break;
    case 6: r = &(f ^= (E)x); v ^= x; break;
    case 7: f.clear(); r = &f; v = 0; break;
    }
    CHECK(r == &f, "returns_itself");
    CHECK((int)f == v, "value");
    CHECK((int)g == x, "argument_unchanged");
  }
  f = f;
  CHECK((int)f == v, "self_assignment");
}
HARNESS(set_then_test) { // what is set is found, what is toggled off is not
  E a = anyE("a");
  unsigned k = sym_u32("bit");
  ASSUME(k < 32);
  E bit = (E)(1u << k);
  Flags<E> f(a);
  f |= bit;
  CHECK(f.testFlag(bit), "set_flag_found");
  f ^= bit;
  CHECK(!f.testFlag(bit), "toggled_flag_gone");
  f ^= Flags<E>(bit);
  CHECK(f.testFlag(bit), "toggled_flag_back");
  f &= ~(int)bit;
  CHECK(!f.testFlag(bit), "masked_flag_gone");
  CHECK((int)f == ((int)a & ~(int)bit), "other_flags_untouched");
}
HARNESS(bits) {
  const int b[] = {Bit1, Bit2, Bit3, Bit4, Bit5, Bit6, Bit7, Bit8, Bit9, Bit10, Bit11, Bit12, Bit13, Bit14, Bit15, Bit16};
  CHECK(Bit0 == 0, "bit0");
  unsigned i = sym_u32("i");
  ASSUME(i < 16);
  CHECK(b[i] == (1 << i), "bit_constants");
}
