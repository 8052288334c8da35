// Parameters, reference wrappers and function objects (ecl_utilities).
//@ config rel,dbg
//@ default time=60
//@ bound every argument and return value (32-bit integers and a small class), every adapter and generator function of the package
#include <symx.h>
#include <ecl/utilities/parameter.hpp>
#include <ecl/utilities/references.hpp>
#include <ecl/utilities/function_objects.hpp>
#include <ecl/utilities/singleton.hpp>
using namespace ecl;
struct Big { int a, b, c; bool operator==(const Big &o) const { return a == o.a && b == o.b && c == o.c; } };
HARNESS(parameter_int) {
  int v = sym_i32("v"), w = sym_i32("w");
  Parameter<int> d, p(v);
  CHECK(d() == 0, "value_initialised");
  CHECK(p() == v && (int)p == v, "stored");
  p = w;
  CHECK(p() == w && (const int &)p == w, "assigned");
  p(v);
  CHECK(p() == v, "set_through_call");
  Parameter<int> q(p);
  q = w;
  CHECK(p() == v && q() == w, "copies_independent");
  d = p;
  CHECK(d() == v, "assigned_from_parameter");
}
HARNESS(parameter_class) {
  Big v = {sym_i32("a"), sym_i32("b"), sym_i32("c")}, w = {1, 2, 3};
  Parameter<Big> p(v), d;
  CHECK(p() == v, "stored");
  CHECK(d() == (Big{0, 0, 0}), "value_initialised");
  p(w);
  CHECK(p() == w, "assigned");
  p = v;
  const Parameter<Big> &cp = p;
  CHECK(cp() == v && (const Big &)cp == v, "assigned");
}
struct Amp { int v; Amp *operator&() { return 0; } }; // overloaded address-of
HARNESS(references) {
  int x = sym_i32("x"), y = sym_i32("y");
  ReferenceWrapper<int> r = ref(x);
  CHECK(&r.reference() == &x && &(int &)r == &x && r.pointer() == &x, "refers_to_the_object");
  r.reference() = y;
  CHECK(x == y, "writes_through");
  ReferenceWrapper<const int> c = cref(x);
  CHECK(&c.reference() == &x && c.pointer() == &x, "refers_to_the_object");
  ReferenceWrapper<int> r2(r);
  CHECK(r2.pointer() == &x, "copy_refers_to_the_same");
  Amp a = {x};
  CHECK(addressOf(a)->v == x && (void *)addressOf(a) == (void *)&a.v, "address_despite_overload");
  CHECK(is_reference_wrapper<ReferenceWrapper<int> >::value && !is_reference_wrapper<int>::value, "trait");
}
static int calls, last1, last2;
static int ret;
static int f0() { ++calls; return ret; }
static void v0() { ++calls; }
static int f1(int a) { ++calls; last1 = a; return ret; }
static void v1(int a) { ++calls; last1 = a; }
static int f1r(int &a) { ++calls; last1 = a; a = ret; return ret; }
static int f1c(const int &a) { ++calls; last1 = a; return ret; }
struct Obj {
  int id;
  Obj(int i) : id(i) {}
  int n0() { ++calls; last2 = id; return ret; }
  void m0() { ++calls; last2 = id; }
  int n1(int a) { ++calls; last1 = a; last2 = id; return ret; }
  void m1(int a) { ++calls; last1 = a; last2 = id; }
  int n2(int a, int b) { ++calls; last1 = a; last2 = b; return ret; }
};
#define ONCE(expr, id) do { int c0 = calls; CHECK((expr) == ret, id "_result"); CHECK(calls == c0 + 1, id "_called_once"); } while (0)
#define ONCEV(expr, id) do { int c0 = calls; expr; CHECK(calls == c0 + 1, id "_called_once"); } while (0)
HARNESS(free_functions) {
  ret = sym_i32("ret");
  int a = sym_i32("a");
  const int ca = sym_i32("ca");
  NullaryFreeFunction<int> nf = generateFunctionObject(f0);
  ONCE(nf(), "nullary");
  NullaryFunction<int> &nb = nf;
  ONCE(nb(), "nullary_base");
  NullaryFreeFunction<void> nv = generateFunctionObject(v0);
  ONCEV(nv(), "nullary_void");
  UnaryFreeFunction<int, int> uf = generateFunctionObject(f1);
  ONCE(uf(a), "unary");
  CHECK(last1 == a, "argument");
  UnaryFunction<int, int> &ub = uf;
  ONCE(ub(ca), "unary_base");
  CHECK(last1 == ca, "argument");
  UnaryFreeFunction<int, void> uv = generateFunctionObject(v1);
  ONCEV(uv(a), "unary_void");
  CHECK(last1 == a, "argument");
  int orig = a;
  BoundUnaryFreeFunction<int, int> bf = generateFunctionObject(f1, a);
  BoundUnaryFreeFunction<int, int> bc = generateFunctionObject(f1, ca);
  BoundUnaryFreeFunction<int, void> bv = generateFunctionObject(v1, ca);
  BoundUnaryFreeFunction<const int &, int> bcr = generateFunctionObject(f1c, ca);
  a ^= 1;
  last1 = 0;
  ONCE(bf(), "bound");
  CHECK(last1 == orig, "bound_by_value");
  ONCE(bc(), "bound_const");
  CHECK(last1 == ca, "bound_by_value");
  last1 = 0;
  ONCEV(bv(), "bound_void");
  CHECK(last1 == ca, "bound_by_value");
  last1 = 0;
  ONCE(bcr(), "bound_const_ref");
  CHECK(last1 == ca, "bound_reference");
  int before = a;
  BoundUnaryFreeFunction<int &, int> br = generateFunctionObject(f1r, a);
  ONCE(br(), "bound_ref");
  CHECK(last1 == before && a == ret, "bound_reference_passed_through");
}
HARNESS(member_functions) {
  ret = sym_i32("ret");
  int a = sym_i32("a");
  Obj o(sym_i32("id")), other(77);
  const int ca = a;
  NullaryMemberFunction<Obj, int> n = generateFunctionObject(&Obj::n0);
  last2 = 0;
  ONCE(n(o), "nullary_member");
  CHECK(last2 == o.id, "right_object");
  NullaryMemberFunction<Obj, void> nv = generateFunctionObject(&Obj::m0);
  ONCEV(nv(other), "nullary_member_void");
  CHECK(last2 == 77, "right_object");
  BoundNullaryMemberFunction<Obj, int> b = generateFunctionObject(&Obj::n0, o);
  ONCE(b(), "bound_member");
  CHECK(last2 == o.id, "right_object");
  BoundNullaryMemberFunction<Obj, void> bv = generateFunctionObject(&Obj::m0, o);
  other.m0();
  ONCEV(bv(), "bound_member_void");
  CHECK(last2 == o.id, "right_object");
  o.id = sym_i32("id2");
  bv();
  CHECK(last2 == o.id, "object_bound_by_reference");
  UnaryMemberFunction<Obj, int, int> u = generateFunctionObject(&Obj::n1);
  ONCE(u(other, a), "unary_member");
  CHECK(last2 == 77 && last1 == a, "object_and_argument");
  UnaryMemberFunction<Obj, int, void> uv = generateFunctionObject(&Obj::m1);
  last1 = 0;
  ONCEV(uv(o, a), "unary_member_void");
  CHECK(last2 == o.id && last1 == a, "object_and_argument");
  PartiallyBoundUnaryMemberFunction<Obj, int, int> p = generateFunctionObject(&Obj::n1, o);
  last1 = last2 = 0;
  ONCE(p(a), "partially_bound");
  CHECK(last2 == o.id && last1 == a, "object_and_argument");
  PartiallyBoundUnaryMemberFunction<Obj, int, void> pv = generateFunctionObject(&Obj::m1, other);
  ONCEV(pv(a), "partially_bound_void");
  CHECK(last2 == 77 && last1 == a, "object_and_argument");
  int x = a;
  BoundUnaryMemberFunction<Obj, int, int> bu = generateFunctionObject(&Obj::n1, o, x);
  BoundUnaryMemberFunction<Obj, int, void> buv = generateFunctionObject(&Obj::m1, other, ca);
  x ^= 1;
  last1 = last2 = 0;
  ONCE(bu(), "fully_bound");
  CHECK(last2 == o.id && last1 == a, "object_and_argument");
  last1 = last2 = 0;
  ONCEV(buv(), "fully_bound_void");
  CHECK(last2 == 77 && last1 == a, "object_and_argument");
  int c = sym_i32("c");
  PartiallyBoundBinaryMemberFunction<Obj, int, int, int> pb(&Obj::n2, o);
  ONCE(pb(a, c), "binary");
  CHECK(last1 == a && last2 == c, "argument_order");
}
struct Fn { // a user's function object with state
  int n;
  Fn() : n(0) {}
  typedef int result_type;
  int operator()() { ++calls; return ++n; }
};
struct FnV { int *p; typedef void result_type; void operator()() { ++*p; } };
struct Un { int k; typedef int result_type; int operator()(int a) { last1 = a; return k; } };
struct UnV { int k; typedef void result_type; void operator()(int a) { last1 = a; ++k; } };
HARNESS(wrapped_objects) {
  int a = sym_i32("a"), k = sym_i32("k"), hits = 0;
  ASSUME(k < 1000);
  Fn f;
  NullaryFunctionCopy<Fn, int> c(f);
  CHECK(c() == 1 && c() == 2 && f.n == 0, "copies_are_independent");
  NullaryFunctionReference<Fn, int> r(ref(f));
  CHECK(r() == 1 && r() == 2 && f.n == 2, "references_share_state");
  FnV g = {&hits};
  NullaryFunctionCopy<FnV, void> cv(g);
  cv();
  NullaryFunctionReference<FnV, void> rv(ref(g));
  rv();
  CHECK(hits == 2, "called_once_each");
  Un u = {k};
  UnaryFunctionCopy<Un, int, int> uc(u);
  UnaryFunctionReference<Un, int, int> ur(ref(u));
  CHECK(uc(a) == k && last1 == a, "argument_and_result");
  last1 = 0;
  u.k = 5;
  CHECK(ur(a) == 5 && uc(a) == k && last1 == a, "argument_and_result");
  UnV w = {k};
  UnaryFunctionCopy<UnV, int, void> wc(w);
  UnaryFunctionReference<ReferenceWrapper<UnV>, int, void> wr(ref(w));
  wc(a);
  CHECK(w.k == k && last1 == a, "copies_are_independent");
  last1 = 0;
  wr(a);
  CHECK(w.k == k + 1 && last1 == a, "references_share_state");
}
static int built;
struct Single { int v; Single() : v(5) { ++built; } };
HARNESS(singleton) {
  built = 0;
  int v = sym_i32("v");
  Single &a = Singleton<Single>::instance();
  a.v = v;
  Single &b = Singleton<Single>::instance();
  CHECK(&a == &b && b.v == v && built == 1, "one_instance");
}
