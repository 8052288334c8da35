// Signs, norms, numeric limits and fuzzy comparison (ecl_math, ecl_type_traits).
//@ config rel
//@ src ecl_type_traits/src/lib/numeric_limits.cpp
//@ default time=60
//@ bound every value of every integral type; every float and double bit pattern for signs, limits and fuzzy comparison (NaN and infinities included where stated); norms over coordinates of magnitude up to 1e6 with rounding bounded
//@ outside long double; the accuracy of the C library's pow inside cube_root (its sign, symmetry and zero are checked)
#include <symx.h>
#include <math.h>
#include <limits>
#include <ecl/math/simple.hpp>
#include <ecl/math/norms.hpp>
#include <ecl/math/fuzzy.hpp>
#include <ecl/math/constants.hpp>
#include <ecl/type_traits.hpp>
#include <ecl/mpl.hpp>
using namespace ecl;
template <class T> static T any(const char *n) { T v; sym_bytes(&v, sizeof v, n); return v; }
template <class T> static void signs(T x) {
  CHECK(sign(x) == (x > T(0) ? 1 : x < T(0) ? -1 : 0), "sign");
  CHECK(psign(x) == (x >= T(0) ? 1 : -1), "psign_zero_is_positive");
  CHECK(nsign(x) == (x > T(0) ? 1 : -1), "nsign_zero_is_negative");
}
HARNESS(sign_int) { signs(any<int>("x")); }
HARNESS(sign_long) { signs(any<long>("x")); }
HARNESS(sign_short) { signs(any<short>("x")); }
HARNESS(sign_char) { signs(any<signed char>("x")); }
HARNESS(sign_unsigned) { signs(any<unsigned>("x")); }
HARNESS(sign_double) { double x = any<double>("x"); ASSUME(x == x); signs(x); }
HARNESS(sign_float) { float x = any<float>("x"); ASSUME(x == x); signs(x); }
template <class T> static void limits() {
  typedef ecl::numeric_limits<T> L;
  T x = any<T>("x");
  const T lo = L::minimum, hi = L::maximum;
  CHECK(lo <= x && x <= hi, "every_value_between_minimum_and_maximum");
  CHECK(lo == std::numeric_limits<T>::min() && hi == std::numeric_limits<T>::max(), "limits_are_values");
  const int bits = L::bits, bytes = L::bytes;
  CHECK(bytes == sizeof(T) && bits == 8 * sizeof(T), "width");
  const T one = L::one;
  CHECK((T)(x * one) == x || sizeof(T) < 0, "one");
  CHECK(is_integral<T>::value && !is_float<T>::value, "integral");
  CHECK(bool(is_unsigned<T>::value) == (T(-1) > T(0)) && bool(is_signed<T>::value) == (T(-1) < T(0)), "signedness");
  typedef typename Unsigned<T>::type U;
  CHECK(sizeof(U) == sizeof(T) && U(-1) > U(0), "unsigned_counterpart");
  if (x >= 0) CHECK((unsigned long long)(U)x == (unsigned long long)x, "unsigned_counterpart_holds_values");
}
HARNESS(limits_char) { limits<char>(); }
HARNESS(limits_uchar) { limits<unsigned char>(); }
HARNESS(limits_short) { limits<short>(); }
HARNESS(limits_ushort) { limits<unsigned short>(); }
HARNESS(limits_int) { limits<int>(); }
HARNESS(limits_uint) { limits<unsigned>(); }
HARNESS(limits_long) { limits<long>(); }
HARNESS(limits_ulong) { limits<unsigned long>(); }
HARNESS(limits_llong) { limits<long long>(); }
HARNESS(limits_ullong) { limits<unsigned long long>(); }
template <class T> static void flimits() {
  typedef ecl::numeric_limits<T> L;
  T x = any<T>("x");
  const T lo = L::minimum, hi = L::maximum;
  ASSUME(x == x && x - x == x - x);
  CHECK(lo <= x && x <= hi, "every_finite_value_between_minimum_and_maximum");
  CHECK(lo - lo == 0 && hi - hi == 0, "limits_are_finite");
  const int bits = L::bits, bytes = L::bytes;
  CHECK(bytes == sizeof(T) && bits == 8 * sizeof(T), "width");
  CHECK(!is_integral<T>::value && is_float<T>::value, "float");
}
HARNESS(limits_float) { flimits<float>(); }
HARNESS(limits_double) { flimits<double>(); }
template <class T> static T prec() { return ecl::numeric_limits<T>::dummy_precision; }
// the documented relation: |x-y| <= min(|x|,|y|)*precision
template <class T, class O> static void fuzzy(T x, O yo, T p) {
  T y = (T)yo, ax = std::abs(x), ay = std::abs(y);
  bool want = std::abs(x - y) <= std::min(ax, ay) * p;
  CHECK(isApprox(x, yo, p) == want, "documented_relation");
  CHECK(isApproxOrLessThan(x, yo, p) == (x <= y || want), "or_less");
}
//@ entry fuzzy_float time=100
HARNESS(fuzzy_float) {
  float x = any<float>("x"), y = any<float>("y");
  ASSUME(x - x == 0 && y - y == 0);
  CHECK(isApprox(x, x), "reflexive");
  fuzzy<float, float>(x, y, prec<float>());
}
//@ entry fuzzy_double time=100
HARNESS(fuzzy_double) {
  double x = any<double>("x"), y = any<double>("y");
  ASSUME(x - x == 0 && y - y == 0);
  CHECK(isApprox(x, x), "reflexive");
  fuzzy<double, double>(x, y, prec<double>());
}
HARNESS(fuzzy_precision) {
  float x = any<float>("x"), y = any<float>("y"), p = any<float>("p");
  ASSUME(x - x == 0 && y - y == 0 && p >= 0 && p <= 1);
  fuzzy<float, float>(x, y, p);
}
//@ entry fuzzy_laws theory=real time=100
HARNESS(fuzzy_laws) {
  double x = sym_real("x", -1e6, 1e6), y = sym_real("y", -1e6, 1e6);
  bool r = isApprox(x, y);
  CHECK(isApproxOrLessThan(x, y) || isApproxOrLessThan(y, x), "total");
  if (r) CHECK(fabs(x - y) <= 2e-6, "close");
  if (x < y) CHECK(isApproxOrLessThan(x, y), "less_is_accepted");
  if (fabs(x - y) > 1e-3 && x > y) CHECK(!isApproxOrLessThan(x, y), "clearly_greater_is_rejected");
}
HARNESS(fuzzy_int) {
  int x = any<int>("x"), y = any<int>("y");
  CHECK(isApprox(x, y) == (x == y), "integers_compare_exactly");
  CHECK(isApproxOrLessThan(x, y) == (x <= y), "integers_order_exactly");
  short s = any<short>("s");
  CHECK(isApprox(x, s) == (x == s), "integers_compare_exactly");
}
HARNESS(fuzzy_mixed) { // an integer against a float
  int x = any<int>("x");
  ASSUME(x > -100000 && x < 100000);
  float y = any<float>("y");
  ASSUME(y - y == 0);
  float fx = x, ax = std::abs(fx), ay = std::abs(y), ad = std::abs(fx - y);
  CHECK(isApprox(x, y) == (ad <= std::min(ax, ay) * prec<float>()), "documented_relation");
}
//@ entry norms theory=real time=100
HARNESS(norms) {
  double x = sym_real("x", -1e6, 1e6), y = sym_real("y", -1e6, 1e6);
  EuclideanNorm n;
  double r = n(x, y), q = euclidean_norm(x, y);
  CHECK(r >= 0 && q >= 0, "non_negative");
  sym_close(r * r, x * x + y * y, 0.01, "squared_norm");
  sym_close(q * q, x * x + y * y, 0.01, "squared_norm_function");
}
//@ entry norms3 theory=real time=100
HARNESS(norms3) {
  double x = sym_real("x", -1e6, 1e6), y = sym_real("y", -1e6, 1e6), z = sym_real("z", -1e6, 1e6);
  EuclideanNorm n;
  double r = n(x, y, z), q = euclidean_norm(x, y, z);
  CHECK(r >= 0 && q >= 0, "non_negative");
  sym_close(r * r, x * x + y * y + z * z, 0.01, "squared_norm");
  sym_close(q * q, x * x + y * y + z * z, 0.01, "squared_norm_function");
}
//@ entry norms_float theory=real time=60
HARNESS(norms_float) {
  float x = sym_realf("x", -1000, 1000), y = sym_realf("y", -1000, 1000);
  EuclideanNorm n;
  float r = n(x, y), q2 = euclidean_norm(x, y);
  sym_close(r * r, x * x + y * y, 8, "squared_norm");
  sym_close(q2 * q2, x * x + y * y, 8, "squared_norm");
  CHECK(r >= 0 && q2 >= 0, "non_negative");
}
//@ entry norms_float3 theory=real time=60
HARNESS(norms_float3) {
  float x = sym_realf("x", -1000, 1000), y = sym_realf("y", -1000, 1000), z = sym_realf("z", -1000, 1000);
  EuclideanNorm n;
  float q = euclidean_norm(x, y, z), r3 = n(x, y, z);
  sym_close(q * q, x * x + y * y + z * z, 8, "squared_norm");
  sym_close(r3 * r3, x * x + y * y + z * z, 8, "squared_norm");
  CHECK(q >= 0 && r3 >= 0, "non_negative");
}
// pow is a stand-in that records its arguments
static double pow_x, pow_e, pow_r;
static int pow_n;
extern "C" double fk_pow(double x, double e) { pow_x = x; pow_e = e; ++pow_n; return pow_r; }
HARNESS(cube_roots) {
  double x = any<double>("x");
  pow_r = any<double>("pow");
  ASSUME(x == x && pow_r == pow_r && pow_r >= 0);
  double r = cube_root(x);
  CHECK(pow_n == 1 && pow_x == fabs(x) && pow_e == 1.0 / 3.0, "root_of_the_magnitude");
  CHECK(r == (x >= 0 ? pow_r : -pow_r), "carries_the_sign");
}
HARNESS(constants) {
  CHECK(pi == M_PI && two_pi == 2 * M_PI && pi_2 == M_PI / 2 && pi_4 == M_PI / 4, "pi");
  CHECK(pi_f == (float)M_PI && two_pi_f == (float)(2 * M_PI) && pi_2_f == (float)(M_PI / 2) && pi_4_f == (float)(M_PI / 4), "pi_float");
}
