// Models of the C and C++ library functions that are not available as IR.
// Compiled to IR and linked into every harness module (symbolic run only).
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <functional>
#include <bits/stl_tree.h>
#include <bits/stl_list.h>

extern "C" {
char __libc_single_threaded = 1;
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) {
  while (*a && *a == *b) { ++a; ++b; }
  return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
  for (; n; --n, ++a, ++b) {
    if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b;
    if (!*a) return 0;
  }
  return 0;
}
int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
  for (size_t i = 0; i < n; ++i)
    if (x[i] != y[i]) return (int)x[i] - (int)y[i];
  return 0;
}
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *a, int c, size_t n) {
  const unsigned char *x = (const unsigned char *)a;
  for (size_t i = 0; i < n; ++i) if (x[i] == (unsigned char)c) return (void *)(x + i);
  return 0;
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; ++i) d[i] = s[i];
  for (; i < n; ++i) d[i] = 0;
  return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strchr(const char *s, int c) {
  for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *strrchr(const char *s, int c) {
  const char *r = 0;
  for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; }
}
char *strstr(const char *h, const char *n) {
  size_t l = strlen(n);
  for (;; ++h) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; }
}
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); for (size_t i = 0; i < n; ++i) p[i] = s[i]; return p; }
char *strerror(int) { return (char *)"error"; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
double nextafter(double x, double y) {
  if (x == y) return y;
  if (x == 0) return y > 0 ? 5e-324 : -5e-324;
  uint64_t b;
  __builtin_memcpy(&b, &x, 8);
  b += ((x < y) == (x > 0)) ? 1 : -1;
  __builtin_memcpy(&x, &b, 8);
  return x;
}
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
uint16_t htons(uint16_t x) { return (uint16_t)(x << 8 | x >> 8); }
uint16_t ntohs(uint16_t x) { return htons(x); }
uint32_t htonl(uint32_t x) { return __builtin_bswap32(x); }
uint32_t ntohl(uint32_t x) { return __builtin_bswap32(x); }
div_t div(int a, int b) { div_t d; d.quot = a / b; d.rem = a % b; return d; }
ldiv_t ldiv(long a, long b) { ldiv_t d; d.quot = a / b; d.rem = a % b; return d; }
int atoi(const char *s) { int v = 0, neg = 0; while (isspace(*s)) ++s; if (*s == '-') { neg = 1; ++s; } else if (*s == '+') ++s; while (isdigit(*s)) v = v * 10 + (*s++ - '0'); return neg ? -v : v; }
int puts(const char *) { return 0; }
int putchar(int c) { return c; }
int printf(const char *, ...) { return 0; }
int fprintf(FILE *, const char *, ...) { return 0; }
int usleep(unsigned) { return 0; }

// integers, strings and characters only; floating point conversions write "0.0"
static int fmt(char *out, size_t n, const char *f, va_list ap) {
  size_t k = 0;
  auto put = [&](char c) { if (out && k + 1 < n) out[k] = c; ++k; };
  for (; *f; ++f) {
    if (*f != '%') { put(*f); continue; }
    ++f;
    bool left = false, zero = false, plus = false;
    for (;; ++f) {
      if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == ' ' || *f == '#') {} else break;
    }
    int w = 0, prec = -1;
    if (*f == '*') { w = va_arg(ap, int); ++f; } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
    if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg(ap, int); ++f; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int L = 0;
    while (*f == 'l' || *f == 'z' || *f == 'h') { if (*f != 'h') L++; ++f; }
    char tmp[80];
    int t = 0;
    const char *src = tmp;
    switch (*f) {
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': {
      unsigned long v;
      bool neg = false;
      if (*f == 'd' || *f == 'i') {
        long s = L ? va_arg(ap, long) : va_arg(ap, int);
        neg = s < 0;
        v = neg ? 0ul - (unsigned long)s : s;
      } else v = L ? va_arg(ap, unsigned long) : va_arg(ap, unsigned);
      unsigned base = (*f == 'x' || *f == 'X') ? 16 : *f == 'o' ? 8 : 10;
      char rev[70];
      int r = 0;
      do { unsigned dg = v % base; rev[r++] = dg < 10 ? '0' + dg : (*f == 'X' ? 'A' : 'a') + dg - 10; v /= base; } while (v);
      while (r < prec) rev[r++] = '0';
      if (zero && !left) while (r + (neg || plus) < w) rev[r++] = '0';
      if (neg) rev[r++] = '-'; else if (plus) rev[r++] = '+';
      while (r) tmp[t++] = rev[--r];
      break;
    }
    case 'c': tmp[t++] = (char)va_arg(ap, int); break;
    case 's': src = va_arg(ap, const char *); t = prec >= 0 ? strnlen(src, prec) : strlen(src); break;
    case '%': tmp[t++] = '%'; break;
    case 'f': case 'g': case 'e': (void)va_arg(ap, double); tmp[t++] = '0'; tmp[t++] = '.'; tmp[t++] = '0'; break;
    case 'p': (void)va_arg(ap, void *); tmp[t++] = '0'; tmp[t++] = 'x'; tmp[t++] = '0'; break;
    default: break;
    }
    if (!left) for (int i = t; i < w; ++i) put(' ');
    for (int i = 0; i < t; ++i) put(src[i]);
    if (left) for (int i = t; i < w; ++i) put(' ');
  }
  if (n) out[k < n ? k : n - 1] = 0;
  return (int)k;
}
int vsnprintf(char *o, size_t n, const char *f, va_list ap) { return fmt(o, n, f, ap); }
int snprintf(char *o, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = fmt(o, n, f, ap); va_end(ap); return r; }
int sprintf(char *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = fmt(o, (size_t)1 << 30, f, ap); va_end(ap); return r; }
} // extern "C"

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

__cow_string::__cow_string() : _M_p(strdup("")) {}
__cow_string::__cow_string(const std::string &s) : _M_p(strdup(s.c_str())) {}
__cow_string::__cow_string(const char *s, size_t) : _M_p(strdup(s)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(strdup(o._M_p)) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept {
  if (this != &o) { free((void *)_M_p); _M_p = strdup(o._M_p); }
  return *this;
}
__cow_string::~__cow_string() { free((void *)_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) { o._M_p = strdup(""); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { auto t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

logic_error::logic_error(const string &a) : _M_msg(a) {}
logic_error::logic_error(const char *a) : _M_msg(a, 0) {}
logic_error::logic_error(logic_error &&o) noexcept = default;
logic_error &logic_error::operator=(logic_error &&o) noexcept = default;
logic_error::logic_error(const logic_error &) noexcept = default;
logic_error &logic_error::operator=(const logic_error &) noexcept = default;
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return *(const char *const *)&_M_msg; }
runtime_error::runtime_error(const string &a) : _M_msg(a) {}
runtime_error::runtime_error(const char *a) : _M_msg(a, 0) {}
runtime_error::runtime_error(runtime_error &&o) noexcept = default;
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept = default;
runtime_error::runtime_error(const runtime_error &) noexcept = default;
runtime_error &runtime_error::operator=(const runtime_error &) noexcept = default;
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return *(const char *const *)&_M_msg; }
#define D(C, B) C::C(const string &a) : B(a) {} C::C(const char *a) : B(a) {} C::~C() noexcept {}
D(domain_error, logic_error) D(invalid_argument, logic_error) D(length_error, logic_error) D(out_of_range, logic_error)
D(range_error, runtime_error) D(overflow_error, runtime_error) D(underflow_error, runtime_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }

const nothrow_t nothrow{};

// ---------------------------------------------------------------- red-black tree
typedef _Rb_tree_node_base N;
static N *incr(N *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else {
    N *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static N *decr(N *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { N *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else {
    N *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    x = y;
  }
  return x;
}
N *_Rb_tree_increment(N *x) throw() { return incr(x); }
const N *_Rb_tree_increment(const N *x) throw() { return incr(const_cast<N *>(x)); }
N *_Rb_tree_decrement(N *x) throw() { return decr(x); }
const N *_Rb_tree_decrement(const N *x) throw() { return decr(const_cast<N *>(x)); }
static void rotl(N *const x, N *&root) {
  N *const y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
static void rotr(N *const x, N *&root) {
  N *const y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
  else x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &header) throw() {
  N *&root = header._M_parent;
  x->_M_parent = p;
  x->_M_left = 0;
  x->_M_right = 0;
  x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &header) { header._M_parent = x; header._M_right = x; }
    else if (p == header._M_left) header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    N *const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      N *const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else {
        if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color = _S_red;
        rotr(xpp, root);
      }
    } else {
      N *const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else {
        if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color = _S_red;
        rotl(xpp, root);
      }
    }
  }
  root->_M_color = _S_black;
}
N *_Rb_tree_rebalance_for_erase(N *const z, N &header) throw() {
  N *&root = header._M_parent, *&leftmost = header._M_left, *&rightmost = header._M_right;
  N *y = z, *x = 0, *xp = 0;
  if (y->_M_left == 0) x = y->_M_right;
  else if (y->_M_right == 0) x = y->_M_left;
  else {
    y = y->_M_right;
    while (y->_M_left) y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    } else xp = y;
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (z->_M_right == 0) leftmost = z->_M_parent;
      else { N *m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
    }
    if (rightmost == z) {
      if (z->_M_left == 0) rightmost = z->_M_parent;
      else { N *m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
    }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) {
        N *w = xp->_M_right;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_right) w->_M_right->_M_color = _S_black;
          rotl(xp, root);
          break;
        }
      } else {
        N *w = xp->_M_left;
        if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) {
          w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
        } else {
          if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
          w->_M_color = xp->_M_color; xp->_M_color = _S_black;
          if (w->_M_left) w->_M_left->_M_color = _S_black;
          rotr(xp, root);
          break;
        }
      }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *const n = _M_next, *const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    auto *const t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { auto *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      auto *a = x._M_next; x._M_next = y._M_next; y._M_next = a;
      a = x._M_prev; x._M_prev = y._M_prev; y._M_prev = a;
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
} // namespace __detail
} // namespace std
#include <iostream>
namespace std {
ostream cout, cerr, clog;
istream cin;
}
