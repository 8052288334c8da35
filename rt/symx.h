// Harness interface.  The symbolic executor interprets these functions; the
// native replay library (native.cpp) implements them by reading concrete values
// from a counterexample file.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
void sym_bytes(void *p, size_t n, const char *name);
uint64_t sym_u64(const char *name);
uint32_t sym_u32(const char *name);
uint16_t sym_u16(const char *name);
uint8_t sym_u8(const char *name);
int sym_bool(const char *name);
double sym_f64(const char *name);                         // any bit pattern
float sym_f32(const char *name);
double sym_real(const char *name, double lo, double hi);  // finite, lo <= x <= hi
float sym_realf(const char *name, float lo, float hi);
void sym_assume(int c);
void sym_assert(int c, const char *id);
void sym_close(double a, double b, double tol, const char *id);
void sym_fail(const char *id) __attribute__((noreturn));
void sym_reach(const char *tag);
void sym_out(const char *name, uint64_t v);
int sym_choose(int n, const char *name);
uint64_t sym_concrete(uint64_t v);                        // one path per feasible value
void sym_split(int on);                                   // follow both sides of every selection separately
long sym_live(void);                                      // live heap blocks
int sym_native(void);                                     // 1 in a native replay
int sym_readable(const void *p, size_t n);
void sym_stop(void) __attribute__((noreturn));            // end this path quietly
int sym_thread_create(void *(*fn)(void *), void *arg);
int sym_self(void);
void sym_yield(void);
void sym_block(const void *on);
void sym_wake(const void *on);
void sym_join(int id);
}
#define ASSUME(c) sym_assume(!!(c))
#define CHECK(c, id) sym_assert(!!(c), id)
inline int32_t sym_i32(const char *n) { return (int32_t)sym_u32(n); }
inline int64_t sym_i64(const char *n) { return (int64_t)sym_u64(n); }
inline int64_t sym_range(int64_t lo, int64_t hi, const char *n) {
  int64_t v = (int64_t)sym_u64(n);
  sym_assume(v >= lo);
  sym_assume(v <= hi);
  return v;
}
// an int in [lo,hi], one path per value
inline int sym_pick(int lo, int hi, const char *n) { return lo + sym_choose(hi - lo + 1, n); }
#define HARNESS(name) extern "C" void name()
#ifdef __cplusplus
#include <new>
#include <utility>
// Object constructed over storage holding arbitrary bytes: members left
// uninitialised by a constructor become ordinary symbolic inputs.
template <class T> struct Dirty {
  alignas(T) unsigned char buf[sizeof(T)];
  bool live = false;
  Dirty() { sym_bytes(buf, sizeof(T), "storage"); }
  template <class... A> T &make(A &&...a) {
    T *p = new (buf) T(std::forward<A>(a)...);
    live = true;
    return *p;
  }
  T &make0() {
    T *p = new (buf) T;
    live = true;
    return *p;
  }
  T &get() { return *reinterpret_cast<T *>(buf); }
  void kill() { if (live) { live = false; get().~T(); } }
  ~Dirty() { kill(); }
  Dirty(const Dirty &) = delete;
};
#endif
