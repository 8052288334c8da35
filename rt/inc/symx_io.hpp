// Small stand-in for the iostream library (symbolic build only).  Text goes to a
// std::string; integers are converted exactly, floating point values are
// written as "0" (no property depends on that text).
#pragma once
#include <pthread.h>
#include <bits/postypes.h>
#include <bits/char_traits.h>
#include <bits/stringfwd.h>
#include <iosfwd>
#include <string>
#include <exception>
namespace std {
class ios_base {
public:
  typedef unsigned fmtflags;
  typedef unsigned iostate;
  typedef unsigned openmode;
  typedef int seekdir;
  static constexpr fmtflags dec = 2, hex = 8, oct = 64, fixed = 4, scientific = 256, left = 32, right = 128, internal = 16, showpoint = 1024, showpos = 2048,
                            showbase = 512, boolalpha = 1, uppercase = 16384, skipws = 4096, unitbuf = 8192, basefield = 74, adjustfield = 176, floatfield = 260;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  class failure {};
  struct Init {};
  fmtflags f_ = dec | skipws;
  streamsize w_ = 0, p_ = 6;
  fmtflags flags() const { return f_; }
  fmtflags flags(fmtflags f) { auto o = f_; f_ = f; return o; }
  fmtflags setf(fmtflags f) { auto o = f_; f_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { auto o = f_; f_ = (f_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags f) { f_ &= ~f; }
  streamsize width() const { return w_; }
  streamsize width(streamsize n) { auto o = w_; w_ = n; return o; }
  streamsize precision() const { return p_; }
  streamsize precision(streamsize n) { auto o = p_; p_ = n; return o; }
};
template <class C, class T> class basic_streambuf {
public:
  typedef C char_type;
  typedef T traits_type;
  typedef typename T::int_type int_type;
  basic_string<C, T> s_;
  size_t g_ = 0;
  virtual ~basic_streambuf() {}
  int_type sgetc() { return g_ < s_.size() ? T::to_int_type(s_[g_]) : T::eof(); }
  int_type snextc() { ++g_; return sgetc(); }
  int_type sbumpc() { auto r = sgetc(); ++g_; return r; }
  int_type sputc(C c) { s_.push_back(c); return T::to_int_type(c); }
  streamsize sputn(const C *p, streamsize n) { s_.append(p, n); return n; }
};
template <class C, class T> class basic_ios : public ios_base {
public:
  typedef C char_type;
  typedef T traits_type;
  iostate st_ = goodbit;
  C fill_ = ' ';
  virtual ~basic_ios() {}
  bool good() const { return st_ == 0; }
  bool eof() const { return st_ & eofbit; }
  bool fail() const { return st_ & (failbit | badbit); }
  bool bad() const { return st_ & badbit; }
  iostate rdstate() const { return st_; }
  void setstate(iostate s) { st_ |= s; }
  void clear(iostate s = goodbit) { st_ = s; }
  explicit operator bool() const { return !fail(); }
  bool operator!() const { return fail(); }
  C fill() const { return fill_; }
  C fill(C c) { auto o = fill_; fill_ = c; return o; }
  void exceptions(iostate) {}
  void copyfmt(const basic_ios &o) { f_ = o.f_; w_ = o.w_; p_ = o.p_; fill_ = o.fill_; }
  void imbue(...) {}
};
template <class C, class T> class basic_ostream : public virtual basic_ios<C, T> {
public:
  basic_string<C, T> buf_;
  basic_ostream() {}
  explicit basic_ostream(basic_streambuf<C, T> *) {}
  struct sentry { explicit sentry(basic_ostream &) {} explicit operator bool() const { return true; } };
  basic_ostream &write(const C *p, streamsize n) { buf_.append(p, n); return *this; }
  basic_ostream &put(C c) { buf_.push_back(c); return *this; }
  basic_ostream &flush() { return *this; }
  void emit(const C *p, size_t n) {
    size_t w = this->w_ > 0 ? this->w_ : 0;
    this->w_ = 0;
    bool l = this->f_ & ios_base::left;
    if (!l) for (size_t i = n; i < w; ++i) buf_.push_back(this->fill_);
    buf_.append(p, n);
    if (l) for (size_t i = n; i < w; ++i) buf_.push_back(this->fill_);
  }
  basic_ostream &num(unsigned long v, bool neg) {
    C t[72];
    int k = 72;
    unsigned b = (this->f_ & ios_base::hex) ? 16 : (this->f_ & ios_base::oct) ? 8 : 10;
    do { unsigned d = v % b; t[--k] = d < 10 ? '0' + d : 'a' + d - 10; v /= b; } while (v);
    if (neg) t[--k] = '-';
    emit(t + k, 72 - k);
    return *this;
  }
  basic_ostream &sg(long v) { return v < 0 ? num(0ul - (unsigned long)v, true) : num(v, false); }
  basic_ostream &operator<<(bool v) { return num(v, false); }
  basic_ostream &operator<<(short v) { return sg(v); }
  basic_ostream &operator<<(unsigned short v) { return num(v, false); }
  basic_ostream &operator<<(int v) { return sg(v); }
  basic_ostream &operator<<(unsigned v) { return num(v, false); }
  basic_ostream &operator<<(long v) { return sg(v); }
  basic_ostream &operator<<(unsigned long v) { return num(v, false); }
  basic_ostream &operator<<(long long v) { return sg(v); }
  basic_ostream &operator<<(unsigned long long v) { return num(v, false); }
  basic_ostream &operator<<(float) { C z = '0'; emit(&z, 1); return *this; }
  basic_ostream &operator<<(double) { C z = '0'; emit(&z, 1); return *this; }
  basic_ostream &operator<<(long double) { C z = '0'; emit(&z, 1); return *this; }
  basic_ostream &operator<<(const void *) { C z = '0'; emit(&z, 1); return *this; }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_ostream &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
};
inline ostream &__ostream_insert(ostream &o, const char *p, streamsize n) { o.emit(p, n); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, C c) { o.emit(&c, 1); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char d = c; o.emit(&d, 1); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char d = c; o.emit(&d, 1); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { o.emit(s, __builtin_strlen(s)); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const unsigned char *s) { return o << (const char *)s; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const signed char *s) { return o << (const char *)s; }
template <class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { o.put('\n'); return o; }
template <class C, class T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { o.put('\0'); return o; }
template <class C, class T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
template <class C, class T> class basic_istream : public virtual basic_ios<C, T> {
public:
  basic_string<C, T> in_;
  size_t g_ = 0;
  streamsize gc_ = 0;
  basic_istream() {}
  explicit basic_istream(basic_streambuf<C, T> *) {}
  typedef typename T::int_type int_type;
  int_type peek() { if (g_ < in_.size()) return T::to_int_type(in_[g_]); this->setstate(ios_base::eofbit); return T::eof(); }
  int_type get() { gc_ = 0; if (g_ < in_.size()) { gc_ = 1; return T::to_int_type(in_[g_++]); } this->setstate(ios_base::eofbit | ios_base::failbit); return T::eof(); }
  basic_istream &get(C &c) { auto r = get(); if (!T::eq_int_type(r, T::eof())) c = T::to_char_type(r); return *this; }
  basic_istream &putback(C) { if (g_) --g_; return *this; }
  basic_istream &unget() { if (g_) --g_; return *this; }
  basic_istream &ignore(streamsize n = 1, int_type d = T::eof()) { while (n-- > 0 && g_ < in_.size()) if (T::to_int_type(in_[g_++]) == d) break; return *this; }
  streamsize gcount() const { return gc_; }
  bool ws_() {
    if (this->fail() || this->eof()) { this->setstate(ios_base::failbit); return false; }
    if (this->f_ & ios_base::skipws) while (g_ < in_.size() && sp(in_[g_])) ++g_;
    if (g_ >= in_.size()) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; }
    return true;
  }
  static bool sp(C c) { return c == ' ' || (c >= 9 && c <= 13); }
  // decimal integers only (the default base)
  bool integer(bool &neg, unsigned long &v, bool &over) {
    if (!ws_()) return false;
    neg = over = false;
    v = 0;
    if (in_[g_] == '-' || in_[g_] == '+') { neg = in_[g_] == '-'; ++g_; }
    bool any = false;
    while (g_ < in_.size() && in_[g_] >= '0' && in_[g_] <= '9') {
      any = true;
      unsigned d = in_[g_] - '0';
      if (v > (~0ul - d) / 10) over = true; else v = v * 10 + d;
      ++g_;
    }
    if (g_ >= in_.size()) this->setstate(ios_base::eofbit);
    if (!any) this->setstate(ios_base::failbit);
    return any;
  }
  template <class I> basic_istream &sint(I &x, long mn, long mx) {
    bool neg, over; unsigned long v;
    if (!integer(neg, v, over)) { if (g_ <= in_.size()) x = 0; return *this; }
    unsigned long lim = neg ? 0ul - (unsigned long)mn : (unsigned long)mx;
    if (over || v > lim) { x = neg ? mn : mx; this->setstate(ios_base::failbit); }
    else x = neg ? (I)(0ul - v) : (I)v;
    return *this;
  }
  template <class I> basic_istream &uint(I &x, unsigned long mx) {
    bool neg, over; unsigned long v;
    if (!integer(neg, v, over)) { x = 0; return *this; }
    if (over || v > mx) { x = mx; this->setstate(ios_base::failbit); }
    else x = neg ? (I)(0ul - v) : (I)v;
    return *this;
  }
  basic_istream &operator>>(short &v) { return sint(v, -32768, 32767); }
  basic_istream &operator>>(int &v) { return sint(v, -2147483648l, 2147483647l); }
  basic_istream &operator>>(long &v) { return sint(v, (long)(1ul << 63), (long)((1ul << 63) - 1)); }
  basic_istream &operator>>(long long &v) { return sint(v, (long)(1ul << 63), (long)((1ul << 63) - 1)); }
  basic_istream &operator>>(unsigned short &v) { return uint(v, 65535); }
  basic_istream &operator>>(unsigned &v) { return uint(v, 4294967295u); }
  basic_istream &operator>>(unsigned long &v) { return uint(v, ~0ul); }
  basic_istream &operator>>(unsigned long long &v) { return uint(v, ~0ul); }
  basic_istream &operator>>(bool &v) { unsigned long u = 0; bool neg, over; if (integer(neg, u, over)) { v = u != 0; if (neg || over || u > 1) this->setstate(ios_base::failbit); } return *this; }
  // plain decimal numbers: digits [. digits]
  template <class F> basic_istream &flt(F &x) {
    if (!ws_()) return *this;
    bool neg = false, any = false;
    if (in_[g_] == '-' || in_[g_] == '+') { neg = in_[g_] == '-'; ++g_; }
    double v = 0, s = 1;
    while (g_ < in_.size() && in_[g_] >= '0' && in_[g_] <= '9') { any = true; v = v * 10 + (in_[g_] - '0'); ++g_; }
    if (g_ < in_.size() && in_[g_] == '.') { ++g_; while (g_ < in_.size() && in_[g_] >= '0' && in_[g_] <= '9') { any = true; v = v * 10 + (in_[g_] - '0'); s *= 10; ++g_; } }
    if (g_ >= in_.size()) this->setstate(ios_base::eofbit);
    if (!any) { x = 0; this->setstate(ios_base::failbit); return *this; }
    v /= s;
    x = neg ? -v : v;
    return *this;
  }
  basic_istream &operator>>(float &v) { return flt(v); }
  basic_istream &operator>>(double &v) { return flt(v); }
  basic_istream &operator>>(long double &v) { return flt(v); }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
  basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
};
template <class C, class T> basic_istream<C, T> &operator>>(basic_istream<C, T> &i, C &c) { if (i.ws_()) c = i.in_[i.g_++]; return i; }
template <class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, unsigned char &c) { if (i.ws_()) c = i.in_[i.g_++]; return i; }
inline istream &operator>>(istream &i, string &s) {
  if (!i.ws_()) return i;
  s.clear();
  while (i.g_ < i.in_.size() && !i.sp(i.in_[i.g_])) s.push_back(i.in_[i.g_++]);
  if (i.g_ >= i.in_.size()) i.setstate(ios_base::eofbit);
  return i;
}
inline istream &getline(istream &i, string &s, char d) {
  s.clear();
  if (i.g_ >= i.in_.size()) { i.setstate(ios_base::eofbit | ios_base::failbit); return i; }
  while (i.g_ < i.in_.size()) { char c = i.in_[i.g_++]; if (c == d) return i; s.push_back(c); }
  i.setstate(ios_base::eofbit);
  return i;
}
inline istream &getline(istream &i, string &s) { return getline(i, s, '\n'); }
template <class C, class T> basic_istream<C, T> &ws(basic_istream<C, T> &i) { while (i.g_ < i.in_.size() && i.sp(i.in_[i.g_])) ++i.g_; return i; }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};
inline namespace __cxx11 {
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
public:
  basic_ostringstream() {}
  explicit basic_ostringstream(ios_base::openmode) {}
  explicit basic_ostringstream(const basic_string<C, T, A> &s, ios_base::openmode = 16) { this->buf_ = s; }
  basic_string<C, T, A> str() const { return this->buf_; }
  void str(const basic_string<C, T, A> &s) { this->buf_ = s; }
};
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> {
public:
  basic_istringstream() {}
  explicit basic_istringstream(const basic_string<C, T, A> &s, ios_base::openmode = 8) { this->in_ = s; }
  basic_string<C, T, A> str() const { return this->in_; }
  void str(const basic_string<C, T, A> &s) { this->in_ = s; this->g_ = 0; }
};
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
public:
  basic_stringstream() {}
  explicit basic_stringstream(const basic_string<C, T, A> &s, ios_base::openmode = 24) { this->buf_ = s; this->in_ = s; }
  basic_string<C, T, A> str() const { return this->buf_; }
  void str(const basic_string<C, T, A> &s) { this->buf_ = s; this->in_ = s; this->g_ = 0; }
};
}
template <class C, class T> class basic_ofstream : public basic_ostream<C, T> {
public:
  basic_ofstream() {}
  explicit basic_ofstream(const char *, ios_base::openmode = 16) {}
  explicit basic_ofstream(const std::string &, ios_base::openmode = 16) {}
  void open(const char *, ios_base::openmode = 16) {}
  void open(const std::string &, ios_base::openmode = 16) {}
  bool is_open() const { return true; }
  void close() {}
};
template <class C, class T> class basic_ifstream : public basic_istream<C, T> {
public:
  basic_ifstream() {}
  explicit basic_ifstream(const char *, ios_base::openmode = 8) {}
  bool is_open() const { return true; }
  void close() {}
};
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base &boolalpha(ios_base &b) { return b; }
inline ios_base &showpoint(ios_base &b) { return b; }
inline ios_base &showpos(ios_base &b) { return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
struct symx_setw { int n; };
struct symx_setp { int n; };
struct symx_setfill { char c; };
struct symx_setf { unsigned f; };
inline symx_setw setw(int n) { return {n}; }
inline symx_setp setprecision(int n) { return {n}; }
inline symx_setfill setfill(char c) { return {c}; }
inline symx_setf setiosflags(unsigned f) { return {f}; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, symx_setw s) { o.width(s.n); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, symx_setp s) { o.precision(s.n); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, symx_setfill s) { o.fill(s.c); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, symx_setf s) { o.setf(s.f); return o; }
template <class C, class T> basic_istream<C, T> &operator>>(basic_istream<C, T> &o, symx_setw s) { o.width(s.n); return o; }
extern ostream cout, cerr, clog;
extern istream cin;
} // namespace std
