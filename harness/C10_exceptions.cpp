// Exceptions carry their error and message (ecl_exceptions).
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp
//@ default time=80
//@ bound every error flag value, messages of 0..3 arbitrary characters, locations of 1..2 arbitrary characters, chains of up to two re-throws, every 32-bit payload
//@ assume the ecl_errors package (not part of this repository) is the small stand-in in stubs/
#include <symx.h>
#include <string>
#include <string.h>
#include <ecl/exceptions/standard_exception.hpp>
#include <ecl/exceptions/data_exception.hpp>
#include <ecl/exceptions/posix_error_handler.hpp>
#include <ecl/exceptions/macros.hpp>
using namespace ecl;
static std::string anytext(int lo, int hi, const char *n) {
  int k = sym_pick(lo, hi, n);
  std::string s;
  for (int i = 0; i < k; ++i) { char c = (char)sym_u8("c"); ASSUME(c != 0); s += c; }
  return s;
}
static ErrorFlag anyflag() { unsigned f = sym_u32("flag"); ASSUME(f <= (unsigned)TimeErrorFlag); return (ErrorFlag)f; }
static std::string expected(const std::string &loc, ErrorFlag f, const std::string &msg) {
  std::string s("\nLocation : ");
  s += loc;
  s += "\nFlag     : ";
  s += Error(f).what();
  s += "\n";
  if (msg.size()) { s += "Detail   : "; s += msg; s += "\n"; }
  return s;
}
static bool same(const char *a, const std::string &b) {
  if (strlen(a) != b.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < b.size(); ++i) ok &= a[i] == b[i];
  return ok;
}
static bool same(const std::string &a, const std::string &b) { return same(a.c_str(), b); }
HARNESS(standard) {
  ErrorFlag f = anyflag();
  std::string loc = anytext(1, 2, "loc"), msg = anytext(0, 3, "msg");
  bool with = sym_bool("with_message");
  int caught = 0;
  try {
    if (with) throw StandardException(loc.c_str(), f, msg);
    msg.clear();
    throw StandardException(loc.c_str(), f);
  } catch (const StandardException &e) {
    ++caught;
    CHECK(e.flag() == f, "flag");
    CHECK(same(e.message(), msg), "message");
    CHECK(same(e.what(), expected(loc, f, msg)), "what");
  }
  CHECK(caught == 1, "caught");
}
HARNESS(base_class) { // observable through the generic interfaces
  ErrorFlag f = anyflag();
  std::string msg = anytext(0, 2, "msg");
  std::string want = expected("here", f, msg);
  int how = sym_pick(0, 2, "how"), caught = 0;
  try { throw StandardException("here", f, msg); }
  catch (StandardException &e) {
    const std::exception &s = e;
    const Exception &x = e;
    StandardException copy(e);
    caught = 1;
    CHECK(same(how == 0 ? s.what() : how == 1 ? x.what() : copy.what(), want), "what");
    CHECK(copy.flag() == f && same(copy.message(), msg), "copy");
  }
  CHECK(caught == 1, "caught");
}
HARNESS(rethrown) {
  ErrorFlag f = anyflag();
  std::string msg = anytext(0, 2, "msg");
  int depth = sym_pick(1, 2, "depth");
  std::string loc = "a";
  int seen = 0;
  try {
    try {
      try { throw StandardException("a", f, msg); }
      catch (const StandardException &e) { loc = "b\n         : " + loc; throw StandardException("b", e); }
    } catch (const StandardException &e) {
      if (depth == 1) { seen = 1; CHECK(e.flag() == f && same(e.message(), msg) && same(e.what(), expected(loc, f, msg)), "chain_keeps_everything"); }
      loc = "c\n         : " + loc;
      throw StandardException("c", e);
    }
  } catch (const Exception &e) {
    seen += 2;
    const StandardException *s = dynamic_cast<const StandardException *>(&e);
    CHECK(s && s->flag() == f && same(s->message(), msg), "chain_keeps_flag_and_message");
    CHECK(same(e.what(), expected(loc, f, msg)), "chain_lists_locations");
  }
  CHECK(seen >= 2, "caught");
}
HARNESS(data) {
  ErrorFlag f = anyflag();
  std::string msg = anytext(0, 2, "msg");
  int payload = sym_i32("payload");
  int caught = 0;
  try {
    try {
      if (sym_bool("with_message")) throw DataException<int>("a", f, msg, payload);
      msg.clear();
      throw DataException<int>("a", f, payload);
    } catch (const DataException<int> &e) {
      ++caught;
      CHECK(e.flag() == f && e.data() == payload, "data_and_flag");
      CHECK(strncmp(e.what(), "\nLocation : a\nFlag     : ", 25) == 0, "what");
      throw DataException<int>("b", e);
    }
  } catch (const Exception &e) {
    ++caught;
    const DataException<int> *d = dynamic_cast<const DataException<int> *>(&e);
    CHECK(d && d->flag() == f && d->data() == payload, "chain_keeps_data_and_flag");
    std::string w("\nLocation : b\n         : a\nFlag     : ");
    w += Error(f).what();
    w += "\n";
    if (msg.size()) { w += "Detail   : "; w += msg; w += "\n"; }
    w += "Data     : ";
    CHECK(strlen(e.what()) > w.size(), "what");
    bool ok = true;
    for (size_t i = 0; i < w.size(); ++i) ok &= e.what()[i] == w[i];
    CHECK(ok, "what");
  }
  CHECK(caught == 2, "caught");
}
static int evaluated;
static bool cond(bool b) { ++evaluated; return b; }
HARNESS(macros) { // debug checks are active in debug builds only, ecl_throw always
  bool ok = sym_bool("ok");
  ErrorFlag f = anyflag();
  int t = 0;
  try { ecl_assert_throw(cond(ok), StandardException(LOC, f)); } catch (StandardException &e) { t = 1; CHECK(e.flag() == f, "flag"); }
#ifdef NDEBUG
  CHECK(t == 0 && evaluated == 0, "release_checks_are_free");
#else
  CHECK(t == !ok && evaluated == 1, "debug_check_throws_exactly_on_failure");
#endif
  t = 0;
  try { ecl_debug_throw(StandardException(LOC, f)); } catch (StandardException &e) { t = 1; }
#ifdef NDEBUG
  CHECK(t == 0, "release_debug_throw_is_silent");
#else
  CHECK(t == 1, "debug_throw_throws");
#endif
  t = 0;
  ecl_try { ecl_throw(StandardException(LOC, f)); } ecl_catch(StandardException &e) { t = 1; CHECK(e.flag() == f, "flag"); }
  CHECK(t == 1, "throw_throws");
}
extern "C" char *fk_strerror(int e) { static char b[2]; b[0] = (char)(e & 0x7f); b[1] = 0; if (!b[0]) b[0] = 'x'; return b; }
HARNESS(posix) {
  int e = sym_i32("errno");
  errno = e;
  try { throw PosixErrorHandler<int>::GenerateStandardException("here"); }
  catch (StandardException &x) {
    char c = (char)(e & 0x7f);
    CHECK(x.flag() == PosixError, "flag");
    CHECK(x.message().size() == 2 && x.message()[0] == (c ? c : 'x') && x.message()[1] == '.', "describes_errno");
  }
}
