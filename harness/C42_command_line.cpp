// Command lines are parsed into exactly the values given, or refused.
//@ config rel
//@ default time=200
//@ bound command lines of up to 3 (thorough: 4) words, each any of some twenty forms of flags, names, combinations and values with any characters in place of one or two; numbers of up to 4 (thorough: 6) characters; delimiters space and '='
//@ assume numbers are read as std::istringstream reads them (a stand-in where symbolic)
//@ outside a '-' inside a combination; the text of usage messages; the character '\a' in words; switches of an exclusive group given in combination with others; a second command line in a process after one ignored its rest
#include <symx.h>
#include <unistd.h>
#include <string>
#include <sstream>
#include <vector>
#include <list>
#include <iostream>
#include <iomanip>
#include <algorithm>
#ifdef __clang__
namespace std {
// numbers in text, as far as they matter here
class few_words {
  string s;
  size_t at;
  bool eof, bad;
 public:
  few_words(const string &t) : s(t), at(0), eof(false), bad(false) {}
  bool good() const { return !eof && !bad; }
  bool fail() const { return bad; }
  int peek() {
    if (!good()) return -1;
    if (at == s.size()) { eof = true; return -1; }
    return (unsigned char)s[at];
  }
  few_words &operator>>(int &v) {
    if (!good()) { bad = true; return *this; }
    while (at < s.size() && (s[at] == ' ' || (s[at] >= 9 && s[at] <= 13))) ++at;
    bool minus = false, any = false;
    if (at < s.size() && (s[at] == '-' || s[at] == '+')) minus = s[at++] == '-';
    long n = 0;
    while (at < s.size() && s[at] >= '0' && s[at] <= '9') {
      n = n * 10 + (s[at++] - '0');
      if (n > 3000000000L) n = 3000000000L;
      any = true;
    }
    if (at == s.size()) eof = true;
    if (!any) { bad = true; v = 0; return *this; }
    if (minus) n = -n;
    if (n > 2147483647L) { v = 2147483647; bad = true; }
    else if (n < -2147483648L) { v = -2147483647 - 1; bad = true; }
    else v = (int)n;
    return *this;
  }
};
}
#define istringstream few_words
#endif
#include <ecl/command_line.hpp>
#undef istringstream
using namespace ecl;

enum Ended { PARSED, REFUSED, USAGE, VERSION };
struct Output : public CmdLineOutput {
  virtual void usage(CmdLineInterface &) { throw USAGE; }
  virtual void version(CmdLineInterface &) { throw VERSION; }
  virtual void failure(CmdLineInterface &, ArgException &) { throw REFUSED; }
};
static Ended parse(CmdLine &cmd, const std::vector<std::string> &words) {
  char *argv[16];
  static char name[] = "program";
  if (words.size() > 14) sym_stop();
  argv[0] = name;
  for (size_t i = 0; i < words.size(); ++i) argv[i + 1] = (char *)words[i].c_str();
  try {
    cmd.parse((int)words.size() + 1, argv);
  } catch (Ended e) {
    return e;
  }
  return PARSED;
}

// what a command line means, told from its words
struct Meaning {
  bool a, b, a_set, b_set, name_set, rest;
  int verbose;
  std::string name;
  std::vector<std::string> many, bare;
  Meaning() : a(false), b(true), a_set(false), b_set(false), name_set(false), rest(false), verbose(0), name("none") {}
};
static bool toggle(bool &v, bool &set) {
  if (set) return false;
  set = true;
  v = !v;
  return true;
}
static Ended means(const std::vector<std::string> &w, char delim, size_t bare, Meaning &m) {
  for (size_t i = 0; i < w.size(); ++i) {
    std::string t = w[i], value;
    bool flag = !m.rest && t.size() >= 1 && t[0] == '-';
    if (flag) {
      if (t == "--" || t == "--ignore_rest") { m.rest = true; continue; }
      if (t == "-h" || t == "--help") return USAGE;
      if (t == "--version") return VERSION;
      if (t == "-a" || t == "--alpha") { if (!toggle(m.a, m.a_set)) return REFUSED; continue; }
      if (t == "-b" || t == "--beta") { if (!toggle(m.b, m.b_set)) return REFUSED; continue; }
      if (t == "-v" || t == "--verbose") { m.verbose++; continue; }
      size_t d = t.find(delim);
      if (d != std::string::npos && d > 1) { value = t.substr(d + 1); t = t.substr(0, d); }
      bool one = t == "-n" || t == "--name", many = t == "-m" || t == "--many";
      if (one || many) {
        if (one && m.name_set) return REFUSED;
        if (value.empty()) {
          if (delim != ' ') return REFUSED;
          if (++i == w.size()) return REFUSED;
          value = w[i];
        }
        if (one) { m.name = value; m.name_set = true; }
        else m.many.push_back(value);
        continue;
      }
      t = w[i];
      if (t == "-" && bare <= m.bare.size()) continue;   // an empty combination
      if (t.size() >= 2 && t[1] != '-' && d == std::string::npos) {
        bool others = false, h = false;
        Meaning was = m;
        bool twice = false;
        for (size_t k = 1; k < t.size(); ++k) {
          if (t[k] == 'a') { if (!toggle(m.a, m.a_set)) twice = true; }
          else if (t[k] == 'b') { if (!toggle(m.b, m.b_set)) twice = true; }
          else if (t[k] == 'v') m.verbose++;
          else if (t[k] == 'h') { twice = twice || h; h = true; }
          else if (t[k] == '-') ASSUME(false);   // also starts ignoring the rest
          else others = true;
        }
        if (twice) return REFUSED;
        if (h) return USAGE;
        if (!others) continue;
        if (m.a_set != was.a_set || m.b_set != was.b_set || m.verbose != was.verbose) return REFUSED;
      }
    }
    if (m.bare.size() < bare) { m.bare.push_back(w[i]); continue; }
    if (!m.rest) return REFUSED;
  }
  return PARSED;
}

static char any_char(const char *n) {
  char c = (char)sym_u8(n);
  ASSUME(c != 0 && c != '\a');
  return c;
}
static std::string any_text(int len) {
  std::string s;
  for (int i = 0; i < len; ++i) s += any_char("character");
  return s;
}
static const char *const spaced[] = {"-a", "--alpha", "-b", "-ab", "-v", "-vav", "-n", "--name", "-m", "--", "-z", "-"};
static const char *const joined[] = {"--beta", "--verbose", "-n=", "--name=a", "-m=-v", "--many=x y", "-x=a", "--nam=e", "-h", "--version", "--ignore_rest", "-a=b"};
static std::string word(int forms) {
  int k = sym_choose(forms + 2, "form");
  if (k < 12) return spaced[k];
  if (k < forms) return joined[k - 12];
  if (k == forms) return std::string();
  std::string s("x");
  s[0] = any_char("character");
  return s;
}
#ifdef SYMX_THOROUGH
enum { WORDS = 4, FULL = 3 };
#else
enum { WORDS = 3, FULL = 2 };
#endif
static void general(const std::vector<std::string> &w, char delim) {
  long before = sym_live();
  {
    Output out;
    size_t bare = sym_choose(2, "takes a bare word");
    CmdLine cmd("message", delim, "1.0");
    cmd.setOutput(&out);
    SwitchArg a("a", "alpha", "first"), b("b", "beta", "second", true);
    MultiSwitchArg v("v", "verbose", "third");
    ValueArg<std::string> n("n", "name", "fourth", false, "none", "text");
    MultiArg<std::string> m("m", "many", "fifth", false, "text");
    UnlabeledValueArg<std::string> u("bare", "sixth", false, "nothing", "text");
    cmd.add(a);
    cmd.add(b);
    cmd.add(v);
    cmd.add(n);
    cmd.add(m);
    if (bare) cmd.add(u);
    Meaning want;
    Ended end = means(w, delim, bare, want), got = parse(cmd, w);
    CHECK(got == end, "exactly the command lines that make sense are accepted");
    if (got == PARSED) {
      CHECK(a.getValue() == want.a && b.getValue() == want.b, "switches given are switched");
      CHECK(a.isSet() == want.a_set && b.isSet() == want.b_set && n.isSet() == want.name_set && m.isSet() == !want.many.empty(), "arguments know whether they were given");
      CHECK(v.getValue() == want.verbose, "switches given many times are counted");
      CHECK(n.getValue() == want.name, "values are those given");
      CHECK(m.getValue() == want.many, "values given many times are all kept in order");
      if (bare) CHECK(u.getValue() == (want.bare.empty() ? std::string("nothing") : want.bare[0]), "bare words are kept");
    }
  }
  CHECK(sym_live() == before, "nothing is leaked");
}
// settle what the first use of the library sets up for good
static void warm() { Arg::delimiter(); }
HARNESS(words) {
  warm();
  std::vector<std::string> w;
  int n = sym_pick(1, WORDS, "words");
  for (int i = 0; i < n; ++i) w.push_back(word(12));
  general(w, ' ');
}
HARNESS(joined_words) {
  warm();
  std::vector<std::string> w;
  int n = sym_pick(1, FULL, "words");
  for (int i = 0; i < n; ++i) w.push_back(word(24));
  general(w, sym_choose(2, "delimiter") ? '=' : ' ');
}
HARNESS(any_words) {
  warm();
  std::vector<std::string> w;
  int n = sym_pick(1, 2, "words");
  for (int i = 0; i < n; ++i) w.push_back(std::string(sym_choose(2, "dash") ? "-" : "") + any_text(sym_pick(0, i ? 1 : 2, "length")));
  general(w, sym_choose(2, "delimiter") ? '=' : ' ');
}
//@ entry words
//@ entry joined_words
//@ entry any_words

// required arguments, alone and in groups of which exactly one must be given
HARNESS(required) {
  long before = sym_live();
  {
    Output out;
    CmdLine cmd("message", ' ', "1.0", sym_choose(2, "offers help") != 0);
    cmd.setOutput(&out);
    bool need_n = sym_choose(2, "name required") != 0, need_m = sym_choose(2, "many required") != 0, need_u = sym_choose(2, "bare required") != 0;
    ValueArg<std::string> n("n", "name", "first", need_n, "none", "text", cmd);
    MultiArg<std::string> m("", "many", "second", need_m, "text", cmd);
    SwitchArg a("a", "alpha", "third", cmd, true);
    MultiSwitchArg v("v", "verbose", "fourth", cmd, 2);
    UnlabeledValueArg<std::string> u("bare", "fifth", need_u, "nothing", "text", cmd);
    int given[4] = {sym_choose(2, "name given"), sym_choose(3, "many given"), sym_choose(2, "bare given"), sym_choose(2, "switches given")};
    bool first = sym_choose(2, "bare first") != 0;
    std::string t = any_text(1);
    ASSUME(t != "-" && t != " ");
    std::vector<std::string> w;
    if (first && given[2]) w.push_back(t);
    if (given[3]) w.push_back("-av");
    for (int i = 0; i < given[1]; ++i) { w.push_back("--many"); w.push_back(i ? "two" : t); }
    if (given[0]) { w.push_back("-n"); w.push_back(t); }
    if (!first && given[2]) w.push_back(t);
    Ended want = (need_n && !given[0]) || (need_m && !given[1]) || (need_u && !given[2]) ? REFUSED : PARSED;
    CHECK(parse(cmd, w) == want, "what is required must be given, and no more than that");
    if (want == PARSED) {
      CHECK(n.getValue() == (given[0] ? t : std::string("none")), "values are those given");
      CHECK(u.getValue() == (given[2] ? t : std::string("nothing")), "bare words are kept");
      CHECK((int)m.getValue().size() == given[1] && (!given[1] || m.getValue()[0] == t) && (given[1] < 2 || m.getValue()[1] == "two"), "values given many times are all kept in order");
      CHECK(a.getValue() == !given[3] && v.getValue() == 2 + given[3], "switches given are switched");
    }
  }
  CHECK(sym_live() == before, "nothing is leaked");
}
HARNESS(exclusive) {
  long before = sym_live();
  {
    Output out;
    CmdLine cmd("message", ' ', "1.0");
    cmd.setOutput(&out);
    SwitchArg a("a", "alpha", "first");
    ValueArg<std::string> n("n", "name", "second", true, "none", "text");
    MultiArg<std::string> m("m", "many", "third", true, "text");
    ValueArg<std::string> o("o", "other", "fourth", false, "none", "text", cmd);
    bool three = sym_choose(2, "group of three") != 0;
    std::vector<Arg *> group;
    group.push_back(&a);
    group.push_back(&n);
    if (three) group.push_back(&m);
    if (three) cmd.xorAdd(group);
    else cmd.xorAdd(a, n);
    std::vector<std::string> w;
    int count[3] = {0, 0, 0}, words = sym_pick(0, 3, "words");
    bool other = false;
    for (int i = 0; i < words; ++i) {
      switch (sym_choose(4, "word")) {
      case 0: w.push_back(sym_choose(2, "long") ? "--alpha" : "-a"); count[0]++; break;
      case 1: w.push_back("--name"); w.push_back("x"); count[1]++; break;
      case 2: ASSUME(three); w.push_back("-m"); w.push_back("y"); count[2]++; break;
      default: ASSUME(!other); w.push_back("-o"); w.push_back("z"); other = true; break;
      }
    }
    int groups = (count[0] > 0) + (count[1] > 0) + (count[2] > 0);
    bool ok = groups == 1 && count[0] <= 1 && count[1] <= 1;
    CHECK(parse(cmd, w) == (ok ? PARSED : REFUSED), "exactly one of an exclusive group must be given");
    if (ok) {
      CHECK(a.isSet() == (count[0] == 1) && n.isSet() == (count[1] == 1) && m.isSet() == (count[2] > 0), "arguments know whether they were given");
      CHECK((int)m.getValue().size() == count[2], "values given many times are all kept in order");
      CHECK(o.isSet() == other && a.getValue() == (count[0] == 1), "switches given are switched");
    }
  }
  CHECK(sym_live() == before, "nothing is leaked");
}
//@ entry required
//@ entry exclusive

// numbers
#ifdef SYMX_THOROUGH
enum { DIGITS = 6 };
#else
enum { DIGITS = 4 };
#endif
static bool number(const std::string &t, int &v) {
  size_t i = 0;
  while (i < t.size() && (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13))) ++i;
  bool minus = i < t.size() && t[i] == '-';
  if (i < t.size() && (t[i] == '-' || t[i] == '+')) ++i;
  if (i == t.size()) return false;
  v = 0;
  for (; i < t.size(); ++i) {
    if (t[i] < '0' || t[i] > '9') return false;
    v = v * 10 + (t[i] - '0');
  }
  if (minus) v = -v;
  return true;
}
HARNESS(numbers) {
  Output out;
  CmdLine cmd("message", '=', "1.0");
  cmd.setOutput(&out);
  ValueArg<int> n("i", "integer", "first", false, 5, "integer", cmd);
  MultiArg<int> m("m", "many", "second", false, "integer", cmd);
  UnlabeledMultiArg<int> u("rest", "third", false, "integer", cmd);
  std::string t = any_text(sym_pick(0, DIGITS, "length"));
  std::vector<std::string> w;
  int where = sym_choose(3, "where"), v = 0;
  ASSUME(where < 2 || t.empty() || t[0] != '-');
  if (where == 0) w.push_back("--integer=" + t);
  else if (where == 1) { w.push_back("-m=7"); w.push_back("-m=" + t); }
  else { w.push_back("7"); w.push_back(t); }
  bool ok = number(t, v);
  CHECK(parse(cmd, w) == (ok ? PARSED : REFUSED), "exactly the numbers are accepted");
  if (!ok) return;
  CHECK(n.getValue() == (where == 0 ? v : 5), "numbers are those given");
  CHECK(m.getValue().size() == (where == 1 ? 2u : 0u) && (where != 1 || (m.getValue()[0] == 7 && m.getValue()[1] == v)), "numbers are those given");
  CHECK(u.getValue().size() == (where == 2 ? 2u : 0u) && (where != 2 || (u.getValue()[0] == 7 && u.getValue()[1] == v)), "numbers are those given");
}
//@ entry numbers
// numbers in words of their own, empty ones too
HARNESS(number_words) {
  Output out;
  CmdLine cmd("message");
  cmd.setOutput(&out);
  ValueArg<int> n("i", "integer", "first", true, 5, "integer", cmd);
  MultiArg<int> m("m", "many", "second", false, "integer", cmd);
  std::string t = any_text(sym_pick(0, 3, "length"));
  std::vector<std::string> w;
  bool many = sym_choose(2, "many") != 0;
  int v = 0;
  if (many) { w.push_back("-m"); w.push_back(t); }
  w.push_back("-i");
  if (sym_choose(2, "given")) w.push_back(many ? "-12" : t);
  else ASSUME(!many);
  bool ok = w.size() > 1 && number(t, v);
  CHECK(parse(cmd, w) == (ok ? PARSED : REFUSED), "exactly the numbers are accepted");
  if (!ok) return;
  CHECK(n.getValue() == (many ? -12 : v), "numbers are those given");
  CHECK(m.getValue().size() == (size_t)many && (!many || m.getValue()[0] == v), "numbers are those given");
}
//@ entry number_words

// constraints and visitors
struct Even : public Constraint<int> {
  virtual std::string description() const { return "even"; }
  virtual std::string shortID() const { return "even"; }
  virtual bool check(const int &v) const { return v % 2 == 0; }
};
struct Counter : public Visitor {
  int n;
  Counter() : n(0) {}
  virtual void visit() { ++n; }
};
HARNESS(constraints) {
  Output out;
  Even even;
  Counter seen;
  CmdLine cmd("message", ' ', "1.0");
  cmd.setOutput(&out);
  ValueArg<int> n("i", "integer", "first", false, 5, &even, cmd, &seen);
  MultiArg<int> m("m", "many", "second", false, &even, cmd, &seen);
  SwitchArg a("a", "alpha", "third", cmd, false, &seen);
  MultiSwitchArg v("v", "verbose", "fourth", cmd, 0, &seen);
  UnlabeledMultiArg<int> u("rest", "fifth", false, &even, cmd);
  int how = sym_choose(6, "how"), d = sym_pick(0, 9, "digit");
  std::string t(1, (char)('0' + d));
  std::vector<std::string> w;
  if (how == 0) { w.push_back("-i"); w.push_back(t); }
  if (how == 1) { w.push_back("-m"); w.push_back(t); w.push_back("-m"); w.push_back("4"); }
  if (how == 2) { w.push_back("2"); w.push_back(t); }
  if (how == 3) w.push_back("-a");
  if (how == 4) { w.push_back("-v"); w.push_back("-va"); }
  bool ok = how > 2 || d % 2 == 0;
  CHECK(parse(cmd, w) == (ok ? PARSED : REFUSED), "values must meet their constraints");
  static const int visits[] = {1, 2, 0, 1, 3, 0};
  if (ok) CHECK(seen.n == visits[how], "visitors are called for each argument given");
}
HARNESS(allowed_values) {
  Output out;
  std::vector<std::string> names;
  names.push_back("one");
  names.push_back("two");
  ValuesConstraint<std::string> allowed(names);
  CHECK(allowed.description() == "one|two" && allowed.shortID() == "one|two", "constraints describe the values allowed");
  CmdLine cmd("message");
  cmd.setOutput(&out);
  ValueArg<std::string> n("n", "name", "first", false, "none", &allowed, cmd);
  MultiArg<std::string> m("m", "many", "second", false, &allowed, cmd);
  UnlabeledValueArg<std::string> u("bare", "third", false, "none", &allowed, cmd);
  std::string t = any_text(3);
  ASSUME(t[0] != '-');
  int how = sym_choose(3, "how");
  std::vector<std::string> w;
  if (how == 0) w.push_back("-n");
  if (how == 1) w.push_back("--many");
  w.push_back(t);
  bool ok = t == "one" || t == "two";
  CHECK(parse(cmd, w) == (ok ? PARSED : REFUSED), "values must meet their constraints");
  if (!ok) return;
  CHECK(n.getValue() == (how == 0 ? t : std::string("none")) && u.getValue() == (how == 2 ? t : std::string("none")), "values are those given");
  CHECK(m.getValue().size() == (size_t)(how == 1) && (how != 1 || m.getValue()[0] == t), "values are those given");
}
//@ entry constraints
//@ entry allowed_values

// what may be specified
HARNESS(specifying) {
  std::string flag = any_text(sym_pick(0, 2, "flag length")), name = any_text(sym_pick(1, 3, "name length"));
  bool refused = false, ok = flag.size() <= 1 && flag != "-" && flag != " " && name.find('-') == std::string::npos && name.find(' ') == std::string::npos;
  try {
    SwitchArg a(flag, name, "first");
    CHECK(a.getFlag() == flag && a.getName() == name && !a.isRequired() && !a.isValueRequired() && !a.isSet(), "arguments hold what they were made with");
    CHECK(a.toString() == (flag.empty() ? std::string() : "-" + flag + " ") + "(--" + name + ")", "arguments describe themselves");
    CHECK(a.longID() == (flag.empty() ? std::string() : "-" + flag + ",  ") + "--" + name, "arguments describe themselves");
    CHECK(a.shortID() == "[-" + (flag.empty() ? "-" + name : flag) + "]", "arguments describe themselves");
  } catch (SpecificationException &) {
    refused = true;
  }
  CHECK(refused == !ok, "exactly the names that can be told apart are accepted");
}
HARNESS(clashing) {
  CmdLine cmd("message", ' ', "1.0", sym_choose(2, "help") != 0);
  SwitchArg a("a", "alpha", "first", cmd);
  static const char *const flags[] = {"a", "b", "h", ""}, *const names[] = {"alpha", "beta", "help", "version", "ignore_rest"};
  std::string f = flags[sym_choose(4, "flag")], n = names[sym_choose(5, "name")];
  bool help = cmd.hasHelpAndVersion(), refused = false, clash = f == "a" || n == "alpha" || n == "ignore_rest" || (help && (f == "h" || n == "help" || n == "version"));
  ValueArg<std::string> v(f, n, "second", false, "none", "text");
  size_t args = cmd.getArgList().size();
  try { cmd.add(v); } catch (SpecificationException &) { refused = true; }
  CHECK(refused == clash, "exactly the arguments that clash with another are refused");
  CHECK(cmd.getArgList().size() == args + (refused ? 0 : 1), "arguments refused are not added");
}
//@ entry specifying
//@ entry clashing
