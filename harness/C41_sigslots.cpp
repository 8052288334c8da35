// Signals and slots: an emission calls exactly the slots connected, whatever was connected, copied, assigned and destroyed before.
//@ config rel,dbg
//@ src ecl_exceptions/src/lib/standard_exception.cpp ecl_threads/src/lib/mutex_pos.cpp ecl_time/src/lib/timestamp_base.cpp ecl_time/src/lib/timestamp_pos.cpp
//@ default time=150
//@ entry connecting
//@ entry connecting_void
//@ entry handles
//@ entry handles_void
//@ entry slot_handles
//@ entry slot_handles_void
//@ bound any history of 3 (thorough: 4) connections and disconnections among a signal and two slots on two topics, of 3 copies, assignments and destructions among three handles, relays along a chain of up to 3 signals, up to two nested emissions; any message
//@ assume one thread connects and emits, another destroys one of the slots, switching at system calls and in the functions called; pthread mutexes behave as documented (stand-ins)
//@ outside two threads in the function of one slot at a time; relays in a cycle; destroying, from a function being called, the slot or signal calling it; slots connected while an emission is under way (they may or may not hear of it); memory running out
#include <symx.h>
#include <unistd.h>
#include <string>
#include <errno.h>
#include <pthread.h>
#include <map>
#include <set>
#include <iostream>
#include <sstream>
#include <functional>
#define private public
#include <ecl/sigslots.hpp>
#undef private
using namespace ecl;

// mutexes: who holds them is kept in place
struct Held { int state, holder; };   // 1: free, 2: held
static Held *in(pthread_mutex_t *m) { return (Held *)m; }
static long mutexes;
static int switching; // threads are switched when waiting, in the functions called and, 1: locking, 2: trying a lock and unlocking
extern "C" {
int fk_pthread_mutexattr_init(pthread_mutexattr_t *) { return 0; }
int fk_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
int fk_pthread_mutexattr_settype(pthread_mutexattr_t *, int) { return 0; }
int fk_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { in(m)->state = 1; ++mutexes; return 0; }
int fk_pthread_mutex_destroy(pthread_mutex_t *m) {
  CHECK(in(m)->state == 1, "a slot is destroyed when its mutex is free");
  in(m)->state = 0;
  --mutexes;
  return 0;
}
int fk_pthread_mutex_lock(pthread_mutex_t *m) {
  if (switching == 1) sym_yield();
  CHECK(in(m)->state, "mutexes used exist");
  while (in(m)->state == 2) {
    CHECK(in(m)->holder != sym_self(), "nobody waits for himself");
    sym_block(m);
  }
  in(m)->state = 2;
  in(m)->holder = sym_self();
  return 0;
}
int fk_pthread_mutex_trylock(pthread_mutex_t *m) {
  if (switching == 2) sym_yield();
  CHECK(in(m)->state, "mutexes used exist");
  if (in(m)->state == 2) return EBUSY;
  in(m)->state = 2;
  in(m)->holder = sym_self();
  return 0;
}
int fk_pthread_mutex_unlock(pthread_mutex_t *m) {
  CHECK(in(m)->state == 2, "mutexes unlocked are held");
  in(m)->state = 1;
  sym_wake(m);
  if (switching == 2) sym_yield();
  return 0;
}
}

static const char *const names[3] = {"alpha", "beta", "gamma"};
struct Heard {
  unsigned calls[3];
  int last[3];
  void clear() { for (int i = 0; i < 3; ++i) { calls[i] = 0; last[i] = 0; } }
  void on(int i, int v) { calls[i]++; last[i] = v; }
};
static Heard heard;
// what is alive, apart from what the first use of signals may set up for good
static long live() {
  {
    Signal<int> i("first");
    Signal<> v("first");
    Signal<const int &> r("first");
    i.emit(0);
    v.emit();
    int x = 0;
    r.emit(x);
  }
  return sym_live();
}
static void f0(int v) { heard.on(0, v); }
static void f1(int v) { heard.on(1, v); }
static void g0() { heard.on(0, 0); }
static void g1() { heard.on(1, 0); }
struct Listener {
  int tag;
  explicit Listener(int t) : tag(t) {}
  void f(int v) { heard.on(tag, v); }
  void g() { heard.on(tag, 0); }
  void r(const int &v) { heard.on(tag, v); }
};

// what differs between messages with and without data
struct WithInt {
  typedef Signal<int> Sig;
  typedef Slot<int> Slt;
  typedef SigSlotsManager<int> Man;
  typedef SigSlot<int> Both;
  static int message() { return sym_i32("message"); }
  static void emit(Sig &s, int v) { s.emit(v); }
  static void emit_base(Both &s, int v) { s.emit(v); }
  static void (*fun(int i))(int) { return i ? f1 : f0; }
  static void (Listener::*mem())(int) { return &Listener::f; }
};
struct WithVoid {
  typedef Signal<> Sig;
  typedef Slot<> Slt;
  typedef SigSlotsManager<> Man;
  typedef SigSlot<> Both;
  static int message() { return 0; }
  static void emit(Sig &s, int) { s.emit(); }
  static void emit_base(Both &s, int) { s.emit(); }
  static void (*fun(int i))() { return i ? g1 : g0; }
  static void (Listener::*mem())() { return &Listener::g; }
};

template <class K> static void emits(typename K::Sig &s, const unsigned *want, int n, const char *what) {
  int v = K::message();
  heard.clear();
  K::emit(s, v);
  for (int i = 0; i < n; ++i) {
    CHECK(heard.calls[i] == want[i], what);
    CHECK(!want[i] || heard.last[i] == v, "slots are called with the message sent");
  }
}

#ifdef SYMX_THOROUGH
enum { STEPS = 4 };
#else
enum { STEPS = 3 };
#endif

// a signal and two slots, on two topics
template <class K> static void connects() {
  long before = live();
  {
    Dirty<typename K::Sig> sig;
    Dirty<typename K::Slt> slt[2];
    Listener him(1);
    bool s[2] = {false, false}, h[2][2] = {{false, false}, {false, false}};
    int start = sym_choose(3, "start");
    if (start == 0) {
      sig.make0();
      slt[0].make(K::fun(0));
      slt[1].make(K::mem(), him);
    } else if (start == 1) {
      sig.make(std::string(names[0]));
      s[0] = true;
      slt[0].make(K::fun(0));
      slt[1].make(K::mem(), him, std::string(names[0]));
      h[1][0] = true;
    } else {
      slt[0].make(K::fun(0), std::string(names[1]));
      h[0][1] = true;
      slt[1].make(K::fun(1));
      sig.make(std::string(names[1]));
      s[1] = true;
    }
    int first = STEPS;
    if (start) first = STEPS - 1;
    for (int k = 0; k < first; ++k) {
      int op = sym_choose(9, "operation");
      if (op < 2) {
        sig.get().connect(names[op]);
        s[op] = true;
      } else if (op < 6) {
        int i = (op - 2) / 2, t = op % 2;
        slt[i].get().connect(names[t]);
        h[i][t] = true;
      } else if (op == 6) {
        sig.get().disconnect();
        s[0] = s[1] = false;
      } else {
        slt[op - 7].get().disconnect();
        h[op - 7][0] = h[op - 7][1] = false;
      }
      unsigned want[2] = {0, 0};
      for (int i = 0; i < 2; ++i)
        for (int t = 0; t < 2; ++t) want[i] += s[t] && h[i][t];
      emits<K>(sig.get(), want, 2, "an emission calls each slot once for every topic they share");
      for (int t = 0; t < 2; ++t)
        CHECK(K::Man::isTopic(names[t]) == (s[t] || h[0][t] || h[1][t]), "topics exist while anything is connected to them");
    }
    // in any order of destruction
    if (sym_choose(2, "signal first")) {
      sig.kill();
      slt[0].kill();
    } else {
      slt[1].kill();
      h[1][0] = h[1][1] = false;
      unsigned want[1] = {(unsigned)((s[0] && h[0][0]) + (s[1] && h[0][1]))};
      emits<K>(sig.get(), want, 1, "the death of a slot leaves the others connected");
      slt[0].kill();
      unsigned none[2] = {0, 0};
      emits<K>(sig.get(), none, 2, "slots destroyed are not called");
    }
  }
  for (int t = 0; t < 2; ++t) CHECK(!K::Man::isTopic(names[t]), "topics are gone with the last of their signals and slots");
  CHECK(sym_live() == before, "nothing is leaked");
}
HARNESS(connecting) { connects<WithInt>(); }
HARNESS(connecting_void) { connects<WithVoid>(); }

// three handles (copies) of signals, each object hearing on a slot of its own
template <class K> static void copies() {
  typedef typename K::Sig Sig;
  long before = live();
  {
    typename K::Slt a(K::fun(0), "alpha"), b(K::fun(1), "beta");
    Dirty<Sig> hd[3];
    int of[3] = {0, 1, -1}, n[2] = {1, 1};
    hd[0].make(std::string("alpha"));
    hd[1].make(std::string("beta"));
    hd[0].get().connect("own0");
    hd[1].get().connect("own1");
    for (int k = 0; k < STEPS; ++k) {
      int op = sym_choose(3, "operation"), i = sym_pick(0, 2, "to"), j = sym_pick(0, 2, "from");
      if (op == 0) {
        ASSUME(of[i] < 0 && of[j] >= 0);
        hd[i].make((const Sig &)hd[j].get());
        of[i] = of[j];
        n[of[i]]++;
      } else if (op == 1) {
        ASSUME(of[i] >= 0 && of[j] >= 0);
        hd[i].get() = hd[j].get();
        n[of[i]]--;
        of[i] = of[j];
        n[of[i]]++;
      } else {
        ASSUME(j == 0 && of[i] >= 0);
        hd[i].kill();
        n[of[i]]--;
        of[i] = -1;
      }
      for (int h = 0; h < 3; ++h) {
        if (of[h] < 0) continue;
        unsigned want[2] = {(unsigned)(of[h] == 0), (unsigned)(of[h] == 1)};
        emits<K>(hd[h].get(), want, 2, "copies emit what the original does, once");
      }
      CHECK(K::Man::isTopic("own0") == (n[0] > 0), "signals stay connected until the last copy has gone");
      CHECK(K::Man::isTopic("own1") == (n[1] > 0), "signals stay connected until the last copy has gone");
    }
    for (int h = 0; h < 3; ++h) hd[h].kill();
  }
  CHECK(!K::Man::isTopic("alpha") && !K::Man::isTopic("beta"), "topics are gone with the last of their signals and slots");
  CHECK(sym_live() == before, "nothing is leaked");
}
HARNESS(handles) { copies<WithInt>(); }
HARNESS(handles_void) { copies<WithVoid>(); }

// the same of slots
template <class K> static void slot_copies() {
  typedef typename K::Slt Slt;
  long before = live();
  {
    Listener him(1);
    typename K::Sig sig("alpha");
    Dirty<Slt> hd[3];
    int of[3] = {0, 1, -1}, n[2] = {1, 1};
    hd[0].make(K::fun(0), std::string("alpha"));
    hd[1].make(K::mem(), him);
    hd[1].get().connect("alpha");
    for (int k = 0; k < STEPS; ++k) {
      int op = sym_choose(3, "operation"), i = sym_pick(0, 2, "to"), j = sym_pick(0, 2, "from");
      if (op == 0) {
        ASSUME(of[i] < 0 && of[j] >= 0);
        hd[i].make((const Slt &)hd[j].get());
        of[i] = of[j];
        n[of[i]]++;
      } else if (op == 1) {
        ASSUME(of[i] >= 0 && of[j] >= 0);
        hd[i].get() = hd[j].get();
        n[of[i]]--;
        of[i] = of[j];
        n[of[i]]++;
      } else {
        ASSUME(j == 0 && of[i] >= 0);
        hd[i].kill();
        n[of[i]]--;
        of[i] = -1;
      }
      unsigned want[2] = {(unsigned)(n[0] > 0), (unsigned)(n[1] > 0)};
      emits<K>(sig, want, 2, "a slot with copies is called once, until the last of them has gone");
    }
    for (int h = 0; h < 3; ++h) hd[h].kill();
    unsigned none[2] = {0, 0};
    emits<K>(sig, none, 2, "slots destroyed are not called");
  }
  CHECK(!K::Man::isTopic("alpha"), "topics are gone with the last of their signals and slots");
  CHECK(sym_live() == before, "nothing is leaked");
}
HARNESS(slot_handles) { slot_copies<WithInt>(); }
HARNESS(slot_handles_void) { slot_copies<WithVoid>(); }

// signals that pass on what they hear
template <class K> static void relays() {
  long before = live();
  {
    typename K::Sig a, b, c;
    typename K::Slt s0(K::fun(0)), s1(K::fun(1));
    // edges: a -> alpha -> b -> beta -> c -> gamma; the slots listen somewhere
    unsigned ab = sym_choose(2, "b listens to alpha"), bc = sym_choose(2, "c listens to beta"), ac = sym_choose(2, "c listens to alpha");
    int l0 = sym_choose(3, "topic of the first slot"), l1 = sym_choose(3, "topic of the second slot");
    a.connect("alpha");
    b.connect("beta");
    c.connect("gamma");
    if (ab) b.connectAsSlot("alpha");
    if (bc) c.connectAsSlot("beta");
    if (ac) c.connectAsSlot("alpha");
    s0.connect(names[l0]);
    s1.connect(names[l1]);
    int cut = sym_choose(4, "cut");
    if (cut == 1) b.disconnect();
    if (cut == 2) c.disconnect();
    if (cut == 3) s1.disconnect();
    unsigned beta = ab && cut != 1, gamma = 0;
    if (cut != 2) gamma = (beta && bc) + ac;
    unsigned per[3] = {1, beta, gamma};
    unsigned want[2] = {per[l0], cut == 3 ? 0 : per[l1]};
    emits<K>(a, want, 2, "relays pass each message on, once for each they hear");
  }
  for (int t = 0; t < 3; ++t) CHECK(!K::Man::isTopic(names[t]), "topics are gone with the last of their signals and slots");
  CHECK(sym_live() == before, "nothing is leaked");
}
HARNESS(relaying) { relays<WithInt>(); }
HARNESS(relaying_void) { relays<WithVoid>(); }
//@ entry relaying
//@ entry relaying_void

// the common base: a topic at a time
template <class K> static void bases() {
  long before = live();
  {
    Listener him(1);
    typename K::Both sig, slt(K::fun(0)), mem(K::mem(), him);
    bool s[2] = {false, false}, h[2][2] = {{false, false}, {false, false}};
    for (int t = 0; t < 2; ++t) {
      if (sym_choose(2, "signal")) { sig.connectSignal(names[t]); s[t] = true; }
      if (sym_choose(2, "slot")) { slt.connectSlot(names[t]); h[0][t] = true; }
    }
    mem.connectSlot(names[1]);
    h[1][1] = true;
    for (int k = 0; k < 2; ++k) {
      int t = sym_choose(2, "topic");
      std::string topic = names[t];
      switch (sym_choose(4, "who")) {
      case 0: sig.disconnect(topic); s[t] = false; break;
      case 1: slt.disconnect(topic); h[0][t] = false; break;
      case 2: sig.connectSignal(topic); s[t] = true; break;
      default: slt.connectSlot(topic); h[0][t] = true; break;
      }
      heard.clear();
      unsigned want[2] = {(unsigned)((s[0] && h[0][0]) + (s[1] && h[0][1])), (unsigned)s[1]};
      K::emit_base(sig, 5);
      CHECK(heard.calls[0] == want[0] && heard.calls[1] == want[1], "sigslots leave one topic at a time");
      for (int i = 0; i < 2; ++i) CHECK(K::Man::isTopic(names[i]) == (s[i] || h[0][i] || h[1][i]), "topics exist while anything is connected to them");
    }
  }
  for (int t = 0; t < 2; ++t) CHECK(!K::Man::isTopic(names[t]), "topics are gone with the last of their signals and slots");
  CHECK(sym_live() == before, "nothing is leaked");
}
HARNESS(one_topic) { bases<WithInt>(); }
HARNESS(one_topic_void) { bases<WithVoid>(); }
//@ entry one_topic
//@ entry one_topic_void

// a signal that is also a slot of the same or another topic, disconnecting and dying
template <class K> static void both_roles() {
  long before = live();
  {
    Dirty<typename K::Sig> s, o;
    s.make0();
    o.make0();
    int as = sym_pick(0, 1, "listens"), to = sym_pick(0, 1, "talks"), other = sym_pick(0, 2, "other");
    s.get().connect(names[to]);
    s.get().connectAsSlot(names[as]);
    if (other < 2) o.get().connect(names[other]);
    if (sym_choose(2, "disconnect")) {
      s.get().disconnect();
      for (int t = 0; t < 2; ++t) CHECK(K::Man::isTopic(names[t]) == (other == t), "disconnecting ends both roles of a relay");
      s.get().disconnect();
      s.get().connectAsSlot(names[as]);
      CHECK(K::Man::isTopic(names[as]), "what was disconnected can connect again");
    }
    if (sym_choose(2, "other first")) o.kill();
    s.kill();
    o.kill();
  }
  for (int t = 0; t < 2; ++t) CHECK(!K::Man::isTopic(names[t]), "topics are gone with the last of their signals and slots");
  CHECK(sym_live() == before, "nothing is leaked");
}
HARNESS(roles) { both_roles<WithInt>(); }
HARNESS(roles_void) { both_roles<WithVoid>(); }
//@ entry roles
//@ entry roles_void

// functions that disconnect slots, their own included, or emit again
struct Meddler {
  Slot<int> *mine, *other, *third;
  Signal<int> *sig;
  int what, depth;
  unsigned calls;
  void f(int v) {
    calls++;
    heard.on(0, v);
    if (what == 1) mine->disconnect();
    if (what == 2) other->disconnect();
    if (what == 3) { mine->disconnect(); other->disconnect(); third->disconnect(); }
    if (what == 4) sig->disconnect();
    if (what == 5 && depth < 2) { depth++; sig->emit(v + 1); }
    if (what == 6) { mine->disconnect(); mine->connect("beta"); }
  }
};
HARNESS(meddling) {
  long before = live();
  {
    Meddler m;
    m.what = sym_choose(7, "what");
    m.depth = 0;
    m.calls = 0;
    Listener l1(1), l2(2);
    Signal<int> sig("alpha");
    int where = sym_choose(3, "position");
    Dirty<Slot<int>> s[3];
    for (int i = 0; i < 3; ++i) {
      if (i == where) s[i].make(&Meddler::f, m, std::string("alpha"));
      else if (i == (where + 1) % 3) s[i].make(&Listener::f, l1, std::string("alpha"));
      else s[i].make(&Listener::f, l2, std::string("alpha"));
    }
    m.mine = &s[where].get();
    m.other = &s[(where + 1) % 3].get();
    m.third = &s[(where + 2) % 3].get();
    m.sig = &sig;
    if (sym_choose(2, "two topics")) {
      sig.connect("gamma");
      m.third->disconnect();
      m.third->connect("gamma");
    }
    int v = sym_i32("message");
    ASSUME(v < 1000);
    heard.clear();
    sig.emit(v);
    if (m.what == 5) {
      CHECK(heard.calls[0] == 3 && heard.calls[1] == 3 && heard.calls[2] == 3, "emissions nest");
    } else {
      CHECK(heard.calls[0] == 1, "a slot is called once");
      CHECK(heard.last[0] == v, "slots are called with the message sent");
      CHECK(heard.calls[1] == 1 || (heard.calls[1] == 0 && (m.what >= 2 && m.what <= 4)), "disconnecting one slot leaves the others connected");
      CHECK(heard.calls[2] == 1 || (heard.calls[2] == 0 && (m.what == 3 || m.what == 4)), "disconnecting one slot leaves the others connected");
    }
    int was = m.what;
    m.what = 0;
    heard.clear();
    sig.emit(v);
    bool all = was == 0 || was == 5;
    CHECK(heard.calls[0] == (unsigned)(all || was == 2), "what a function disconnects is called no more");
    CHECK(heard.calls[1] == (unsigned)(all || was == 1 || was == 6), "what a function disconnects is called no more");
    CHECK(heard.calls[2] == (unsigned)(all || was == 1 || was == 2 || was == 6), "what a function disconnects is called no more");
  }
  for (int t = 0; t < 3; ++t) CHECK(!SigSlotsManager<int>::isTopic(names[t]), "topics are gone with the last of their signals and slots");
  CHECK(sym_live() == before, "nothing is leaked");
}
//@ entry meddling

// functions that throw
static int fuse;
static void bang(int v) {
  heard.on(0, v);
  if (fuse) throw v;
}
static void bang_void() {
  heard.on(0, 0);
  if (fuse) throw 1;
}
HARNESS(throwing) {
  long before = live();
  {
    Signal<int> sig("alpha");
    Slot<int> slt(bang, "alpha");
    int v = sym_i32("message");
    heard.clear();
    fuse = sym_choose(2, "throws");
    bool caught = false;
    try { sig.emit(v); } catch (int w) { caught = true; CHECK(w == v, "what a function throws reaches the one who emitted"); }
    CHECK(caught == (fuse == 1), "what a function throws reaches the one who emitted");
    fuse = 0;
    sig.emit(v);
    CHECK(heard.calls[0] == 2, "a slot whose function threw is still connected");
    Signal<> vsig("alpha");
    Slot<> vslt(bang_void, "alpha");
    fuse = 1;
    caught = false;
    try { vsig.emit(); } catch (int) { caught = true; }
    CHECK(caught, "what a function throws reaches the one who emitted");
    fuse = 0;
    vsig.emit();
    CHECK(heard.calls[0] == 4, "a slot whose function threw is still connected");
  }
  CHECK(sym_live() == before, "nothing is leaked");
}
//@ entry throwing

// messages by reference, and of several types on topics of one name
HARNESS(types) {
  long before = live();
  {
    Listener l2(2);
    Signal<const int &> rsig("alpha");
    Slot<const int &> rslt(&Listener::r, l2, "alpha");
    Signal<int> isig("alpha");
    Slot<int> islt(f1, "alpha");
    Signal<> vsig("alpha");
    Slot<> vslt(g0, "alpha");
    int v = sym_i32("message"), which = sym_choose(3, "which");
    heard.clear();
    if (which == 0) vsig.emit();
    if (which == 1) isig.emit(v);
    if (which == 2) rsig.emit(v);
    for (int i = 0; i < 3; ++i) CHECK(heard.calls[i] == (unsigned)(i == which), "topics of different types are kept apart");
    CHECK(which == 0 || heard.last[which] == v, "slots are called with the message sent");
    CHECK(rslt.connections().size() == 1 && *rslt.connections().begin() == "alpha", "a slot lists its connections");
    rslt.connect("beta");
    CHECK(rslt.connections().size() == 2, "a slot lists its connections");
    rslt.disconnect();
    CHECK(rslt.connections().empty(), "a slot lists its connections");
  }
  CHECK(sym_live() == before, "nothing is leaked");
}
//@ entry types

// slots destroyed by one thread while another emits
static Signal<int> *emitter;
static bool dead[2], running[2];
static unsigned rang[2];
template <int I> static void slow(int) {
  CHECK(!dead[I], "destroyed slots are not called");
  running[I] = true;
  sym_yield();
  CHECK(!dead[I], "slots are not destroyed while their function runs");
  running[I] = false;
  rang[I]++;
}
static void *emitting(void *) {
  emitter->emit(1);
  return 0;
}
static void threaded() {
  long before = live();
  {
    Signal<int> sig("alpha");
    emitter = &sig;
    Dirty<Slot<int>> s[2];
    int order = sym_choose(2, "order"), which = sym_choose(2, "which");
    s[order].make(order ? slow<1> : slow<0>, std::string("alpha"));
    s[1 - order].make(order ? slow<0> : slow<1>, std::string("alpha"));
    int t = sym_thread_create(emitting, 0);
    sym_yield();
    s[which].kill();
    dead[which] = true;
    sym_join(t);
    CHECK(rang[1 - which] == 1 && rang[which] <= 1, "the other slots are called");
    switching = 0;
    sig.emit(2);
    CHECK(rang[1 - which] == 2, "the other slots are called");
  }
  CHECK(sym_live() == before, "nothing is leaked");
}
HARNESS(across_threads) { switching = 1; threaded(); }
HARNESS(between_lookup_and_call) { switching = 2; threaded(); }
//@ entry across_threads
//@ entry between_lookup_and_call
