// Program state of the symbolic executor.
#pragma once
#include "expr.hpp"
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <memory>
#include <set>
#include <string>
#include <vector>

struct Val {
  E e = nullptr;
  std::shared_ptr<const std::vector<Val>> a;
  Val() {}
  Val(E x) : e(x) {}
  Val(std::vector<Val> v) : a(std::make_shared<const std::vector<Val>>(std::move(v))) {}
};

enum class OK : uint8_t { Null, Global, Stack, Malloc, New, NewArr, Exc, Func, Extern };

struct Obj {
  uint32_t id = 0;
  OK kind = OK::Null;
  bool alive = true, ro = false;
  uint64_t size = 0;
  const llvm::Value *site = nullptr;
  std::string name;
  std::vector<E> b; // nullptr = uninitialised
};
constexpr uint64_t OBJ_OFF = 0x1000;
inline uint64_t baseOf(uint32_t id) { return (uint64_t(id) << 32) + OBJ_OFF; }

struct Memory {
  static constexpr unsigned CH = 32;
  using Chunk = std::vector<std::shared_ptr<Obj>>;
  std::vector<std::shared_ptr<Chunk>> ch;
  uint32_t next = 1;
  Memory() { }
  Obj *get(uint32_t id) const {
    if (id >= next || id == 0) return nullptr;
    return (*ch[id / CH])[id % CH].get();
  }
  Obj *write(uint32_t id) {
    auto &c = ch[id / CH];
    if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    auto &o = (*c)[id % CH];
    if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
    return o.get();
  }
  Obj *add(OK kind, uint64_t size) {
    uint32_t id = next++;
    while (ch.size() <= id / CH) ch.push_back(std::make_shared<Chunk>(CH));
    auto &c = ch[id / CH];
    if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    auto o = std::make_shared<Obj>();
    o->id = id;
    o->kind = kind;
    o->size = size;
    o->b.resize(size, nullptr);
    (*c)[id % CH] = o;
    return o.get();
  }
};

struct FnInfo;
enum class RetAct : uint8_t { None, FreeExc, AtExit };
struct Frame {
  FnInfo *fn = nullptr;
  unsigned bb = 0, ip = 0;
  int prevbb = -1;
  std::vector<Val> loc;
  std::vector<uint32_t> allocas;
  std::vector<Val> varargs;
  RetAct act = RetAct::None;
  uint32_t actArg = 0;
};
struct ExcInfo {
  uint32_t obj = 0;
  uint64_t tinfo = 0, dtor = 0;
  int handlers = 0;
  uint64_t adjusted = 0;
  bool rethrown = false;
};
struct Thread {
  std::vector<Frame> st;
  bool blocked = false, done = false;
  uint64_t waitOn = 0;
  std::vector<uint32_t> caught;  // stack of exception object ids
  uint32_t uncaught = 0;
  uint64_t lpPtr = 0; int lpSel = 0;
  std::vector<std::pair<uint64_t, E>> pend; // pending calls (function address, argument) when the stack empties
};
struct State {
  uint64_t id = 0;
  std::vector<Thread> th;
  unsigned cur = 0;
  Memory mem;
  std::vector<E> pc;
  Assignment model;
  bool modelOk = true;
  bool split = false; // one path per side of each selection
  std::map<std::string, unsigned> symCount;
  std::vector<std::pair<std::string, E>> inputs; // name#k, symbol
  std::vector<std::pair<std::string, E>> outs;
  std::map<uint32_t, ExcInfo> exc;
  uint64_t instrs = 0, forks = 0;
  long live = 0; // live heap blocks
  bool dead = false;
  std::vector<std::string> trail;
  Thread &T() { return th[cur]; }
  Frame &F() { return th[cur].st.back(); }
};
