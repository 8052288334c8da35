// Symbolic executor for LLVM IR.
#pragma once
#include "solver.hpp"
#include "state.hpp"
#include <functional>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Module.h>
#include <map>
#include <set>
#include <unordered_map>

struct DInst {
  llvm::Instruction *I;
  unsigned op;
  int dest = -1;
  std::vector<int> ops;
};
struct FnInfo {
  llvm::Function *F;
  std::vector<std::vector<DInst>> bbs;
  std::unordered_map<const llvm::BasicBlock *, unsigned> bbIdx;
  std::unordered_map<const llvm::Value *, int> idx;
  std::vector<Val> consts;
  unsigned nloc = 0;
};
struct Violation {
  std::string kind, id, where, detail;
  std::vector<std::string> stack;
  std::vector<std::pair<std::string, std::pair<unsigned, std::string>>> inputs;
  bool candidate = false; // semantic gap: only replay can confirm
  bool uninit = false;
  unsigned fill = 0; // fill byte for uninitialised memory
  std::vector<std::string> trail;
};
struct ExecOptions {
  std::string entry;
  double timeLimit = 300;
  uint64_t maxInstr = 3000000;
  uint64_t maxPaths = 1000000;
  unsigned maxCexPerKey = 3;
  unsigned maxDepth = 400;
  unsigned traces = 6;
  bool leaks = false;
  unsigned seed = 1;
};
struct ExecStats {
  uint64_t paths = 0, completed = 0, infeasible = 0, instrs = 0, forks = 0, killedByViolation = 0, candidatePaths = 0;
  std::map<std::string, uint64_t> inconclusive;
  std::map<std::string, uint64_t> reached, discharged, failed, unknownAsserts;
  std::map<std::string, uint64_t> tags;
  uint64_t memChecks = 0, ubChecks = 0, assertChecks = 0;
  std::set<std::string> repoFns;
  std::set<std::pair<std::string, unsigned>> repoLines;
  double wall = 0;
  bool timeout = false;
};
struct PathTrace {
  std::vector<std::pair<std::string, std::pair<unsigned, std::string>>> inputs;
  std::vector<std::pair<std::string, std::string>> outs;
};

struct ForkRetry {};   // current state must not advance (already handled)
struct PathDead {};    // current path ended

class Executor {
public:
  Executor(llvm::Module &m, ExecOptions o);
  void run();
  ExecOptions opt;
  ExecStats st;
  std::vector<Violation> viols;
  std::vector<PathTrace> traces;
  std::set<std::string> externals;

private:
  llvm::Module &M;
  const llvm::DataLayout &DL;
  std::vector<std::unique_ptr<State>> work;
  std::unordered_map<const llvm::Function *, std::unique_ptr<FnInfo>> fns;
  std::unordered_map<const llvm::Value *, uint64_t> gaddr;
  std::unordered_map<uint32_t, llvm::Function *> fnById;
  using Builtin = std::function<void(State &, llvm::CallBase *, std::vector<Val> &)>;
  std::unordered_map<std::string, Builtin> builtins;
  std::unordered_map<const llvm::Function *, Builtin *> bcache;
  std::map<std::string, unsigned> vcount;
  std::set<const llvm::Instruction *> seenI;
  uint64_t nextState = 1;
  uint32_t errnoObj = 0;
  double t0;
  bool real() const { return sopt.theory == Theory::Real; }

  FnInfo *info(llvm::Function *F);
  Val evalConst(const llvm::Constant *c);
  void initGlobals(State &s);
  void storeConst(Obj *o, uint64_t off, const llvm::Constant *c);
  void registerBuiltins();
  unsigned width(llvm::Type *t) const;

  // evaluation
  const Val &opv(State &s, const DInst &d, unsigned k);
  E ope(State &s, const DInst &d, unsigned k);
  E mat(State &s, const Val &v, llvm::Type *t);
  E matw(State &s, E e, unsigned w);
  void setDest(State &s, const DInst &d, Val v) { s.F().loc[d.dest] = std::move(v); }

  // control
  State *clone(State &s);
  void addPc(State &s, E c);
  bool branchOn(State &s, E c);
  void assume(State &s, E c);
  APInt value(State &s, E e);
  APInt concretize(State &s, E e);
  uint64_t concU(State &s, E e) { return concretize(s, e).getZExtValue(); }
  void jump(State &s, unsigned bb);
  void advance(State &s);
  void finishCall(State &s, Val v);
  void pushFrame(State &s, llvm::Function *F, std::vector<Val> args, RetAct act = RetAct::None, uint32_t actArg = 0);
  void popFrame(State &s);
  void doRet(State &s, Val v);
  void step(State &s);
  void exec(State &s, const DInst &d);
  void call(State &s, const DInst &d);
  void callTarget(State &s, llvm::Function *F, llvm::CallBase *cb, std::vector<Val> &args);
  void endPath(State &s);
  void schedule(State &s, bool mustSwitch);
  [[noreturn]] void kill(State &s, const std::string &why);
  [[noreturn]] void inconclusive(State &s, const std::string &why);

  // violations
  bool report(State &s, const std::string &kind, const std::string &id, E cond, const std::string &detail = "", bool candidate = false);
  [[noreturn]] void fatal(State &s, const std::string &kind, const std::string &id, const std::string &detail = "");
  std::string locOf(State &s);
  std::vector<std::string> stackOf(State &s);
  bool concretise(State &s, E cond, Assignment &m);
  void fillInputs(State &s, const Assignment &m, std::vector<std::pair<std::string, std::pair<unsigned, std::string>>> &out);
  // check that `bad` cannot hold; reports when it can; continues with !bad
  void check(State &s, E bad, const std::string &kind, const std::string &id, bool candidate = false);

  // memory
  struct Loc { uint32_t id; E off; };
  Loc resolve(State &s, E addr, uint64_t n, bool write);
  E loadBytes(State &s, const Loc &l, uint64_t n);
  void storeBytes(State &s, const Loc &l, E v);
  E byteAt(State &s, uint32_t id, uint64_t off);
  Val load(State &s, E addr, llvm::Type *t);
  void store(State &s, E addr, const Val &v, llvm::Type *t);
  Val loadAt(State &s, const Loc &l, llvm::Type *t);
  void storeAt(State &s, const Loc &l, const Val &v, llvm::Type *t);
  std::vector<E> readRange(State &s, E addr, uint64_t n);
  void writeRange(State &s, E addr, const std::vector<E> &b);
  uint64_t readC(State &s, uint64_t addr, unsigned n);
  std::string readStr(State &s, E addr);
  uint64_t allocHeap(State &s, OK kind, uint64_t size, const llvm::Value *site);
  void freeHeap(State &s, E addr, OK kind, const char *fn);
  E fresh(State &s, unsigned w, const std::string &name, bool flt = false);
  E freshRange(State &s, unsigned w, const std::string &name, double lo, double hi);
  E uninit(State &s, unsigned w);
  int64_t constBase(E e, bool &amb);
  bool splitIte(State &s, E addr);

  // exceptions
  std::string tiName(State &s, uint64_t ti);
  std::string tiKind(State &s, uint64_t ti);
  bool upcast(State &s, uint64_t from, uint64_t to, uint64_t obj, uint64_t &out, int depth = 0);
  bool matchCatch(State &s, const ExcInfo &x, uint64_t cti, uint64_t &adj);
  int lpMatch(State &s, llvm::LandingPadInst *lp, uint32_t exc, bool &cleanup, uint64_t &adj);
  void unwind(State &s, uint32_t exc, bool phase1);
};
