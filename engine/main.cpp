#include "exec.hpp"
#include <cstdio>
#include <cstring>
#include <iostream>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/resource.h>
#include <fstream>

static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
template <class M> static std::string jmap(const M &m) {
  std::string r = "{";
  for (auto &p : m) r += (r.size() > 1 ? "," : "") + js(p.first) + ":" + std::to_string(p.second);
  return r + "}";
}
template <class I> static std::string jin(const I &in) {
  std::string r = "[";
  for (auto &p : in) r += (r.size() > 1 ? "," : "") + std::string("[") + js(p.first) + "," + std::to_string(p.second.first) + "," + js(p.second.second) + "]";
  return r + "]";
}

int main(int argc, char **argv) {
  ExecOptions o;
  std::vector<std::string> files;
  std::string out = "-";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--entry") o.entry = nx();
    else if (a == "--out") out = nx();
    else if (a == "--time") o.timeLimit = std::stod(nx());
    else if (a == "--max-instr") o.maxInstr = std::stoull(nx());
    else if (a == "--max-paths") o.maxPaths = std::stoull(nx());
    else if (a == "--max-depth") o.maxDepth = std::stoul(nx());
    else if (a == "--cex") o.maxCexPerKey = std::stoul(nx());
    else if (a == "--traces") o.traces = std::stoul(nx());
    else if (a == "--t1") sopt.t1 = std::stoul(nx());
    else if (a == "--t2") sopt.t2 = std::stoul(nx());
    else if (a == "--t3") sopt.t3 = std::stoul(nx());
    else if (a == "--no-fperr") sopt.fpErr = false;
    else if (a == "--theory") {
      std::string t = nx();
      sopt.theory = t == "bv" ? Theory::BV : t == "int" ? Theory::Int : t == "real" ? Theory::Real : Theory::Auto;
      gRealTheory = sopt.theory == Theory::Real;
    } else files.push_back(a);
  }
  struct rlimit rl {1ull << 30, 1ull << 30};
  (void)rl;
  solverInit();
  llvm::LLVMContext ctx;
  llvm::SMDiagnostic err;
  std::unique_ptr<llvm::Module> m;
  for (auto &f : files) {
    auto n = llvm::parseIRFile(f, err, ctx);
    if (!n) { err.print("symx", llvm::errs()); return 3; }
    if (!m) m = std::move(n);
    else if (llvm::Linker::linkModules(*m, std::move(n), llvm::StringRef(f).ends_with("rt.bc") ? llvm::Linker::LinkOnlyNeeded : llvm::Linker::None)) return 3;
  }
  // environment stand-ins: a harness function fk_NAME replaces NAME everywhere
  std::vector<std::pair<llvm::Function *, llvm::Function *>> subst;
  for (auto &F : *m)
    if (!F.isDeclaration() && F.getName().starts_with("fk_"))
      if (auto *G = m->getFunction(F.getName().drop_front(3))) subst.push_back({G, &F});
  for (auto &p : subst) p.first->replaceAllUsesWith(p.second);
  Executor ex(*m, o);
  ex.run();
  auto &s = ex.st;
  std::string j = "{";
  auto num = [&](const char *k, double v) { char b[64]; snprintf(b, sizeof b, "%.10g", v); j += js(k) + ":" + b + ",\n"; };
  j += "\"entry\":" + js(o.entry) + ",\n";
  num("paths", s.paths); num("completed", s.completed); num("infeasible", s.infeasible); num("instructions", s.instrs); num("forks", s.forks);
  num("killed_by_violation", s.killedByViolation); num("candidate_paths", s.candidatePaths);
  num("mem_checks", s.memChecks); num("ub_checks", s.ubChecks); num("assert_checks", s.assertChecks);
  num("wall", s.wall); num("queries", sstat.queries); num("z3_calls", sstat.z3calls); num("sat", sstat.sat); num("unsat", sstat.unsat); num("unknown", sstat.unknown);
  num("cache_hits", sstat.cacheHits); num("model_hits", sstat.modelHits); num("by_bv", sstat.byBV); num("by_int", sstat.byInt); num("by_real", sstat.byReal); num("by_normal_form", sstat.byNormal);
  num("solver_time", sstat.time); num("solver_max", sstat.maxTime);
  j += "\"timeout\":" + std::string(s.timeout ? "true" : "false") + ",\n";
  j += "\"inconclusive\":" + jmap(s.inconclusive) + ",\n\"reached\":" + jmap(s.reached) + ",\n\"discharged\":" + jmap(s.discharged) + ",\n\"failed\":" + jmap(s.failed) + ",\n\"unknown_asserts\":" + jmap(s.unknownAsserts) + ",\n\"tags\":" + jmap(s.tags) + ",\n";
  j += "\"externals\":[";
  bool f = true;
  for (auto &e : ex.externals) { j += (f ? "" : ",") + js(e); f = false; }
  j += "],\n\"repo_functions\":[";
  f = true;
  for (auto &e : s.repoFns) { j += (f ? "" : ",") + js(e); f = false; }
  j += "],\n";
  std::map<std::string, unsigned> rfiles;
  for (auto &p : s.repoLines) rfiles[p.first]++;
  j += "\"repo_lines\":" + jmap(rfiles) + ",\n\"traces\":[";
  f = true;
  for (auto &t : ex.traces) {
    j += (f ? "" : ",\n") + std::string("{\"inputs\":") + jin(t.inputs) + ",\"outs\":[";
    bool g = true;
    for (auto &p : t.outs) { j += (g ? "" : ",") + std::string("[") + js(p.first) + "," + js(p.second) + "]"; g = false; }
    j += "]}";
    f = false;
  }
  j += "],\n\"violations\":[";
  f = true;
  for (auto &v : ex.viols) {
    j += (f ? "" : ",\n") + std::string("{\"kind\":") + js(v.kind) + ",\"id\":" + js(v.id) + ",\"where\":" + js(v.where) + ",\"detail\":" + js(v.detail) + ",\"candidate\":" + (v.candidate ? "true" : "false") + ",\"uninit\":" + (v.uninit ? "true" : "false") + ",\"fill\":" + std::to_string(v.fill) + ",\"stack\":[";
    bool g = true;
    for (auto &x : v.stack) { j += (g ? "" : ",") + js(x); g = false; }
    j += "],\"inputs\":" + jin(v.inputs) + "}";
    f = false;
  }
  j += "]}\n";
  if (out == "-") std::cout << j;
  else std::ofstream(out) << j;
  fflush(nullptr);
  _exit(0);
}
