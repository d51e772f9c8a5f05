#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Support/SourceMgr.h>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
using namespace llvm;
using std::string;
using std::vector;

// phases: 0 harness_pre, 1 constructors, 2 harness_main, 3 destructors
void Engine::advancePhase(State &s) {
  for (;;) {
    if (s.phase == 0) {
      s.phase = 1; s.ctorIdx = 0;
      // environment block
      u64 envArr = 0x1e000000;
      for (size_t i = 0; i < s.envp.size(); ++i) storeRaw(s, K(64, envArr + 8 * i), K(64, s.envp[i]));
      storeRaw(s, K(64, envArr + 8 * s.envp.size()), K(64, 0));
      for (const char *nm : {"environ", "__environ"})
        if (auto *g = M->getNamedGlobal(nm)) storeRaw(s, K(64, gaddr[g]), K(64, envArr));
    }
    if (s.phase == 1) {
      if (!s.noCtors && s.ctorIdx < ctors.size()) { auto *f = faddr[ctors[s.ctorIdx++]]; enter(s, 0, f, {}); return; }
      s.phase = 2;
      enter(s, 0, M->getFunction("harness_main"), {});
      return;
    }
    if (s.phase == 2) { s.phase = 3; s.ctorIdx = 0; }
    if (s.phase == 3) {
      if (s.runDtors) {
        if (!s.atexits.empty()) { u64 a = s.atexits.back(); s.atexits.pop_back(); enter(s, 0, faddr[a], {}); return; }
        if (s.ctorIdx < dtors.size()) { auto *f = faddr[dtors[s.ctorIdx++]]; enter(s, 0, f, {}); return; }
        if (auto *f = M->getFunction("harness_post")) if (s.ctorIdx == dtors.size()) { s.ctorIdx++; enter(s, 0, f, {}); return; }
      }
      finish(s, "DONE", "");
      throw PathEnd();
    }
  }
}
static string jesc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') r += "\\n"; else r += c; } return r; }
// inserts a scheduling point before every access to memory other threads can see.
// spec: file=all,file=glob: all non-local accesses / accesses to named variables, in functions of that source file
static int instrument(const string &spec, const string &in, const string &out) {
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(in, err, ctx);
  if (!M) { err.print("symduma", errs()); return 3; }
  std::map<string, string> want;
  std::stringstream ss(spec);
  string t;
  while (getline(ss, t, ',')) want[t.substr(0, t.find('='))] = t.substr(t.find('=') + 1);
  auto cb = M->getOrInsertFunction("h_sched_point", Type::getVoidTy(ctx));
  u64 n = 0;
  for (auto &F : *M) {
    auto *sp = F.getSubprogram();
    if (!sp) continue;
    string fn = sp->getFilename().str();
    fn = fn.substr(fn.find_last_of('/') + 1);
    auto w = want.find(fn);
    if (w == want.end()) continue;
    vector<Instruction *> at;
    for (auto &B : F) for (auto &I : B) {
      Value *pv = nullptr;
      if (auto *l = dyn_cast<LoadInst>(&I)) pv = l->getPointerOperand();
      else if (auto *st = dyn_cast<StoreInst>(&I)) pv = st->getPointerOperand();
      else if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) pv = I.getOperand(0);
      if (!pv) continue;
      const Value *u = getUnderlyingObject(pv, 0);
      if (isa<AllocaInst>(u)) continue;
      auto *g = dyn_cast<GlobalVariable>(u);
      if (g && g->isConstant()) continue;
      if (w->second == "glob" && !g) continue;
      at.push_back(&I);
    }
    for (auto *I : at) { auto *c = CallInst::Create(cb, "", I); if (I->getDebugLoc()) c->setDebugLoc(I->getDebugLoc()); else c->setDebugLoc(DILocation::get(ctx, sp->getLine(), 0, sp)); n++; }
    if (!at.empty()) { F.setMemoryEffects(MemoryEffects::unknown()); F.removeFnAttr(Attribute::NoCallback); F.removeFnAttr(Attribute::NoSync); }
  }
  std::error_code ec;
  raw_fd_ostream o(out, ec);
  WriteBitcodeToFile(*M, o);
  std::fprintf(stderr, "%llu points\n", (unsigned long long)n);
  return 0;
}
int main(int argc, char **argv) {
  if (argc == 5 && string(argv[1]) == "-instrument") return instrument(argv[2], argv[3], argv[4]);
  Engine E;
  string bc, json = "/dev/stdout";
  E.replayDir = "/tmp";
  E.harness = "h";
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    auto nx = [&]() { return string(argv[++i]); };
    if (a == "-p") { string kv = nx(); auto e = kv.find('='); E.params[kv.substr(0, e)] = strtoull(kv.c_str() + e + 1, 0, 0); }
    else if (a == "-json") json = nx();
    else if (a == "-replay-dir") E.replayDir = nx();
    else if (a == "-name") E.harness = nx();
    else if (a == "-time") E.maxSecs = atof(nx().c_str());
    else if (a == "-witness") E.maxWitness = atoi(nx().c_str());
    else if (a == "-qtimeout") gTimeoutMs = atoi(nx().c_str());
    else if (a == "-noaccel") E.noAccel = true;
    else if (a == "-steps") E.maxStepsPath = strtoull(nx().c_str(), 0, 0);
    else bc = a;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("symduma", errs()); return 3; }
  E.M = M.get();
  E.DL = &M->getDataLayout();
  // a diagnostic stop does not return (what DUMA_Abort itself does is executed with realabort=1);
  // saying so lets loops that contain one be recognised as scans
  if (!E.params.count("realabort"))
    for (auto &F : *M) {
      vector<Instruction *> after;
      for (auto &B : F) for (auto &I : B) if (auto *ci = dyn_cast<CallInst>(&I)) if (auto *cf = ci->getCalledFunction()) if (cf->getName() == "DUMA_Abort" && ci->getNextNode()) after.push_back(ci);
      std::set<BasicBlock *> done;
      for (auto *i : after) if (done.insert(i->getParent()).second) changeToUnreachable(i->getNextNode());
      if (!after.empty()) removeUnreachableBlocks(F);
    }
  State *s0 = new State();
  // code
  u64 fa = 0x400000;
  for (auto &F : *M) { E.gaddr[&F] = fa; E.faddr[fa] = &F; fa += 16; }
  E.mapStatic(0x10000, 4096, P_RW);          // errno
  E.mapStatic(0x1e000000, 65536, P_RW);      // environment vector
  E.mapStatic(0x20000000, 64 << 20, P_RW);   // model heap
  // data: larger objects end at a page end followed by an unmapped page
  u64 ga = 0x30000000;
  vector<std::pair<GlobalVariable *, u64>> inits;
  for (auto &G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    u64 sz = G.getValueType()->isSized() ? (u64)E.DL->getTypeAllocSize(G.getValueType()) : 64;
    if (sz == 0) sz = 8;
    u64 al = std::max<u64>(G.getAlign() ? G.getAlign()->value() : 8, 8);
    u64 r = (sz + al - 1) / al * al;
    u64 pages = (r + PG - 1) / PG;
    u64 addr = ga + pages * PG - r;
    if (!G.hasInitializer()) addr = ga; // external: generous zero page
    E.mapStatic(ga, pages * PG, G.isConstant() && G.hasInitializer() ? P_R : P_RW);
    ga += (pages + 1) * PG;
    E.gaddr[&G] = addr;
    inits.push_back({&G, addr});
  }
  u64 brk = ga; (void)brk;
  for (auto &p : inits)
    if (p.first->hasInitializer() && !p.first->getInitializer()->isNullValue())
      E.storeTy(*s0, K(64, p.second), E.constant(p.first->getInitializer()), p.first->getValueType());
  auto collect = [&](const char *nm, vector<u64> &out) {
    auto *g = M->getNamedGlobal(nm);
    if (!g || !g->hasInitializer()) return;
    if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer())) {
      vector<std::pair<u64, u64>> v;
      for (auto &op : ca->operands()) {
        auto *cs = cast<ConstantStruct>(op);
        if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), E.gaddr[f]});
      }
      std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
      for (auto &x : v) out.push_back(x.second);
    }
  };
  collect("llvm.global_ctors", E.ctors);
  collect("llvm.global_dtors", E.dtors);
  Thread t;
  t.sp = STK_LO + 0x1000;
  t.big = STK_LO + BIG_OFF;
  s0->th.push_back(t);
  s0->bigPerm = std::make_shared<std::unordered_map<u64, u8>>();
  E.t0 = std::chrono::steady_clock::now();
  gDeadline = std::chrono::duration<double>(E.t0.time_since_epoch()).count() + E.maxSecs;
  { ModelP m; solve({}, KB(true), &m); s0->model = m; }
  s0->phase = 0;
  auto *pre = M->getFunction("harness_pre");
  bool started = true;
  if (pre && !pre->isDeclaration()) E.enter(*s0, 0, pre, {});
  else { try { E.advancePhase(*s0); } catch (PathEnd &) { started = false; } }
  if (started) E.work.push_back(s0);
  double el = 0;
  while (!E.work.empty()) {
    State *s = E.work.back();
    E.work.pop_back();
    u64 base = s->steps;
    (void)base;
    try {
      u64 k = 0;
      for (;;) {
        E.step(*s);
        if ((++k & 1023) == 0) {
          el = std::chrono::duration<double>(std::chrono::steady_clock::now() - E.t0).count();
          if (el > E.maxSecs) { E.inconclusive("time budget exhausted at " + E.where(*s)); break; }
          if (s->steps > E.maxStepsPath) { E.finish(*s, "DEADLOCK", "step bound exceeded (no progress)"); break; }
        }
      }
    } catch (PathEnd &) {
    } catch (OutOfTime &) { E.inconclusive("time budget exhausted at " + E.where(*s)); }
    delete s;
    el = std::chrono::duration<double>(std::chrono::steady_clock::now() - E.t0).count();
    if (el > E.maxSecs) { if (!E.work.empty()) E.inconclusive("time budget exhausted, " + std::to_string(E.work.size()) + " paths pending"); break; }
    if (E.violFiles.size() >= E.maxViol) break;
  }
  std::ofstream o(json);
  auto lst = [&](const char *k, const vector<string> &v) { o << "\"" << k << "\":["; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << "\"" << jesc(v[i]) << "\""; o << "]"; };
  auto mp = [&](const char *k, const std::map<string, u64> &v) { o << "\"" << k << "\":{"; bool f = true; for (auto &x : v) { o << (f ? "" : ",") << "\"" << jesc(x.first) << "\":" << x.second; f = false; } o << "}"; };
  o << "{\"harness\":\"" << E.harness << "\",\"paths\":" << E.nPaths << ",\"forks\":" << E.nForks << ",\"instr\":" << E.nInstr << ",\"asserts\":" << E.nAsserts
    << ",\"assert_queries\":" << E.nAssertQ << ",\"queries\":" << SS.queries << ",\"sat\":" << SS.sat << ",\"unsat\":" << SS.unsat << ",\"unknown\":" << SS.unknown
    << ",\"solver_s\":" << SS.secs << ",\"max_query_s\":" << SS.maxq << ",\"wall_s\":" << el << ",\"exprs\":" << numExprs() << ",\"max_mem_events\":" << E.maxEvents
    << ",\"violations\":" << E.nViol << ",\"inconclusive\":" << (E.inconc ? "true" : "false") << ",";
  lst("reasons", E.incReasons); o << ",";
  lst("viol_files", E.violFiles); o << ",";
  lst("wit_files", E.witFiles); o << ",";
  mp("outcomes", E.outcomes); o << ",";
  mp("reached", E.reached); o << ",";
  mp("functions", E.fnCalls); o << ",";
  mp("accelerated_loops", E.accelerated); o << ",";
  mp("assertions", E.assertNames);
  o << "}\n";
  o.close();
  if (E.nViol) return 1;
  if (E.inconc) return 2;
  return 0;
}
