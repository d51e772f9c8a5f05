#pragma once
#include "expr.h"
#include "state.h"
#include <chrono>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <set>
struct BEntry { size_t depth; u64 hash; u64 lo, hi; bool exact = false; };
struct PathEnd {}; // thrown to end the current path
struct Violation { std::string kind, msg, where; };
struct Engine {
  llvm::Module *M = nullptr;
  const llvm::DataLayout *DL = nullptr;
  std::unordered_map<const llvm::GlobalValue *, u64> gaddr;
  std::unordered_map<u64, llvm::Function *> faddr;
  std::unordered_map<const llvm::Function *, FInfo *> finfo;
  std::unordered_map<const llvm::Constant *, Val> ccache;
  std::vector<State *> work;
  std::vector<u64> ctors, dtors;
  // options
  std::map<std::string, u64> params;
  std::string replayDir, harness;
  double maxSecs = 600;
  u64 maxPaths = 10000000, maxStepsPath = 200000000;
  unsigned maxViol = 3, maxWitness = 20;
  // results
  std::vector<std::string> incReasons;
  bool inconc = false;
  u64 nPaths = 0, nInstr = 0, nAsserts = 0, nAssertQ = 0, nForks = 0, nWit = 0, nViol = 0, maxEvents = 0;
  std::map<std::string, u64> outcomes, reached, fnCalls, accelerated;
  bool noAccel = false;
  std::vector<std::string> violFiles, witFiles;
  std::map<std::string, u64> assertNames;
  std::chrono::steady_clock::time_point t0;

  void inconclusive(const std::string &why);
  // path condition
  void addPC(State &s, V c);
  bool bounds(State &s, V a, u64 &lo, u64 &hi);
  V resolve(State &s, V a);
  Res ask(State &s, V c, ModelP *m = nullptr);
  bool forkOn(State &s, V c);
  u64 concretize(State &s, V v);
  // memory
  PE &page(State &s, Mem &m, u64 p, bool create = true);
  V evValue(State &s, Event &e, V a);
  V readNode(State &s, PageNode *n, u64 addr);
  V readByte(State &s, Mem &m, V a);
  V readByteB(State &s, Mem &m, V a, u64 lo, u64 hi);
  void writeByteC(State &s, u64 addr, V v, u8 idx);
  void addEvent(State &s, std::shared_ptr<Event> e);
  void storeRaw(State &s, V addr, V val);
  V loadRaw(State &s, V addr, unsigned n);
  void memFill(State &s, V dst, V byte, V len);
  void memCopy(State &s, V dst, V src, V len);
  void mapStatic(u64 a, u64 len, u8 prot);
  void addPerm(State &s, V start, V len, u8 prot);
  u8 staticPerm(State &s, u64 a);
  V permAt(State &s, V a);
  V badAccess(State &s, V a, unsigned n, bool wr);
  void checkAccess(State &s, V a, unsigned n, bool wr);
  void checkRange(State &s, V a, V len, bool wr);
  bool rangeMayFault(State &s, V a, V len, bool wr);
  bool tryAccel2(State &s, llvm::BasicBlock *header, llvm::BasicBlock *from);
  bool tryAccel(State &s, llvm::BasicBlock *header, llvm::BasicBlock *from);
  // execution
  FInfo *info(llvm::Function *F);
  Val constant(const llvm::Constant *c);
  Val get(State &s, const llvm::Value *v);
  void set(State &s, const llvm::Value *v, Val x);
  Val loadTy(State &s, V addr, llvm::Type *t);
  void storeTy(State &s, V addr, Val v, llvm::Type *t);
  void enter(State &s, int th, llvm::Function *F, std::vector<Val> args);
  void branchTo(State &s, llvm::BasicBlock *bb);
  void step(State &s);
  void call(State &s, llvm::CallBase &cb);
  bool external(State &s, llvm::CallBase &cb, const std::string &n, std::vector<Val> &a, Val &ret, bool &noret);
  void unwind(State &s);
  void landing(State &s, llvm::LandingPadInst &lp);
  void doRet(State &s, Val rv);
  void finish(State &s, const std::string &kind, const std::string &detail);
  void violation(State &s, ModelP m, const std::string &kind, const std::string &msg);
  void writeReplay(State &s, ModelP m, const std::string &file, const std::string &expect, const std::string &msg);
  bool threadExit(State &s);
  bool schedPoint(State &s);
  void pickNext(State &s, bool voluntary);
  void runPath(State *s);
  std::string where(State &s);
  std::string cstr(State &s, u64 a);
  V getSym(State &s, const std::string &name, unsigned w);
  void advancePhase(State &s);
};
