// Program state of the symbolic executor: flat 64-bit memory, page permissions, threads.
#pragma once
#include "expr.h"
#include <bitset>
#include <functional>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

enum { P_UNMAPPED = 0, P_NONE = 4, P_R = 5, P_RW = 7 };
static const u64 PG = 4096;
static const u64 DYN_LO = 0x100000000000ull, DYN_HI = 0x600000000000ull;
static const u64 STK_LO = 0x700000000000ull, STK_SZ = 0x1000000, STK_STRIDE = 0x100000000ull;
static const u64 BIG_OFF = 0x10000000; // guarded big allocas of a thread live here

struct Val {
  V v;
  std::shared_ptr<std::vector<Val>> agg;
  Val() {}
  Val(V x) : v(x) {}
};

struct SB { u32 id; u16 w; u8 idx; };
struct PData {
  u8 data[PG];
  std::bitset<PG> valid;
  std::map<u16, SB> sym;
};
struct Mem;
enum EvKind { EV_FILL, EV_STORE, EV_COPY };
struct Event {
  EvKind kind;
  V start, len;
  u64 lo, hi; // every covered address lies in [lo,hi)
  V val;      // FILL: byte, STORE: value
  V src;      // COPY
  u64 slo = 0, shi = 0;
  std::shared_ptr<Mem> snap;
};
struct PageNode {
  std::shared_ptr<PageNode> parent;
  std::shared_ptr<Event> ev;
  int evIdx = -1;
  std::shared_ptr<PData> d;
};
struct PE { std::shared_ptr<PageNode> n; u32 synced = 0; };
struct Mem {
  std::unordered_map<u64, PE> pages;
  std::vector<std::shared_ptr<Event>> events;
};
struct PermEv { V start, len; u64 lo, hi; u8 prot; };

struct FInfo {
  llvm::Function *F;
  std::unordered_map<const llvm::Value *, u32> idx;
  u32 n = 0;
  bool fromRepo = false, loopsKnown = false, hasLoops = false;
};
struct Frame {
  FInfo *fi;
  llvm::BasicBlock *bb = nullptr, *prev = nullptr;
  llvm::BasicBlock::iterator it;
  std::vector<Val> regs;
  u64 sp0 = 0, big0 = 0;
  std::vector<Val> va;
  unsigned nfixed = 0;
};
enum TStat { T_RUN, T_BLOCK_MUTEX, T_JOIN, T_DONE };
struct Thread {
  std::vector<Frame> stk;
  TStat st = T_RUN;
  u64 waitMutex = 0;
  u64 sp, big;
  bool schedPassed = false;
  u64 exObj = 0, exType = 0;
};
struct Sym { std::string name; V v; bool isSigned = false; };
struct State {
  std::vector<Thread> th;
  int cur = 0;
  Mem mem;
  std::vector<PermEv> perms;
  u64 permVer = 0;
  std::shared_ptr<std::unordered_map<u64, u8>> bigPerm;
  std::vector<V> pc;
  std::vector<u64> pch;
  std::unordered_map<u64, u8> permOk;
  ModelP model;
  std::vector<Sym> syms;
  std::vector<std::pair<std::string, V>> trace;
  V abortOk = KB(false), segvOk = KB(false), exitOk = KB(false);
  u64 nextMap = DYN_LO;
  V mapSkew = K(64, 0), mapped = K(64, 0);
  std::vector<V> mapBases;
  unsigned nmap = 0, nunmap = 0, nprot = 0, nprotF = 0;
  unsigned failBudget = 0, failMunmap = 0, failMprot = 0;
  int failSticky = 0; // 1: any number of calls may fail, 2: every call fails
  std::map<u64, int> mutexOwner;
  unsigned preemptLeft = 0;
  u64 schedPoints = 0;
  std::vector<std::pair<u64, int>> sched;
  std::shared_ptr<std::vector<std::pair<int, V>>> out; // bytes written, with fd
  std::vector<u64> envp;
  std::map<u64, V> tokens; // numeric environment tokens
  u64 heapTop = 0x20000000;
  u64 steps = 0;
  int phase = 0; // 0 pre, 1 ctors, 2 main, 3 dtors
  size_t ctorIdx = 0;
  std::string abortMsg, abortKind = "ABORT";
  bool inAbort = false, sigIgn = false, realPrint = false, runDtors = false, noCtors = false;
  std::vector<u64> atexits;
  u64 depth = 0;
  std::map<int, V> scratch;
};
