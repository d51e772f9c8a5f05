// Loop acceleration: a counted byte loop with a symbolic trip count is replaced by one range
// operation (fill / copy / no change) or one "is there an index" question (scan).  Everything is
// derived from the loop's IR on every run; a loop that does not fit is simply unrolled.
#include "engine.h"
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/ScalarEvolutionExpressions.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/TargetParser/Triple.h>
#include <cstdio>
using namespace llvm;
using std::string;
using std::vector;

struct LoopPlan {
  bool ok = false;
  Loop *L = nullptr;
  vector<BasicBlock *> chain; // header .. latch
  size_t x = 0;               // position of the counted exit in the chain
  const SCEV *count = nullptr;
  BasicBlock *exitBB = nullptr;
  vector<size_t> side;        // positions of data dependent exits
  vector<StoreInst *> stores;
  vector<LoadInst *> loads;
  size_t storePos = 0;
  int step = 0;               // of the stores
};
struct FnAn {
  DominatorTree DT;
  LoopInfo LI;
  TargetLibraryInfoImpl TLII;
  TargetLibraryInfo TLI;
  AssumptionCache AC;
  ScalarEvolution SE;
  std::map<BasicBlock *, LoopPlan> plans;
  FnAn(Function &F) : DT(F), LI(DT), TLII(Triple(F.getParent()->getTargetTriple())), TLI(TLII), AC(F), SE(F, TLI, AC, DT, LI) {}
};
static std::map<Function *, std::unique_ptr<FnAn>> gAn;
static FnAn &an(Function *F) {
  auto &p = gAn[F];
  if (!p) p = std::make_unique<FnAn>(*F);
  return *p;
}
static bool usedOutside(Loop *L, Instruction *I) {
  for (auto *u : I->users()) if (auto *ui = dyn_cast<Instruction>(u)) if (!L->contains(ui)) return true;
  return false;
}
static LoopPlan makePlan(FnAn &A, Loop *L) {
  LoopPlan P;
  P.L = L;
  ScalarEvolution &SE = A.SE;
  if (!L->getSubLoops().empty() || !L->getLoopLatch()) return P;
  BasicBlock *b = L->getHeader();
  std::set<BasicBlock *> seen;
  while (seen.insert(b).second) {
    P.chain.push_back(b);
    auto *br = dyn_cast<BranchInst>(b->getTerminator());
    if (!br) return P;
    BasicBlock *nx = nullptr;
    for (unsigned i = 0; i < br->getNumSuccessors(); ++i)
      if (L->contains(br->getSuccessor(i))) { if (nx && nx != br->getSuccessor(i)) return P; nx = br->getSuccessor(i); }
    if (!nx) return P;
    b = nx;
  }
  if (b != L->getHeader() || P.chain.size() != L->getNumBlocks()) return P;
  for (auto &phi : L->getHeader()->phis()) {
    if (!SE.isSCEVable(phi.getType())) return P;
    auto *ar = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(&phi));
    if (!ar || ar->getLoop() != L || !ar->isAffine() || !isa<SCEVConstant>(ar->getStepRecurrence(SE))) return P;
  }
  for (size_t i = 0; i < P.chain.size(); ++i) {
    if (i && !P.chain[i]->phis().empty()) return P;
    for (auto &I : *P.chain[i]) {
      if (isa<PHINode>(I) || isa<BranchInst>(I) || isa<GetElementPtrInst>(I) || isa<ICmpInst>(I) || isa<CastInst>(I) || isa<FreezeInst>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *bo = dyn_cast<BinaryOperator>(&I)) { if (bo->isIntDivRem()) return P; continue; }
      if (auto *se = dyn_cast<SelectInst>(&I)) { if (se->getType()->isAggregateType()) return P; continue; }
      if (auto *st = dyn_cast<StoreInst>(&I)) { P.stores.push_back(st); P.storePos = i; continue; }
      if (auto *ld = dyn_cast<LoadInst>(&I)) { P.loads.push_back(ld); continue; }
      return P;
    }
    auto *br = cast<BranchInst>(P.chain[i]->getTerminator());
    if (br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1) && (!L->contains(br->getSuccessor(0)) || !L->contains(br->getSuccessor(1)))) {
      const SCEV *c = SE.getExitCount(L, P.chain[i], ScalarEvolution::Exact);
      if (!P.count && !isa<SCEVCouldNotCompute>(c)) { P.count = c; P.x = i; P.exitBB = L->contains(br->getSuccessor(0)) ? br->getSuccessor(1) : br->getSuccessor(0); }
      else P.side.push_back(i);
    }
  }
  if (!P.count) return P;
  auto affine = [&](Value *p, int &step) -> bool {
    auto *ar = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(p));
    if (!ar || ar->getLoop() != L || !ar->isAffine()) return false;
    auto *c = dyn_cast<SCEVConstant>(ar->getStepRecurrence(SE));
    if (!c) return false;
    step = (int)c->getAPInt().getSExtValue();
    return step == 1 || step == -1;
  };
  if (!P.stores.empty()) {
    if (!P.side.empty()) return P;
    const SCEV *a0 = SE.getSCEV(P.stores[0]->getPointerOperand());
    for (auto *st : P.stores) {
      if (SE.getSCEV(st->getPointerOperand()) != a0 || st->getParent() != P.stores[0]->getParent()) return P;
      if (!st->getValueOperand()->getType()->isIntegerTy(8)) return P;
    }
    if (!affine(P.stores[0]->getPointerOperand(), P.step)) return P;
  }
  for (auto *ld : P.loads) {
    const SCEV *a = SE.getSCEV(ld->getPointerOperand());
    int st;
    if (SE.isLoopInvariant(a, L)) continue;
    if (!affine(ld->getPointerOperand(), st) || !ld->getType()->isIntegerTy(8)) return P;
    if (!P.stores.empty() && (usedOutside(L, ld) || st != P.step)) return P;
  }
  P.ok = true;
  return P;
}
static bool evalS(Engine &E, State &s, const SCEV *c, V &r, unsigned depth = 0) {
  if (depth > 40) return false;
  auto bw = [&](Type *t) { return t->isPointerTy() ? 64u : (unsigned)t->getIntegerBitWidth(); };
  switch (c->getSCEVType()) {
  case scConstant: { auto &a = cast<SCEVConstant>(c)->getAPInt(); if (a.getBitWidth() > 64) return false; r = K(a.getBitWidth(), a.getZExtValue()); return true; }
  case scUnknown: {
    Value *v = cast<SCEVUnknown>(c)->getValue();
    Val x = E.get(s, v);
    if (x.agg || x.v.w == 0) return false;
    r = x.v;
    return r.w == bw(c->getType());
  }
  case scPtrToInt: return evalS(E, s, cast<SCEVCastExpr>(c)->getOperand(0), r, depth + 1);
  case scTruncate: if (!evalS(E, s, cast<SCEVCastExpr>(c)->getOperand(0), r, depth + 1)) return false; r = trunc(r, bw(c->getType())); return true;
  case scZeroExtend: if (!evalS(E, s, cast<SCEVCastExpr>(c)->getOperand(0), r, depth + 1)) return false; if (bw(c->getType()) > 64) return false; r = zext(r, bw(c->getType())); return true;
  case scSignExtend: if (!evalS(E, s, cast<SCEVCastExpr>(c)->getOperand(0), r, depth + 1)) return false; if (bw(c->getType()) > 64) return false; r = sext(r, bw(c->getType())); return true;
  case scAddExpr: case scMulExpr: case scUMaxExpr: case scUMinExpr: case scSMaxExpr: case scSMinExpr: case scSequentialUMinExpr: {
    auto *n = cast<SCEVNAryExpr>(c);
    for (unsigned i = 0; i < n->getNumOperands(); ++i) {
      V x;
      if (!evalS(E, s, n->getOperand(i), x, depth + 1)) return false;
      if (!i) { r = x; continue; }
      if (x.w != r.w) return false;
      switch (c->getSCEVType()) {
      case scAddExpr: r = r + x; break;
      case scMulExpr: r = bin(MUL, r, x); break;
      case scUMaxExpr: r = ite(ult(r, x), x, r); break;
      case scUMinExpr: case scSequentialUMinExpr: r = ite(ult(r, x), r, x); break;
      case scSMaxExpr: r = ite(slt(r, x), x, r); break;
      default: r = ite(slt(r, x), r, x); break;
      }
    }
    return true;
  }
  case scUDivExpr: {
    V a, b;
    if (!evalS(E, s, cast<SCEVUDivExpr>(c)->getLHS(), a, depth + 1) || !evalS(E, s, cast<SCEVUDivExpr>(c)->getRHS(), b, depth + 1)) return false;
    if (!b.isC() || b.c == 0) return false;
    r = bin(UDIV, a, b);
    return true;
  }
  default: return false;
  }
}
static u64 gK = 0;
// Executes one iteration (index k) of the loop in t, up to chain position 'upto' inclusive.
// conds[i]: condition under which chain[i] leaves the loop.
static bool evalIter(Engine &E, State &t, FnAn &A, LoopPlan &P, V k, size_t upto, int opaque, vector<V> &conds) {
  Frame *f = &t.th[t.cur].stk.back();
  vector<std::pair<PHINode *, V>> ph;
  for (auto &phi : P.L->getHeader()->phis()) {
    auto *ar = cast<SCEVAddRecExpr>(A.SE.getSCEV(&phi));
    V st = E.get(t, &phi).v;
    u64 step = (u64)cast<SCEVConstant>(ar->getStepRecurrence(A.SE))->getAPInt().getSExtValue();
    V kk = k.w > st.w ? trunc(k, st.w) : zext(k, st.w);
    ph.push_back({&phi, st + bin(MUL, kk, K(st.w, step))});
  }
  for (auto &x : ph) E.set(t, x.first, x.second);
  conds.assign(P.chain.size(), KB(false));
  for (size_t i = 0; i <= upto; ++i) {
    for (auto &I : *P.chain[i]) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I) || isa<StoreInst>(I)) continue;
      if (auto *br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional() && (!P.L->contains(br->getSuccessor(0)) || !P.L->contains(br->getSuccessor(1)))) {
          V c = E.get(t, br->getCondition()).v;
          conds[i] = P.L->contains(br->getSuccessor(0)) ? lnot(c) : c;
        }
        continue;
      }
      if (auto *ld = dyn_cast<LoadInst>(&I)) {
        bool inv = A.SE.isLoopInvariant(A.SE.getSCEV(ld->getPointerOperand()), P.L);
        if (opaque && !inv) { E.set(t, &I, opaque == 2 ? mkVar("opq", 8) : mkVar("opq!" + std::to_string(gK++), 8)); continue; }
        V a = E.resolve(t, E.get(t, ld->getPointerOperand()).v);
        E.set(t, &I, E.loadTy(t, a, ld->getType()));
        continue;
      }
      f = &t.th[t.cur].stk.back();
      f->it = I.getIterator();
      E.step(t);
    }
  }
  return true;
}
// can any byte of [a,a+len) be inaccessable?  (len != 0 on every path)
bool Engine::rangeMayFault(State &s, V a, V len, bool wr) {
  if (a.isC() && len.isC() && len.c && len.c < (1u << 20)) {
    bool ok = true;
    for (u64 p = a.c / PG; ok && p <= (a.c + len.c - 1) / PG; ++p) ok = badAccess(s, K(64, p * PG), 1, wr).isFalse();
    if (ok) return false;
  }
  V k = mkVar("rf!" + std::to_string(gK++), 64);
  V p = ult(k, len);
  State t(s);
  if (ask(t, p, &t.model) != SAT) return false;
  addPC(t, p);
  V bad = badAccess(t, a + k, 1, wr);
  if (bad.isFalse()) return false;
  return solve(t.pc, bad) != UNSAT;
}
static int gDepth = 0;
static const char *gWhy = "";
bool Engine::tryAccel2(State &s, BasicBlock *header, BasicBlock *from) {
  if (noAccel || gDepth) return false;
  Frame &f0 = s.th[s.cur].stk.back();
  Function *F = f0.fi->F;
  if (!f0.fi->loopsKnown) { f0.fi->loopsKnown = true; f0.fi->hasLoops = !an(F).LI.empty(); }
  if (!f0.fi->hasLoops) return false;
  FnAn &A = an(F);
  Loop *L = A.LI.getLoopFor(header);
  if (!L || L->getHeader() != header || (from && L->contains(from))) return false;
  auto it = A.plans.find(header);
  if (it == A.plans.end()) {
    it = A.plans.emplace(header, makePlan(A, L)).first;
  }
  LoopPlan &P = it->second;
  if (!P.ok) return false;
  V n;
  if (!evalS(*this, s, P.count, n)) return false;
  if (n.w > 64) return false;
  n = resolve(s, zext(n, 64));
  if (n.isC() && n.c <= 24) return false;
  struct D { D() { gDepth++; } ~D() { gDepth--; } } guard;
  V n1 = n + K(64, 1);
  if (ask(s, eq(n1, K(64, 0))) != UNSAT) return (gWhy = "1", false);
  u64 nlo, nhi;
  bounds(s, n, nlo, nhi);
  if (nhi > (1ull << 48)) return (gWhy = "2", false);
  string loc = F->getName().str();
  auto addrAt = [&](State &t, Value *p) { return get(t, p).v; };
  // scan of concrete bytes that no iteration leaves early: decided without the solver
  auto quiet = [&]() {
    if (!n.isC() || n.c > 1 << 16 || P.side.empty()) return false;
    State u(s);
    vector<V> cc;
    evalIter(*this, u, A, P, K(64, 0), P.chain.size() - 1, 2, cc);
    LoadInst *var = nullptr;
    for (auto *ld : P.loads) {
      V a0 = addrAt(u, ld->getPointerOperand());
      if (!a0.isC()) return false;
      bool inv = A.SE.isLoopInvariant(A.SE.getSCEV(ld->getPointerOperand()), L);
      if (inv) { if (rangeMayFault(s, a0, K(64, DL->getTypeStoreSize(ld->getType())), false)) return false; continue; }
      if (var) return false;
      var = ld;
    }
    if (!var) return false;
    V a0 = addrAt(u, var->getPointerOperand());
    V opq = get(u, var).v;
    if (opq.isC() || opq.w != 8) return false;
    size_t pos = 0;
    while (P.chain[pos] != var->getParent()) ++pos;
    int st = (int)cast<SCEVConstant>(cast<SCEVAddRecExpr>(A.SE.getSCEV(var->getPointerOperand()))->getStepRecurrence(A.SE))->getAPInt().getSExtValue();
    if (st != 1 && st != -1) return false;
    u64 cnt = pos <= P.x ? n.c + 1 : n.c;
    u64 lo = st > 0 ? a0.c : a0.c - (cnt - 1);
    if (rangeMayFault(s, K(64, lo), K(64, cnt), false)) return false;
    // the conditions must depend on the loaded byte only
    State w(s);
    V k = mkVar("quiet", 64);
    evalIter(*this, w, A, P, k, P.chain.size() - 1, 2, cc);
    V opw = get(w, var).v;
    if (opw.isC()) return false;
    std::bitset<256> seen;
    for (u64 i = 0; i < cnt; ++i) {
      u64 x = lo + i;
      u64 o = x % PG;
      for (PageNode *nd = page(s, s.mem, x / PG).n.get();; nd = nd->parent.get()) {
        if (nd->d && (!nd->parent || nd->d->valid[o])) {
          if (!nd->d->sym.empty() && nd->d->sym.count((u16)o)) return false;
          seen[nd->d->data[o]] = 1;
          break;
        }
        if (!nd->parent) { seen[0] = 1; break; }
        Event &e = *nd->ev;
        if (x < e.lo || x >= e.hi) continue;
        V c = ult(K(64, x) - e.start, e.len);
        if (c.isFalse()) continue;
        V v = c.isTrue() ? evValue(s, e, K(64, x)) : V();
        if (!v.isC() || !c.isTrue()) return false; // this needs the solver
        seen[v.c] = 1;
        break;
      }
    }
    for (size_t j : P.side) for (unsigned b = 0; b < 256; ++b) if (seen[b] && !subst(cc[j], opw, b).isFalse()) return false;
    return true;
  };
  if (P.stores.empty() && quiet()) {
  } else if (P.stores.empty()) {
    // scan: is there an iteration that leaves by a side exit?
    V k = mkVar("scan!" + std::to_string(gK++), 64);
    State t(s);
    V in = ule(k, n);
    if (ask(t, in, &t.model) != SAT) return (gWhy = "3", false);
    addPC(t, in);
    // every access of every iteration up to the counted exit must be legal, else unroll
    {
      State u(s);
      vector<V> cc;
      evalIter(*this, u, A, P, K(64, 0), P.chain.size() - 1, true, cc);
      for (auto *ld : P.loads) {
        size_t pos = 0;
        while (P.chain[pos] != ld->getParent()) ++pos;
        V a0 = addrAt(u, ld->getPointerOperand());
        unsigned w = (unsigned)DL->getTypeStoreSize(ld->getType());
        if (A.SE.isLoopInvariant(A.SE.getSCEV(ld->getPointerOperand()), L)) { if (rangeMayFault(s, a0, K(64, w), false)) return (gWhy = "4", false); continue; }
        int st = (int)cast<SCEVConstant>(cast<SCEVAddRecExpr>(A.SE.getSCEV(ld->getPointerOperand()))->getStepRecurrence(A.SE))->getAPInt().getSExtValue();
        V cnt = pos <= P.x ? n1 : n;
        V lo = st > 0 ? a0 : a0 - (cnt - K(64, 1));
        if (ask(s, ne(cnt, K(64, 0))) == SAT && rangeMayFault(s, lo, cnt, false)) return (gWhy = "5", false);
      }
    }
    vector<V> cond;
    if (!evalIter(*this, t, A, P, k, P.chain.size() - 1, false, cond)) return (gWhy = "6", false);
    vector<std::pair<size_t, V>> hits;
    for (size_t j : P.side) {
      V c = cond[j];
      if (j > P.x) c = c & ult(k, n);
      if (c.isFalse()) continue;
      Res r = ask(t, c);
      if (r == UNKNOWN) return (gWhy = "7", false);
      if (r == UNSAT) continue;
      // taken somewhere: exact only when nothing computed in the loop is used afterwards
      for (size_t i = 0; i <= j; ++i) for (auto &I : *P.chain[i]) if (usedOutside(L, &I)) return (gWhy = "8", false);
      hits.push_back({j, c});
    }
    for (auto &h : hits) {
      State *o = new State(t);
      ModelP m;
      if (ask(t, h.second, &m) != SAT) { delete o; continue; }
      addPC(*o, h.second);
      o->model = m;
      nForks++;
      auto *br = cast<BranchInst>(P.chain[h.first]->getTerminator());
      BasicBlock *dst = L->contains(br->getSuccessor(0)) ? br->getSuccessor(1) : br->getSuccessor(0);
      Frame &g = o->th[o->cur].stk.back();
      g.bb = P.chain[h.first];
      branchTo(*o, dst);
      work.push_back(o);
    }
    if (!hits.empty()) {
      // the remaining states: no iteration leaves early, instantiated where memory contents can change
      vector<V> reps = {K(64, 0), n};
      State u(s);
      vector<V> cc;
      evalIter(*this, u, A, P, K(64, 0), P.chain.size() - 1, true, cc);
      for (auto *ld : P.loads) {
        if (A.SE.isLoopInvariant(A.SE.getSCEV(ld->getPointerOperand()), L)) continue;
        int st = (int)cast<SCEVConstant>(cast<SCEVAddRecExpr>(A.SE.getSCEV(ld->getPointerOperand()))->getStepRecurrence(A.SE))->getAPInt().getSExtValue();
        V a0 = addrAt(u, ld->getPointerOperand());
        u64 l1, h1, l2, h2;
        bounds(s, a0, l1, h1);
        bounds(s, st > 0 ? a0 + n : a0 - n, l2, h2);
        u64 lo = std::min(l1, l2), hi = std::max(h1, h2);
        auto at = [&](V addr) { reps.push_back(st > 0 ? addr - a0 : a0 - addr); };
        for (auto &e : s.mem.events) {
          if (e->hi <= lo || e->lo > hi) continue;
          at(e->start); at(e->start + e->len - K(64, 1)); at(e->start + e->len); at(e->start - K(64, 1));
          if (e->len.isC() && e->len.c <= 16) for (u64 q = 1; q + 1 < e->len.c; ++q) at(e->start + K(64, q));
        }
        // ends of the runs of equal bytes
        unsigned c2 = 0;
        for (u64 p = lo / PG; p <= hi / PG && c2 < 400; ++p) {
          auto j = s.mem.pages.find(p);
          if (j == s.mem.pages.end()) continue;
          for (PageNode *nd = j->second.n.get(); nd; nd = nd->parent.get()) {
            if (!nd->d) continue;
            bool bottom = !nd->parent;
            int prev = -2; // -1: not stored here, 0..255 a constant, above: symbolic
            u64 psym = 0;
            for (u64 o = 0; o <= PG && c2 < 400; ++o) {
              int cur = -2;
              u64 csym = 0;
              if (o < PG) {
                auto q = nd->d->sym.find((u16)o);
                if (q != nd->d->sym.end()) { cur = 256; csym = ((u64)q->second.id << 32) | ((u64)q->second.w << 8) | q->second.idx; }
                else if (bottom || nd->d->valid[o]) cur = nd->d->data[o];
                else cur = -1;
              }
              if (o && (cur != prev || csym != psym)) {
                u64 x = p * PG + o;
                if (x > lo && x - 1 <= hi) { at(K(64, x - 1)); ++c2; }
                if (x >= lo && x <= hi) { at(K(64, x)); ++c2; }
              }
              prev = cur;
              psym = csym;
            }
          }
        }
      }
      for (auto &h : hits)
        for (V r : reps) {
          State u2(s);
          vector<V> c3;
          V in2 = ule(r, n);
          if (ask(u2, in2, &u2.model) != SAT) continue;
          addPC(u2, in2);
          evalIter(*this, u2, A, P, r, P.chain.size() - 1, false, c3);
          V c = c3[h.first];
          if (h.first > P.x) c = c & ult(r, n);
          V need = lnot(in2 & c);
          if (need.isTrue()) continue;
          ModelP m;
          Res q = ask(s, need, &m);
          if (q == UNSAT) throw PathEnd(); // always leaves early; those paths are queued
          if (q == UNKNOWN) { inconclusive("solver gave up on a scan"); continue; }
          addPC(s, need);
          s.model = m;
        }
    }
  } else {
    State u(s);
    vector<V> cc;
    evalIter(*this, u, A, P, K(64, 0), P.chain.size() - 1, true, cc);
    V d0 = addrAt(u, P.stores[0]->getPointerOperand());
    V cnt = P.storePos <= P.x ? n1 : n;
    V lo = P.step > 0 ? d0 : d0 - (cnt - K(64, 1));
    if (ask(s, eq(cnt, K(64, 0))) != UNSAT) return (gWhy = "9", false);
    // no wrap-around of the stored range
    if (ask(s, ult(lo + (cnt - K(64, 1)), lo)) != UNSAT) return (gWhy = "10", false);
    StoreInst *last = P.stores.back();
    const SCEV *sa = A.SE.getSCEV(last->getPointerOperand());
    enum { FILL, COPY, SAME } kind = FILL;
    V src, byte;
    LoadInst *vl = dyn_cast<LoadInst>(last->getValueOperand());
    if (vl && L->contains(vl) && !A.SE.isLoopInvariant(A.SE.getSCEV(vl->getPointerOperand()), L)) {
      kind = A.SE.getSCEV(vl->getPointerOperand()) == sa ? SAME : COPY;
      // a load between two stores of the same iteration would see the first one
      for (auto *st : P.stores) if (st != last && kind == SAME) { for (auto &I : *st->getParent()) { if (&I == vl) break; if (&I == st) return (gWhy = "11", false); } }
      V s0 = addrAt(u, vl->getPointerOperand());
      src = P.step > 0 ? s0 : s0 - (cnt - K(64, 1));
    } else {
      // the stored value must be the same in every iteration
      State v1(s), v2(s);
      V k1 = mkVar("it!1", 64), k2 = mkVar("it!2", 64);
      evalIter(*this, v1, A, P, k1, P.chain.size() - 1, true, cc);
      evalIter(*this, v2, A, P, k2, P.chain.size() - 1, true, cc);
      V b1 = get(v1, last->getValueOperand()).v, b2 = get(v2, last->getValueOperand()).v;
      if (!eq(b1, b2).isTrue()) return (gWhy = "12", false);
      byte = b1;
    }
    for (auto *ld : P.loads) {
      const SCEV *la = A.SE.getSCEV(ld->getPointerOperand());
      V a0 = addrAt(u, ld->getPointerOperand());
      if (A.SE.isLoopInvariant(la, L)) {
        unsigned w = (unsigned)DL->getTypeStoreSize(ld->getType());
        // must not read what the loop writes
        V ov = ult(a0 - lo, cnt) | ult(a0 + K(64, w - 1) - lo, cnt);
        if (ask(s, ov) != UNSAT) return (gWhy = "13", false);
        if (rangeMayFault(s, a0, K(64, w), false)) return (gWhy = "14", false);
      } else if (la != sa) {
        V r0 = P.step > 0 ? a0 : a0 - (cnt - K(64, 1));
        // destination ahead of the source in copy direction would feed on itself
        V bad = P.step > 0 ? (ult(lo - r0, cnt) & ne(lo, r0)) : (ult(r0 - lo, cnt) & ne(lo, r0));
        if (ask(s, bad) != UNSAT) return (gWhy = "15", false);
        if (ask(s, ult(r0 + (cnt - K(64, 1)), r0)) != UNSAT) return (gWhy = "16", false);
        checkRange(s, resolve(s, r0), resolve(s, cnt), false);
      }
    }
    checkRange(s, resolve(s, lo), resolve(s, cnt), true);
    // values after the loop are those of the last iteration, read before its own store
    if (kind == FILL) memFill(s, lo, byte, cnt);
    else if (kind == COPY) memCopy(s, lo, src, cnt);
  }
  // leave through the counted exit with the values of iteration n
  vector<V> cc;
  Frame &g = s.th[s.cur].stk.back();
  evalIter(*this, s, A, P, n, P.x, true, cc);
  g.bb = P.chain[P.x];
  accelerated[loc]++;
  branchTo(s, P.exitBB);
  return true;
}

bool Engine::tryAccel(State &s, BasicBlock *header, BasicBlock *from) {
  gWhy = "";
  bool r = tryAccel2(s, header, from);
  if (!r && *gWhy && getenv("ACCLOG")) fprintf(stderr, "[noaccel] %s: %s\n", gWhy, where(s).c_str());
  return r;
}
