#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <cstdio>
#include <cstring>
using namespace llvm;
using std::string;
using std::vector;

void Engine::inconclusive(const string &why) {
  inconc = true;
  if (incReasons.size() < 20) incReasons.push_back(why);
}
string Engine::where(State &s) {
  auto &t = s.th[s.cur];
  string r;
  for (size_t i = t.stk.size(); i-- > 0 && r.size() < 300;) {
    auto &f = t.stk[i];
    r += f.fi->F->getName().str();
    if (f.bb && f.it != f.bb->end()) {
      if (const DILocation *d = f.it->getDebugLoc().get()) r += "@" + d->getFilename().str() + ":" + std::to_string(d->getLine());
    }
    if (i) r += " < ";
  }
  return r;
}
bool Engine::forkOn(State &s, V c) {
  if (c.isC()) return c.c;
  V n = lnot(c);
  for (size_t i = s.pc.size(), k = 0; i-- > 0 && k < 64; ++k) {
    if (s.pc[i].id == c.id) return true;
    if (s.pc[i].id == n.id) return false;
  }
  bool b = evalIn(s.model, c);
  ModelP m;
  Res r = solve(s.pc, b ? n : c, &m);
  if (r == UNKNOWN) { inconclusive("solver gave up on a branch at " + where(s)); return b; }
  if (r == UNSAT) return b;
  State *o = new State(s);
  nForks++;
  if (getenv("FORKLOG")) fprintf(stderr, "[fork] %s\n", where(s).c_str());
  addPC(*o, b ? n : c);
  o->model = m;
  o->depth++;
  work.push_back(o);
  addPC(s, b ? c : n);
  s.depth++;
  return b;
}
u64 Engine::concretize(State &s, V v) {
  if (v.isC()) return v.c;
  V r = resolve(s, v);
  if (r.isC()) return r.c;
  for (;;) {
    u64 x = evalIn(s.model, v);
    // forkOn keeps this state on the model's side
    if (forkOn(s, eq(v, K(v.w, x)))) return x;
  }
}
FInfo *Engine::info(Function *F) {
  auto it = finfo.find(F);
  if (it != finfo.end()) return it->second;
  FInfo *fi = new FInfo();
  fi->F = F;
  for (auto &a : F->args()) fi->idx[&a] = fi->n++;
  for (auto &I : instructions(F)) if (!I.getType()->isVoidTy()) fi->idx[&I] = fi->n++;
  if (DISubprogram *sp = F->getSubprogram()) {
    string f = sp->getFilename().str();
    fi->fromRepo = f.find("duma") != string::npos || f.find("print.c") != string::npos || f.find("sem_inc") != string::npos || f.find("paging") != string::npos;
    if (f.find("harness") != string::npos || f.find("model_") != string::npos) fi->fromRepo = false;
  }
  finfo[F] = fi;
  return fi;
}
static unsigned bitw(const DataLayout *DL, Type *t) {
  if (t->isPointerTy()) return 64;
  return (unsigned)DL->getTypeSizeInBits(t).getFixedValue();
}
static V bigConst(const APInt &a) {
  if (a.getBitWidth() <= 64) return K(a.getBitWidth(), a.getZExtValue());
  SmallVector<char, 64> sv;
  a.toStringUnsigned(sv, 10);
  return mkBig(a.getBitWidth(), string(sv.data(), sv.size()));
}
Val Engine::constant(const Constant *c) {
  auto it = ccache.find(c);
  if (it != ccache.end()) return it->second;
  Val r;
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) r = bigConst(ci->getValue());
  else if (auto *cf = dyn_cast<ConstantFP>(c)) r = bigConst(cf->getValueAPF().bitcastToAPInt());
  else if (isa<ConstantPointerNull>(c)) r = K(64, 0);
  else if (auto *gv = dyn_cast<GlobalValue>(c)) {
    const GlobalValue *g = gv;
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) g = cast<GlobalValue>(ga->getAliaseeObject());
    auto j = gaddr.find(g);
    if (j == gaddr.end()) { fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); abort(); }
    r = K(64, j->second);
  } else if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    r.agg = std::make_shared<vector<Val>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? (unsigned)t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; ++i) r.agg->push_back(constant(c->getAggregateElement(i)));
  } else if (isa<UndefValue>(c)) r = K(bitw(DL, t), 0);
  else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *gep = cast<GEPOperator>(ce);
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "gep constexpr\n"); abort(); }
      r = constant(cast<Constant>(gep->getPointerOperand())).v + K(64, off.getZExtValue());
      break;
    }
    case Instruction::PtrToInt: r = trunc(zext(constant(ce->getOperand(0)).v, 64), bitw(DL, t)); break;
    case Instruction::IntToPtr: r = zext(constant(ce->getOperand(0)).v, 64); break;
    case Instruction::BitCast: r = constant(ce->getOperand(0)); break;
    case Instruction::Trunc: r = trunc(constant(ce->getOperand(0)).v, bitw(DL, t)); break;
    case Instruction::Add: r = constant(ce->getOperand(0)).v + constant(ce->getOperand(1)).v; break;
    case Instruction::Sub: r = constant(ce->getOperand(0)).v - constant(ce->getOperand(1)).v; break;
    case Instruction::And: r = constant(ce->getOperand(0)).v & constant(ce->getOperand(1)).v; break;
    default: fprintf(stderr, "constexpr %s\n", ce->getOpcodeName()); abort();
    }
  } else { c->print(errs()); fprintf(stderr, " unsupported constant\n"); abort(); }
  ccache[c] = r;
  return r;
}
Val Engine::get(State &s, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constant(c);
  Frame &f = s.th[s.cur].stk.back();
  auto it = f.fi->idx.find(v);
  if (it == f.fi->idx.end()) { return Val(K(64, 0)); } // metadata etc.
  return f.regs[it->second];
}
void Engine::set(State &s, const Value *v, Val x) {
  Frame &f = s.th[s.cur].stk.back();
  f.regs[f.fi->idx[v]] = std::move(x);
}
Val Engine::loadTy(State &s, V addr, Type *t) {
  if (t->isStructTy() || t->isArrayTy()) {
    Val r; r.agg = std::make_shared<vector<Val>>();
    if (auto *st = dyn_cast<StructType>(t)) {
      auto *sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i) r.agg->push_back(loadTy(s, addr + K(64, sl->getElementOffset(i)), st->getElementType(i)));
    } else {
      u64 es = DL->getTypeAllocSize(t->getArrayElementType());
      for (unsigned i = 0; i < t->getArrayNumElements(); ++i) r.agg->push_back(loadTy(s, addr + K(64, i * es), t->getArrayElementType()));
    }
    return r;
  }
  unsigned bw = bitw(DL, t);
  unsigned n = (bw + 7) / 8;
  V x = loadRaw(s, addr, n);
  return Val(trunc(x, bw));
}
void Engine::storeTy(State &s, V addr, Val v, Type *t) {
  if (t->isStructTy()) {
    auto *sl = DL->getStructLayout(cast<StructType>(t));
    for (unsigned i = 0; i < t->getStructNumElements(); ++i) storeTy(s, addr + K(64, sl->getElementOffset(i)), (*v.agg)[i], t->getStructElementType(i));
    return;
  }
  if (t->isArrayTy()) {
    u64 es = DL->getTypeAllocSize(t->getArrayElementType());
    for (unsigned i = 0; i < t->getArrayNumElements(); ++i) storeTy(s, addr + K(64, i * es), (*v.agg)[i], t->getArrayElementType());
    return;
  }
  unsigned bw = bitw(DL, t);
  unsigned n = (bw + 7) / 8;
  storeRaw(s, addr, zext(v.v, n * 8));
}
// A symbolic access that can fault splits the path: the faulting half ends as SEGV.
void Engine::checkAccess(State &s, V a, unsigned n, bool wr) {
  if (a.isC() && (a.c < DYN_LO || a.c >= DYN_HI)) {
    u8 p = staticPerm(s, a.c), q = (a.c % PG + n > PG) ? staticPerm(s, a.c + n - 1) : p;
    u8 need = wr ? 2 : 1;
    if ((p & need) && (q & need)) return;
    char buf[64]; snprintf(buf, 64, "%s of %u at 0x%lx", wr ? "write" : "read", n, (unsigned long)a.c);
    finish(s, "SEGV", buf);
    throw PathEnd();
  }
  u64 key = 0;
  bool single = a.isC() && a.c % PG + n <= PG;
  if (single) {
    key = a.c / PG * 2 + wr;
    if (s.permOk.count(key)) return;
  }
  V b = badAccess(s, a, n, wr);
  if (b.isFalse()) { if (single) s.permOk[key] = 1; return; }
  if (forkOn(s, b)) {
    finish(s, "SEGV", string(wr ? "write" : "read") + " at " + show(a));
    throw PathEnd();
  }
  if (single) s.permOk[key] = 1;
}
void Engine::checkRange(State &s, V a, V len, bool wr) { // len != 0
  if (a.isC() && len.isC() && len.c < 4096 * 64) {
    for (u64 p = a.c / PG; p <= (a.c + len.c - 1) / PG; ++p) {
      u64 lo = p * PG < a.c ? a.c : p * PG;
      checkAccess(s, K(64, lo), 1, wr);
    }
    return;
  }
  if (a.isC() && a.c < DYN_LO) {
    u64 lo, hi;
    bounds(s, len, lo, hi);
    if (hi < (1u << 24)) {
      for (u64 p = a.c / PG; p <= (a.c + hi - 1) / PG; ++p) {
        u64 x = p * PG < a.c ? a.c : p * PG;
        if (x == a.c) checkAccess(s, K(64, x), 1, wr);
        else if (!(staticPerm(s, x) & (wr ? 2 : 1))) {
          if (forkOn(s, ult(K(64, x - a.c), len))) { finish(s, "SEGV", string(wr ? "write" : "read") + " range from " + show(a)); throw PathEnd(); }
        }
      }
      return;
    }
  }
  // for all k < len: accessible(a+k)  <=>  no k with a bad page
  static u64 cnt = 0;
  V k = mkVar("rng!" + std::to_string(cnt++), 64);
  V p = ult(k, len);
  // bounds of a+k need p in the path condition: evaluate on a scratch copy
  State t(s);
  if (ask(t, p, &t.model) != SAT) return;
  addPC(t, p);
  V bad = badAccess(t, a + k, 1, wr);
  if (bad.isFalse()) return;
  ModelP m;
  Res r = solve(t.pc, bad, &m);
  if (r == UNKNOWN) { inconclusive("solver gave up on a range access"); return; }
  if (r == UNSAT) return;
  // a faulting path exists: end it as SEGV, with the witness in its path condition
  State *f = new State(t);
  addPC(*f, bad);
  f->model = m;
  finish(*f, "SEGV", string(wr ? "write" : "read") + " range from " + show(a) + " len " + show(len));
  delete f;
  // survivors: only sound when some survivor exists; approximate by endpoints (stated in DESIGN.md)
  V b2 = badAccess(s, a, 1, wr) | badAccess(s, a + len - K(64, 1), 1, wr);
  V ok = lnot(b2);
  ModelP m2;
  Res r2 = ask(s, ok, &m2);
  if (r2 == SAT && ask(s, s.segvOk) == SAT && !s.segvOk.isFalse()) inconclusive("an allowed fault inside a symbolic range access hides the non-faulting continuation");
  throw PathEnd();
}
void Engine::enter(State &s, int th, Function *F, vector<Val> args) {
  Frame f;
  f.fi = info(F);
  f.regs.resize(f.fi->n);
  Thread &t = s.th[th];
  f.sp0 = t.sp;
  f.big0 = t.big;
  unsigned i = 0;
  for (auto &a : F->args()) { if (i < args.size()) f.regs[f.fi->idx[&a]] = args[i]; ++i; }
  f.nfixed = (unsigned)F->arg_size();
  for (; i < args.size(); ++i) f.va.push_back(args[i]);
  f.bb = &F->getEntryBlock();
  f.it = f.bb->begin();
  t.stk.push_back(std::move(f));
  if (t.stk.size() > 2000) { finish(s, "SEGV", "stack overflow (unbounded recursion)"); throw PathEnd(); }
  if (f.fi->fromRepo) fnCalls[F->getName().str()]++;
}
void Engine::branchTo(State &s, BasicBlock *bb) {
  Frame &f = s.th[s.cur].stk.back();
  BasicBlock *from = f.bb;
  vector<std::pair<PHINode *, Val>> ph;
  for (auto &P : bb->phis()) ph.push_back({&P, get(s, P.getIncomingValueForBlock(from))});
  Frame &g = s.th[s.cur].stk.back();
  for (auto &x : ph) g.regs[g.fi->idx[x.first]] = x.second;
  g.prev = from;
  g.bb = bb;
  g.it = bb->getFirstNonPHI()->getIterator();
  tryAccel(s, bb, from);
}
void Engine::doRet(State &s, Val rv) {
  Thread &t = s.th[s.cur];
  if (s.inAbort && t.stk.back().fi->F->getName() == "harness_abort") { t.stk.pop_back(); finish(s, s.abortKind, s.abortMsg); throw PathEnd(); }
  t.sp = t.stk.back().sp0;
  u64 b0 = t.stk.back().big0;
  if (t.big != b0) {
    auto np = std::make_shared<std::unordered_map<u64, u8>>(*s.bigPerm);
    for (u64 p = b0 / PG; p < t.big / PG; ++p) np->erase(p);
    s.bigPerm = np;
    t.big = b0;
  }
  t.stk.pop_back();
  if (t.stk.empty()) { // thread function finished
    if (s.cur == 0) { advancePhase(s); return; }
    threadExit(s);
    return;
  }
  Frame &f = t.stk.back();
  Instruction *I = &*f.it;
  if (!I->getType()->isVoidTy()) set(s, I, rv);
  if (auto *inv = dyn_cast<InvokeInst>(I)) branchTo(s, inv->getNormalDest());
  else ++f.it;
}

void Engine::step(State &s) {
  Thread &T0 = s.th[s.cur];
  Frame *f = &T0.stk.back();
  Instruction *I = &*f->it;
  s.steps++;
  nInstr++;
  auto next = [&]() { Frame &g = s.th[s.cur].stk.back(); ++g.it; };
  switch (I->getOpcode()) {
  case Instruction::Alloca: {
    auto *ai = cast<AllocaInst>(I);
    u64 sz = DL->getTypeAllocSize(ai->getAllocatedType());
    V n = get(s, ai->getArraySize()).v;
    sz *= concretize(s, n);
    u64 al = std::max<u64>(ai->getAlign().value(), 8);
    Thread &t = s.th[s.cur];
    u64 addr;
    if (sz >= 256) {
      u64 r = (sz + al - 1) / al * al;
      u64 pages = (r + PG - 1) / PG;
      addr = t.big + pages * PG - r;
      auto np = s.bigPerm ? std::make_shared<std::unordered_map<u64, u8>>(*s.bigPerm) : std::make_shared<std::unordered_map<u64, u8>>();
      for (u64 i = 0; i < pages; ++i) (*np)[t.big / PG + i] = P_RW;
      s.bigPerm = np;
      t.big += (pages + 1) * PG;
    } else {
      t.sp = (t.sp + al - 1) / al * al;
      addr = t.sp;
      t.sp += sz;
    }
    set(s, I, K(64, addr));
    next();
    return;
  }
  case Instruction::Load: {
    auto *li = cast<LoadInst>(I);
    V a = resolve(s, get(s, li->getPointerOperand()).v);
    unsigned n = (unsigned)DL->getTypeStoreSize(li->getType());
    checkAccess(s, a, n, false);
    set(s, I, loadTy(s, a, li->getType()));
    next();
    return;
  }
  case Instruction::Store: {
    auto *si = cast<StoreInst>(I);
    V a = resolve(s, get(s, si->getPointerOperand()).v);
    unsigned n = (unsigned)DL->getTypeStoreSize(si->getValueOperand()->getType());
    checkAccess(s, a, n, true);
    storeTy(s, a, get(s, si->getValueOperand()), si->getValueOperand()->getType());
    next();
    return;
  }
  case Instruction::AtomicRMW: {
    auto *r = cast<AtomicRMWInst>(I);
    V a = resolve(s, get(s, r->getPointerOperand()).v);
    V x = get(s, r->getValOperand()).v;
    checkAccess(s, a, x.w / 8, true);
    V o = loadRaw(s, a, x.w / 8), nv;
    switch (r->getOperation()) {
    case AtomicRMWInst::Xchg: nv = x; break;
    case AtomicRMWInst::Add: nv = o + x; break;
    case AtomicRMWInst::Sub: nv = o - x; break;
    case AtomicRMWInst::And: nv = o & x; break;
    case AtomicRMWInst::Or: nv = o | x; break;
    default: inconclusive("atomicrmw"); throw PathEnd();
    }
    storeRaw(s, a, nv);
    set(s, I, o);
    next();
    return;
  }
  case Instruction::AtomicCmpXchg: {
    auto *r = cast<AtomicCmpXchgInst>(I);
    V a = resolve(s, get(s, r->getPointerOperand()).v);
    V c = get(s, r->getCompareOperand()).v, x = get(s, r->getNewValOperand()).v;
    checkAccess(s, a, x.w / 8, true);
    V o = loadRaw(s, a, x.w / 8);
    bool e = forkOn(s, eq(o, c));
    if (e) storeRaw(s, a, x);
    Val rv; rv.agg = std::make_shared<vector<Val>>();
    rv.agg->push_back(o); rv.agg->push_back(KB(e));
    set(s, I, rv);
    next();
    return;
  }
  case Instruction::Fence: next(); return;
  case Instruction::GetElementPtr: {
    auto *g = cast<GetElementPtrInst>(I);
    V a = get(s, g->getPointerOperand()).v;
    for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
      if (StructType *st = gi.getStructTypeOrNull()) {
        unsigned k = (unsigned)cast<ConstantInt>(gi.getOperand())->getZExtValue();
        a = a + K(64, DL->getStructLayout(st)->getElementOffset(k));
      } else {
        V i = sext(get(s, gi.getOperand()).v, 64);
        u64 es = DL->getTypeAllocSize(gi.getIndexedType());
        a = a + bin(MUL, i, K(64, es));
      }
    }
    set(s, I, a);
    next();
    return;
  }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    static const std::map<unsigned, Op> mp = {{Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::And, AND}, {Instruction::Or, OR}, {Instruction::Xor, XOR}, {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}};
    V x = get(s, I->getOperand(0)).v, y = get(s, I->getOperand(1)).v;
    set(s, I, bin(mp.find(I->getOpcode())->second, x, y));
    next();
    return;
  }
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    V x = get(s, I->getOperand(0)).v, y = get(s, I->getOperand(1)).v;
    if (forkOn(s, eq(y, K(y.w, 0)))) { finish(s, "SEGV", "division by zero"); throw PathEnd(); }
    Op op = I->getOpcode() == Instruction::UDiv ? UDIV : I->getOpcode() == Instruction::URem ? UREM : I->getOpcode() == Instruction::SDiv ? SDIV : SREM;
    set(s, I, bin(op, x, y));
    next();
    return;
  }
  case Instruction::ICmp: {
    auto *c = cast<ICmpInst>(I);
    V x = get(s, c->getOperand(0)).v, y = get(s, c->getOperand(1)).v, r;
    switch (c->getPredicate()) {
    case CmpInst::ICMP_EQ: r = eq(x, y); break;
    case CmpInst::ICMP_NE: r = ne(x, y); break;
    case CmpInst::ICMP_ULT: r = ult(x, y); break;
    case CmpInst::ICMP_ULE: r = ule(x, y); break;
    case CmpInst::ICMP_UGT: r = ult(y, x); break;
    case CmpInst::ICMP_UGE: r = ule(y, x); break;
    case CmpInst::ICMP_SLT: r = slt(x, y); break;
    case CmpInst::ICMP_SLE: r = sle(x, y); break;
    case CmpInst::ICMP_SGT: r = slt(y, x); break;
    case CmpInst::ICMP_SGE: r = sle(y, x); break;
    default: abort();
    }
    set(s, I, r);
    next();
    return;
  }
  case Instruction::ZExt: set(s, I, zext(get(s, I->getOperand(0)).v, bitw(DL, I->getType()))); next(); return;
  case Instruction::SExt: set(s, I, sext(get(s, I->getOperand(0)).v, bitw(DL, I->getType()))); next(); return;
  case Instruction::Trunc: set(s, I, trunc(get(s, I->getOperand(0)).v, bitw(DL, I->getType()))); next(); return;
  case Instruction::PtrToInt: case Instruction::IntToPtr: {
    V x = get(s, I->getOperand(0)).v; unsigned w = bitw(DL, I->getType());
    set(s, I, x.w < w ? zext(x, w) : trunc(x, w));
    next();
    return;
  }
  case Instruction::BitCast: case Instruction::Freeze: set(s, I, get(s, I->getOperand(0))); next(); return;
  case Instruction::Select: {
    V c = get(s, I->getOperand(0)).v;
    Val a = get(s, I->getOperand(1)), b = get(s, I->getOperand(2));
    if (c.isC()) set(s, I, c.c ? a : b);
    else if (a.agg) set(s, I, forkOn(s, c) ? a : b);
    else set(s, I, ite(c, a.v, b.v));
    next();
    return;
  }
  case Instruction::ExtractValue: {
    auto *e = cast<ExtractValueInst>(I);
    Val a = get(s, e->getAggregateOperand());
    for (unsigned k : e->indices()) { Val t = (*a.agg)[k]; a = t; }
    set(s, I, a);
    next();
    return;
  }
  case Instruction::InsertValue: {
    auto *e = cast<InsertValueInst>(I);
    Val a = get(s, e->getAggregateOperand());
    Val r; r.agg = std::make_shared<vector<Val>>(*a.agg);
    Val *p = &r;
    vector<unsigned> idx(e->idx_begin(), e->idx_end());
    for (size_t k = 0; k < idx.size(); ++k) {
      p = &(*p->agg)[idx[k]];
      if (k + 1 < idx.size()) p->agg = std::make_shared<vector<Val>>(*p->agg);
    }
    *p = get(s, e->getInsertedValueOperand());
    set(s, I, r);
    next();
    return;
  }
  case Instruction::Br: {
    auto *b = cast<BranchInst>(I);
    if (b->isUnconditional()) { branchTo(s, b->getSuccessor(0)); return; }
    bool t = forkOn(s, get(s, b->getCondition()).v);
    branchTo(s, b->getSuccessor(t ? 0 : 1));
    return;
  }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(I);
    V x = get(s, sw->getCondition()).v;
    for (auto &c : sw->cases())
      if (forkOn(s, eq(x, bigConst(c.getCaseValue()->getValue())))) { branchTo(s, c.getCaseSuccessor()); return; }
    branchTo(s, sw->getDefaultDest());
    return;
  }
  case Instruction::Ret: {
    Val rv;
    if (I->getNumOperands()) rv = get(s, I->getOperand(0));
    doRet(s, rv);
    return;
  }
  case Instruction::Call: case Instruction::Invoke: call(s, *cast<CallBase>(I)); return;
  case Instruction::Resume: {
    unwind(s);
    return;
  }
  case Instruction::LandingPad: landing(s, *cast<LandingPadInst>(I)); next(); return;
  case Instruction::Unreachable: {
    // An infinite loop or UB reached; treat as a crash of the program under test.
    finish(s, "SEGV", "unreachable executed");
    throw PathEnd();
  }
  default: {
    string o; raw_string_ostream os(o); I->print(os);
    inconclusive("unsupported instruction " + o + " at " + where(s));
    throw PathEnd();
  }
  }
}

// ---------------------------------------------------------------- exceptions
static std::map<u64, int> gTypeIds;
static int typeId(u64 t) { auto it = gTypeIds.find(t); if (it != gTypeIds.end()) return it->second; int n = (int)gTypeIds.size() + 1; return gTypeIds[t] = n; }
void Engine::unwind(State &s) {
  Thread &t = s.th[s.cur];
  // the throwing frame is on top; its current instruction is a call/invoke/resume
  bool first = true;
  while (!t.stk.empty()) {
    Frame &f = t.stk.back();
    Instruction *I = &*f.it;
    if (!(first && isa<ResumeInst>(I))) {
      if (auto *inv = dyn_cast<InvokeInst>(I)) {
        auto *lp = inv->getLandingPadInst();
        bool take = lp->isCleanup();
        for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
          if (lp->isCatch(i)) {
            u64 ct = constant(lp->getClause(i)).v.c;
            if (!ct || ct == t.exType) take = true;
          } else {
            Val arr = constant(lp->getClause(i));
            bool in = false;
            for (auto &x : *arr.agg) if (x.v.c == t.exType || x.v.c == 0) in = true;
            if (!in) take = true;
          }
        }
        if (take) { branchTo(s, inv->getUnwindDest()); return; }
      } else if (auto *cb = dyn_cast<CallBase>(I)) {
        if (cb->doesNotThrow()) { finish(s, "TERMINATE", "exception escapes a nothrow call"); throw PathEnd(); }
      }
    }
    first = false;
    if (f.fi->F->doesNotThrow()) { finish(s, "TERMINATE", "exception escapes nothrow function " + f.fi->F->getName().str()); throw PathEnd(); }
    t.sp = f.sp0;
    t.stk.pop_back();
  }
  // nothing left: uncaught
  finish(s, "TERMINATE", "uncaught exception");
  throw PathEnd();
}
void Engine::landing(State &s, LandingPadInst &lp) {
  Thread &t = s.th[s.cur];
  int sel = 0;
  for (unsigned i = 0; i < lp.getNumClauses() && !sel; ++i) {
    if (lp.isCatch(i)) {
      u64 ct = constant(lp.getClause(i)).v.c;
      if (!ct || ct == t.exType) sel = typeId(ct ? ct : 0);
    } else {
      Val arr = constant(lp.getClause(i));
      bool in = false;
      for (auto &x : *arr.agg) if (x.v.c == t.exType || x.v.c == 0) in = true;
      if (!in) sel = -1;
    }
  }
  Val r; r.agg = std::make_shared<vector<Val>>();
  r.agg->push_back(K(64, t.exObj));
  r.agg->push_back(K(32, (u64)(int64_t)sel));
  set(s, &lp, r);
}
int engineTypeId(u64 t) { return typeId(t); }
