#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <cstdio>
#include <cstring>
#include <fstream>
using namespace llvm;
using std::string;
using std::vector;
int engineTypeId(u64 t);
static u64 gErrno = 0x10000;

string Engine::cstr(State &s, u64 a) {
  string r;
  for (; r.size() < 4096; ++a) {
    V b = readByte(s, s.mem, K(64, a));
    if (!b.isC()) { r += '?'; continue; }
    if (!b.c) break;
    r += (char)b.c;
  }
  return r;
}
V Engine::getSym(State &s, const string &name, unsigned w) {
  for (auto &x : s.syms) if (x.name == name) return x.v;
  Sym y; y.name = name; y.v = mkVar(name, w);
  s.syms.push_back(y);
  return y.v;
}
// ---------------------------------------------------------------- reporting
void Engine::writeReplay(State &s, ModelP m, const string &file, const string &expect, const string &msg) {
  std::ofstream o(file);
  o << "harness " << harness << "\n";
  for (auto &p : params) o << "param " << p.first << " " << p.second << "\n";
  for (auto &x : s.syms) o << "sym " << x.name << " " << evalIn(m, x.v) << "\n";
  for (size_t i = 0; i < s.mapBases.size(); ++i) o << "map " << i << " " << evalIn(m, s.mapBases[i]) << "\n";
  for (auto &x : s.sched) o << "sched " << x.first << " " << x.second << "\n";
  for (auto &x : s.trace) o << "trace " << x.first << " " << evalIn(m, x.second) << "\n";
  o << "expect " << expect << "\n";
  string q = msg;
  for (auto &c : q) if (c == '\n') c = ' ';
  o << "msg " << q << "\n";
}
void Engine::violation(State &s, ModelP m, const string &kind, const string &msg) {
  nViol++;
  outcomes["violation:" + kind]++;
  if (violFiles.size() >= maxViol) return;
  string f = replayDir + "/" + harness + "-viol" + std::to_string(violFiles.size()) + ".replay";
  writeReplay(s, m, f, kind, msg + " | at " + where(s));
  violFiles.push_back(f);
  fprintf(stderr, "[sym] counterexample (%s): %s | %s\n", kind.c_str(), msg.c_str(), where(s).c_str());
}
void Engine::finish(State &s, const string &kind, const string &detail) {
  nPaths++;
  outcomes[kind]++;
  if (s.mem.events.size() > maxEvents) maxEvents = s.mem.events.size();
  V ok = KB(true);
  if (kind == "ABORT" || kind == "TERMINATE") ok = s.abortOk;
  else if (kind == "SEGV") ok = s.segvOk;
  else if (kind == "EXIT") ok = s.exitOk;
  else if (kind == "DEADLOCK") ok = KB(false);
  if (kind != "DONE") {
    nAsserts++;
    assertNames["no unexpected " + kind]++;
    ModelP m;
    Res r = ask(s, lnot(ok), &m);
    if (!lnot(ok).isC()) nAssertQ++;
    if (r == SAT) { violation(s, m, kind, "unexpected " + kind + ": " + detail); return; }
    if (r == UNKNOWN) inconclusive("solver gave up on an outcome condition");
  }
  // keep a sample of path witnesses to run on the natively compiled code
  u64 h = nPaths;
  if (witFiles.size() < maxWitness && (h <= maxWitness / 2 || h % 7 == 0)) {
    string f = replayDir + "/" + harness + "-wit" + std::to_string(witFiles.size()) + ".replay";
    writeReplay(s, s.model, f, kind, detail);
    witFiles.push_back(f);
  }
}
// ---------------------------------------------------------------- scheduling
// true: another thread (or a later revisit) runs instead of the current instruction
bool Engine::schedPoint(State &s) {
  int live = 0;
  for (auto &t : s.th) if (t.st != T_DONE && t.st != T_JOIN) live++;
  Thread &t = s.th[s.cur];
  if (t.st == T_JOIN || s.cur == 0) { return false; }
  if (t.schedPassed) { t.schedPassed = false; return false; }
  if (live < 2) return false;
  u64 pt = s.schedPoints++;
  if (s.preemptLeft) {
    for (size_t i = 1; i < s.th.size(); ++i) {
      if ((int)i == s.cur || s.th[i].st != T_RUN) continue;
      State *o = new State(s);
      nForks++;
      o->preemptLeft--;
      o->sched.push_back({pt, (int)i});
      o->th[o->cur].schedPassed = true;
      o->cur = (int)i;
      work.push_back(o);
    }
  }
  return false;
}
void Engine::pickNext(State &s, bool voluntary) {
  // current thread cannot continue: fork over all runnable ones (costs no preemption)
  vector<int> r;
  for (size_t i = 1; i < s.th.size(); ++i) if (s.th[i].st == T_RUN) r.push_back((int)i);
  if (r.empty()) {
    bool all = true;
    for (size_t i = 1; i < s.th.size(); ++i) if (s.th[i].st != T_DONE) all = false;
    if (all) { s.cur = 0; s.th[0].st = T_RUN; return; }
    finish(s, "DEADLOCK", "no thread can run");
    throw PathEnd();
  }
  u64 pt = s.schedPoints++;
  for (size_t k = 1; k < r.size(); ++k) {
    State *o = new State(s);
    nForks++;
    o->sched.push_back({pt, r[k]});
    o->cur = r[k];
    work.push_back(o);
  }
  s.sched.push_back({pt, r[0]});
  s.cur = r[0];
}
bool Engine::threadExit(State &s) {
  s.th[s.cur].st = T_DONE;
  pickNext(s, true);
  return true;
}
// ---------------------------------------------------------------- calls
static const std::set<string> schedFns = {"pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "mprotect", "mmap", "munmap", "h_yield", "h_sched_point", "sem_wait", "sem_post", "sem_trywait", "pthread_spin_lock", "pthread_spin_trylock", "pthread_spin_unlock"};

void Engine::call(State &s, CallBase &cb) {
  auto cont = [&]() {
    Frame &f = s.th[s.cur].stk.back();
    if (auto *inv = dyn_cast<InvokeInst>(&cb)) branchTo(s, inv->getNormalDest()); else ++f.it;
  };
  if (cb.isInlineAsm()) {
    // compiler barriers and pause hints have no effect on sequentially consistent memory
    auto *ia = cast<InlineAsm>(cb.getCalledOperand());
    string as = ia->getAsmString();
    if (as.empty() || as.find("pause") != string::npos || as == "nop") { if (!cb.getType()->isVoidTy()) set(s, &cb, K(64, 0)); cont(); return; }
    inconclusive("inline asm: " + as);
    throw PathEnd();
  }
  Function *F = cb.getCalledFunction();
  if (!F) {
    V p = get(s, cb.getCalledOperand()).v;
    u64 a = concretize(s, p);
    auto it = faddr.find(a);
    if (it == faddr.end()) { finish(s, "SEGV", "call through a bad function pointer"); throw PathEnd(); }
    F = it->second;
  }
  vector<Val> args;
  string n = F->getName().str();
  if (F->isIntrinsic()) {
    auto id = F->getIntrinsicID();
    switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_assign: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
    case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch:
    case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::vaend:
      if (!cb.getType()->isVoidTy()) set(s, &cb, K(64, 0));
      cont();
      return;
    default: break;
    }
    for (unsigned i = 0; i < cb.arg_size(); ++i) args.push_back(get(s, cb.getArgOperand(i)));
    V a = args.size() > 0 ? args[0].v : V(), b = args.size() > 1 ? args[1].v : V(), c = args.size() > 2 ? args[2].v : V();
    auto pair = [&](V x, V y) { Val r; r.agg = std::make_shared<vector<Val>>(); r.agg->push_back(x); r.agg->push_back(y); set(s, &cb, r); };
    switch (id) {
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      V len = zext(c, 64);
      if (forkOn(s, eq(len, K(64, 0)))) { cont(); return; }
      a = resolve(s, a); len = resolve(s, len);
      checkRange(s, a, len, true);
      memFill(s, a, b, len);
      cont();
      return;
    }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      V len = zext(c, 64);
      if (forkOn(s, eq(len, K(64, 0)))) { cont(); return; }
      a = resolve(s, a); b = resolve(s, b); len = resolve(s, len);
      checkRange(s, b, len, false);
      checkRange(s, a, len, true);
      memCopy(s, a, b, len);
      cont();
      return;
    }
    case Intrinsic::umul_with_overflow: {
      V x = zext(a, a.w * 2), y = zext(b, a.w * 2);
      V p = bin(MUL, x, y);
      pair(trunc(p, a.w), ne(extract(p, 2 * a.w - 1, a.w), K(a.w, 0)));
      cont(); return;
    }
    case Intrinsic::smul_with_overflow: {
      V p = bin(MUL, sext(a, a.w * 2), sext(b, a.w * 2));
      pair(trunc(p, a.w), ne(p, sext(trunc(p, a.w), 2 * a.w)));
      cont(); return;
    }
    case Intrinsic::uadd_with_overflow: { V r = a + b; pair(r, ult(r, a)); cont(); return; }
    case Intrinsic::usub_with_overflow: pair(a - b, ult(a, b)); cont(); return;
    case Intrinsic::sadd_with_overflow: { V r = a + b; V z = K(a.w, 0); pair(r, ne(slt(r, a), slt(b, z))); cont(); return; }
    case Intrinsic::ssub_with_overflow: { V r = a - b; pair(r, ne(slt(r, a), slt(K(a.w, 0), b))); cont(); return; }
    case Intrinsic::umax: set(s, &cb, ite(ult(a, b), b, a)); cont(); return;
    case Intrinsic::umin: set(s, &cb, ite(ult(a, b), a, b)); cont(); return;
    case Intrinsic::smax: set(s, &cb, ite(slt(a, b), b, a)); cont(); return;
    case Intrinsic::smin: set(s, &cb, ite(slt(a, b), a, b)); cont(); return;
    case Intrinsic::abs: set(s, &cb, ite(slt(a, K(a.w, 0)), K(a.w, 0) - a, a)); cont(); return;
    case Intrinsic::usub_sat: set(s, &cb, ite(ult(a, b), K(a.w, 0), a - b)); cont(); return;
    case Intrinsic::uadd_sat: set(s, &cb, ite(ult(a + b, a), K(a.w, ~0ull), a + b)); cont(); return;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: set(s, &cb, a); cont(); return;
    case Intrinsic::is_constant: set(s, &cb, KB(false)); cont(); return;
    case Intrinsic::objectsize: set(s, &cb, K(64, ~0ull)); cont(); return;
    case Intrinsic::bswap: { V r = extract(a, 7, 0); for (unsigned i = 8; i < a.w; i += 8) r = concat(r, extract(a, i + 7, i)); set(s, &cb, r); cont(); return; }
    case Intrinsic::fshl: { V sh = bin(UREM, c, K(a.w, a.w)); V r = ite(eq(sh, K(a.w, 0)), a, bin(SHL, a, sh) | bin(LSHR, b, K(a.w, a.w) - sh)); set(s, &cb, r); cont(); return; }
    case Intrinsic::fshr: { V sh = bin(UREM, c, K(a.w, a.w)); V r = ite(eq(sh, K(a.w, 0)), b, bin(SHL, a, K(a.w, a.w) - sh) | bin(LSHR, b, sh)); set(s, &cb, r); cont(); return; }
    case Intrinsic::ctpop: { V r = K(a.w, 0); for (unsigned i = 0; i < a.w; ++i) r = r + zext(extract(a, i, i), a.w); set(s, &cb, r); cont(); return; }
    case Intrinsic::cttz: { V r = K(a.w, a.w); for (unsigned i = a.w; i-- > 0;) r = ite(extract(a, i, i), K(a.w, i), r); set(s, &cb, r); cont(); return; }
    case Intrinsic::ctlz: { V r = K(a.w, a.w); for (unsigned i = 0; i < a.w; ++i) r = ite(extract(a, i, i), K(a.w, a.w - 1 - i), r); set(s, &cb, r); cont(); return; }
    case Intrinsic::load_relative: set(s, &cb, a + sext(loadRaw(s, a + zext(b, 64), 4), 64)); cont(); return;
    case Intrinsic::stacksave: set(s, &cb, K(64, s.th[s.cur].sp)); cont(); return;
    case Intrinsic::stackrestore: cont(); return;
    case Intrinsic::eh_typeid_for: set(s, &cb, K(32, (u64)engineTypeId(a.c))); cont(); return;
    case Intrinsic::trap: case Intrinsic::debugtrap: finish(s, "ABORT", "trap"); throw PathEnd();
    case Intrinsic::vastart: {
      // x86-64 va_list: gp_offset, fp_offset, overflow_arg_area, reg_save_area
      Frame &f = s.th[s.cur].stk.back();
      Thread &t = s.th[s.cur];
      u64 nreg = std::min<u64>(f.nfixed, 6);
      t.sp = (t.sp + 15) / 16 * 16;
      u64 save = t.sp; t.sp += 176;
      u64 over = t.sp; t.sp += 8 * (f.va.size() + 1);
      size_t k = 0;
      for (u64 r = nreg; r < 6 && k < f.va.size(); ++r, ++k) storeRaw(s, K(64, save + 8 * r), zext(f.va[k].v, 64));
      for (u64 o = over; k < f.va.size(); ++k, o += 8) storeRaw(s, K(64, o), zext(f.va[k].v, 64));
      storeRaw(s, a, K(32, 8 * nreg));
      storeRaw(s, a + K(64, 4), K(32, 48));
      storeRaw(s, a + K(64, 8), K(64, over));
      storeRaw(s, a + K(64, 16), K(64, save));
      cont(); return;
    }
    case Intrinsic::vacopy: { for (int i = 0; i < 3; ++i) storeRaw(s, a + K(64, 8 * i), loadRaw(s, b + K(64, 8 * i), 8)); cont(); return; }
    default:
      inconclusive("unsupported intrinsic " + n + " at " + where(s));
      throw PathEnd();
    }
  }
  if (s.th.size() > 1 && schedFns.count(n)) { if (schedPoint(s)) return; }
  for (unsigned i = 0; i < cb.arg_size(); ++i) args.push_back(get(s, cb.getArgOperand(i)));
  Val ret;
  bool noret = false;
  if (external(s, cb, n, args, ret, noret)) {
    if (noret) return;
    if (!cb.getType()->isVoidTy()) {
      unsigned w = cb.getType()->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(cb.getType()).getFixedValue();
      V r = ret.v;
      if (r.w == 0) r = K(w, 0);
      if (r.w > w) r = trunc(r, w); else if (r.w < w) r = zext(r, w);
      set(s, &cb, r);
    }
    cont();
    return;
  }
  if (F->isDeclaration()) {
    inconclusive("call of unmodelled function " + n + " at " + where(s));
    throw PathEnd();
  }
  enter(s, s.cur, F, args);
}

static V roundUp(V x) { return (x + K(64, 4095)) & K(64, ~4095ull); }

bool Engine::external(State &s, CallBase &cb, const string &n, vector<Val> &a, Val &ret, bool &noret) {
  auto A = [&](unsigned i) { return i < a.size() ? a[i].v : K(64, 0); };
  auto setErr = [&](int e) { storeRaw(s, K(64, gErrno), K(32, (u64)e)); };
  if (n[0] == 'h' && n[1] == '_') {
    if (n == "h_sym") {
      string nm = cstr(s, A(0).c);
      unsigned bits = (unsigned)A(1).c;
      int k = 0; string u = nm;
      bool clash = true;
      while (clash) { clash = false; for (auto &x : s.syms) if (x.name == u) { clash = true; u = nm + "#" + std::to_string(++k); break; } }
      V v;
      if (A(2).isC() && A(3).isC() && bits > 1 && A(2).c <= A(3).c && A(3).c <= maskw(bits)) { Sym y; y.name = u; y.v = v = mkVarIn(u, bits, A(2).c, A(3).c); s.syms.push_back(y); }
      else v = getSym(s, u, bits);
      V x = zext(v, 64);
      V c = ule(A(2), x) & ule(x, A(3));
      if (v.id && A(2).isC() && A(3).isC()) c = rawIn(v, A(2).c, A(3).c);
      if (bits == 64 && A(2).isC() && A(3).isC() && A(2).c == 0 && A(3).c == ~0ull) c = KB(true);
      if (!c.isTrue()) {
        ModelP m;
        Res r = ask(s, c, &m);
        if (r != SAT) { if (r == UNKNOWN) inconclusive("solver gave up on an input range"); else { nPaths++; outcomes["INFEASIBLE"]++; } throw PathEnd(); }
        addPC(s, c);
        s.model = m;
      }
      ret = x;
      return true;
    }
    if (n == "h_get") { string nm = cstr(s, A(0).c); for (auto &x : s.syms) if (x.name == nm) { ret = resolve(s, zext(x.v, 64)); return true; } inconclusive("h_get of an unknown input " + nm); throw PathEnd(); }
    if (n == "h_conc") { ret = K(64, concretize(s, zext(A(0), 64))); return true; }
    if (n == "h_assume") {
      V c = ne(A(0), K(A(0).w, 0));
      ModelP m;
      Res r = ask(s, c, &m);
      if (r == UNKNOWN) inconclusive("solver gave up on an assumption");
      if (r != SAT) { nPaths++; outcomes["INFEASIBLE"]++; throw PathEnd(); }
      addPC(s, c);
      s.model = m;
      return true;
    }
    if (n == "h_assert") {
      V c = ne(A(0), K(A(0).w, 0));
      string msg = cstr(s, A(1).c);
      nAsserts++;
      assertNames[msg]++;
      if (c.isTrue()) return true;
      nAssertQ++;
      ModelP m;
      Res r = ask(s, lnot(c), &m);
      if (r == UNKNOWN) { inconclusive("solver gave up on assertion: " + msg); return true; }
      if (r == SAT) {
        violation(s, m, "ASSERT", msg);
        Res q = ask(s, c, &m);
        if (q != SAT) { nPaths++; throw PathEnd(); }
        addPC(s, c);
        s.model = m;
      }
      return true;
    }
    if (n == "h_perm") { ret = zext(permAt(s, resolve(s, A(0))), 32); return true; }
    if (n == "h_load") { ret = zext(readByte(s, s.mem, resolve(s, A(0))), 32); return true; }
    if (n == "h_abort_ok") { s.abortOk = ne(A(0), K(A(0).w, 0)); return true; }
    if (n == "h_segv_ok") { s.segvOk = ne(A(0), K(A(0).w, 0)); return true; }
    if (n == "h_exit_ok") { s.exitOk = ne(A(0), K(A(0).w, 0)); return true; }
    if (n == "h_reach") { reached[cstr(s, A(0).c)]++; return true; }
    if (n == "h_trace") { s.trace.push_back({cstr(s, A(0).c), zext(A(1), 64)}); return true; }
    if (n == "h_param") { string k = cstr(s, A(0).c); auto it = params.find(k); ret = it == params.end() ? A(1) : K(64, it->second); return true; }
    if (n == "h_os_fail") { s.failBudget = (unsigned)A(0).c; s.failSticky = (int)A(1).c; return true; }
    if (n == "h_mapped") { ret = s.mapped; return true; }
    if (n == "h_mprot_fail") { s.failMprot = (unsigned)A(0).c; return true; }
    if (n == "h_munmap_fail") { s.failMunmap = (unsigned)A(0).c; return true; }
    if (n == "h_map_skew") { s.mapSkew = A(0); return true; }
    if (n == "h_sig_ignore") { s.sigIgn = A(0).c; return true; }
    if (n == "h_real_print") { s.realPrint = A(0).c; return true; }
    if (n == "h_run_dtors") { s.runDtors = true; return true; }
    if (n == "h_no_ctors") { s.noCtors = true; return true; }
    if (n == "h_native") { ret = K(32, 0); return true; }
    if (n == "h_yield" || n == "h_sched_point") return true;
    if (n == "h_nmaps") { ret = K(64, s.nmap); return true; }
    if (n == "h_setenv" || n == "h_setenv_num" || n == "h_setenv_bytes") {
      string k = cstr(s, A(0).c) + "=";
      u64 p = s.heapTop;
      s.heapTop += 8192;
      for (size_t i = 0; i < k.size(); ++i) writeByteC(s, p + i, K(8, (u8)k[i]), 0);
      u64 q = p + k.size();
      if (n == "h_setenv") {
        string v = cstr(s, A(1).c);
        for (size_t i = 0; i <= v.size(); ++i) writeByteC(s, q + i, K(8, i < v.size() ? (u8)v[i] : 0), 0);
      } else if (n == "h_setenv_num") {
        writeByteC(s, q, K(8, '1'), 0); writeByteC(s, q + 1, K(8, 0), 0);
        s.tokens[q] = zext(A(1), 64);
      } else {
        u64 cnt = A(2).c;
        for (u64 i = 0; i < cnt; ++i) writeByteC(s, q + i, readByte(s, s.mem, K(64, A(1).c + i)), 0);
        writeByteC(s, q + cnt, K(8, 0), 0);
      }
      s.envp.push_back(p);
      return true;
    }
    if (n == "h_spawn") {
      Thread t;
      int id = (int)s.th.size();
      t.sp = STK_LO + id * STK_STRIDE + 0x1000;
      t.big = STK_LO + id * STK_STRIDE + BIG_OFF;
      s.th.push_back(t);
      auto it = faddr.find(A(0).c);
      if (it == faddr.end()) { inconclusive("h_spawn of a non-function"); throw PathEnd(); }
      enter(s, id, it->second, {Val(A(1))});
      return true;
    }
    if (n == "h_preempt") { s.preemptLeft = (unsigned)A(0).c; return true; }
    if (n == "h_join") { // main waits for everybody
      bool all = true;
      for (size_t i = 1; i < s.th.size(); ++i) if (s.th[i].st != T_DONE) all = false;
      if (all) { s.th[0].st = T_RUN; return true; }
      s.th[0].st = T_JOIN;
      pickNext(s, true);
      noret = true; // h_join is executed again when everybody is done
      return true;
    }
    if (n == "h_self") { ret = K(32, (u64)s.cur); return true; }
    return false;
  }
  if (!s.realPrint) {
    if (n == "DUMA_Abort") {
      string msg = cstr(s, A(0).isC() ? A(0).c : 0);
      auto *f = M->getFunction("harness_abort");
      if (!f || f->isDeclaration() || s.inAbort) { finish(s, "ABORT", msg); throw PathEnd(); }
      s.inAbort = true; // the harness looks at the state in which the program was stopped
      s.abortMsg = msg;
      enter(s, s.cur, f, {});
      noret = true;
      return true;
    }
    if (n == "DUMA_Print") return true;
  }
  if (n == "atoi" || n == "atol" || n == "atoll" || n == "strtol" || n == "strtoll" || n == "strtoul" || n == "strtoull") {
    V p = resolve(s, A(0));
    if (p.isC()) {
      auto it = s.tokens.find(p.c);
      if (it != s.tokens.end()) {
        if (n.substr(0, 3) == "str") { V e = A(1); if (!e.isFalse() && !(e.isC() && e.c == 0)) storeRaw(s, e, K(64, p.c + 1)); }
        ret = n == "atoi" ? trunc(it->second, 32) : it->second;
        return true;
      }
    }
    return false;
  }
  if (n == "mmap") {
    V len = A(1);
    if (!A(0).isFalse() && !(A(0).isC() && A(0).c == 0)) { /* hint address: ignored, as the kernel may */ }
    if (forkOn(s, eq(len, K(64, 0)))) { setErr(22); ret = K(64, ~0ull); return true; }
    // a request the address space cannot hold is always refused
    if (forkOn(s, ult(K(64, 1ull << 40), len))) { s.nmap++; s.mapBases.push_back(K(64, ~0ull)); setErr(12); ret = K(64, ~0ull); return true; }
    if (s.failBudget) {
      if (s.failSticky == 2 || forkOn(s, getSym(s, "mmapfail_" + std::to_string(s.nmap), 1))) {
        if (!s.failSticky) s.failBudget--;
        s.nmap++; s.mapBases.push_back(K(64, ~0ull)); setErr(12); ret = K(64, ~0ull);
        return true;
      }
    }
    u64 lo, hi;
    bounds(s, len, lo, hi);
    V base = K(64, s.nextMap) + bin(SHL, s.mapSkew, K(64, 12));
    u64 sk = 0, sk2;
    bounds(s, s.mapSkew, sk2, sk);
    u64 gap = 16 * PG;
    s.nextMap += (hi + PG - 1) / PG * PG + sk * PG + gap;
    s.nextMap = (s.nextMap + 0xFFFFF) & ~0xFFFFFull; // 1 MiB grid: the skew alone decides the alignment
    if (s.nextMap > DYN_HI) { inconclusive("address space of the model exhausted"); throw PathEnd(); }
    u8 prot = A(2).c == 0 ? P_NONE : (A(2).c & 2) ? P_RW : P_R;
    addPerm(s, base, roundUp(len), prot);
    s.nmap++;
    s.mapBases.push_back(base);
    s.mapped = s.mapped + roundUp(len);
    ret = base;
    return true;
  }
  if (n == "mprotect" || n == "munmap") {
    V p = resolve(s, A(0)), len = resolve(s, A(1));
    if (forkOn(s, ne(p & K(64, 4095), K(64, 0)))) { setErr(22); ret = K(32, ~0ull); return true; }
    if (forkOn(s, eq(len, K(64, 0)))) { if (n == "munmap") { setErr(22); ret = K(32, ~0ull); } else ret = K(32, 0); return true; }
    V rl = resolve(s, roundUp(len));
    if (forkOn(s, eq(rl, K(64, 0)) | ult(p + rl, p))) { setErr(12); ret = K(32, ~0ull); return true; }
    if (n == "munmap") {
      if (s.failMunmap) {
        V f = getSym(s, "munmapfail_" + std::to_string(s.nunmap), 1);
        if (forkOn(s, f)) { s.failMunmap--; s.nunmap++; setErr(12); ret = K(32, ~0ull); return true; }
      }
      s.nunmap++;
      addPerm(s, p, rl, P_UNMAPPED);
      s.mapped = s.mapped - rl;
      ret = K(32, 0);
      return true;
    }
    if (s.failMprot) {
      V f = getSym(s, "mprotfail_" + std::to_string(s.nprotF), 1);
      if (forkOn(s, f)) { s.nprotF++; s.failMprot--; setErr(12); ret = K(32, ~0ull); return true; }
      s.nprotF++;
    }
    // ENOMEM when the range is not completely mapped
    bool conc = p.isC() && rl.isC() && rl.c <= 2048 * PG;
    if (conc) {
      for (u64 q = p.c; q < p.c + rl.c; q += PG) {
        V pr = permAt(s, K(64, q));
        if (forkOn(s, eq(pr, K(8, P_UNMAPPED)))) { setErr(12); ret = K(32, ~0ull); return true; }
      }
    } else {
      static u64 cnt = 0;
      V k = mkVar("mp!" + std::to_string(cnt++), 64);
      V in = ult(k, rl);
      State t(s);
      if (ask(t, in, &t.model) == SAT) {
        addPC(t, in);
        V bad = eq(permAt(t, p + k), K(8, P_UNMAPPED));
        ModelP m;
        Res r = bad.isFalse() ? UNSAT : solve(t.pc, bad, &m);
        if (r == UNKNOWN) { inconclusive("solver gave up on mprotect"); }
        if (r == SAT) {
          // split on the end point: the last page of the range mapped or not
          V lastBad = eq(permAt(s, p + rl - K(64, 1)), K(8, P_UNMAPPED)) | eq(permAt(s, p), K(8, P_UNMAPPED));
          if (forkOn(s, lastBad)) { setErr(12); ret = K(32, ~0ull); return true; }
          State t2(s);
          if (ask(t2, in, &t2.model) == SAT) {
            addPC(t2, in);
            if (solve(t2.pc, eq(permAt(t2, p + k), K(8, P_UNMAPPED))) != UNSAT) { inconclusive("mprotect over a hole"); throw PathEnd(); }
          }
        }
      }
    }
    u8 prot = A(2).c == 0 ? P_NONE : (A(2).c & 2) ? P_RW : P_R;
    s.nprot++;
    addPerm(s, p, rl, prot);
    ret = K(32, 0);
    return true;
  }
  if (n == "sysconf") { ret = K(64, 4096); return true; }
  if (n == "getpagesize") { ret = K(32, 4096); return true; }
  if (n == "getpid") { ret = K(32, 4242); return true; }
  bool stop = n == "abort" || n == "__assert_fail" || n == "__builtin_trap", ex = n == "_exit" || n == "_Exit";
  if (n == "kill" || n == "raise") {
    // only a fatal signal to this very process ends it, and only SIGKILL when signals are ignored
    u64 sig = A(n == "kill" ? 1 : 0).isC() ? A(n == "kill" ? 1 : 0).c : 0;
    bool own = n == "raise" || (A(0).isC() && (A(0).c == 4242 || A(0).c == 0));
    bool fatal = sig > 0 && sig < 16 && sig != 12 && sig != 10;
    if (!own || !fatal || (s.sigIgn && sig != 9)) { ret = K(32, 0); return true; }
    stop = true;
  }
  if (stop || ex) {
    string kind = ex ? "EXIT" : "ABORT";
    auto *f = M->getFunction("harness_abort");
    if (!s.realPrint || !f || f->isDeclaration() || s.inAbort) { finish(s, kind, ex ? n + " " + show(A(0)) : n); throw PathEnd(); }
    s.inAbort = true;
    s.abortMsg = n;
    s.abortKind = kind;
    enter(s, s.cur, f, {});
    noret = true;
    return true;
  }
  if (n == "exit") { finish(s, "EXIT", n + " " + show(A(0))); throw PathEnd(); }
  if (n == "__errno_location") { ret = K(64, gErrno); return true; }
  if (n == "atexit") { s.atexits.push_back(A(0).c); ret = K(32, 0); return true; }
  if (n == "__cxa_atexit") { ret = K(32, 0); return true; }
  if (n == "pthread_self") { ret = K(64, 0x7000 + (u64)s.cur); return true; }
  if (n == "pthread_equal") { ret = zext(eq(A(0), A(1)), 32); return true; }
  if (n == "pthread_mutex_init" || n == "pthread_spin_init") { s.mutexOwner.erase(A(0).c); return ret = K(32, 0), true; }
  if (n == "pthread_mutexattr_init" || n == "pthread_mutexattr_settype" || n == "pthread_mutex_destroy" || n == "pthread_mutexattr_destroy") { ret = K(32, 0); return true; }
  if (n == "pthread_mutex_trylock" || n == "pthread_spin_trylock") {
    u64 m = A(0).c;
    if (s.mutexOwner.count(m)) { ret = K(32, 16); return true; }
    s.mutexOwner[m] = s.cur;
    ret = K(32, 0);
    return true;
  }
  if (n == "pthread_mutex_lock" || n == "pthread_spin_lock") {
    u64 m = A(0).c;
    if (!s.mutexOwner.count(m)) { s.mutexOwner[m] = s.cur; ret = K(32, 0); return true; }
    if (s.cur == 0 || (s.th.size() == 1)) { finish(s, "DEADLOCK", "mutex already held"); throw PathEnd(); }
    s.th[s.cur].st = T_BLOCK_MUTEX;
    s.th[s.cur].waitMutex = m;
    s.th[s.cur].schedPassed = true; // re-executed on wake-up without another choice
    pickNext(s, false);
    noret = true;
    return true;
  }
  if (n == "pthread_mutex_unlock" || n == "pthread_spin_unlock") {
    u64 m = A(0).c;
    auto it = s.mutexOwner.find(m);
    if (it == s.mutexOwner.end() || it->second != s.cur) {
      // unlocking a default mutex one does not hold: the kernel object is simply released
      nAsserts++;
      finish(s, "DEADLOCK", "unlock of a mutex the thread does not hold");
      throw PathEnd();
    }
    s.mutexOwner.erase(it);
    for (auto &t : s.th) if (t.st == T_BLOCK_MUTEX && t.waitMutex == m) t.st = T_RUN;
    ret = K(32, 0);
    return true;
  }
  if (n == "__cxa_allocate_exception") { ret = K(64, s.heapTop); s.heapTop += 128; return true; }
  if (n == "__cxa_free_exception") return true;
  if (n == "__cxa_throw") { s.th[s.cur].exObj = A(0).c; s.th[s.cur].exType = A(1).c; unwind(s); noret = true; return true; }
  if (n == "__cxa_rethrow") { unwind(s); noret = true; return true; }
  if (n == "__cxa_begin_catch") { ret = A(0); return true; }
  if (n == "__cxa_end_catch") return true;
  if (n == "__cxa_call_unexpected" || n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "__cxa_call_terminate") { finish(s, "TERMINATE", n); throw PathEnd(); }
  if (n == "_ZNSt9bad_allocC1Ev" || n == "_ZNSt9bad_allocD1Ev" || n == "_ZNSt9exceptionD2Ev" || n == "_ZNSt9bad_allocD2Ev" || n == "_ZNSt9bad_allocC2Ev") return true;
  return false;
}
