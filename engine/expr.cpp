#include "expr.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <unordered_map>
#include <z3++.h>

static z3::context *C;
static std::vector<z3::expr> *T;
static std::unordered_map<unsigned, u32> *byAst;
struct Model { z3::model m; Model(z3::model x) : m(x) {} };
struct Rg { u64 lo, hi; };
static std::vector<Rg> *R; // unsigned enclosing interval per expression (w<=64)
SolverStats SS;
unsigned gTimeoutMs = 800;
double gDeadline = 0;
static void init() {
  if (C) return;
  C = new z3::context();
  T = new std::vector<z3::expr>();
  byAst = new std::unordered_map<unsigned, u32>();
  T->push_back(C->bool_val(true));
  R = new std::vector<Rg>();
  R->push_back({0, 1});
}
u64 numExprs() { return T ? T->size() : 0; }
static V wrap(const z3::expr &e0) {
  z3::expr e = e0.simplify();
  V v;
  if (e.is_bool()) {
    v.w = 1;
    if (e.is_true()) { v.c = 1; return v; }
    if (e.is_false()) { v.c = 0; return v; }
  } else {
    v.w = (u16)e.get_sort().bv_size();
    if (v.w <= 64 && e.is_numeral()) {
      uint64_t x;
      if (Z3_get_numeral_uint64(*C, e, &x)) { v.c = x; return v; }
    }
  }
  unsigned aid = Z3_get_ast_id(*C, e);
  auto it = byAst->find(aid);
  if (it != byAst->end()) { v.id = it->second; return v; }
  v.id = (u32)T->size();
  T->push_back(e); // kept alive for ever, so the ast id stays unique
  R->push_back({0, maskw(v.w)});
  (*byAst)[aid] = v.id;
  return v;
}
static z3::expr X(V a) {
  init();
  if (a.id) return (*T)[a.id];
  if (a.w == 1) return C->bool_val(a.c != 0);
  return C->bv_val((uint64_t)a.c, a.w);
}
// results of the operations below, so that repeated terms do not go through z3 again
struct MKey { u64 a, b, d, e; bool operator==(const MKey &o) const { return a == o.a && b == o.b && d == o.d && e == o.e; } };
struct MHash { size_t operator()(const MKey &k) const { u64 h = k.a * 0x9e3779b97f4a7c15ull; h = (h ^ h >> 29 ^ k.b) * 0xff51afd7ed558ccdull; h = (h ^ h >> 31 ^ k.d) * 0xc4ceb9fe1a85ec53ull; h = (h ^ h >> 30 ^ k.e) * 0x9e3779b97f4a7c15ull; return h ^ h >> 32; } };
static std::unordered_map<MKey, V, MHash> memo;
template <class F> static V memoize(unsigned op, V a, V b, V c, F f) {
  if (c.isC() && c.w && c.c >> 32) return f();
  MKey k{a.c, b.c, (u64)a.id << 32 | b.id, (u64)op << 58 | (u64)(a.w & 0x3ff) << 48 ^ (u64)(b.w & 0x3ff) << 38 ^ (u64)(c.id ? c.id : c.c * 2 + 1) ^ (c.id ? 1ull << 37 : 0)};
  auto it = memo.find(k);
  if (it != memo.end()) return it->second;
  if (memo.size() > 4000000) memo.clear();
  V r = f();
  memo[k] = r;
  return r;
}
static Rg rg(V a) { if (!a.id) return {a.c, a.c}; return (*R)[a.id]; }
void rangeOf(V a, u64 &lo, u64 &hi) { Rg r = rg(a); lo = r.lo; hi = r.hi; }
// record an enclosing interval; a single value becomes a constant
static V within(V v, Rg r) {
  if (!v.id || v.w > 64) return v;
  Rg &o = (*R)[v.id];
  if (r.lo > o.lo) o.lo = r.lo;
  if (r.hi < o.hi) o.hi = r.hi;
  if (o.lo == o.hi) return K(v.w, o.lo);
  return v;
}
V mkVarIn(const std::string &n, unsigned w, u64 lo, u64 hi) {
  V v = mkVar(n + "@" + std::to_string(lo) + ".." + std::to_string(hi), w);
  if (v.id && w <= 64 && lo <= hi && hi <= maskw(w)) { (*R)[v.id].lo = lo; (*R)[v.id].hi = hi; }
  return v;
}
static Rg rgBin(Op op, Rg x, Rg y, unsigned w) {
  u64 M = maskw(w);
  Rg full{0, M};
  auto pow2up = [](u64 v) { u64 r = v; for (int i = 1; i < 64; i *= 2) r |= r >> i; return r; };
  switch (op) {
  case ADD: {
    unsigned __int128 l = (unsigned __int128)x.lo + y.lo, h = (unsigned __int128)x.hi + y.hi;
    if ((l >> w) != (h >> w)) return full;
    return {(u64)l & M, (u64)h & M};
  }
  case SUB: {
    __int128 l = (__int128)x.lo - y.hi, h = (__int128)x.hi - y.lo;
    if ((l < 0) != (h < 0)) return full;
    return {(u64)l & M, (u64)h & M};
  }
  case MUL: {
    unsigned __int128 l = (unsigned __int128)x.lo * y.lo, h = (unsigned __int128)x.hi * y.hi;
    if (h > M) return full;
    return {(u64)l, (u64)h};
  }
  case UDIV: if (!y.lo) return full; return {x.lo / y.hi, x.hi / y.lo};
  case UREM: if (!y.lo) return full; if (x.hi < y.lo) return x; return {0, y.hi - 1};
  case AND: {
    Rg r{0, x.hi < y.hi ? x.hi : y.hi};
    if (y.lo == y.hi) { // contiguous high mask: monotone
      u64 low = ~y.lo & M;
      if ((low & (low + 1)) == 0) { r.lo = x.lo & y.lo; r.hi = x.hi & y.lo; }
      else if ((y.lo & (y.lo + 1)) == 0 && (x.lo & ~y.lo) == (x.hi & ~y.lo)) { r.lo = x.lo & y.lo; r.hi = x.hi & y.lo; }
    }
    return r;
  }
  case OR: return {x.lo > y.lo ? x.lo : y.lo, pow2up(x.hi | y.hi) & M};
  case XOR: if (y.lo == y.hi && y.lo == M) return {~x.hi & M, ~x.lo & M}; return {0, pow2up(x.hi | y.hi) & M};
  case SHL: if (y.lo != y.hi || y.lo >= w || (x.hi << y.lo >> y.lo) != x.hi || (x.hi << y.lo) > M) return full; return {x.lo << y.lo, x.hi << y.lo};
  case LSHR: if (y.lo != y.hi || y.lo >= w) return {0, x.hi}; return {x.lo >> y.lo, x.hi >> y.lo};
  case ASHR: if (y.lo != y.hi || y.lo >= w || (x.hi >> (w - 1))) return full; return {x.lo >> y.lo, x.hi >> y.lo};
  case SDIV: if (!y.lo || (x.hi >> (w - 1)) || (y.hi >> (w - 1))) return full; return {x.lo / y.hi, x.hi / y.lo};
  case SREM: if (!y.lo || (x.hi >> (w - 1)) || (y.hi >> (w - 1))) return full; if (x.hi < y.lo) return x; return {0, y.hi - 1};
  }
  return full;
}
V mkVar(const std::string &n, unsigned w) {
  init();
  if (w == 1) return wrap(C->bool_const(n.c_str()));
  return wrap(C->bv_const(n.c_str(), w));
}
V mkBig(unsigned w, const std::string &dec) {
  init();
  return wrap(C->bv_val(dec.c_str(), w));
}
static int64_t sx(u64 c, unsigned w) { return w >= 64 ? (int64_t)c : (int64_t)(c << (64 - w)) >> (64 - w); }
static V bin0(Op op, V a, V b);
static std::unordered_map<u32, V> negOf, sextOf; // terms known to be 0 - x, and sign extensions of x
V bin(Op op, V a, V b) {
  bool neg = op == SUB && a.isC() && !a.c && !b.isC() && b.w > 1 && b.w <= 64;
  if (neg) {
    auto n = negOf.find(b.id);
    if (n != negOf.end()) return n->second;
    auto s = sextOf.find(b.id);
    if (s != sextOf.end() && (n = negOf.find(s->second.id)) != negOf.end() && rg(n->second).hi <= 1ull << (n->second.w - 1)) return zext(n->second, b.w);
    V r = memoize(op, a, b, V(), [&] { return within(bin0(op, a, b), rgBin(op, rg(a), rg(b), a.w)); });
    if (r.id) negOf[r.id] = b;
    return r;
  }
  if (a.w == 1 || a.w > 64) return bin0(op, a, b);
  Rg r = rgBin(op, rg(a), rg(b), a.w);
  if (op == AND && a.isC() && !b.isC()) r = rgBin(op, rg(b), rg(a), a.w);
  if (r.lo == r.hi) return K(a.w, r.lo);
  if (a.isC() && b.isC()) return within(bin0(op, a, b), r);
  return memoize(op, a, b, V(), [&] { return within(bin0(op, a, b), r); });
}
static std::unordered_map<u32, std::pair<V, u64>> quot; // terms known to be x / c
static V bin0(Op op, V a, V b) {
  if (a.w > 1 && a.w <= 64 && b.isC() && b.c && !(b.c >> (a.w - 1)) && !a.isC()) {
    if ((op == SDIV || op == SREM) && !(rg(a).hi >> (a.w - 1))) return bin(op == SDIV ? UDIV : UREM, a, b);
    if (op == UDIV && b.c > 1) { // x / c / d = x / (c * d)
      V x = a;
      u64 c = b.c;
      auto q = quot.find(a.id);
      if (q != quot.end()) {
        unsigned __int128 m = (unsigned __int128)q->second.second * b.c;
        if (m > maskw(a.w)) return K(a.w, 0);
        x = q->second.first;
        c = (u64)m;
        if (x.id) return bin(UDIV, x, K(a.w, c));
      }
      V r = wrap(z3::udiv(X(x), X(K(a.w, c))));
      if (r.id && (c & (c - 1))) quot[r.id] = {x, c};
      return r;
    }
  }
  if (a.w != b.w) { fprintf(stderr, "bin width mismatch %d %d\n", a.w, b.w); abort(); }
  unsigned w = a.w;
  if (a.isC() && b.isC() && w <= 64) {
    u64 x = a.c, y = b.c;
    switch (op) {
    case ADD: return K(w, x + y);
    case SUB: return K(w, x - y);
    case MUL: return K(w, x * y);
    case UDIV: return y ? K(w, x / y) : K(w, ~0ull);
    case UREM: return y ? K(w, x % y) : K(w, x);
    case SDIV: if (y && !(sx(y, w) == -1)) return K(w, (u64)(sx(x, w) / sx(y, w))); if (y) return K(w, 0 - x); return K(w, ~0ull);
    case SREM: if (y && !(sx(y, w) == -1)) return K(w, (u64)(sx(x, w) % sx(y, w))); if (y) return K(w, 0); return K(w, x);
    case AND: return K(w, x & y);
    case OR: return K(w, x | y);
    case XOR: return K(w, x ^ y);
    case SHL: return y >= w ? K(w, 0) : K(w, x << y);
    case LSHR: return y >= w ? K(w, 0) : K(w, x >> y);
    case ASHR: return K(w, (u64)(sx(x, w) >> (y >= w ? w - 1 : y)));
    }
  }
  if (b.isC() && w <= 64) {
    if (b.c == 0 && (op == ADD || op == SUB || op == OR || op == XOR || op == SHL || op == LSHR || op == ASHR)) return a;
    if (op == AND) { if (b.c == 0) return b; if (b.c == maskw(w)) return a; }
    if (op == MUL) { if (b.c == 1) return a; if (b.c == 0) return b; }
    if (op == UDIV && b.c == 1) return a;
  }
  if (a.isC() && w <= 64) {
    if (a.c == 0 && (op == ADD || op == OR || op == XOR)) return b;
    if (op == AND) { if (a.c == 0) return a; if (a.c == maskw(w)) return b; }
  }
  z3::expr x = X(a), y = X(b);
  if ((op == ASHR || op == LSHR) && b.isC() && x.is_app() && x.decl().decl_kind() == Z3_OP_CONCAT && x.num_args() == 2 && x.arg(1).is_numeral() && x.arg(1).get_sort().bv_size() == b.c) {
    uint64_t z = 1; // (v << k) >> k is an extension of v
    if (b.c <= 64 && x.arg(1).is_numeral_u64(z) && z == 0) { V v = wrap(x.arg(0)); return op == ASHR ? sext(v, w) : zext(v, w); }
  }
  if (w == 1) {
    switch (op) {
    case ADD: case SUB: case XOR: return wrap(x != y);
    case AND: case MUL: return wrap(x && y);
    case OR: return wrap(x || y);
    case UDIV: case SDIV: case LSHR: case SHL: case ASHR: case UREM: case SREM: break;
    }
    // rare: lift to 8 bits
    return extract(bin(op, zext(a, 8), zext(b, 8)), 0, 0);
  }
  switch (op) {
  case ADD: return wrap(x + y);
  case SUB: return wrap(x - y);
  case MUL: return wrap(x * y);
  case UDIV: return wrap(z3::udiv(x, y));
  case UREM: return wrap(z3::urem(x, y));
  case SDIV: return wrap(x / y);
  case SREM: return wrap(z3::srem(x, y));
  case AND: return wrap(x & y);
  case OR: return wrap(x | y);
  case XOR: return wrap(x ^ y);
  case SHL: return wrap(z3::shl(x, y));
  case LSHR: return wrap(z3::lshr(x, y));
  case ASHR: return wrap(z3::ashr(x, y));
  }
  abort();
}
V rawIn(V v, u64 lo, u64 hi) {
  z3::expr e = X(v);
  if (v.w == 1) { if (lo == 1) return v; if (hi == 0) return lnot(v); return KB(true); }
  if (hi > maskw(v.w)) hi = maskw(v.w);
  z3::expr r = C->bool_val(true);
  if (lo > 0) r = r && z3::uge(e, C->bv_val((uint64_t)lo, v.w));
  if (hi < maskw(v.w)) r = r && z3::ule(e, C->bv_val((uint64_t)hi, v.w));
  if (lo > hi) return KB(false);
  return wrap(r);
}
V eq(V a, V b) {
  if (a.w != b.w) { fprintf(stderr, "eq width mismatch %d %d\n", a.w, b.w); abort(); }
  if (a.isC() && b.isC() && a.w <= 64) return KB(a.c == b.c);
  if (a.id && a.id == b.id) return KB(true);
  if (a.w > 1 && a.w <= 64) { Rg x = rg(a), y = rg(b); if (x.hi < y.lo || y.hi < x.lo) return KB(false); }
  return memoize(20, a, b, V(), [&] { return wrap(X(a) == X(b)); });
}
V ult(V a, V b) {
  if (a.isC() && b.isC()) return KB(a.c < b.c);
  if (a.id && a.id == b.id) return KB(false);
  if (a.w == 1) return bin(AND, lnot(a), b);
  if (a.w <= 64) { Rg x = rg(a), y = rg(b); if (x.hi < y.lo) return KB(true); if (x.lo >= y.hi) return KB(false); }
  return memoize(21, a, b, V(), [&] { return wrap(z3::ult(X(a), X(b))); });
}
V ule(V a, V b) { return lnot(ult(b, a)); }
V slt(V a, V b) {
  if (a.isC() && b.isC()) return KB(sx(a.c, a.w) < sx(b.c, b.w));
  if (a.w == 1) return bin(AND, a, lnot(b));
  if (a.w <= 64) {
    Rg x = rg(a), y = rg(b);
    u64 sg = 1ull << (a.w - 1);
    bool xo = (x.lo & sg) == (x.hi & sg), yo = (y.lo & sg) == (y.hi & sg);
    if (xo && yo) {
      u64 xl = x.lo ^ sg, xh = x.hi ^ sg, yl = y.lo ^ sg, yh = y.hi ^ sg;
      if (xh < yl) return KB(true);
      if (xl >= yh) return KB(false);
    }
  }
  return memoize(22, a, b, V(), [&] { return wrap(z3::slt(X(a), X(b))); });
}
V sle(V a, V b) { return lnot(slt(b, a)); }
V lnot(V a) {
  if (a.isC()) return KB(!a.c);
  return memoize(23, a, V(), V(), [&] { return wrap(!X(a)); });
}
V ite(V c, V a, V b) {
  if (c.isC()) return c.c ? a : b;
  if (a.w != b.w) { fprintf(stderr, "ite width mismatch\n"); abort(); }
  if (a.id == b.id && a.c == b.c) return a;
  V r = c.id < (1u << 30) ? memoize(28, a, b, c, [&] { return wrap(z3::ite(X(c), X(a), X(b))); }) : wrap(z3::ite(X(c), X(a), X(b)));
  if (a.w <= 64 && a.w > 1) { Rg x = rg(a), y = rg(b); return within(r, {x.lo < y.lo ? x.lo : y.lo, x.hi > y.hi ? x.hi : y.hi}); }
  return r;
}
static std::unordered_map<u32, V> lowOf; // terms known to be the low bits of another one
static std::unordered_map<u32, std::pair<V, unsigned>> partOf; // terms known to be a field of another one
// the term that a was truncated from, when nothing was lost
static bool undoTrunc(V a, unsigned w, unsigned bits, V &r) {
  if (a.isC() || w > 64) return false;
  auto i = lowOf.find(a.id);
  if (i == lowOf.end()) return false;
  V x = i->second;
  if (!x.id || x.w > w || rg(x).hi >> (bits - 1) >> 1) return false;
  r = zext(x, w);
  return true;
}
V zext(V a, unsigned w) {
  V x;
  if (a.w > 1 && w > a.w && undoTrunc(a, w, a.w, x)) return x;
  if (a.w == w) return a;
  if (a.isC() && w <= 64) return K(w, a.c);
  if (a.w == 1) return ite(a, w <= 64 ? K(w, 1) : mkBig(w, "1"), w <= 64 ? K(w, 0) : mkBig(w, "0"));
  V r = memoize(24, a, K(64, w), V(), [&] { return wrap(z3::zext(X(a), w - a.w)); });
  return w <= 64 ? within(r, rg(a)) : r;
}
V sext(V a, unsigned w) {
  V x;
  if (a.w > 1 && w > a.w && undoTrunc(a, w, a.w - 1, x)) return x;
  if (a.w == w) return a;
  if (a.isC() && w <= 64) return K(w, (u64)sx(a.c, a.w));
  if (a.w == 1) return ite(a, K(w, ~0ull), K(w, 0));
  V r = memoize(25, a, K(64, w), V(), [&] { return wrap(z3::sext(X(a), w - a.w)); });
  if (r.id && w <= 64) sextOf[r.id] = a;
  if (w <= 64 && !(rg(a).hi >> (a.w - 1))) return within(r, rg(a));
  return r;
}
static V extract0(V a, unsigned hi, unsigned lo);
V extract(V a, unsigned hi, unsigned lo) {
  if (a.isC() || hi - lo + 1 == a.w) return extract0(a, hi, lo);
  return memoize(26, a, K(64, hi * 65536ull + lo), V(), [&] { V r = extract0(a, hi, lo); if (r.id && a.w <= 64) { partOf[r.id] = {a, lo}; if (!lo && hi) lowOf[r.id] = a; } return r; });
}
static V extract0(V a, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1;
  if (w == a.w) return a;
  if (a.isC()) return K(w, a.c >> lo);
  z3::expr e = X(a).extract(hi, lo);
  if (w == 1) return wrap(e == C->bv_val(1, 1));
  if (a.w <= 64) {
    Rg x = rg(a);
    if ((x.lo >> lo >> (w - 1) >> 1) == (x.hi >> lo >> (w - 1) >> 1)) return within(wrap(e), {(x.lo >> lo) & maskw(w), (x.hi >> lo) & maskw(w)});
  }
  return wrap(e);
}
V concat(V hi, V lo) {
  if (hi.isC() && lo.isC() && hi.w + lo.w <= 64) return K(hi.w + lo.w, hi.c << lo.w | lo.c);
  unsigned w = hi.w + lo.w;
  auto p = lo.id && w <= 64 ? partOf.find(lo.id) : partOf.end();
  if (p != partOf.end() && p->second.second + w <= p->second.first.w) { // put fields of one term together again
    V a = p->second.first;
    unsigned at = p->second.second;
    V h = extract(a, at + w - 1, at + lo.w);
    if (h.id == hi.id && h.c == hi.c) return extract(a, at + w - 1, at);
  }
  V r = memoize(27, hi, lo, V(), [&] { return wrap(z3::concat(X(hi), X(lo))); });
  if (r.w <= 64 && hi.w > 1 && lo.w > 1) { Rg x = rg(hi), y = rg(lo); return within(r, {x.lo << lo.w | y.lo, x.hi << lo.w | y.hi}); }
  return r;
}
V subst(V e, V var, u64 val) {
  if (e.isC()) return e;
  return memoize(29, e, var, K(8, val), [&] {
    z3::expr_vector f(*C), t(*C);
    f.push_back(X(var));
    t.push_back(X(K(var.w, val)));
    return wrap(X(e).substitute(f, t));
  });
}
std::string show(V a) {
  std::ostringstream o;
  if (a.isC()) { o << "0x" << std::hex << a.c << ":" << std::dec << a.w; return o.str(); }
  o << X(a);
  std::string s = o.str();
  if (s.size() > 400) s = s.substr(0, 400) + "...";
  return s;
}
u64 evalIn(const ModelP &m, V a) {
  if (a.isC()) return a.c;
  z3::expr r = m->m.eval(X(a), true);
  if (r.is_bool()) return r.is_true();
  uint64_t x = 0;
  Z3_get_numeral_uint64(*C, r, &x);
  return x;
}
static z3::solver *S;
static std::vector<u32> stk;
Res solve(const std::vector<V> &pc, V extra, ModelP *m) {
  init();
  if (extra.isFalse()) return UNSAT;
  if (gDeadline && std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count() > gDeadline) throw OutOfTime();
  auto t0 = std::chrono::steady_clock::now();
  if (!S) {
    const char *zs = getenv("Z3SMT");
    S = !zs ? new z3::solver(*C, z3::solver::simple()) : *zs == '2' ? new z3::solver(*C, "QF_BV") : new z3::solver(*C);
  }
  // align the incremental stack with pc
  size_t k = 0;
  while (k < stk.size() && k < pc.size() && stk[k] == pc[k].id) ++k;
  if (k < stk.size()) { S->pop((unsigned)(stk.size() - k)); stk.resize(k); }
  for (; k < pc.size(); ++k) {
    S->push();
    S->add(X(pc[k]));
    stk.push_back(pc[k].id);
  }
  z3::params p(*C);
  p.set("timeout", gTimeoutMs);
  S->set(p);
  S->push();
  if (!extra.isTrue()) S->add(X(extra));
  z3::check_result r = z3::unknown;
  try { r = S->check(); } catch (z3::exception &e) { r = z3::unknown; }
  Res out = r == z3::sat ? SAT : r == z3::unsat ? UNSAT : UNKNOWN;
  if (out == SAT && m) *m = std::make_shared<Model>(S->get_model());
  S->pop();
  if (out == UNKNOWN) {
    // second attempt: one-shot bit-blasting solver
    SS.fresh++;
    z3::solver f = z3::tactic(*C, "qfbv").mk_solver();
    z3::params q(*C);
    q.set("timeout", gTimeoutMs * 75);
    f.set(q);
    for (auto &x : pc) f.add(X(x));
    f.add(X(extra));
    try { r = f.check(); } catch (z3::exception &e) { r = z3::unknown; }
    out = r == z3::sat ? SAT : r == z3::unsat ? UNSAT : UNKNOWN;
    if (out == SAT && m) *m = std::make_shared<Model>(f.get_model());
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (getenv("SLOWQ") && dt > atof(getenv("SLOWQ"))) { fprintf(stderr, "[slow %.2f res %d pc %zu] %s\n", dt, (int)out, pc.size(), show(extra).c_str()); if (getenv("SLOWPC")) for (auto &x : pc) fprintf(stderr, "   pc %s\n", show(x).c_str()); }
  SS.queries++;
  SS.secs += dt;
  if (dt > SS.maxq) SS.maxq = dt;
  if (out == SAT) SS.sat++; else if (out == UNSAT) SS.unsat++; else SS.unknown++;
  return out;
}
