#include "engine.h"
#include <algorithm>
#include <cstdio>
#include <cstring>
using namespace std;

// ---------------------------------------------------------------- path condition
static unordered_map<u32, vector<BEntry>> gBounds;
static u64 mixh(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
void Engine::addPC(State &s, V c) {
  if (c.isTrue()) return;
  s.pc.push_back(c);
  s.pch.push_back(mixh(s.pch.empty() ? 7 : s.pch.back(), c.id));
}
static bool prefixOk(const State &s, const BEntry &b) { return b.depth <= s.pc.size() && (b.depth == 0 || s.pch[b.depth - 1] == b.hash); }

bool Engine::bounds(State &s, V a, u64 &lo, u64 &hi) {
  if (a.isC()) { lo = hi = a.c; return true; }
  auto &vec = gBounds[a.id];
  for (auto &b : vec) if (prefixOk(s, b)) { lo = b.lo; hi = b.hi; if (lo == hi || b.depth == s.pc.size() || b.exact) return true; }
  u64 m = evalIn(s.model, a);
  u64 M = maskw(a.w);
  auto q = [&](V c, u64 &val) -> int {
    ModelP mm;
    Res r = solve(s.pc, c, &mm);
    if (r == UNKNOWN) { inconclusive("solver gave up on an address bound"); return 1; }
    if (r == SAT) { val = evalIn(mm, a); return 1; }
    return 0;
  };
  u64 v;
  // page granular (callers need enclosing ranges only); very wide ranges even coarser
  auto tol = [&](u64 d) { return d >> 22 ? d >> 10 : PG - 1; };
  u64 h = m & ~(PG - 1), l = 0; // h: start of the lowest page seen
  for (u64 g = 0; h;) {
    u64 cand = h > g ? h - g : 0; // is there a value below cand?
    if (!cand) { l = 0; break; }
    if (q(ult(a, K(a.w, cand)), v)) { h = (v < cand ? v : cand - 1) & ~(PG - 1); g = g ? (g < (1ull << 59) ? g * 16 : ~0ull) : PG; }
    else { l = cand; break; }
  }
  u64 t0 = tol(m - l);
  while (l < h && h - l > t0) {
    u64 mid = l + (h - l) / 2;
    if (q(ule(a, K(a.w, mid)), v)) h = (v < mid ? v : mid) & ~(PG - 1); else l = mid + 1;
    if (h < l) h = l;
  }
  lo = l < h ? l & ~(PG - 1) : h;
  if (lo > m) lo = m;
  l = m | (PG - 1); h = M;
  if (l > M) l = M;
  for (u64 g = 0; l < M;) {
    u64 cand = M - l > g ? l + g : M; // is there a value above cand?
    if (cand == M) { h = M; break; }
    if (q(ult(K(a.w, cand), a), v)) { l = (v > cand ? v : cand + 1) | (PG - 1); if (l > M) l = M; g = g ? (g < (1ull << 59) ? g * 16 : ~0ull) : PG; }
    else { h = cand; break; }
  }
  if (l >= M) h = M;
  t0 = tol(h - m);
  while (l < h && h - l > t0) {
    u64 mid = l + (h - l + 1) / 2;
    if (q(ule(K(a.w, mid), a), v)) { l = (v > mid ? v : mid) | (PG - 1); if (l > h) l = h; } else h = mid - 1;
  }
  hi = h | (PG - 1);
  if (hi > M) hi = M;
  BEntry b; b.depth = s.pc.size(); b.hash = s.pch.empty() ? 0 : s.pch.back(); b.lo = lo; b.hi = hi; b.exact = true;
  vec.push_back(b);
  return true;
}
V Engine::resolve(State &s, V a) {
  if (a.isC()) return a;
  auto &vec = gBounds[a.id];
  for (auto &b : vec) if (prefixOk(s, b)) { if (b.lo == b.hi) return K(a.w, b.lo); if (b.depth == s.pc.size()) return a; }
  u64 m = evalIn(s.model, a);
  Res r = solve(s.pc, ne(a, K(a.w, m)));
  if (r == UNKNOWN) inconclusive("solver gave up on an address");
  BEntry b; b.depth = s.pc.size(); b.hash = s.pch.empty() ? 0 : s.pch.back(); b.lo = b.hi = m; b.exact = true;
  if (r == UNSAT) { vec.push_back(b); return K(a.w, m); }
  return a;
}
Res Engine::ask(State &s, V c, ModelP *m) {
  if (c.isTrue()) { if (m) *m = s.model; return SAT; }
  if (c.isFalse()) return UNSAT;
  if (evalIn(s.model, c)) { if (m) *m = s.model; return SAT; }
  return solve(s.pc, c, m);
}

// ---------------------------------------------------------------- memory
static V sbVal(const SB &b) {
  V v; v.id = b.id; v.w = b.w;
  if (b.w == 8) return v;
  return extract(v, b.idx * 8 + 7, b.idx * 8);
}
PE &Engine::page(State &s, Mem &m, u64 p, bool create) {
  auto it = m.pages.find(p);
  if (it == m.pages.end()) {
    PE pe; pe.n = make_shared<PageNode>(); pe.n->d = make_shared<PData>();
    memset(pe.n->d->data, 0, PG);
    it = m.pages.emplace(p, pe).first;
  }
  PE &pe = it->second;
  while (pe.synced < m.events.size()) {
    auto &e = m.events[pe.synced];
    if (e->lo < (p + 1) * PG && p * PG < e->hi) {
      auto n = make_shared<PageNode>();
      n->parent = pe.n; n->ev = e; n->evIdx = (int)pe.synced;
      pe.n = n;
    }
    pe.synced++;
  }
  return pe;
}
V Engine::evValue(State &s, Event &e, V a) {
  switch (e.kind) {
  case EV_FILL: return e.val;
  case EV_STORE: {
    if (e.val.w == 8) return e.val;
    V off = a - e.start;
    V sh = bin(SHL, off, K(64, 3));
    V x = e.val;
    V s2 = x.w < 64 ? trunc(sh, x.w) : sh;
    if (x.w < 64 && x.w < 8) return x;
    return trunc(bin(LSHR, x, s2), 8);
  }
  case EV_COPY: {
    V src = e.src + (a - e.start);
    u64 lo, hi;
    if (src.isC()) return readByte(s, *e.snap, src);
    return readByteB(s, *e.snap, src, e.slo, e.shi - 1);
  }
  }
  return K(8, 0);
}
V Engine::readNode(State &s, PageNode *n, u64 addr) {
  u64 off = addr % PG;
  for (;;) {
    if (n->d && (!n->parent || n->d->valid[off])) {
      auto it = n->d->sym.find((u16)off);
      if (it != n->d->sym.end()) return sbVal(it->second);
      return K(8, n->d->data[off]);
    }
    if (!n->parent) return K(8, 0);
    Event &e = *n->ev;
    if (addr >= e.lo && addr < e.hi) {
      V a = K(64, addr);
      V c = ult(a - e.start, e.len);
      if (!c.isFalse()) {
        if (!c.isC()) { // prune with the solver
          bool t = evalIn(s.model, c);
          Res r = solve(s.pc, t ? lnot(c) : c);
          if (r == UNSAT) c = KB(t);
        }
        if (c.isTrue()) return evValue(s, e, a);
        if (!c.isFalse()) return ite(c, evValue(s, e, a), readNode(s, n->parent.get(), addr));
      }
    }
    n = n->parent.get();
  }
}
V Engine::readByte(State &s, Mem &m, V a) {
  if (a.isC()) {
    if (m.pages.find(a.c / PG) == m.pages.end() && m.events.empty()) return K(8, 0);
    return readNode(s, page(s, m, a.c / PG).n.get(), a.c);
  }
  u64 lo, hi;
  bounds(s, a, lo, hi);
  if (lo == hi) return readByte(s, m, K(64, lo));
  return readByteB(s, m, a, lo, hi);
}
struct Item { int order; u64 addr, len; V v; };
V Engine::readByteB(State &s, Mem &m, V a, u64 lo, u64 hi) {
  vector<Item> items;
  vector<u64> pgs;
  u64 p0 = lo / PG, p1 = hi / PG;
  if (p1 - p0 < m.pages.size()) { for (u64 p = p0; p <= p1; ++p) if (m.pages.count(p)) pgs.push_back(p); }
  else { for (auto &x : m.pages) if (x.first >= p0 && x.first <= p1) pgs.push_back(x.first); sort(pgs.begin(), pgs.end()); }
  size_t nev = m.events.size();
  for (u64 p : pgs) {
    // no need to create empty nodes: only look at recorded bytes
    PE &pe = page(s, m, p);
    for (PageNode *n = pe.n.get(); n; n = n->parent.get()) {
      if (!n->d) continue;
      bool bottom = !n->parent;
      u64 b0 = p * PG < lo ? lo - p * PG : 0, b1 = (p + 1) * PG - 1 > hi ? hi - p * PG : PG - 1;
      bool anysym = !n->d->sym.empty();
      for (u64 o = b0; o <= b1;) {
        if (!bottom && !n->d->valid[o]) { ++o; continue; }
        V v;
        bool isS = false;
        if (anysym) {
          auto it = n->d->sym.find((u16)o);
          if (it != n->d->sym.end()) { v = sbVal(it->second); isS = true; }
        }
        if (!isS) v = K(8, n->d->data[o]);
        if (bottom && !isS && v.c == 0) { ++o; continue; }
        u64 e = o + 1;
        if (isS) {
          SB f = n->d->sym.find((u16)o)->second;
          while (e <= b1) {
            auto it = n->d->sym.find((u16)e);
            if (it == n->d->sym.end() || it->second.id != f.id || it->second.idx != f.idx || it->second.w != f.w) break;
            ++e;
          }
        } else
          while (e <= b1 && n->d->data[e] == n->d->data[o] && (bottom || n->d->valid[e]) && !(anysym && n->d->sym.count((u16)e))) ++e;
        items.push_back({n->evIdx, p * PG + o, e - o, v});
        o = e;
      }
    }
  }
  if (items.size() > 6000) { inconclusive("symbolic read over too many distinct bytes"); }
  stable_sort(items.begin(), items.end(), [](const Item &x, const Item &y) { return x.order < y.order; });
  V v = K(8, 0);
  size_t i = 0;
  auto apply = [&](int ord) {
    for (; i < items.size() && items[i].order == ord; ++i) v = ite(ult(a - K(64, items[i].addr), K(64, items[i].len)), items[i].v, v);
  };
  apply(-1);
  for (size_t e = 0; e < nev; ++e) {
    Event &ev = *m.events[e];
    if (ev.lo <= hi && lo < ev.hi) {
      V c = ult(a - ev.start, ev.len);
      if (!c.isFalse()) v = ite(c, evValue(s, ev, a), v);
    }
    apply((int)e);
  }
  return v;
}
static PData *writable(PE &pe) {
  if (pe.n.use_count() > 1 || (pe.n->d && pe.n->d.use_count() > 1)) {
    auto n = make_shared<PageNode>(*pe.n);
    if (n->d) n->d = make_shared<PData>(*n->d);
    pe.n = n;
  }
  if (!pe.n->d) { pe.n->d = make_shared<PData>(); memset(pe.n->d->data, 0, PG); }
  return pe.n->d.get();
}
void Engine::writeByteC(State &s, u64 addr, V v, u8 idx) { // byte idx of v
  PE &pe = page(s, s.mem, addr / PG);
  PData *d = writable(pe);
  u64 o = addr % PG;
  d->valid[o] = 1;
  if (v.isC()) { d->data[o] = (u8)(v.c >> (8 * idx)); if (!d->sym.empty()) d->sym.erase((u16)o); }
  else { SB b; b.id = v.id; b.w = v.w; b.idx = idx; d->sym[(u16)o] = b; d->data[o] = 0; }
}
void Engine::addEvent(State &s, shared_ptr<Event> e) { s.mem.events.push_back(e); }

void Engine::storeRaw(State &s, V addr, V val) { // val.w multiple of 8
  unsigned n = val.w / 8;
  addr = resolve(s, addr);
  if (addr.isC()) {
    u64 a = addr.c;
    u64 o = a % PG;
    if (val.isC() && o + n <= PG) {
      PE &pe = page(s, s.mem, a / PG);
      PData *d = writable(pe);
      memcpy(d->data + o, &val.c, n);
      for (unsigned i = 0; i < n; ++i) d->valid[o + i] = 1;
      if (!d->sym.empty()) for (unsigned i = 0; i < n; ++i) d->sym.erase((u16)(o + i));
      return;
    }
    for (unsigned i = 0; i < n; ++i) writeByteC(s, a + i, val, (u8)i);
    return;
  }
  auto e = make_shared<Event>();
  e->kind = EV_STORE; e->start = addr; e->len = K(64, n); e->val = val;
  u64 lo, hi;
  bounds(s, addr, lo, hi);
  e->lo = lo; e->hi = hi + n;
  addEvent(s, e);
}
V Engine::loadRaw(State &s, V addr, unsigned n) {
  addr = resolve(s, addr);
  if (addr.isC()) {
    u64 a = addr.c, o = a % PG;
    if (o + n <= PG && n <= 8) {
      PE &pe = page(s, s.mem, a / PG);
      PageNode *nd = pe.n.get();
      if (nd->d) {
        bool ok = true;
        if (nd->parent) for (unsigned i = 0; i < n; ++i) if (!nd->d->valid[o + i]) { ok = false; break; }
        if (ok) {
          if (nd->d->sym.empty()) { u64 x = 0; memcpy(&x, nd->d->data + o, n); return K(n * 8, x); }
          auto it = nd->d->sym.lower_bound((u16)o);
          if (it == nd->d->sym.end() || it->first >= o + n) { u64 x = 0; memcpy(&x, nd->d->data + o, n); return K(n * 8, x); }
          // whole value stored here?
          if (it->first == o && it->second.idx == 0 && it->second.w == n * 8) {
            bool all = true; u32 id = it->second.id;
            unsigned k = 0;
            for (auto j = it; k < n; ++j, ++k) if (j == nd->d->sym.end() || j->first != o + k || j->second.id != id || j->second.idx != k) { all = false; break; }
            if (all) { V v; v.id = id; v.w = (u16)(n * 8); return v; }
          }
        }
      }
    }
    V r = readByte(s, s.mem, K(64, a));
    for (unsigned i = 1; i < n; ++i) r = concat(readByte(s, s.mem, K(64, a + i)), r);
    return r;
  }
  // most recent event is a store to exactly this address?
  V r = readByte(s, s.mem, addr);
  for (unsigned i = 1; i < n; ++i) r = concat(readByte(s, s.mem, addr + K(64, i)), r);
  return r;
}
void Engine::memFill(State &s, V dst, V byte, V len) { // permissions already checked, len != 0
  dst = resolve(s, dst); len = resolve(s, len);
  if (dst.isC() && len.isC() && len.c <= 8192) {
    for (u64 i = 0; i < len.c; ++i) writeByteC(s, dst.c + i, byte, 0);
    return;
  }
  auto e = make_shared<Event>();
  e->kind = EV_FILL; e->start = dst; e->len = len; e->val = byte;
  u64 lo, hi, l2, h2;
  bounds(s, dst, lo, hi);
  bounds(s, dst + len - K(64, 1), l2, h2);
  e->lo = lo; e->hi = h2 + 1;
  addEvent(s, e);
}
void Engine::memCopy(State &s, V dst, V src, V len) {
  dst = resolve(s, dst); src = resolve(s, src); len = resolve(s, len);
  if (len.isC() && len.c <= 16 && (dst.isC() || len.c <= 8)) {
    vector<V> b;
    for (u64 i = 0; i < len.c; ++i) b.push_back(readByte(s, s.mem, src + K(64, i)));
    for (u64 i = 0; i < len.c; ++i) storeRaw(s, dst + K(64, i), b[i]);
    return;
  }
  bool under = false; // does a symbolically placed write lie below the source?
  if (len.isC() && dst.isC() && src.isC() && len.c > 64)
    for (auto &e : s.mem.events) if (e->lo < src.c + len.c && src.c < e->hi) under = true;
  if (!under && len.isC() && dst.isC() && src.isC() && len.c <= 65536) {
    // byte-wise with SB identity preserved
    struct R { V v; u8 idx; };
    vector<R> tmp(len.c);
    for (u64 i = 0; i < len.c; ++i) {
      u64 a = src.c + i;
      PageNode *n = page(s, s.mem, a / PG).n.get();
      u64 o = a % PG;
      if (n->d && (!n->parent || n->d->valid[o])) {
        auto it = n->d->sym.empty() ? n->d->sym.end() : n->d->sym.find((u16)o);
        if (it == n->d->sym.end()) tmp[i] = {K(8, n->d->data[o]), 0};
        else { V v; v.id = it->second.id; v.w = it->second.w; tmp[i] = {v, it->second.idx}; }
      } else tmp[i] = {readNode(s, n, a), 0};
    }
    for (u64 i = 0; i < len.c; ++i) writeByteC(s, dst.c + i, tmp[i].v, tmp[i].idx);
    return;
  }
  auto e = make_shared<Event>();
  e->kind = EV_COPY; e->start = dst; e->len = len; e->src = src;
  e->snap = make_shared<Mem>(s.mem);
  u64 lo, hi, l2, h2;
  bounds(s, dst, lo, hi);
  bounds(s, dst + len - K(64, 1), l2, h2);
  e->lo = lo; e->hi = h2 + 1;
  bounds(s, src, lo, hi);
  bounds(s, src + len - K(64, 1), l2, h2);
  e->slo = lo; e->shi = h2 + 1;
  addEvent(s, e);
}

// ---------------------------------------------------------------- permissions
static unordered_map<u64, u8> gStatic;
void Engine::mapStatic(u64 a, u64 len, u8 prot) { for (u64 p = a / PG; p <= (a + len - 1) / PG; ++p) gStatic[p] = prot; }
static u64 gPermVer = 0;
struct PCache { u64 ver, page; V v; };
static PCache pcache[4096];
void Engine::addPerm(State &s, V start, V len, u8 prot) {
  PermEv e; e.start = resolve(s, start); e.len = resolve(s, len); e.prot = prot;
  if (e.start.isC() && e.len.isC()) { e.lo = e.start.c; e.hi = e.start.c + e.len.c; }
  else {
    u64 a, b, c, d;
    bounds(s, e.start, a, b);
    bounds(s, e.start + e.len, c, d);
    e.lo = a; e.hi = d;
  }
  s.perms.push_back(e);
  s.permVer = ++gPermVer;
  s.permOk.clear();
}
u8 Engine::staticPerm(State &s, u64 a) {
  if (a >= STK_LO) {
    u64 off = (a - STK_LO) % STK_STRIDE;
    if (off < STK_SZ) return P_RW;
    if (s.bigPerm) { auto it = s.bigPerm->find(a / PG); if (it != s.bigPerm->end()) return it->second; }
    return P_UNMAPPED;
  }
  auto it = gStatic.find(a / PG);
  return it == gStatic.end() ? (u8)P_UNMAPPED : it->second;
}
V Engine::permAt(State &s, V a) {
  if (a.isC()) {
    if (a.c < DYN_LO || a.c >= DYN_HI) return K(8, staticPerm(s, a.c));
    u64 pg = a.c / PG;
    PCache &pc = pcache[(pg ^ s.permVer * 31) & 4095];
    if (pc.ver == s.permVer && pc.page == pg && s.permVer) return pc.v;
    V base = K(64, pg * PG);
    // newest decisive event
    vector<pair<V, u8>> chain;
    V v = K(8, P_UNMAPPED);
    for (size_t i = s.perms.size(); i-- > 0;) {
      PermEv &e = s.perms[i];
      if (base.c < e.lo || base.c >= e.hi) continue;
      V c = ult(base - e.start, e.len);
      if (c.isFalse()) continue;
      if (!c.isC()) {
        bool t = evalIn(s.model, c);
        // do not cache solver-pruned facts: siblings may differ
        chain.push_back({c, e.prot});
        (void)t;
        continue;
      }
      v = K(8, e.prot);
      break;
    }
    for (size_t i = chain.size(); i-- > 0;) v = ite(chain[i].first, K(8, chain[i].second), v);
    pc.ver = s.permVer; pc.page = pg; pc.v = v;
    return v;
  }
  u64 lo, hi;
  bounds(s, a, lo, hi);
  if (lo == hi) return permAt(s, K(64, lo));
  V v = K(8, P_UNMAPPED);
  // static part
  if (lo < DYN_LO || hi >= DYN_HI) {
    if (hi / PG - lo / PG <= 2048) {
      for (u64 p = lo / PG; p <= hi / PG; ++p) {
        u8 pr = (p * PG >= DYN_LO && p * PG < DYN_HI) ? (u8)P_UNMAPPED : staticPerm(s, p * PG);
        if (pr != P_UNMAPPED) v = ite(eq(bin(LSHR, a, K(64, 12)), K(64, p)), K(8, pr), v);
      }
    } // far-ranging pointers: everything outside the mmap zone counts as unmapped
  }
  for (auto &e : s.perms) {
    if (hi < e.lo || lo >= e.hi) continue;
    V c = ult(a - e.start, e.len);
    v = ite(c, K(8, e.prot), v);
  }
  return v;
}
// returns a condition under which [a,a+n) is NOT accessible as needed (n small constant)
V Engine::badAccess(State &s, V a, unsigned n, bool wr) {
  u8 need = wr ? 2 : 1;
  auto bad = [&](V p) { return eq(p & K(8, need), K(8, 0)); };
  V b = bad(permAt(s, a));
  if (n > 1) {
    if (a.isC() && a.c / PG == (a.c + n - 1) / PG) return b;
    V b2 = bad(permAt(s, a + K(64, n - 1)));
    b = b | b2;
  }
  return b;
}
