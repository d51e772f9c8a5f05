/* Histories: 'ops' symbolic operations on up to MAXB blocks, with ghost bookkeeping. Every block has
 * one symbolic probe index and one symbolic byte stored there, so what is asserted of the probe holds
 * for every byte. After each operation all blocks are inspected (C03, C04, C07).
 * params: ops number of operations, mask allowed kinds, op0.. fixes the kind of one operation (splits a job), pg largest page count of a size,
 * pre concrete allocations before, prefree free every n-th of them, fill 0/1, below, pf (1: protect
 * free 0, 2: symbolic limit), amax */
#include "hx.h"
#define MAXB 12
enum { O_MALLOC, O_FREE, O_REALLOC, O_MEMALIGN, O_CHECK, O_CALLOC, O_REALLOC0, O_STRDUP, O_VALLOC, O_N };
static struct B { unsigned char *p; u64 n, k, v, live, al; } B[MAXB];
static int nb, below, pf;
static void probe(struct B *b) {
  b->k = h_sym("k", 64, 0, UP(b->n) - 1);
  b->v = h_sym("v", 8, 0, 255);
  h_assume(b->k < b->n);
  b->p[b->k] = (unsigned char)b->v;
}
static void inspect(int fresh) {
  int i;
  for (i = 0; i < nb; ++i) {
    struct B *b = &B[i];
    unsigned char *q = b->p + b->k;
    if (b->live) {
      h_assert(H_ACC(q), "every byte of a live block stays accessible");
      h_assert(h_load(q) == (int)b->v, "no operation changes a byte of a live block");
      if (!below) h_assert(NOACC(UP(b->p + b->n)), "the page after a live block stays inaccessible");
      else h_assert(NOACC(((u64)b->p & ~(PG - 1)) - 1), "the page before a live block stays inaccessible");
    } else
      h_assert(NOACC(q), "freed memory is inaccessible");
    if (fresh >= 0 && i != fresh && (b->live || !pf)) {
      struct B *f = &B[fresh];
      u64 d = (u64)(q - f->p);
      h_assert(d >= f->n, b->live ? "a new block does not overlap a live one" : "a new block does not overlap freed memory");
    }
  }
}
static int add(void *p, u64 n, u64 al, int zero) {
  struct B *b = &B[nb];
  h_assert(p != 0, "a satisfiable request is satisfied");
  b->p = (unsigned char *)p;
  b->n = n;
  b->live = 1;
  b->al = al;
  h_assert(((u64)p & (al - 1)) == 0, "the block is aligned");
  if (zero >= 0) {
    u64 z = h_sym("z", 64, 0, UP(n) - 1);
    h_assume(z < n);
    h_assert(H_ACC(b->p + z), "every byte of a new block is accessible");
    h_assert(h_load(b->p + z) == zero, "a new block has its documented contents");
  }
  probe(b);
  return nb++;
}
static int pick(void) {
  int i, c = 0, t;
  for (i = 0; i < nb; ++i) c += (int)B[i].live;
  h_assume(c > 0);
  t = (int)h_conc(h_sym("pick", 8, 0, (u64)c - 1));
  for (i = 0; i < nb; ++i) if (B[i].live && t-- == 0) return i;
  return 0;
}
void harness_pre(void) {
  h_config();
  u64 p = h_param("pf", 0);
  if (h_param("nofill", 0)) h_setenv("DUMA_FILL", "-1");
  if (h_param("below", 0)) h_setenv("DUMA_PROTECT_BELOW", "1");
  if (p == 1) h_setenv("DUMA_PROTECT_FREE", "0");
  if (p == 2) h_setenv_num("DUMA_PROTECT_FREE", h_sym("limit", 16, 1, h_param("lmax", 64)));
  if (h_param("skew", 0)) h_map_skew(h_conc(h_sym("skew", 8, 0, h_param("skew", 0))));
}
int harness_main(void) {
  u64 ops = h_param("ops", 3), mask = h_param("mask", 7), pg = h_param("pg", 1), i, pre = h_param("pre", 0);
  int fill = h_param("nofill", 0) ? 0 : 255, r, j;
  static void *P[600];
  below = (int)h_param("below", 0);
  pf = (int)h_param("pf", 0);
  x_prep();
  if (h_param("prelo", 0)) pre = h_conc(h_sym("pre", 16, h_param("prelo", 0), pre));
  for (i = 0; i < pre; ++i) P[i] = malloc(1 + i % 7 * 100);
  if (h_param("prefree", 0)) for (i = 0; i < pre; i += h_param("prefree", 0)) free(P[i]);
  for (i = 0; i < ops; ++i) {
    u64 fix = i == 0 ? h_param("op0", 99) : i == 1 ? h_param("op1", 99) : i == 2 ? h_param("op2", 99) : 99;
    u64 op = fix < 99 ? fix : h_conc(h_sym("op", 8, 0, O_N - 1)), n, a, m, z;
    unsigned char *q;
    if (fix == 99) h_assume(mask >> op & 1);
    r = -1;
    switch (op) {
    case O_MALLOC: n = x_size("n", "pages", 0, pg); r = add(_duma_malloc(n, "a.c", 1), n, 1, fill); break;
    case O_CALLOC: n = x_size("n", "pages", 0, pg); r = add(_duma_calloc(1, n, "a.c", 2), n, 1, 0); break;
    case O_MEMALIGN: n = x_size("n", "pages", 0, pg); a = 1ull << h_conc(h_sym("a", 8, h_param("amin", 0), h_param("amax", 13))); r = add(_duma_memalign(a, n, "a.c", 3), n, a, fill); break;
    case O_VALLOC: n = x_size("n", "pages", 0, pg); r = add(_duma_valloc(n, "a.c", 4), n, PG, fill); break;
    case O_STRDUP: r = add(_duma_strdup("hello", "a.c", 5), 6, 1, -1); break;
    case O_FREE: j = pick(); _duma_free(B[j].p, "a.c", 6); B[j].live = 0; break;
    case O_REALLOC0: j = pick(); h_assert(_duma_realloc(B[j].p, 0, "a.c", 7) == 0, "reallocating to size zero returns null"); B[j].live = 0; break;
    case O_CHECK: j = pick(); duma_check(B[j].p); duma_checkAll(); break;
    default:
      j = pick();
      n = x_size("n", "pages", 0, pg);
      q = (unsigned char *)_duma_realloc(B[j].p, n, "a.c", 8);
      h_assert(q != 0, "a satisfiable request is satisfied");
      m = B[j].n < n ? B[j].n : n;
      if (B[j].k < m) h_assert(h_load(q + B[j].k) == (int)B[j].v, "reallocation preserves the contents");
      z = h_sym("zr", 64, 0, UP(n) - 1);
      h_assume(z < n);
      h_assert(H_ACC(q + z), "every byte of a reallocated block is accessible");
      if (z >= B[j].n) h_assert(h_load(q + z) == 0, "bytes added by reallocation are zero");
      B[j].live = 0;
      r = add(q, n, 1, -1);
      h_reach("realloc");
    }
    inspect(r);
  }
  for (j = 0; j < nb; ++j) { h_trace("p", (u64)B[j].p); h_trace("n", B[j].n); }
  h_reach("end");
  return 0;
}
