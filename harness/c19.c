/* C19 concurrent calls: T threads with 'nops' calls each, every interleaving of up to P preemptions at any access
 * to a global variable of the library, any lock operation and any system call.
 * op0,op1 range of the calls of the first thread, op2,op3 of the others; pf, cf, left as elsewhere */
#include "hx.h"
enum { O_MALLOC, O_FREE, O_REALLOC, O_CALLOC, O_ALIGN, O_USABLE, O_STRDUP, O_CHECK, O_CHECKALL, O_SHARED, O_REFREE, O_REPORT, O_N };
void DUMA_delFrame(void);
#define MAXT 4
static struct { unsigned char *p; u64 n, k, v, live; } B[64];
static int nb, calls, shared, nops, out;
static unsigned char *own[MAXT], *sh, *s2;
static int sym;
static u64 lo[MAXT], hi[MAXT];
static void enter(void) { ++calls; }
static void leave(void) {
  --calls;
  if (!calls) h_assert(NOACC(x_table()), "outside calls the bookkeeping memory is inaccessible");
}
static void keep(void *p, u64 n) {
  unsigned char *q = (unsigned char *)p;
  int i;
  u64 k, d;
  h_assert(p != 0, "a satisfiable request is satisfied");
  k = sym ? h_sym("k", 64, 0, UP(n) - 1) : n - 1;
  h_assume(k < n);
  h_assert(H_ACC(q + k), "every byte of a new block is accessible");
  h_assert(NOACC(UP(q + n)), "the page after a block is inaccessible");
  for (i = 0; i < nb; ++i) {
    d = (u64)(q + k - B[i].p);
    h_assert(!B[i].live || d >= B[i].n, "blocks of concurrent calls are disjoint");
  }
  B[nb].p = q; B[nb].n = n; B[nb].k = k; B[nb].v = sym ? h_sym("v", 8, 0, 255) : 33; B[nb].live = 1;
  q[k] = (unsigned char)B[nb].v;
  ++nb;
}
static void fill(int fillv, void *p, u64 n) {
  u64 z = sym ? h_sym("z", 64, 0, UP(n) - 1) : 0;
  h_assume(z < n);
  h_assert(h_load((char *)p + z) == fillv, "a new block has its documented contents");
}
static void th(void *x) {
  int me = h_self() - 1, i;
  unsigned char *p;
  u64 n = sym ? h_sym("n", 16, 1, PG) : 100;
  for (i = 0; i < nops; ++i) {
    u64 op = h_conc(h_sym("op", 8, lo[me], hi[me]));
    h_assume(h_param("mask", 0xffff) >> op & 1);
    enter();
    switch (op) {
    case O_MALLOC: p = (unsigned char *)_duma_malloc(n, "a.c", 1); leave(); fill(255, p, n); keep(p, n); break;
    case O_FREE: if (own[me]) { p = own[me]; own[me] = 0; _duma_free(p, "a.c", 2); } leave(); break;
    case O_REALLOC:
      p = own[me];
      own[me] = 0;
      p = (unsigned char *)_duma_realloc(p, n + 50, "a.c", 3);
      leave();
      fill(p == 0 ? 1 : h_load(p + n + 49), p + n + 49, 1);
      h_assert(H_ACC(p) && (h_load(p) == 70 + me || h_load(p) == 255), "reallocation preserves the contents");
      keep(p, n + 50);
      break;
    case O_CALLOC: p = (unsigned char *)_duma_calloc(1, n, "a.c", 4); leave(); fill(0, p, n); keep(p, n); break;
    case O_ALIGN: p = (unsigned char *)_duma_memalign(64, n, "a.c", 5); leave(); h_assert(((u64)p & 63) == 0, "the block is aligned"); h_assert(p != 0 && H_ACC(p), "a satisfiable request is satisfied"); break;
    case O_USABLE: n = malloc_usable_size(s2); leave(); h_assert(n == 88, "the usable size is the size requested"); break;
    case O_STRDUP: p = (unsigned char *)_duma_strdup("hey", "a.c", 6); leave(); h_assert(p && p[0] == 'h' && p[3] == 0, "a duplicated string has its contents"); keep(p, 4); break;
    case O_CHECK: duma_check(s2); leave(); break;
    case O_CHECKALL: duma_checkAll(); leave(); break;
    case O_SHARED: /* both threads release the same block: the second is diagnosed */
      ++shared;
      h_abort_ok(shared > 1);
      _duma_free(sh, "a.c", 7);
      ++out;
      h_assert(out < 2, "only one of two releases of a block is accepted");
      leave();
      break;
    case O_REFREE:
      if (own[me]) { p = own[me]; own[me] = 0; h_assert(_duma_realloc(p, 0, "a.c", 8) == 0, "reallocating to size zero returns null"); }
      leave();
      break;
    default: DUMA_delFrame(); leave();
    }
  }
}
void harness_pre(void) {
  u64 p = h_param("pf", 0);
  if (p == 1) h_setenv("DUMA_PROTECT_FREE", "0");
  if (p == 2) h_setenv("DUMA_PROTECT_FREE", "20");
  if (h_param("cf", 0)) h_setenv("DUMA_CHECK_FREQ", "2");
}
int harness_main(void) {
  int t, T = (int)h_param("T", 2), i;
  u64 pre = h_param("pre", 0);
  nops = (int)h_param("nops", 1);
  sym = (int)h_param("sym", 1);
  x_prep();
  for (i = 0; i < (int)pre; ++i) malloc(10);
  sh = (unsigned char *)malloc(77);
  s2 = (unsigned char *)malloc(88);
  if (h_param("freed", 0)) { void *q = malloc(3000); malloc(20); free(q); }
  for (t = 0; t < T; ++t) {
    own[t] = (unsigned char *)_duma_malloc(30, "b.c", 1);
    own[t][0] = (unsigned char)(70 + t);
    lo[t] = h_param(t ? "op2" : "op0", 0);
    hi[t] = h_param(t ? "op3" : "op1", O_N - 1);
  }
  h_preempt(h_param("P", 1));
  for (t = 0; t < T; ++t) h_spawn(th, 0);
  h_join();
  h_assert(NOACC(x_table()), "outside calls the bookkeeping memory is inaccessible");
  for (i = 0; i < nb; ++i) {
    h_assert(h_load(B[i].p + B[i].k) == (int)B[i].v, "no concurrent call changes a block");
    h_assert(malloc_usable_size(B[i].p) == B[i].n, "every block is known afterwards");
    x_free(B[i].p);
    h_assert(NOACC(B[i].p), "every block can be released afterwards");
  }
  for (t = 0; t < T; ++t) if (own[t]) { h_assert(h_load(own[t]) == 70 + t, "no concurrent call changes a block"); x_free(own[t]); }
  if (!shared) x_free(sh);
  duma_checkAll();
  h_reach("end");
  return 0;
}
