/* C29 run time settings. Defaults from the environment (be), a block A, then any of the three settings is changed to
 * any value, a block B by api, then settings are changed again and A, B are checked, reallocated and released in any order. */
#include "hx.h"
static unsigned char *A, *B, *C;
static u64 fix;
static u64 na, nb, k, v, below0, below1;
static void settings(const char *w, const char *val, int first, u64 *al, u64 *be, u64 *fl) {
  u64 what = h_conc(h_sym(w, 8, h_param(first ? "w0" : "u0", 0), h_param(first ? "w1" : "u1", 3))); /* one setting at a time, or none */
  if (what == 1) { *al = 1ull << h_conc(h_sym(val, 8, h_param("emin", 0), h_param(first ? "emax" : "emax2", 4))); x_set_align((int)*al); }
  if (what == 2) { *be = h_conc(h_sym(val, 8, 0, 1)); x_set_below((int)(*be ? h_sym(first ? "nz" : "nz2", 31, 1, 0x7fffffff) : 0)); }
  if (what == 3) { u64 off = h_conc(h_sym(first ? "nofill" : "nofill2", 8, 0, 1)); *fl = off ? 256 : h_sym(val, 8, 0, 255); x_set_fill(off ? -1 : (int)*fl); }
}
static void placed(unsigned char *p, u64 n, u64 kk, u64 al, u64 be) {
  if (n < al && !fix) al = pow2floor(n);
  h_assert(p != 0, "a satisfiable request is satisfied");
  h_assert(((u64)p & (al - 1)) == 0, "the block has the alignment in force");
  if (be) {
    u64 b = (u64)p & ~(PG - 1);
    h_assert(H_ACC(p + kk), "every byte of a live block is accessible");
    h_assert(NOACC(b - 1), "the page below the block is inaccessible");
    h_assert((u64)p - b == 0, "the block starts at the inaccessible page");
  } else x_live((char *)p, n, kk, al);
}
void harness_pre(void) {
  h_config();
  if (h_param("below", 0)) h_setenv("DUMA_PROTECT_BELOW", "1");
  if (h_param("slack", 0)) h_setenv("DUMA_SLACKFILL", "119");
}
int harness_main(void) {
  u64 al = 1, be = h_param("below", 0), fl = 255, al0, be0, api = h_param("api", 0), mx = h_param("max", 200), kb, how, order;
  al0 = al; be0 = be;
  na = h_conc(h_sym("na", 16, 0, 1)) ? 5000 : h_param("amax", 0) ? h_sym("na1", 16, 1, h_param("amax", 0)) : 37;
  A = (unsigned char *)_duma_malloc(na, "a.c", 1);
  k = h_sym("k", 16, 0, 5000); v = h_sym("v", 8, 0, 255);
  h_assume(k < na);
  A[k] = (unsigned char)v;
  settings("set", "val", 1, &al, &be, &fl);
  nb = h_sym("nb", 16, h_param("min", 1), mx);
  kb = h_sym("kb", 16, 0, mx);
  h_assume(kb < nb);
  B = (unsigned char *)x_alloc(api, 64, nb);
  fix = api == A_MEMALIGN || api == A_POSIX ? 64 : api == A_VALLOC ? PG : 0; /* the alignment of the request rules */
  placed(B, nb, kb, fix ? fix : al, be);
  if (api != A_CALLOC && api != A_CALLOC1 && fl < 256) h_assert(B[kb] == (unsigned char)fl, "a later block is filled as set");
  if (api == A_CALLOC || api == A_CALLOC1) h_assert(B[kb] == 0, "zeroing allocation ignores the fill value");
  B[kb] = 7;
  /* the earlier block is as it was */
  { u64 f = fix; fix = 0; placed(A, na, k, al0, be0); fix = f; }
  h_assert(A[k] == (unsigned char)v, "earlier blocks keep their contents");
  h_assert(NOACC(x_table()), "the bookkeeping memory is closed");
  { u64 al2 = al, be2 = be, fl2 = fl;
    if (h_param("second", 1)) settings("set2", "val2", 0, &al2, &be2, &fl2);
    how = h_conc(h_sym("how", 8, 0, h_param("how1", 2)));
    if (how == 0) duma_checkAll();
    if (how == 1) { u64 nc = h_sym("nc", 16, 1, 100); C = (unsigned char *)_duma_realloc(A, nc, "c.c", 2); { u64 f = fix; fix = 0; placed(C, nc, 0, al2, be2); fix = f; } if (k < nc) h_assert(C[k] == (unsigned char)v, "reallocation keeps the contents"); A = C; }
    if (how == 2) { duma_check(A); duma_check(B); }
    placed(B, nb, kb, fix ? fix : al, be);
    h_assert(B[kb] == 7, "earlier blocks keep their contents");
  }
  order = h_param("order", 2) == 2 ? how == 1 : h_conc(h_sym("order", 8, 0, 1));
  if (order) { x_free(A); x_free(B); } else { x_free(B); x_free(A); }
  h_assert(NOACC(A) && NOACC(B), "released blocks are inaccessible");
  h_reach("end");
  return 0;
}
