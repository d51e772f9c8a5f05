/* C23 DUMA_CHECK_FREQ=N, 1..fmax: pre operations, then any slack byte of any of the blocks is changed to any other
 * value, then operations of any kind: the stop must come no later than the N-th. clean=1: nothing is changed,
 * nothing may be reported */
#include "hx.h"
static unsigned char *B[40];
static int nb;
static u64 N;
void harness_pre(void) {
  h_config();
  N = h_conc(h_sym("freq", 8, h_param("fmin", 1), h_param("fmax", 4)));
  h_setenv_num("DUMA_CHECK_FREQ", N);
  h_setenv("DUMA_FILL", "-1");
  if (h_param("below", 0)) h_setenv("DUMA_PROTECT_BELOW", "1");
  if (h_param("pf", 0)) h_setenv("DUMA_PROTECT_FREE", "0");
  if (h_param("sf", 0)) h_setenv_num("DUMA_SLACKFILL", h_sym("slackfill", 8, 0, 255));
}
void harness_abort(void) { h_reach("reported"); }
static void op(void) {
  void *p = 0;
  switch (h_conc(h_sym("op", 8, 0, h_param("kinds", 5)))) {
  case 0: B[nb++] = (unsigned char *)malloc(20 + (u64)nb); break;
  case 1: if (nb > 4) free(B[--nb]); else B[nb++] = (unsigned char *)calloc(3, 5); break;
  case 2: p = memalign(64, 100); B[nb++] = (unsigned char *)p; break;
  case 3: B[nb++] = (unsigned char *)_duma_strdup("abc", "t.c", 3); break;
  case 4: posix_memalign(&p, 16, 3); B[nb++] = (unsigned char *)p; break;
  default: B[nb++] = (unsigned char *)valloc(33);
  }
}
int harness_main(void) {
  u64 pre, i, f, j, k, v, s;
  unsigned char *p, *z;
  f = h_get("freq");
  N = h_conc(f);
  pre = h_conc(h_sym("pre", 8, 0, h_param("premax", 4)));
  for (i = 0; i < 4; ++i) B[nb++] = (unsigned char *)malloc(100 + 10 * i);
  for (i = 0; i < pre; ++i) { p = (unsigned char *)malloc(9); if (i & 1) { free(p); ++i; } else B[nb++] = p; }
  if (h_param("clean", 0)) {
    for (i = 0; i < h_param("ops", 3); ++i) { op(); if (nb) { B[nb - 1][0] = (unsigned char)h_sym("b", 8, 0, 255); } }
    h_reach("end");
    return 0;
  }
  j = h_conc(h_sym("j", 8, 0, 3));
  p = B[j];
  s = 100 + 10 * j;
  /* any byte of the page(s) of the block outside of it */
  z = (unsigned char *)((u64)p & ~(PG - 1));
  k = h_sym("k", 16, 0, PG - 1);
  h_assume(z + k < p || z + k >= p + s);
  v = h_sym("v", 8, 1, 255);
  z[k] ^= (unsigned char)v;
  h_abort_ok(1);
  for (i = 0; i < N; ++i) op();
  h_assert(0, "a corrupted byte is reported at the latest by the N-th operation");
  return 0;
}
