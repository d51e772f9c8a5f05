/* C14 a refusing operating system. A live block A, a freed block F, 'pre' earlier allocations; then mmap refuses
 * (any one / any number / every call, see budget, sticky) while 'ops' requests are made; afterwards the system
 * recovers. fe: DUMA_MALLOC_FAILEXIT, pf: DUMA_PROTECT_FREE 0 / symbolic limit, big: sizes that need a new mapping,
 * mode 0 requests, 1 refusal during start-up, 2 refused munmap while releasing, 3 refused mprotect */
#include "hx.h"
static unsigned char *A, *F, *P[1300];
static u64 na, k, v, armed;
void harness_pre(void) {
  h_config();
  u64 p = h_param("pf", 0);
  h_setenv("DUMA_MALLOC_FAILEXIT", h_param("fe", 0) ? "1" : "0");
  if (h_param("nofill", 1)) h_setenv("DUMA_FILL", "-1");
  if (p == 1) h_setenv("DUMA_PROTECT_FREE", "0");
  if (p == 2) h_setenv_num("DUMA_PROTECT_FREE", h_sym("limit", 16, 1, 4000));
  if (h_param("below", 0)) h_setenv("DUMA_PROTECT_BELOW", "1");
  if (h_param("maxalloc", 0)) h_setenv_num("DUMA_MAX_ALLOC", h_sym("maxalloc", 16, 1, 8000));
  if (h_param("mode", 0) == 1) { h_abort_ok(1); h_os_fail(h_param("budget", 3), h_param("sticky", 1)); }
  if (h_param("mode", 0) == 4) { h_abort_ok(1); h_mprot_fail(h_param("budget", 1)); }
}
void harness_abort(void) { h_reach("stopped"); if (armed) h_assert(h_load(A + k) == (int)v && H_ACC(A + k), "live blocks are untouched when the program is stopped"); }
static void intact(void) {
  h_assert(H_ACC(A + k), "a live block stays accessible when memory is refused");
  h_assert(h_load(A + k) == (int)v, "a live block keeps its contents when memory is refused");
  h_assert(h_param("below", 0) ? NOACC(((u64)A & ~(PG - 1)) - 1) : NOACC(UP(A + na)), "a live block keeps its guard page when memory is refused");
}
static void other(void *x) {
  unsigned char *p = (unsigned char *)malloc(10);
  p[9] = 1;
  free(p);
  *(int *)x = 1;
}
static unsigned char *request(u64 api, u64 n) {
  void *p = (void *)8;
  int r;
  if (api == A_POSIX) {
    r = posix_memalign(&p, 64, n);
    h_assert(r == 0 || r == ENOMEM, "posix_memalign reports a refusal as ENOMEM");
    h_assert((r == 0) == (p != 0), "posix_memalign reports a refusal");
    return (unsigned char *)p;
  }
  return (unsigned char *)x_alloc(api, 64, n);
}
int harness_main(void) {
  u64 i, n, fe = h_param("fe", 0), api, pre = h_param("pre", 0), pfree = h_param("prefree", 0), ops = h_param("ops", 1), mode = h_param("mode", 0), psz = h_param("presize", 10), j, d;
  unsigned char *p, *q[8];
  static int done;
  if (mode == 1 || mode == 4) { h_os_fail(0, 0); h_mprot_fail(0); h_abort_ok(0); }
  na = x_size("na", "napg", 0, 0);
  A = (unsigned char *)malloc(na);
  k = h_sym("k", 16, 0, 4095);
  v = h_sym("v", 8, 0, 255);
  h_assume(k < na);
  A[k] = (unsigned char)v;
  F = (unsigned char *)malloc(100);
  free(F);
  for (i = 0; i < pre; ++i) P[i] = (unsigned char *)malloc(psz);
  for (i = 0; i < pre; ++i) if (pfree && i % pfree == 0) { free(P[i]); P[i] = 0; }
  if (h_param("prevar", 0)) { /* any number of further small blocks, then one that leaves little of the mapping: all fill levels of the tables */
    u64 e = h_conc(h_sym("extra", 8, 0, h_param("prevar", 0))) * h_param("prestep", 1), a = h_conc(h_sym("eat", 16, h_param("eat0", 0), h_param("eat1", 63))) * h_param("eatstep", 4);
    for (i = 0; i < e; ++i) malloc(1);
    if (a) malloc(a * PG);
  }
  armed = 1;
  intact();
  if (mode == 2) { /* a release whose munmap is refused: freed memory is inaccessible all the same */
    h_munmap_fail(h_param("budget", 2));
    p = (unsigned char *)malloc(n = x_size("n", "npg", 0, 2));
    d = h_sym("d", 16, 0, 3 * PG - 1);
    h_assume(d < n);
    p[d] = 3;
    free(p);
    h_assert(NOACC(p + d), "freed memory is inaccessible");
    h_munmap_fail(0);
  } else if (mode == 3) { /* a refused change of protection stops the program or leaves everything right */
    h_abort_ok(1);
    h_mprot_fail(h_param("budget", 1));
    p = (unsigned char *)malloc(n = x_size("n", "npg", 0, 2));
    d = h_sym("d", 16, 0, 3 * PG - 1);
    h_assume(d < n);
    h_assert(H_ACC(p + d), "a returned block is accessible");
    h_assert(h_param("below", 0) ? NOACC(((u64)p & ~(PG - 1)) - 1) : NOACC(UP(p + n)), "a returned block has its guard page");
    if (h_param("ops", 1) > 1) { p = (unsigned char *)realloc(p, 30); h_assert(H_ACC(p + 29), "a returned block is accessible"); }
    free(p);
    h_assert(NOACC(p), "freed memory is inaccessible");
    h_mprot_fail(0);
    h_abort_ok(0);
  } else if (mode == 0) {
    h_os_fail(h_param("budget", 2), h_param("sticky", 0));
    for (i = 0; i < ops; ++i) {
      api = h_conc(h_sym("api", 8, h_param("api0", 0), h_param("api1", A_N))); /* A_N: realloc of A */
      n = h_param("big", 1) ? x_size("n", "npg", h_param("pmin", 600), h_param("pmax", 600)) : h_param("small", 10);
      h_abort_ok(fe);
      p = api == A_N ? (unsigned char *)realloc(A, n) : request(api, n);
      h_abort_ok(0);
      if (p) {
        h_reach("served");
        j = h_sym("j", 32, 0, UP(n) - 1);
        h_assume(j < n);
        h_assert(H_ACC(p + j), "a block that was returned is accessible");
        if (!h_param("below", 0)) h_assert(NOACC(UP(p + n)), "a block that was returned has its guard page");
        if (api == A_N) {
          A = p;
          if (k >= n) k = 0;
          na = n;
          A[k] = (unsigned char)v;
        } else {
          d = (u64)(A + k - p);
          h_assert(d >= n, "a new block does not overlap a live one");
        }
      } else {
        h_reach("refused");
        h_assert(!fe, "with DUMA_MALLOC_FAILEXIT a refused request does not return");
      }
      q[i % 8] = api == A_N ? 0 : p;
      if (h_param("keep", 0) == 0 && q[i % 8]) { free(q[i % 8]); q[i % 8] = 0; }
      intact();
    }
    h_os_fail(0, 0);
  }
  /* the system delivers again: everything works */
  intact();
  if (h_param("keep", 0) == 0) for (i = 0; i < ops && i < 8 && mode == 0; ++i) if (q[i]) free(q[i]);
  h_assert(malloc_usable_size(A) == na, "the bookkeeping is intact");
  duma_checkAll();
  p = (unsigned char *)malloc(1500000);
  h_assert(p && H_ACC(p + 1499999) && H_ACC(p), "later requests are served");
  free(p);
  p = (unsigned char *)calloc(3, 7);
  h_assert(p && p[20] == 0, "later requests are served");
  p = (unsigned char *)realloc(p, 5000);
  h_assert(p && H_ACC(p + 4999), "later requests are served");
  free(p);
  if (h_param("thread", 0)) { h_spawn(other, &done); h_join(); h_assert(done == 1, "the lock is available to other threads"); }
  for (i = 0; i < pre; ++i) if (P[i]) free(P[i]);
  intact();
  free(A);
  h_reach("end");
  return 0;
}
