/* C12 one environment variable with any value; mode selects the variable. text=1: any short text instead of a number */
#include "hx.h"
#define T 3
static const char *const names[] = {"DUMA_ALIGNMENT", "DUMA_PROTECT_BELOW", "DUMA_FILL", "DUMA_SLACKFILL", "DUMA_MALLOC_0_STRATEGY", "DUMA_NEW_0_STRATEGY", "DUMA_MALLOC_FAILEXIT",
  "DUMA_FREE_ACCESS", "DUMA_PROTECT_FREE", "DUMA_MAX_ALLOC", "DUMA_CHECK_FREQ", "DUMA_SHOW_ALLOC", "DUMA_MEMCPY_OVERLAP", "DUMA_SKIPCOUNT_INIT", "DUMA_OUTPUT_STDERR", "DUMA_REPORT_ALL_LEAKS", "DUMA_OUTPUT_DEBUG", "DUMA_UNKNOWN", "DUMA_SUPPRESS_ATEXIT", "DUMA_OUTPUT_STACKTRACE"};
void DUMA_delFrame(void);
extern int mprotect(void *, size_t, int);
static u64 size(void) { u64 m = h_param("nmax", 0); return m ? h_sym("n", 16, 1, m) : x_size("n", "npg", 0, h_param("pg", 1)); }
static int64_t value(void) { /* the reference reading of the variable */
  char t[T + 1];
  int64_t v = 0, neg = 0;
  u64 i;
  if (h_param("text", 0) == 0) {
    if (h_get("neg")) return -(int64_t)h_get("mag");
    return (int64_t)h_get("mag");
  }
  for (i = 0; i < T; ++i) { static const char *const nm[T] = {"t0", "t1", "t2"}; t[i] = (char)h_get(nm[i]); }
  t[T] = 0;
  i = 0;
  while (t[i] == ' ' || (t[i] >= 9 && t[i] <= 13)) ++i;
  if (t[i] == '-' || t[i] == '+') neg = t[i++] == '-';
  while (t[i] >= '0' && t[i] <= '9') v = v * 10 + (t[i++] - '0');
  return neg ? -v : v;
}
void harness_pre(void) {
  u64 mode = h_param("mode", 0), lo = h_param("lo", 0), hi = h_param("hi", 0x7fffffff);
  char t[T];
  if (mode != 14) h_setenv("DUMA_DISABLE_BANNER", "1");
  if (h_param("unset", 0) == 0) {
    if (h_param("text", 0)) {
      t[0] = (char)h_sym("t0", 8, 1, 127); t[1] = (char)h_sym("t1", 8, 1, 127); t[2] = (char)h_sym("t2", 8, 1, 127);
      h_setenv_bytes(names[mode], t, T);
    } else {
      u64 neg = h_conc(h_sym("neg", 1, 0, 1)), mag = h_sym("mag", 64, lo, hi);
      h_assume(neg == 0 || mag >= 1);
      if (mode == 0) { /* either no power of two or, one path each, 0 and all powers */
        u64 e = h_conc(h_sym("e", 8, h_param("e0", 0), h_param("e1", 32)));
        if (e == 32) h_assume(neg || (mag & (mag - 1)) != 0); else h_assume(!neg && mag == (e == 31 ? 0 : 1ull << e));
      }
      h_setenv_num(names[mode], neg ? 0 - mag : mag);
    }
  }
  if (mode == 0) h_abort_ok(1);
  if (mode == 14) h_real_print(1);
}
int harness_main(void) {
  u64 mode = h_param("mode", 0), unset = h_param("unset", 0), n, k, on, r;
  int64_t v = unset ? 0 : value();
  unsigned char *p, *q;
  on = v != 0;
  if (mode == 0) h_abort_ok(0);
  switch (mode) {
  case 0: { /* powers of two (0 counts as 1) are applied; anything else is refused where it would be applied */
    u64 e = h_param("text", 0) || unset ? 33 : h_get("e"), a = unset ? 1 : e == 33 ? (v ? (u64)v : 1) : e == 31 ? 1 : e == 32 ? 0 : 1ull << e, al;
    n = size();
    h_abort_ok(a == 0 || (a & (a - 1)) != 0);
    p = (unsigned char *)malloc(n);
    h_abort_ok(0);
    if (a == 0) a = (u64)v;
    al = n < a ? pow2floor(n) : a;
    h_assert((al & (al - 1)) == 0, "an alignment that is no power of two is refused");
    h_assert(((u64)p & (al - 1)) == 0, "the configured alignment is applied");
    h_assert(UP(p + n) - (u64)(p + n) < al, "the block ends at the guard page");
    free(p);
    break;
  }
  case 1:
    n = size();
    p = (unsigned char *)malloc(n);
    h_assert(on ? NOACC(((u64)p & ~(PG - 1)) - 1) && ((u64)p & (PG - 1)) == 0 : NOACC(UP(p + n)) && H_ACC(p + n - 1), "the guard page is on the configured side");
    h_assert(on ? 1 : UP(p + n) - (u64)(p + n) == 0, "the block ends at the guard page");
    break;
  case 2: {
    u64 f = unset ? 255 : v == -1 ? 0 : (u64)v & 255; /* fresh pages are zero */
    n = size();
    k = h_sym("k", 16, 0, 2 * PG - 1);
    h_assume(k < n);
    p = (unsigned char *)malloc(n);
    h_assert(p[k] == f, "every byte of a new block has the configured value");
    p = (unsigned char *)calloc(n, 1);
    h_assert(p[k] == 0, "calloc gives zeroes");
    break;
  }
  case 3:
    n = size();
    p = (unsigned char *)malloc(n);
    k = h_sym("k", 16, 1, PG);
    h_assume(k <= ((u64)p & (PG - 1)));
    h_assert(p[-(int64_t)k] == (unset ? 0xAA : (u64)v & 255), "every byte of the slack has the configured value");
    free(p);
    break;
  case 4: { /* 0 stop, 1 NULL, 2 one address, 3 unique addresses; anything else: 3 */
    int64_t s = unset || v < 0 || v > 3 ? 3 : v;
    h_abort_ok(s == 0);
    p = (unsigned char *)malloc(0);
    h_assert(s != 0, "strategy 0 stops");
    q = (unsigned char *)malloc(0);
    h_assert(s != 1 || (p == 0 && q == 0), "strategy 1 gives NULL");
    h_assert(s != 2 || (p == q && p && NOACC(p)), "strategy 2 gives one inaccessible address");
    h_assert(s != 3 || (p != q && p && q && NOACC(p) && NOACC(q)), "strategy 3 gives unique inaccessible addresses");
    free(p);
    free(q);
    break;
  }
  case 5: {
    int64_t s = !unset && v == 2 ? 2 : 3;
    p = (unsigned char *)_duma_allocate(0, 0, 0, 255, 1, EFA_NEW_ELEM, DUMA_FAIL_NULL, "t.c", 1);
    q = (unsigned char *)_duma_allocate(0, 0, 0, 255, 1, EFA_NEW_ARRAY, DUMA_FAIL_NULL, "t.c", 1);
    h_assert(p && q && NOACC(p) && NOACC(q), "operator new of zero bytes gives inaccessible addresses");
    h_assert(s == 2 ? p == q : p != q, "the strategy for operator new is applied");
    _duma_deallocate(p, 1, EFA_DEL_ELEM, "t.c", 2);
    _duma_deallocate(q, 1, EFA_DEL_ARRAY, "t.c", 2);
    break;
  }
  case 6:
    if (unset) on = 1;
    h_os_fail(1, 2);
    h_abort_ok(on);
    p = (unsigned char *)malloc(3000000);
    h_assert(!on && p == 0, "a failing request stops the program or returns NULL as configured");
    h_abort_ok(0);
    h_assert(_duma_allocate(0, 3000000, 0, 255, 1, EFA_NEW_ELEM, DUMA_FAIL_NULL, "t.c", 1) == 0, "a request that must not stop returns NULL");
    break;
  case 7: /* the first byte is written before it is released, so a write protected block is noticed */
    p = (unsigned char *)malloc(PG);
    mprotect(p, PG, 1);
    h_segv_ok(on);
    free(p);
    h_assert(!on, "the block is written before it is released");
    break;
  case 8:
    n = x_size("n", "npg", 0, 0);
    p = (unsigned char *)malloc(n);
    free(p);
    h_assert(NOACC(p), "freed memory is inaccessible");
    /* start-up keeps 8 kB protected if it may, the block needs 8 more */
    if (v < 0 || unset) h_assert(h_perm(p) == H_NONE, "negative: freed memory is kept protected");
    if (v == 0 && !unset) h_assert(h_perm(p) == 0, "zero: freed memory is given back");
    if (v >= 16) h_assert(h_perm(p) == H_NONE, "freed memory is kept protected up to the limit");
    if (v > 0 && v < 8) h_assert(h_perm(p) == 0, "more than the limit is not kept protected");
    break;
  case 9:
    p = (unsigned char *)malloc(10);
    q = (unsigned char *)malloc(1200000);
    h_assert(p && q && H_ACC(p) && H_ACC(q), "the limit never refuses a request");
    free(p);
    h_assert(NOACC(p), "freed memory is inaccessible");
    p = (unsigned char *)malloc(1300000);
    h_assert(p && H_ACC(p), "the limit never refuses a request");
    break;
  case 10: /* any frequency up to 4 notices within 4 operations, 0, negative and unset never do */
    p = (unsigned char *)malloc(5);
    *(volatile unsigned char *)(p - 7) ^= 1;
    h_abort_ok(v > 0 && !unset);
    for (k = 0; k < 4; ++k) { q = (unsigned char *)malloc(3); if (k == 2) h_reach("ops"); }
    h_abort_ok(0);
    h_assert(v <= 0 || v > 4 || unset, "a check frequency of N notices a corruption within N operations");
    break;
  case 11:
  case 14:
    if (mode == 14) {
      if (unset) on = 1;
      for (k = 0; k < h_out_len(); ++k) h_assert(h_out_fd(k) == 2, "standard error only");
      h_assert((h_out_len() > 0) == (on != 0), "messages are written to standard error if configured");
    } else {
      h_real_print(1);
      h_out_reset();
      p = (unsigned char *)malloc(10);
      h_assert((h_out_len() > 0) == on, "allocations are printed if configured");
      h_out_reset();
      free(p);
      h_assert((h_out_len() > 0) == on, "releases are printed if configured");
    }
    break;
  case 12:
    p = (unsigned char *)malloc(20);
    for (k = 0; k < 20; ++k) p[k] = (unsigned char)(k + 1);
    h_abort_ok(!on);
    _duma_memcpy(p, p + 3, 10, "t.c", 5);
    h_abort_ok(0);
    h_assert(on, "an overlap is diagnosed unless allowed");
    for (k = 0; k < 10; ++k) h_assert(p[k] == k + 4, "an allowed overlap is copied exactly");
    h_abort_ok(1);
    _duma_memcpy(p + 3, p, 10, "t.c", 6);
    h_assert(0, "an overlap with the destination above the source is always diagnosed");
    break;
  case 15:
    p = (unsigned char *)malloc(20);
    q = (unsigned char *)malloc(30);
    free(q);
    h_real_print(1);
    h_out_reset();
    DUMA_delFrame();
    h_assert(h_out_len() > 0, "a leak is announced");
    h_assert((h_out_byte(0) == '\n') == (on != 0), "leaks of unknown origin are listed if configured");
    break;
  default: /* no effect on blocks */
    n = x_size("n", "npg", 0, 0);
    p = (unsigned char *)malloc(n);
    k = h_sym("k", 16, 0, PG - 1);
    h_assume(k < n);
    h_assert(H_ACC(p + k) && p[k] == 255 && NOACC(p + n), "the block is as without the variable");
    p = (unsigned char *)realloc(p, 20);
    duma_checkAll();
    free(p);
    h_assert(NOACC(p), "freed memory is inaccessible");
  }
  h_reach("end");
  (void)r;
  return 0;
}
