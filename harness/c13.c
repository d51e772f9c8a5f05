/* C13 impossible sizes. Size n = any value in [lo, lo+w] (or up to 2^64-1 when hi=1).
 * api: 0..7 as x_alloc, 8 calloc(count, size) with every 64-bit count and size = m*2^e, 9 realloc of a
 * live block, 10 calloc(size, count). fe: DUMA_MALLOC_FAILEXIT, pf0: DUMA_PROTECT_FREE=0 */
#include "hx.h"
void harness_pre(void) {
  h_config();
  h_setenv("DUMA_FILL", "-1");
  h_setenv("DUMA_MALLOC_FAILEXIT", h_param("fe", 0) ? "1" : "0");
  if (h_param("below", 0)) h_setenv("DUMA_PROTECT_BELOW", "1");
  if (h_param("pf0", 0)) h_setenv("DUMA_PROTECT_FREE", "0");
}
int harness_main(void) {
  u64 api = h_param("api", 0), lo = h_param("lo", 1), n, k, al = 1, q, a, b, e, m;
  unsigned __int128 tot;
  unsigned char *o = (unsigned char *)malloc(100), *p;
  u64 live;
  int fe = (int)h_param("fe", 0);
  o[99] = 7;
  live = (u64)o;
  if (api == 8 || api == 10) {
    /* the element size m * 2^e, the count any 64-bit value whose product leaves 64 bits or not */
    e = h_conc(h_sym("e", 8, h_param("emin", 0), h_param("emax", 63)));
    m = h_conc(h_sym("m", 8, 1, h_param("mmax", 3)));
    b = m << e;
    h_assume(b >> e == m);
    a = h_sym("count", 64, h_param("c0", 0), ~0ull);
    tot = (unsigned __int128)a * b;
    h_assume(tot > 65536);
    n = (u64)(tot >> 63) ? ~0ull : (u64)tot; /* saturated: only compared and used as bound */
    h_abort_ok(fe);
    errno = 0;
    p = (unsigned char *)(api == 8 ? calloc(a, b) : calloc(b, a));
  } else {
    n = h_sym("n", 64, lo, h_param("hi", 0) ? ~0ull : lo + h_param("w", 8192));
    if (api == A_MEMALIGN || api == A_POSIX) al = 1ull << h_conc(h_sym("a", 8, h_param("amin", 3), h_param("amax", 63)));
    h_abort_ok(fe);
    errno = 0;
    p = (unsigned char *)(api == 9 ? _duma_realloc(o, n, "t.c", 9) : x_alloc(api, al, n));
  }
  if (p) {
    if (api == 9) live = 0;
    h_reach("satisfied");
    k = h_sym("k", 64, 0, ~0ull);
    h_assume(k < n);
    q = (u64)p + k;
    h_assert(q >= (u64)p, "the block does not wrap around the address space");
    h_assert(H_ACC(q), "every requested byte of the block is accessible");
    h_assert(((u64)p & (al - 1)) == 0, "the block is aligned");
    h_assert(!live || (u64)o < (u64)p || (u64)o - (u64)p >= n, "the block does not overlap a live one");
    if (!h_param("below", 0)) h_assert(NOACC(UP((u64)p + n)), "the page after the block is inaccessible");
  } else
    h_reach("refused");
  if (live) {
    h_assert(H_ACC(o + 99) && o[99] == 7, "a refused request leaves other blocks alone");
    free(o);
  }
  if (h_param("nofin", 0)) { h_reach("end"); return 0; }
  p = (unsigned char *)malloc(10);
  h_assert(p && H_ACC(p + 9), "the library stays usable");
  h_reach("end");
  return 0;
}
