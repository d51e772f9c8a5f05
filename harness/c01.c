/* C01/C02 guard page: one allocation through any entry point; every size in the bounds, default
 * alignment 2^0..2^emax from the environment, explicit alignment 2^0..2^amax, mapping at any of
 * skew+1 page offsets; 'pre' earlier allocations of symbolic size.
 * below: 0 guard above (default), 1 guard below by environment, 2 guard below by the per-thread setting */
#include "hx.h"
void harness_pre(void) {
  h_config();
  u64 em = h_param("emax", 0);
  if (em) h_setenv_num("DUMA_ALIGNMENT", 1ull << h_conc(h_sym("e", 8, h_param("emin", 0), em)));
  if (h_param("nofill", 0)) h_setenv("DUMA_FILL", "-1");
  if (h_param("below", 0) == 1) h_setenv("DUMA_PROTECT_BELOW", "1");
  if (h_param("skew", 0)) h_map_skew(h_conc(h_sym("skew", 8, 0, h_param("skew", 0))));
}
int harness_main(void) {
  u64 em = h_param("emax", 0), al = em ? 1ull << h_get("e") : 1, ra = 1, ea, i, n, k;
  u64 api = h_conc(h_sym("api", 8, h_param("api0", 0), h_param("api1", A_N - 1)));
  u64 below = h_param("below", 0), want;
  char *p;
  n = h_sym("n", 64, h_param("min", 1), h_param("max", 8192));
  k = h_sym("k", 64, 0, h_param("max", 8192) - 1);
  h_assume(k < n);
  if (api == A_MEMALIGN || api == A_POSIX) ra = 1ull << h_conc(h_sym("a", 8, api == A_POSIX && h_param("amin", 0) < 3 ? 3 : h_param("amin", 0), h_param("amax", 4)));
  x_prep();
  if (below == 2) { malloc(1); x_set_below(1); }
  for (i = 0; i < h_param("pre", 0); ++i) malloc(h_sym("pre", 16, 1, 5000));
  p = (char *)x_alloc(api, ra, n);
  h_assert(p != 0, "a satisfiable request is satisfied");
  ea = api == A_MEMALIGN || api == A_POSIX ? ra : api == A_VALLOC ? PG : al;
  if (api != A_MEMALIGN && api != A_POSIX && api != A_VALLOC && n < al) ea = pow2floor(n);
  h_assert(((u64)p & (ea - 1)) == 0, "the block is aligned");
  if (!below)
    x_live(p, n, k, ea);
  else {
    u64 g;
    h_assert(H_ACC(p + k), "every byte of a live block is accessible");
    h_assert(((u64)p & (PG - 1)) == 0, "the block starts at a page boundary");
    /* the nearest inaccessible address below: within the page before the block */
    h_assert(NOACC(p - 1), "the byte before the block is inaccessible");
    h_assert(NOACC(p - PG), "the page before the block is inaccessible");
    g = (u64)p + n;
    /* nothing past the block's own last page became accessible by handing it out */
    if (h_param("edge", 0)) h_assert(NOACC(UP(g)), "the memory handed out ends inside its mapping");
  }
  h_trace("p", (u64)p);
  h_reach("end");
  return 0;
}
