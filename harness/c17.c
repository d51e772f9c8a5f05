/* C17 usable size: any entry point, any size, after other allocations, releases and reallocations */
#include "hx.h"
void harness_pre(void) {
  h_config();
  h_setenv("DUMA_FILL", "-1");
  if (h_param("below", 0)) h_setenv("DUMA_PROTECT_BELOW", "1");
  if (h_param("emax", 0)) h_setenv_num("DUMA_ALIGNMENT", 1ull << h_conc(h_sym("e", 8, 0, h_param("emax", 0))));
}
int harness_main(void) {
  u64 api = h_conc(h_sym("api", 8, h_param("api0", 0), h_param("api1", A_N))), n, al = 1, i, m, k;
  unsigned char *p, *q, *r;
  x_prep();
  for (i = 0; i < h_param("pre", 0); ++i) { r = (unsigned char *)malloc(i * 37 % 5000 + 1); if (i % 3 == 1) free(r); }
  h_assert(malloc_usable_size(0) == 0, "null has size zero");
  n = h_sym("n", 64, h_param("min", 1), h_param("max", 1ull << 32));
  if (api == A_N) { n = 4; p = (unsigned char *)strdup("abc"); }
  else {
    if (api == A_MEMALIGN || api == A_POSIX) al = 1ull << h_conc(h_sym("a", 8, 3, h_param("amax", 5)));
    p = (unsigned char *)x_alloc(api, al, n);
  }
  k = h_sym("k", 64, 0, h_param("max", 1ull << 32) - 1);
  h_assume(k < n);
  if (h_param("max", 1ull << 32) < 100000) p[k] = 42;
  h_assert(malloc_usable_size(p) == n, "the usable size is the size requested");
  h_assert(H_ACC(p + k), "the query leaves the block accessible");
  if (h_param("max", 1ull << 32) < 100000) h_assert(h_load(p + k) == 42, "the query changes no byte");
  h_assert(h_param("below", 0) ? NOACC(((u64)p & ~(PG - 1)) - 1) : NOACC(UP(p + n)), "the query leaves the guard page");
  q = (unsigned char *)malloc(77);
  if (h_param("re", 0)) {
    m = h_sym("m", 64, 1, 9000);
    p = (unsigned char *)realloc(p, m);
    h_assert(malloc_usable_size(p) == m, "the usable size follows reallocation");
  }
  h_assert(malloc_usable_size(q) == 77, "every block has its own size");
  free(q);
  if (!h_param("re", 0)) h_assert(malloc_usable_size(p) == n, "other releases do not matter");
  free(p);
  h_reach("end");
  return 0;
}
