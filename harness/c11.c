/* C11 zero-size requests. strat: value of MALLOC_0_STRATEGY (0..3), or a symbolic 32-bit value when
 * any=1; api: entry point; then[]: what happens to the pointer afterwards */
#include "hx.h"
static int s;
void harness_pre(void) {
  h_config();
  const char *key = h_param("oldname", 1) ? "MALLOC_0_STRATEGY" : "DUMA_MALLOC_0_STRATEGY";
  if (h_param("dflt", 0) == 0) h_setenv_num(key, (u64)(int64_t)(int32_t)h_sym("strat", 32, 0, ~0u));
  if (h_param("below", 0)) h_setenv("DUMA_PROTECT_BELOW", "1");
  if (h_param("left", 99) < 99) h_setenv("DUMA_FILL", "-1");
  if (h_param("pf", 0)) h_setenv("DUMA_PROTECT_FREE", "0");
}
static void *zero(u64 api, u64 i) {
  void *p = (void *)0;
  switch (api) {
  case 8: return calloc(5 + i, 0);
  case 9: return calloc(0, 7 + i);
  case 10: return _duma_realloc(0, 0, "t.c", 5);
  case 11: return memalign(4096, 0);
  default: return x_alloc(api, 64, 0);
  }
}
int harness_main(void) {
  u64 api = h_conc(h_sym("api", 8, h_param("api0", 0), h_param("api1", 11))), then = h_conc(h_sym("then", 8, 0, 4)), k, n = 0, i;
  int v = h_param("dflt", 0) ? 3 : (int)h_get("strat");
  char *p, *p2, *a = (char *)malloc(20), *r;
  x_prep();
  s = v >= 0 && v <= 3 ? v : 3;
  a[19] = 9;
  h_abort_ok(s == 0);
  p = (char *)zero(api, 0);
  h_assert(s != 0, "strategy 0 stops the program");
  p2 = (char *)zero(api, 1);
  if (s == 1) {
    h_assert(p == 0 && p2 == 0, "strategy 1 returns null");
    h_reach("null");
  } else {
    h_assert(p != 0 && NOACC(p), "the address of a zero-size block is inaccessible");
    h_assert(p2 != 0 && NOACC(p2), "the address of a zero-size block is inaccessible");
    h_assert(NOACC(p - 1), "the byte before it is inaccessible");
    h_assert(s == 2 ? p == p2 : p != p2, "strategy 2 returns one address, strategy 3 distinct ones");
    h_reach("addr");
  }
  h_abort_ok(0);
  switch (then) {
  case 0: free(p); free(p2); break;
  case 1:
    n = h_sym("n", 16, 1, 5000);
    k = h_sym("k", 16, 0, 4999);
    h_assume(k < n);
    r = (char *)realloc(p, n);
    h_assert(r != 0 && H_ACC(r + k), "reallocating a zero-size block gives a block of the new size");
    h_assert(h_load(r + k) == (s == 1 && h_param("left", 99) == 99 ? 255 : 0), "the added bytes are initialised as documented");
    h_assert(NOACC(UP(r + n)) || h_param("below", 0), "guarded");
    free(r);
    free(p2);
    break;
  case 2: h_assert(malloc_usable_size(p) == 0, "the usable size of a zero-size block is zero"); free(p); break;
  case 3: r = (char *)realloc(p, 0); h_assert(r == 0 || s == 1 || NOACC(r), "no access"); if (s >= 2) free(p2); break;
  default:
    if (s == 2) return 0; /* duma_check of the shared address is left open */
    duma_check(p); duma_checkAll(); free(p); duma_check(p2);
  }
  for (i = 0; i < 2; ++i) { /* the library is fully usable */
    r = (char *)malloc(100);
    h_assert(r && H_ACC(r + 99) && r != p && r != p2, "later allocations work and do not reuse the address");
  }
  h_assert(a[19] == 9, "other blocks are untouched");
  duma_check(a);
  free(a);
  h_reach("end");
  return 0;
}
