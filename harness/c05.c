/* C05 alignment contract. mode 0: power-of-two alignments 2^amin..2^amax through memalign /
 * posix_memalign; 1: every 64-bit value that is no power of two through memalign; 2: every 64-bit
 * value through posix_memalign; 3: any DUMA_ALIGNMENT value, plain allocation; 4: valloc */
#include "hx.h"
static int pow2(u64 a) { return a != 0 && (a & (a - 1)) == 0; }
void harness_pre(void) {
  h_config();
  if (h_param("mode", 0) == 3) {
    int64_t v = (int32_t)h_sym("env", 32, 0, ~0u);
    h_setenv_num("DUMA_ALIGNMENT", (u64)v);
    /* the start-up test allocation already refuses such a setting */
    h_abort_ok(v > 0 && !pow2(v));
  }
  if (h_param("below", 0)) h_setenv("DUMA_PROTECT_BELOW", "1");
  if (h_param("nofill", 0)) h_setenv("DUMA_FILL", "-1");
  if (h_param("skew", 0)) h_map_skew(h_conc(h_sym("skew", 8, 0, h_param("skew", 0))));
}
static void good(char *p, u64 n, u64 al) {
  u64 k = h_sym("k", 64, 0, h_param("max", 4096) - 1);
  h_assume(k < n);
  h_assert(p != 0, "a satisfiable request is satisfied");
  h_assert(((u64)p & (al - 1)) == 0, "the block is aligned as requested");
  h_assert(H_ACC(p + k), "every byte of the block is accessible");
  h_trace("p", (u64)p);
  h_reach("aligned");
}
int harness_main(void) {
  u64 mode = h_param("mode", 0), n = h_sym("n", 64, 1, h_param("max", 4096)), a;
  void *p = 0;
  if (mode == 0) {
    u64 e = h_conc(h_sym("e", 8, h_param("amin", 0), h_param("amax", 14)));
    a = 1ull << e;
    h_abort_ok(e >= 40); /* more than the address space gives */
    if (h_param("posix", 0)) {
      int r = posix_memalign(&p, a, n);
      h_assert((r == EINVAL) == (a < sizeof(void *)), "the documented error exactly for unsupported alignments");
      if (r) { h_assert(r == EINVAL, "a satisfiable request is satisfied"); return 0; }
      good((char *)p, n, a);
    } else
      good((char *)memalign(a, n), n, a);
  } else if (mode == 1) {
    a = h_sym("a", 64, 3, ~0ull);
    h_assume((a & (a - 1)) != 0);
    h_abort_ok(1);
    h_reach("refused");
    p = memalign(a, n);
    h_assert(0, "an alignment that is not a power of two was honoured silently");
  } else if (mode == 2) {
    int r;
    a = h_sym("a", 64, 0, ~0ull);
    h_assume(a < 8 || (a & (a - 1)) != 0);
    p = (void *)16;
    h_reach("refused");
    r = posix_memalign(&p, a, n);
    h_assert(r == EINVAL, "the documented error for an unsupported alignment");
    h_assert(p == (void *)16, "a failing call leaves the result untouched");
  } else if (mode == 3) {
    int64_t v = (int32_t)h_get("env");
    u64 al = v < 0 ? n + 1 : v == 0 ? 1 : (u64)v, b;
    h_abort_ok(n >= al && !pow2(al));
    p = h_param("api", 0) == 1 ? realloc(0, n) : h_param("api", 0) == 2 ? calloc(1, n) : malloc(n);
    h_assert(n < al || pow2(al), "an alignment that is not a power of two was honoured silently");
    b = h_sym("b", 8, 0, 15);
    h_assume((1ull << b) <= n && (1ull << b) <= al);
    good((char *)p, n, 1ull << b);
  } else
    good((char *)valloc(n), n, PG);
  return 0;
}
