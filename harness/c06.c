/* C06 initial contents: api 0..7 as x_alloc, any DUMA_FILL (env) or DUMA_SET_FILL value, any size, any byte */
#include "hx.h"
void harness_pre(void) {
  h_config();
  if (h_param("env", 1)) h_setenv_num("DUMA_FILL", (u64)(int64_t)(int32_t)h_sym("fill", 32, 0, ~0u));
  if (h_param("below", 0)) h_setenv("DUMA_PROTECT_BELOW", "1");
  if (h_param("nofill", 0)) h_setenv("DUMA_FILL", "-1");
  if (h_param("pf0", 0)) h_setenv("DUMA_PROTECT_FREE", "0");
}
int harness_main(void) {
  u64 api = h_conc(h_sym("api", 8, h_param("api0", 0), h_param("api1", A_N - 1))), n, k, al = 1;
  int fill = h_param("env", 1) ? (int)h_get("fill") : 255, want, i;
  char *p, *q;
  x_prep();
  for (i = 0; i < (int)h_param("pre", 0); ++i) { /* dirty memory that was released earlier */
    u64 m = h_sym("m", 16, 1, 6000), j = h_sym("j", 16, 0, 5999);
    h_assume(j < m);
    q = (char *)malloc(m);
    q[j] = 0x77;
    free(q);
  }
  if (h_param("env", 1) == 0 && h_param("set", 0)) {
    fill = (int)h_sym("set", 32, 0, ~0u);
    malloc(1);
    x_set_fill(fill);
  }
  n = h_sym("n", 64, 1, h_param("max", 8192));
  k = h_sym("k", 64, 0, h_param("max", 8192) - 1);
  h_assume(k < n);
  if (api == A_MEMALIGN || api == A_POSIX) al = 1ull << h_conc(h_sym("a", 8, 3, h_param("amax", 5)));
  p = (char *)x_alloc(api, al, n);
  h_assert(p != 0, "a satisfiable request is satisfied");
  want = fill == -1 || api == A_CALLOC || api == A_CALLOC1 ? 0 : fill & 255;
  h_assert(h_load(p + k) == want, "every byte of a fresh block has the documented value");
  h_trace("byte", (u64)h_load(p + k));
  h_reach("end");
  free(p);
  h_reach("freed"); /* the fill stayed within the block: the slack is intact */
  return 0;
}
