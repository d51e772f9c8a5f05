/* C10 slack bytes. A block of any size through any entry point; any byte between it and the neighbouring
 * page boundaries (wide=1: any accessible byte up to 'al' below it) is changed to any other value, then one of
 * how: 0 free 1 duma_check 2 duma_checkAll 3 realloc 4 realloc to 0 must report it.
 * clean=1: nothing outside is changed, every byte inside may be: nothing may be reported, nothing changes. */
#include "hx.h"
void harness_pre(void) {
  h_config();
  if (h_param("sf", 0)) h_setenv_num("DUMA_SLACKFILL", (u64)(int64_t)(int32_t)h_sym("slackfill", 32, 0, ~0u));
  if (h_param("below", 0)) h_setenv("DUMA_PROTECT_BELOW", "1");
  if (h_param("emax", 0)) h_setenv_num("DUMA_ALIGNMENT", 1ull << h_conc(h_sym("e", 8, 0, h_param("emax", 0))));
  if (h_param("nofill", 1)) h_setenv("DUMA_FILL", "-1");
  if (h_param("pf", 0)) h_setenv("DUMA_PROTECT_FREE", "0");
}
int harness_main(void) {
  u64 api = h_conc(h_sym("api", 8, h_param("api0", 0), h_param("api1", A_N - 1))), how = h_conc(h_sym("how", 8, h_param("how0", 0), h_param("how1", 4)));
  u64 n, al = 1, c, lo, hi, k, i, wide = h_param("wide", 0), sl;
  unsigned char *p, *o, v, old;
  x_prep();
  for (i = 0; i < h_param("pre", 0); ++i) o = (unsigned char *)malloc(i * 37 % 5000 + 1);
  o = (unsigned char *)malloc(50);
  n = x_size("n", "pages", 0, h_param("pg", 1));
  if (api == A_MEMALIGN || api == A_POSIX) al = 1ull << h_conc(h_sym("a", 8, h_param("amin", 3), h_param("amax", 4)));
  p = (unsigned char *)x_alloc(api, al, n);
  if (h_param("re", 0)) { n = x_size("n2", "pages2", 0, h_param("pg", 1)); p = (unsigned char *)_duma_realloc(p, n, "t.c", 3); }
  lo = (u64)p & ~(PG - 1);
  hi = UP(p + n);
  v = (unsigned char)h_sym("v", 8, 0, 255);
  if (h_param("clean", 0)) {
    k = h_sym("k", 64, 0, UP(n) - 1);
    h_assume(k < n);
    p[k] = v;
    old = h_load(p + k);
    duma_check(p);
    duma_checkAll();
    h_assert(h_load(p + k) == v, "a check changes no byte");
    h_assert(H_ACC(p + k), "a check leaves the protection as it was");
    h_assert(h_param("below", 0) ? NOACC(lo - 1) : NOACC(hi), "a check leaves the guard page as it was");
    if (hi > (u64)p + n) { /* the slack itself is unchanged, so that it stays checkable */
      u64 j = h_sym("j", 64, 0, PG - 1);
      h_assume((u64)p + n + j < hi);
      old = (unsigned char)h_load(p + n + j);
      duma_checkAll();
      h_assert(h_load(p + n + j) == old, "a check changes no slack byte");
    }
    switch (how) {
    case 3: p = (unsigned char *)_duma_realloc(p, 10, "t.c", 4); break;
    case 4: _duma_realloc(p, 0, "t.c", 4); break;
    default: x_free(p);
    }
    x_free(o);
    duma_checkAll();
    h_reach("clean");
    return 0;
  }
  if (wide) lo -= h_param("widepg", 4) * PG;
  c = h_sym("c", 64, 0, hi - lo - 1 > 1000000 ? ~0ull : (h_param("pg", 1) + 2 + (wide ? h_param("widepg", 4) : 0)) * PG) + lo;
  h_assume(c < hi && (c < (u64)p || c >= (u64)p + n));
  if (wide) h_assume(H_ACC(c) && c >= UP(o + 50)); /* not the block allocated before */
  old = (unsigned char)h_load((void *)c);
  h_assume(v != old);
  *(unsigned char *)c = v;
  h_trace("where", c - (u64)p);
  h_abort_ok(1);
  h_reach("corrupt");
  switch (how) {
  case 0: x_free(p); break;
  case 1: duma_check(p); break;
  case 2: duma_checkAll(); break;
  case 3: _duma_realloc(p, 10, "t.c", 4); break;
  default: _duma_realloc(p, 0, "t.c", 4);
  }
  h_assert(0, "a changed slack byte was not reported");
  return 0;
}
