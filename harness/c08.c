/* C08 invalid releases (also C17 queries). State: live block A (symbolic size), block F freed earlier,
 * zero-size block Z, optional 'pre' further blocks of which every 'prefree'-th is freed.
 * call: 0 free(q) 1 realloc(q,n) 2 realloc(q,0) 3 malloc_usable_size(q) 4 duma_check(q)
 * which: 0 q = any 64-bit value that is no live block, 1 q = F (again), 2 q interior of A, 3 valid releases only,
 * 4 q = F after further allocations */
#include "hx.h"
static unsigned char *A, *F, *Z, *q;
static u64 na, nf, k, v;
static u64 armed;
void harness_pre(void) {
  h_config();
  u64 p = h_param("pf", 0);
  if (p == 1) h_setenv("DUMA_PROTECT_FREE", "0");
  if (p == 2) h_setenv_num("DUMA_PROTECT_FREE", h_sym("limit", 16, 1, 64));
  if (h_param("below", 0)) h_setenv("DUMA_PROTECT_BELOW", "1");
  if (h_param("nofill", 0)) h_setenv("DUMA_FILL", "-1");
  if (h_param("skew", 0)) h_map_skew(h_conc(h_sym("skew", 8, 0, h_param("skew", 0))));
}
void harness_abort(void) {
  if (!armed) return;
  h_assert(H_ACC(A + k) && h_load(A + k) == (int)v, "a live block is untouched when an invalid release is diagnosed");
  h_assert(!F || NOACC(F), "a freed block stays inaccessible when an invalid release is diagnosed");
  h_assert(!Z || NOACC(Z), "a zero-size block stays inaccessible when an invalid release is diagnosed");
  h_reach("diagnosed");
}
int harness_main(void) {
  u64 call = h_param("call", 0), which = h_param("which", 0), i, pre = h_param("pre", 0), n = 0, r;
  static unsigned char *P[300];
  void *np;
  x_prep();
  na = x_size("na", "napg", 0, h_param("pg", 1));
  nf = x_size("nf", "nfpg", 0, h_param("pg", 1));
  A = (unsigned char *)malloc(na);
  k = h_sym("k", 64, 0, UP(na) - 1);
  v = h_sym("v", 8, 0, 255);
  h_assume(k < na);
  A[k] = (unsigned char)v;
  Z = (unsigned char *)malloc(0);
  h_assert(Z != 0, "zero-size block");
  F = (unsigned char *)malloc(nf);
  for (i = 0; i < pre; ++i) P[i] = (unsigned char *)malloc(1 + i % 5 * 50);
  for (i = 0; i < pre && h_param("prefree", 0); i += h_param("prefree", 0)) { free(P[i]); P[i] = 0; }
  free(F);
  free(0);
  if (call == 1) n = h_sym("n", 16, 1, 300);
  if (which == 3) { /* everything is valid */
    h_reach("call");
    duma_check(A);
    duma_checkAll();
    h_assert(malloc_usable_size(A) == na, "usable size of a live block");
    if (call == 1) { A = (unsigned char *)realloc(A, n); h_assert(A != 0, "valid realloc"); h_reach("valid"); free(A); free(Z); return 0; }
    if (call == 2) h_assert(realloc(A, 0) == 0, "realloc to zero"); else free(A);
    h_assert(NOACC(A), "released");
    if (call == 2) h_assert(realloc(Z, 0) == 0, "realloc to zero"); else free(Z);
    for (i = 0; i < pre; ++i) free(P[i]);
    h_reach("valid");
    return 0;
  }
  if (which == 4) { h_assume(h_param("pf", 0) == 0); np = malloc(nf); np = malloc(h_sym("m", 16, 1, 9000)); }
  if (which == 1 || which == 4) q = F;
  else if (which == 2) { u64 o = h_sym("o", 64, 1, UP(na)); h_assume(o < na); q = A + o; }
  else {
    q = (unsigned char *)h_sym("q", 64, 0, ~0ull);
    h_assume((void *)q != x_p0 && (void *)q != x_p1 && q != A && q != Z && q != 0 && (void *)q != x_null_addr());
    for (i = 0; i < pre; ++i) h_assume(q != P[i]);
  }
  armed = 1;
  h_abort_ok(1);
  h_reach("call");
  switch (call) {
  case 0: free(q); break;
  case 1: np = realloc(q, n); break;
  case 2: np = realloc(q, 0); break;
  case 3: r = malloc_usable_size(q); break;
  default: duma_check(q);
  }
  h_assert(0, "a pointer that is not the start of a live block was accepted");
  return 0;
}
