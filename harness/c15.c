/* C15 limits: DUMA_PROTECT_FREE (pf 2: any limit up to lmax, 1: none) and DUMA_MAX_ALLOC (ma: any value up to mmax).
 * cycles: that many allocations and releases instead.
 * ops operations, each an allocation of one of the page counts sz0..sz3 or a release of any block; the memory kept
 * protected and the memory mapped are measured after each of them. */
#include "hx.h"
#define MAXB 12
static struct { unsigned char *p; u64 n, live; } B[MAXB];
static int nb;
void harness_pre(void) {
  h_setenv("DUMA_FILL", "-1");
  if (h_param("pf", 2) == 2) h_setenv_num("DUMA_PROTECT_FREE", h_sym("limit", 16, h_param("lmin", 1), h_param("lmax", 64)));
  if (h_param("ma", 0)) h_setenv_num("DUMA_MAX_ALLOC", h_sym("maxalloc", 16, h_param("mmin", 1), h_param("mmax", 4000)));
  if (h_param("below", 0)) h_setenv("DUMA_PROTECT_BELOW", "1");
}
static u64 kept(int i) { /* bytes of a freed block that are still reserved */
  u64 a, s = 0, lo, hi;
  lo = (u64)B[i].p & ~(PG - 1);
  hi = UP(B[i].p + B[i].n) + PG;
  if (h_param("below", 0)) { lo -= PG; hi -= PG; }
  for (a = lo; a < hi; a += PG) if (h_perm((void *)a) != 0) s += PG;
  return s;
}
static u64 prot(void) { u64 s = 0; int i; for (i = 0; i < nb; ++i) if (!B[i].live) s += kept(i); return s; }
int harness_main(void) {
  u64 ops = h_param("ops", 4), o, lim = h_param("pf", 2) == 2 ? h_get("limit") : ~0ull, mx = h_param("ma", 0) ? h_get("maxalloc") : ~0ull, sz[4], pb, mb, pa, ma, isz, pre = h_param("pre", 0), i;
  static unsigned char *P[600];
  sz[0] = h_param("sz0", 0); sz[1] = h_param("sz1", 1); sz[2] = h_param("sz2", 3); sz[3] = h_param("sz3", 254);
  for (i = 0; i < pre; ++i) P[i] = (unsigned char *)malloc(20);
  if (h_param("cycles", 0)) { /* no drift: the memory in use is bounded however often blocks come and go */
    for (i = 0; i < h_param("cycles", 0); ++i) {
      P[0] = (unsigned char *)malloc(100);
      P[0][99] = 1;
      free(P[0]);
      h_assert(NOACC(P[0]), "freed memory is inaccessible");
      h_assert(h_mapped() <= (1 << 20) + lim * 1024 + 10 * PG, "the memory in use does not grow with the number of operations");
    }
    h_reach("end");
    return 0;
  }
  for (o = 0; o < ops; ++o) {
    u64 kind = h_conc(h_sym("kind", 8, 0, 1));
    h_trace("kind", kind);
    pb = prot();
    mb = h_mapped();
    if (kind == 0) {
      u64 n = sz[h_conc(h_sym("size", 8, 0, h_param("nsz", 3) - 1))] * PG + (h_param("r", 0) ? h_param("r", 0) : h_sym("r", 16, 1, PG));
      B[nb].p = (unsigned char *)malloc(n);
      B[nb].n = n;
      B[nb].live = 1;
      h_assert(B[nb].p != 0, "a satisfiable request is satisfied");
      pa = prot();
      ++nb;
      ma = h_mapped();
      h_trace("mapped", ma);
      if (ma > mb) {
        h_reach("grown");
        h_assert((ma - 2 * PG) / 1024 <= mx || ma <= mb || pa == 0, "no allocation raises the total above DUMA_MAX_ALLOC while freed memory is kept");
      }
      if (mx == ~0ull || ma / 1024 <= mx) { h_assert(pa == pb || ma + (pb - pa) > mx * 1024, "an allocation that fits releases no protected memory"); }
    } else {
      int c = 0, t, j = 0;
      for (i = 0; i < (u64)nb; ++i) c += (int)B[i].live;
      h_assume(c > 0);
      t = (int)h_conc(h_sym("pick", 8, 0, (u64)c - 1));
      for (j = 0; j < nb; ++j) if (B[j].live && t-- == 0) break;
      isz = UP(B[j].n) + PG;
      free(B[j].p);
      B[j].live = 0;
      h_assert(NOACC(B[j].p), "freed memory is inaccessible");
      h_reach("freed");
      if (lim == ~0ull || (pb + isz + 2 * PG) / 1024 <= lim) /* 2 pages: the block tried at start-up */ { h_assert(kept(j) == isz, "freed memory that fits the limit stays protected"); h_reach("kept"); }
      else if (isz / 1024 > lim) { h_assert(kept(j) == 0, "freed memory that exceeds the limit alone is not kept"); h_reach("released"); }
      pa = prot();
    }
    h_assert(lim == ~0ull || pa / 1024 <= lim, "the freed memory kept protected never exceeds DUMA_PROTECT_FREE");
  }
  for (i = 0; i < pre; ++i) free(P[i]);
  h_reach("end");
  return 0;
}
