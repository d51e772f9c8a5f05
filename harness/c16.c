/* C16 checked copy functions. mode 0: a buffer of W arbitrary bytes, any two positions, any length
 * (fn 0 memcpy 1 memmove 2 strcpy 3 strncpy 4 strcat 5 strncat 6 strdup), global functions when g=1.
 * mode 1: memcpy / memmove with any length up to 'max' at any distance, checked at arbitrary probes.
 * mode 2: lengths of 4 GiB and more */
#include "hx.h"
#include <string.h>
#define MX 72
static unsigned char b[MX], o[MX];
void harness_pre(void) {
  if (h_param("mode", 0)) h_setenv("DUMA_FILL", "-1");
  if (h_param("overlap", 0)) h_setenv("DUMA_MEMCPY_OVERLAP", "1");
}
static u64 len(u64 p, u64 lim) { u64 i = 0; while (i < lim && o[p + i]) ++i; return i; }
static void small(u64 fn, u64 g) {
  u64 W = h_param("W", 6), d, s, n = 0, i, cnt, e[MX], L, D, rd, olap;
  char *r;
  for (i = 0; i < MX; ++i) b[i] = (unsigned char)(0x30 + i);
  for (i = 0; i < W; ++i) b[i] = (unsigned char)h_sym("b", 8, 0, 255);
  b[W] = 0;
  d = h_conc(h_sym("d", 8, 0, W));
  s = h_conc(h_sym("s", 8, 0, W));
  if (fn < 2 || fn == 3 || fn == 5) n = h_conc(h_sym("n", 8, 0, W + 2));
  for (i = 0; i < MX; ++i) o[i] = b[i];
  for (i = 0; i < MX; ++i) e[i] = o[i];
  /* the standard's result in e[], the range written [D, D+cnt), the range read [s, s+rd) */
  D = d;
  switch (fn) {
  case 0: case 1: cnt = rd = n; break;
  case 2: cnt = rd = len(s, MX) + 1; break;
  case 3: L = len(s, n); cnt = n; rd = L < n ? L + 1 : n; break;
  case 4: D = d + len(d, MX); cnt = rd = len(s, MX) + 1; break;
  case 5: D = d + len(d, MX); L = len(s, n); cnt = n ? L + 1 : 0; rd = L < n ? L + 1 : n; break;
  default: cnt = rd = len(s, MX) + 1;
  }
  for (i = 0; i < cnt; ++i)
    if (fn == 3 || fn == 5) e[D + i] = i < len(s, n) ? o[s + i] : 0; else e[D + i] = o[s + i];
  olap = cnt && rd && D != s && (D < s ? D + cnt > s : s + rd > D);
  if (fn >= 2 && D == s && cnt) olap = 1;
  if (fn == 4 || fn == 5) if (d < s + rd && s < d + (D - d) + cnt) olap = 1; /* the whole destination string counts */
  h_abort_ok(fn != 1 && olap && !(fn == 0 && d < s && h_param("overlap", 0)));
  h_reach(olap ? "overlap" : "disjoint");
  if (fn == 6) {
    r = g ? strdup((char *)b + s) : _duma_strdup((char *)b + s, "t.c", 7);
    for (i = 0; i < cnt; ++i) h_assert((unsigned char)r[i] == o[s + i], "the duplicate equals the string");
    h_assert(NOACC(r + cnt), "the duplicate has exactly the size needed");
    for (i = 0; i < MX; ++i) h_assert(b[i] == o[i], "the source is unchanged");
    free(r);
    return;
  }
  switch (fn) {
  case 0: r = (char *)(g ? memcpy(b + d, b + s, n) : _duma_memcpy(b + d, b + s, n, "t.c", 1)); break;
  case 1: r = (char *)(g ? memmove(b + d, b + s, n) : _duma_memmove(b + d, b + s, n)); break;
  case 2: r = g ? strcpy((char *)b + d, (char *)b + s) : _duma_strcpy((char *)b + d, (char *)b + s, "t.c", 2); break;
  case 3: r = g ? strncpy((char *)b + d, (char *)b + s, n) : _duma_strncpy((char *)b + d, (char *)b + s, n, "t.c", 3); break;
  case 4: r = g ? strcat((char *)b + d, (char *)b + s) : _duma_strcat((char *)b + d, (char *)b + s, "t.c", 4); break;
  default: r = g ? strncat((char *)b + d, (char *)b + s, n) : _duma_strncat((char *)b + d, (char *)b + s, n, "t.c", 5);
  }
  h_reach("copied");
  h_assert(r == (char *)b + d, "the destination is returned");
  for (i = 0; i < MX; ++i) h_assert(b[i] == e[i], "exactly the standard's result, nothing else written");
}
static void large(u64 fn) {
  u64 mx = h_param("max", 6000), d = h_sym("d", 16, 0, mx), s = h_sym("s", 16, 0, mx), n = h_sym("n", 16, 0, mx), j = h_sym("j", 16, 0, mx - 1), u = h_sym("u", 64, 0, 2 * mx);
  unsigned char *a = (unsigned char *)malloc(2 * mx + 1), *r, v = (unsigned char)h_sym("v", 8, 0, 255), w = (unsigned char)h_sym("w", 8, 0, 255);
  int olap = n && d != s && (d < s ? d + n > s : s + n > d), ou;
  h_assume(j < n);
  h_assume(u < d || u >= d + n);
  h_assume(u != s + j);
  a[s + j] = v;
  a[u] = w;
  h_abort_ok(fn == 0 && olap && !(d < s && h_param("overlap", 0)));
  if (fn == 0) r = (unsigned char *)memcpy(a + d, a + s, n); else r = (unsigned char *)memmove(a + d, a + s, n);
  h_assert(r == a + d, "the destination is returned");
  h_assert(h_load(a + d + j) == v, "every byte of the source arrives");
  h_assert(h_load(a + u) == w, "no byte outside the destination changes");
  h_reach("copied");
}
int harness_main(void) {
  u64 mode = h_param("mode", 0), fn = h_param("fn", 0), g = h_param("g", 0);
  malloc(1);
  if (mode == 0) small(fn, g);
  else if (mode == 1) large(fn);
  else {
    u64 n = h_sym("n", 64, (1ull << 32) - 2, (1ull << 32) + 2), m = (1ull << 32) + 4096, j = h_sym("j", 64, 0, (1ull << 32) + 1);
    unsigned char *a = (unsigned char *)malloc(m), *c = (unsigned char *)malloc(m);
    h_assume(j < n);
    a[j] = 5;
    if (fn == 0) memcpy(c, a, n); else memmove(c, a, n);
    h_assert(c[j] == 5, "every byte of a large source arrives");
    h_reach("copied");
  }
  return 0;
}
