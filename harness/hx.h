/* helpers shared by the harnesses */
#ifndef HX_H
#define HX_H
#include "h.h"
#include "duma.h"
static void x_set_below(int v) { DUMA_SET_PROTECT_BELOW(v); }
static void x_set_align(int v) { DUMA_SET_ALIGNMENT(v); }
static void x_set_fill(int v) { DUMA_SET_FILL(v); }
static void *x_null_addr(void) { return _duma_g.null_addr; }
static void *x_table(void) { return (void *)_duma_g.allocList; }
#include "noduma.h"
#include <errno.h>
#define PG 4096ull
#define UP(x) (((u64)(x) + PG - 1) & ~(PG - 1))
#define NOACC(p) ((h_perm((void *)(p)) & 3) == 0) /* unmapped or without any access */
#ifdef __cplusplus
extern "C" {
#endif
void *malloc(size_t);
void *calloc(size_t, size_t);
void *realloc(void *, size_t);
void free(void *);
char *strdup(const char *);
void *memalign(size_t, size_t);
void *valloc(size_t);
int posix_memalign(void **, size_t, size_t);
size_t malloc_usable_size(void *);
#ifdef __cplusplus
}
#endif
/* further configuration of a job: any of these parameters sets the variable of the environment */
static void h_config(void) {
  static const char *const V[8][2] = {{"e_pf", "DUMA_PROTECT_FREE"}, {"e_pb", "DUMA_PROTECT_BELOW"}, {"e_cf", "DUMA_CHECK_FREQ"}, {"e_fa", "DUMA_FREE_ACCESS"}, {"e_sa", "DUMA_SHOW_ALLOC"}, {"e_ma", "DUMA_MAX_ALLOC"}, {"e_al", "DUMA_ALIGNMENT"}, {"e_sf", "DUMA_SLACKFILL"}};
  int i;
  for (i = 0; i < 8; ++i) { u64 v = h_param(V[i][0], 987654321); if (v != 987654321) h_setenv_num(V[i][1], v); }
}
enum { A_MALLOC, A_CALLOC, A_CALLOC1, A_REALLOC, A_MEMALIGN, A_POSIX, A_VALLOC, A_GMALLOC, A_N };
static void *x_alloc(u64 api, u64 al, u64 n) {
  void *p = 0;
  switch (api) {
  case A_MALLOC: return _duma_malloc(n, "t.c", 11);
  case A_CALLOC: return _duma_calloc(n, 1, "t.c", 12);
  case A_CALLOC1: return _duma_calloc(1, n, "t.c", 13);
  case A_REALLOC: return _duma_realloc(0, n, "t.c", 14);
  case A_MEMALIGN: return _duma_memalign(al, n, "t.c", 15);
  case A_POSIX: return _duma_posix_memalign(&p, al, n, "t.c", 16) ? (void *)0 : p;
  case A_VALLOC: return _duma_valloc(n, "t.c", 17);
  default: return malloc(n);
  }
}
static void x_free(void *p) { _duma_free(p, "t.c", 18); }
static u64 pow2floor(u64 n) { u64 r = 1; while (r <= n / 2) r *= 2; return r; }
/* a size with a concrete page count and a symbolic remainder: one path per page count */
static u64 x_size(const char *name, const char *pname, u64 pmin, u64 pmax) {
  u64 pg = h_conc(h_sym(pname, 16, pmin, pmax)), r = h_sym(name, 16, 1, PG);
  return pg * PG + r;
}
/* uses up the first chunk except left pages, and with left2 the second as well: later requests then meet
 * exactly fitting free slots, larger ones, protected and accessible ones, and new chunks */
static void *x_p0, *x_p1;
static void x_prep(void) {
  u64 L = h_param("left", 99);
  if (L == 99) return;
  x_p0 = malloc((252 - h_conc(h_sym("left", 8, 0, L))) * PG);
  if (h_param("left2", 0)) x_p1 = malloc((255 - h_conc(h_sym("left2", 8, 0, L))) * PG);
}
/* guarantees of a live block placed with the guard above */
static void x_live(char *p, u64 n, u64 k, u64 al) {
  u64 e = (u64)p + n, g = UP(e);
  h_assert(H_ACC(p + k), "every byte of a live block is accessible");
  h_assert(NOACC(g), "the page after the block is inaccessible");
  h_assert(NOACC(g + PG - 1), "the page after the block is inaccessible to its end");
  h_assert(g - e < al, "the gap to the inaccessible page is smaller than the alignment");
}
static void x_live_below(char *p, u64 n, u64 k, u64 al) {
  u64 b = (u64)p & ~(PG - 1);
  h_assert(H_ACC(p + k), "every byte of a live block is accessible");
  h_assert(NOACC(b - 1), "the byte before the first page of the block is inaccessible");
  h_assert(NOACC(b - PG), "the page before the block is inaccessible");
  h_assert((u64)p == b, "the block starts at the page boundary");
}
#endif
