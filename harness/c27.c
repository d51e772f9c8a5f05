/* C27 first call. The library constructor has not run (h_no_ctors); the environment sets fill, alignment, side,
 * zero-size strategy and copy overlap to any values; entry point f is called first, then regular start-up happens
 * (or not), and everything is as after a regular start. */
#ifdef __cplusplus
#include <new>
#include "dumapp.h"
#endif
#include "hx.h"
#ifdef __cplusplus
#define H_C extern "C"
#define SKIP(f) 0
#else
#define H_C
#define SKIP(f) ((f) >= F_NEW && (f) <= F_NEWF || (f) >= F_DEL0 && (f) <= F_DELF0 || (f) == F_DELBAD)
#endif
static int memdif(const void *a, const void *b, size_t n) { size_t i; for (i = 0; i < n; ++i) if (((const char *)a)[i] != ((const char *)b)[i]) return 1; return 0; }
H_C void DUMA_newFrame(void);
H_C void DUMA_delFrame(void);
H_C void DUMA_Print(const char *, ...);
static u64 fill, al, below, n, strat;
static char src[16] = "abcdefgh", dst[64];
static u64 bad;
enum { F_DUP = 8, F_NEW = 9, F_NEWA = 10, F_NEWN = 11, F_NEWF = 12, F_FREE0 = 13, F_GFREE0, F_DEL0, F_DELA0, F_DELF0, F_FREEBAD, F_GFREEBAD, F_REALLOCBAD, F_DELBAD, F_USABLE0, F_USABLEBAD, F_CHECK0, F_CHECKBAD, F_CHECKALL, F_NEWFRAME, F_DELFRAME,
  F_MEMCPY, F_MEMCPYBACK, F_MEMMOVE, F_STRCPY, F_STRNCPY, F_STRCAT, F_STRNCAT, F_SETB, F_PRINT, F_ZERO, F_REALLOC0, F_GMALLOC, F_GCALLOC, F_GREALLOC, F_GMEMALIGN, F_GPOSIX, F_GVALLOC, F_GDUP, F_GUSABLE0, F_N };
static void *alloc(u64 f) {
  void *p = 0;
  switch (f) {
  case F_DUP: return _duma_strdup(src, "t.c", 3);
#ifdef __cplusplus
  case F_NEW: return ::operator new(n);
  case F_NEWA: return ::operator new[](n);
  case F_NEWN: return ::operator new(n, std::nothrow);
  case F_NEWF: return ::operator new[](n, "t.c", 9);
#endif
  case F_GMALLOC: return malloc(n);
  case F_GCALLOC: return calloc(n, 1);
  case F_GREALLOC: return realloc(0, n);
  case F_GMEMALIGN: return memalign(64, n);
  case F_GPOSIX: return posix_memalign(&p, 64, n) ? (void *)0 : p;
  case F_GVALLOC: return valloc(n);
  case F_GDUP: return strdup(src);
  default: return x_alloc(f, 64, n);
  }
}
static void rel(u64 f, void *p) {
#ifdef __cplusplus
  if (f == F_NEW || f == F_NEWN) ::operator delete(p);
  else if (f == F_NEWA || f == F_NEWF) ::operator delete[](p);
  else
#else
  (void)f;
#endif
  x_free(p);
}
static void placed(u64 f, unsigned char *p, u64 n) { /* the configuration of the environment applies */
  u64 k = h_sym("k", 16, 0, 4095), a = f == A_MEMALIGN || f == A_POSIX || f == F_GMEMALIGN || f == F_GPOSIX ? 64 : f == A_VALLOC || f == F_GVALLOC ? PG : n < al ? pow2floor(n) : al;
  h_assume(k < n);
  h_assert(p != 0, "a satisfiable request is satisfied");
  h_assert(((u64)p & (a - 1)) == 0, "the configured alignment applies to the first call");
  if (below) x_live_below((char *)p, n, k, a); else x_live((char *)p, n, k, a);
  if (f == A_CALLOC || f == A_CALLOC1 || f == F_GCALLOC) h_assert(p[k] == 0, "the first zeroing allocation yields zeros");
  else if (f == F_DUP || f == F_GDUP) h_assert(p[k] == (unsigned char)src[k], "the first duplicate has the contents of the string");
  else h_assert(p[k] == (unsigned char)fill, "the configured fill value applies to the first call");
  h_assert(malloc_usable_size(p) == n, "the size of the first block is known");
}
H_C void harness_pre(void) {
  h_no_ctors();
  h_setenv_num("DUMA_FILL", h_conc(h_sym("fsel", 8, 0, h_param("vf", 1))) ? 255 : 17);
  h_setenv_num("DUMA_ALIGNMENT", 1ull << h_conc(h_sym("al", 8, 0, h_param("amax", 2)) * 2));
  h_setenv_num("DUMA_PROTECT_BELOW", h_conc(h_sym("below", 8, 0, h_param("vb", 1))));
  h_setenv_num("DUMA_MALLOC_0_STRATEGY", h_conc(h_sym("strat", 8, 1, h_param("vs", 0) ? 3 : 1)));
  if (h_conc(h_sym("overlap", 8, 0, h_param("vo", 0)))) h_setenv("DUMA_MEMCPY_OVERLAP", "1");
}
H_C int harness_main(void) {
  u64 f = h_conc(h_sym("f", 8, h_param("f0", 0), h_param("f1", F_N - 1))), again, maps, i, st = 0;
  unsigned char *p = 0, *q;
  h_assume(!SKIP(f));
  fill = h_get("fsel") ? 255 : 17; al = 1ull << 2 * h_conc(h_get("al")); below = h_conc(h_get("below")); strat = h_conc(h_get("strat"));
  n = f == F_DUP || f == F_GDUP ? 9 : h_sym("n", 16, h_param("min", 1), h_param("max", 4095));
  bad = h_sym("bad", 48, 1, (1ull << 44) - 1);
  if (!h_native()) h_assert(h_nmaps() == 0, "nothing ran before");
  switch (f) {
  case F_FREE0: _duma_free(0, "t.c", 1); break;
  case F_GFREE0: free(0); break;
#ifdef __cplusplus
  case F_DEL0: ::operator delete((void *)0); break;
  case F_DELA0: ::operator delete[]((void *)0); break;
  case F_DELF0: ::operator delete((void *)0, "t.c", 4); break;
#endif
  case F_FREEBAD: h_abort_ok(1); _duma_free((void *)bad, "t.c", 1); st = 1; break;
  case F_GFREEBAD: h_abort_ok(1); free((void *)bad); st = 1; break;
  case F_REALLOCBAD: h_abort_ok(1); _duma_realloc((void *)bad, n, "t.c", 1); st = 1; break;
#ifdef __cplusplus
  case F_DELBAD: h_abort_ok(1); ::operator delete((void *)bad); st = 1; break;
#endif
  case F_USABLE0: h_assert(_duma_malloc_usable_size(0, "t.c", 1) == 0, "null has size zero, also in the first call"); break;
  case F_GUSABLE0: h_assert(malloc_usable_size(0) == 0, "null has size zero, also in the first call"); break;
  case F_USABLEBAD: h_abort_ok(1); _duma_malloc_usable_size((void *)bad, "t.c", 1); st = 1; break;
  case F_CHECK0: duma_check(0); break;
  case F_CHECKBAD: h_abort_ok(1); duma_check((void *)bad); st = 1; break;
  case F_CHECKALL: duma_checkAll(); break;
  case F_NEWFRAME: DUMA_newFrame(); break;
  case F_DELFRAME: DUMA_delFrame(); break;
  case F_MEMCPY: h_assert(_duma_memcpy(dst, src, 9, "t.c", 1) == dst && !memdif(dst, src, 9), "copying works in the first call"); break;
  case F_MEMCPYBACK: { int ok = h_get("overlap") != 0; h_abort_ok(!ok); _duma_memcpy(src, src + 1, 5, "t.c", 1); st = !ok; h_assert(!memdif(src, "bcdeffgh", 8), "a permitted overlap copies exactly"); break; }
  case F_MEMMOVE: h_assert(_duma_memmove(src + 1, src, 5) == src + 1 && !memdif(src, "aabcdegh", 8), "copying works in the first call"); break;
  case F_STRCPY: h_assert(_duma_strcpy(dst, src, "t.c", 1) == dst && !memdif(dst, src, 9), "copying works in the first call"); break;
  case F_STRNCPY: h_assert(_duma_strncpy(dst, src, 12, "t.c", 1) == dst && !memdif(dst, src, 12), "copying works in the first call"); break;
  case F_STRCAT: h_assert(_duma_strcat(dst, src, "t.c", 1) == dst && !memdif(dst, src, 9), "copying works in the first call"); break;
  case F_STRNCAT: h_assert(_duma_strncat(dst, src, 3, "t.c", 1) == dst && !memdif(dst, "abc", 4), "copying works in the first call"); break;
  case F_SETB: _duma_init(); break;
  case F_PRINT: DUMA_Print("x%i\n", 3); break;
  case F_ZERO: {
    void *z = malloc(0);
    h_assert(strat == 1 ? z == 0 : z != 0 && NOACC(z), "the configured strategy applies to the first call");
    free(z);
    break;
  }
  case F_REALLOC0: {
    void *z = realloc(0, 0);
    h_assert(strat == 1 ? z == 0 : z != 0 && NOACC(z), "the configured strategy applies to the first call");
    free(z);
    break;
  }
  default: p = (unsigned char *)alloc(f); placed(f, p, n); p[0] = 5; break;
  }
  h_assert(!st, "a bad pointer is diagnosed, also in the first call");
  h_abort_ok(0);
  again = h_conc(h_sym("ctor", 8, 0, 1));
  maps = h_nmaps();
  if (again) {
    _duma_init(); /* now the constructor of the library runs */
    if (maps) h_assert(h_nmaps() == maps, "the library initialises itself only once");
    else maps = h_nmaps();
  }
  for (i = 0; i < 2; ++i) {
    q = (unsigned char *)_duma_malloc(33, "t.c", 21);
    h_assert(q != 0 && q != p, "later requests are served");
    h_assert(q[32] == (unsigned char)fill, "the configuration applies to later calls");
    h_assert(below ? NOACC(((u64)q & ~(PG - 1)) - 1) : NOACC(UP(q + 33)), "the configuration applies to later calls");
    if (!maps) maps = h_nmaps();
    h_assert(h_nmaps() == maps, "the library initialises itself only once");
    if (p) { h_assert(H_ACC(p) && p[0] == 5, "the first block stays live"); h_assert(malloc_usable_size(p) == n, "the first block stays known"); }
    h_assert(NOACC(x_table()), "the bookkeeping memory is closed");
    if (i) x_free(q);
  }
  if (p) { rel(f, p); h_assert(NOACC(p), "the first block is released properly"); }
  duma_checkAll();
  h_reach("end");
  return 0;
}
