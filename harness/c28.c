/* C28 attribution, and C25 termination (mode 1). 'what' is the diagnosed situation; every line number is symbolic
 * (one path per number of digits). mode 1: the stop itself, with signals ignored (ign) or writes refused (wf) */
#include "hx.h"
#include <string.h>
#include "h_txt.h"
void duma_init(void);
enum { W_TWICE, W_TWICE0, W_CHECKFREED, W_INSIDE, W_SLACK, W_CHECKSLACK, W_MISMATCH, W_ALIGN, W_ZERO, W_MEMCPY, W_STRCPY, W_STRCAT, W_REALLOC, W_FREQ, W_INSIDEFREED, W_STRNCPY, W_STRNCAT, W_BELOW, W_WILD, W_USABLE, W_REALLOCBAD, W_FAIL, W_NEWZERO, W_CHECKALL, W_N };
static unsigned char *p;
static u64 la, lf, lc, n, what, mode, armed, maps;
static int has(const char *file, u64 line) { nref = 0; put(file); put("("); dec(line); put(")"); return find(nref) >= 0; }
static int hasname(const char *s) { nref = 0; put(s); return find(nref) >= 0; }
static int hasnum(const char *before, u64 v) { nref = 0; put(before); dec(v); return find(nref) >= 0; }
static int hasptr(void) {
  nref = 0;
  h_assert((u64)p >> 44 && !((u64)p >> 48), "addresses have twelve digits");
  digits((u64)p >> 12, 9, 16);
  digits((u64)p & 4095, 3, 16);
  return find(nref) >= 0;
}
void harness_abort(void) {
  u64 i;
  if (!armed) return;
  h_reach("stopped");
  h_assert(what == W_FAIL || h_nmaps() == maps, "stopping maps no memory");
  if (h_param("wf", 0)) return;
  nref = 0;
  put("\nDUMA Aborting: ");
  if (what == W_FAIL && !same(0)) { nref = 0; put("\nDUMA Exiting: "); }
  h_assert(same(0), "the reason is written before the program ends");
  h_assert(h_out_len() > (u64)nref + 10, "the reason is not empty");
  h_assert(h_out_byte(h_out_len() - 1) == '\n', "the reason is written completely");
  for (i = 0; i < h_out_len(); i += 7) h_assert(h_out_fd(i) == 2, "the reason goes to standard error");
  if (mode) return;
  switch (what) {
  case W_TWICE: case W_CHECKFREED:
    h_assert(has("rel.c", lf), "a second release names the file and line of the first one");
    h_assert(!hasname("own.c"), "a second release names the first release, not the allocation");
    h_assert(hasptr(), "the address released twice is named");
    break;
  case W_TWICE0:
    h_assert(has("own.c", la), "without a known release the allocation is named");
    h_assert(hasptr(), "the address released twice is named");
    break;
  case W_INSIDE:
    h_assert(has("own.c", la), "the block an address lies in is named with its allocation");
    h_assert(hasptr(), "the block an address lies in is named");
    break;
  case W_INSIDEFREED:
    h_assert(has("rel.c", lf), "the freed block an address lies in is named with its release");
    h_assert(hasptr(), "the freed block an address lies in is named");
    break;
  case W_SLACK: case W_CHECKSLACK: case W_FREQ: case W_BELOW: case W_CHECKALL:
    h_assert(has("own.c", la), "a corrupted block is named with its allocation");
    h_assert(hasnum("size=", n), "a corrupted block is named with its size");
    h_assert(hasptr(), "a corrupted block is named with its address");
    h_assert(!hasname("rel.c") && !hasname("oth.c"), "no other block is named");
    break;
  case W_REALLOC:
    h_assert(has("big.c", lf), "a reallocated block is named with its reallocation");
    h_assert(hasnum("size=", n), "a reallocated block is named with its size");
    h_assert(hasptr(), "a reallocated block is named with its address");
    h_assert(!hasname("own.c"), "a reallocated block is not named with its former allocation");
    break;
  case W_MISMATCH:
    h_assert(has("own.c", la), "a mismatch names the allocation");
    h_assert(has("rel.c", lf), "a mismatch names the release");
    h_assert(hasname("malloc()") && hasname("delete"), "a mismatch names both functions");
    break;
  case W_USABLE: case W_REALLOCBAD: case W_WILD:
    h_assert(hasptr(), "the invalid address is named");
    break;
  case W_ALIGN: case W_ZERO: case W_MEMCPY: case W_STRCPY: case W_STRCAT: case W_STRNCPY: case W_STRNCAT:
    h_assert(has("call.c", lc), "the faulty call is named");
    break;
  case W_NEWZERO:
  case W_FAIL: default: break;
  }
}
void harness_pre(void) {
  h_config();
  u64 w = h_param("what", 0);
  h_real_print(1);
  if (w == W_ZERO) h_setenv("DUMA_MALLOC_0_STRATEGY", "0");
  if (w == W_FREQ) h_setenv("DUMA_CHECK_FREQ", "2");
  if (w == W_BELOW) h_setenv("DUMA_PROTECT_BELOW", "1");
  if (w == W_FAIL) { h_os_fail(9, 1); h_abort_ok(1); h_exit_ok(1); }
  if (h_param("ign", 0)) h_sig_ignore(h_conc(h_sym("ign", 8, 0, 1)));
}
static u64 line(const char *nm) {
  u64 d, l;
  if (h_param("mode", 0)) return h_sym(nm, 8, 1, 9);
  l = number(nm, "digits", 10, 1, h_param("ld", 4), ~0ull, &d);
  h_assume(l != 0);
  return l;
}
int harness_main(void) {
  static char b[64];
  unsigned char *o, *q, *z;
  u64 d, i, pre = h_param("pre", 0);
  what = h_param("what", 0);
  mode = h_param("mode", 0);
  o = (unsigned char *)_duma_malloc(9, "oth.c", 4);
  for (i = 0; i < pre; ++i) { q = (unsigned char *)_duma_malloc(5 + i, "oth.c", 5); if (i & 1) _duma_free(q, "oth.c", 6); }
  la = line("la");
  n = number("n", "nd", 10, 1, mode ? 1 : 4, 4095, &d);
  h_assume(n != 0);
  switch (h_param("api", 0)) {
  case 1: p = (unsigned char *)_duma_calloc(1, n, "own.c", (int)la); break;
  case 2: p = (unsigned char *)_duma_memalign(64, n, "own.c", (int)la); break;
  case 3: p = (unsigned char *)_duma_realloc(0, n, "own.c", (int)la); break;
  default: p = (unsigned char *)_duma_malloc(n, "own.c", (int)la);
  }
  h_assert(p != 0, "a satisfiable request is satisfied");
  q = (unsigned char *)_duma_malloc(30, "oth.c", 6);
  if (h_param("mid", 0)) _duma_free(q, "oth.c", 7);
  strcpy(b, "abcdef");
  if (what == W_TWICE || what == W_CHECKFREED || what == W_INSIDEFREED) { lf = line("lf"); _duma_free(p, "rel.c", (int)lf); }
  if (what == W_TWICE0) free(p);
  if (what == W_REALLOC) { lf = line("lf"); n = number("m", "md", 10, 2, 3, 999, &d); p = (unsigned char *)_duma_realloc(p, n, "big.c", (int)lf); }
  if (what == W_MISMATCH) lf = line("lf");
  if (what >= W_ALIGN && what <= W_STRCAT || what == W_STRNCPY || what == W_STRNCAT) lc = line("lc");
  if (h_param("wf", 0)) h_out_fail(1);
  h_out_reset();
  maps = h_nmaps();
  armed = 1;
  d = h_param("ign", 0) && h_get("ign"); /* then only the exit after the signal ends the program */
  h_abort_ok(!d);
  h_exit_ok(what == W_FAIL || d);
  if (what == W_SLACK || what == W_CHECKSLACK || what == W_REALLOC || what == W_FREQ || what == W_CHECKALL) { z = p + n; if (h_param("api", 0) == 2 && what != W_REALLOC) h_assume((n & 63) != 0); else z = (unsigned char *)((u64)p & ~(PG - 1)); if (what == W_REALLOC || h_param("api", 0) != 2) h_assume((u64)p & 4095); *z ^= 0x11; }
  switch (what) {
  case W_TWICE: case W_TWICE0: case W_SLACK: case W_WILD:
    if (what == W_WILD) p = (unsigned char *)0x555512345678ull;
    _duma_free(p, "late.c", 77); break;
  case W_REALLOC: case W_CHECKFREED: case W_CHECKSLACK: duma_check(p); break;
  case W_INSIDE: h_assume(n > 1); _duma_free(p + 1, "late.c", 78); break;
  case W_INSIDEFREED: h_assume(n > 1); _duma_free(p + 1, "late.c", 79); break;
  case W_CHECKALL: duma_checkAll(); break;
  case W_MISMATCH: _duma_deallocate(p, 1, EFA_DEL_ELEM, "rel.c", (int)lf); break;
  case W_ALIGN: _duma_memalign(24, 10, "call.c", (int)lc); break;
  case W_ZERO: _duma_malloc(0, "call.c", (int)lc); break;
  case W_MEMCPY: _duma_memcpy(b + 2, b, 5, "call.c", (int)lc); break;
  case W_STRCPY: _duma_strcpy(b + 2, b, "call.c", (int)lc); break;
  case W_STRNCPY: _duma_strncpy(b + 2, b, 5, "call.c", (int)lc); break;
  case W_STRCAT: _duma_strcat(b, b + 2, "call.c", (int)lc); break;
  case W_STRNCAT: _duma_strncat(b, b + 2, 9, "call.c", (int)lc); break;
  case W_BELOW: p[n] ^= 0x11; _duma_free(p, "late.c", 77); break;
  case W_FREQ: o = (unsigned char *)_duma_malloc(1, "late.c", 80); o = (unsigned char *)_duma_malloc(1, "late.c", 81); break;
  case W_USABLE: p = (unsigned char *)0x555512345678ull; malloc_usable_size(p); break;
  case W_REALLOCBAD: p = (unsigned char *)0x555512345678ull; _duma_realloc(p, 10, "late.c", 82); break;
  case W_FAIL: _duma_malloc(5000000, "late.c", 83); h_reach("satisfied"); return 0;
  }
  h_assert(0, "a diagnosed error never returns to the program");
  return 0;
}
