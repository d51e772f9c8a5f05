/* C24 outputs. Every combination of the output variables (each unset or any integer), a log file name of any
 * bytes, banner on or off. what: 0 DUMA_Print of a text of length min..max, 1 a diagnostic stop, 2 leak report,
 * 3 nothing to report, 4 DUMA_SHOW_ALLOC, 5 DUMA_Exit */
#include "hx.h"
#include <string.h>
#include <fcntl.h>
void DUMA_Print(const char *, ...);
void DUMA_Exit(const char *, ...);
void DUMA_delFrame(void);
#include "h_txt.h"
#define OUTN 12000
static char big[4200], fname[64];
static u64 sel[3], fl, banner, k, L, from, what, opens;
static void plan(int get) { /* inputs; natively the variables of harness_pre are not those of the test */
  u64 i;
  static const char *const V[3] = {"DUMA_OUTPUT_STDOUT", "DUMA_OUTPUT_STDERR", "DUMA_DISABLE_BANNER"}, *const S[3] = {"set1", "set2", "setb"}, *const N[3] = {"v1", "v2", "vb"}, *const Z[3] = {"on1", "on2", "onb"};
  for (i = 0; i < 3; ++i) {
    u64 set = h_conc(get ? h_get(S[i]) : h_sym(S[i], 8, 0, 1)), on = i == 1, v;
    if (set) {
      on = h_conc(get ? h_get(Z[i]) : h_sym(Z[i], 8, 0, 1));
      v = 0;
      if (!get) { if (on) v = h_sym(N[i], 64, 1, h_param("vmax", 99999)); if (on && h_conc(h_sym(i == 0 ? "g1" : i == 1 ? "g2" : "gb", 8, 0, 1))) v = 0 - v; h_setenv_num(V[i], v); }
    }
    if (i == 2) banner = !on; else sel[i] = on;
  }
  sel[2] = h_conc(get ? h_get("file") : h_sym("file", 8, 0, 1));
  if (sel[2]) {
    fl = h_conc(get ? h_get("fl") : h_sym("fl", 8, 1, h_param("flmax", 12)));
    for (i = 0; i < fl; ++i) {
      static char NM[20][3]; char *nm = NM[i]; nm[0] = (char)110; nm[1] = (char)(97 + i);
      fname[i] = (char)(get ? h_get(nm) : h_sym(nm, 8, 1, 255));
    }
    fname[fl] = 0;
    if (!get) h_setenv_bytes("DUMA_OUTPUT_FILE", fname, fl);
  }
}
/* the outputs written from 'from' on are exactly the selected ones, and all carry the same text; its length */
static u64 streams(u64 n) {
  u64 i, c[3] = {0, 0, 0}, w = sel[0] ? 0 : sel[1] ? 1 : 2, m;
  static unsigned char T[3][OUTN];
  for (i = from; i < n; ++i) {
    int f = h_out_fd(i), s = f == 1 ? 0 : f == 2 ? 1 : 2;
    h_assert(sel[s], "no output which is not selected is written");
    T[s][c[s]++] = (unsigned char)h_out_byte(i);
  }
  m = c[w];
  for (i = 0; i < 3; ++i) {
    h_assert(c[i] == (sel[i] ? m : 0), "every selected output gets the whole text");
    if (sel[i] && i != w) { u64 j; for (j = 0; j < m; ++j) h_assert(T[i][j] == T[w][j], "every selected output gets the same text"); }
  }
  nref = 0;
  return m;
}
static void file(void) {
  u64 i;
  const char *p = h_out_path();
  h_assert((h_out_opens() > 0) == (sel[2] != 0), "the log file is opened exactly when selected");
  if (!sel[2]) return;
  h_assert((h_out_flags() & O_APPEND) && (h_out_flags() & O_CREAT) && !(h_out_flags() & (O_TRUNC | O_EXCL)) && (h_out_flags() & O_ACCMODE) == O_WRONLY, "the log file is created when missing and appended to");
  for (i = 0; i < fl; ++i) h_assert((unsigned char)p[i] == (unsigned char)fname[i], "the log file is the one named");
  h_assert(p[fl] == 0, "the log file is the one named");
}
static int any(void) { return sel[0] || sel[1] || sel[2]; }
static void has(const char *s) { nref = 0; put(s); h_assert(find(nref) >= 0, "the text is written to the selected outputs"); }
void harness_pre(void) {
  h_real_print(1);
  plan(0);
  if (h_param("what", 0) == 4) h_setenv("DUMA_SHOW_ALLOC", "1");
}
void harness_abort(void) {
  u64 m = streams(h_out_len());
  if (any()) { file(); h_assert(m > 20, "a stop is explained"); has(what == 5 ? "Exiting: " : "Aborting: "); has(what == 5 ? "because 42" : "ta.c(11)"); }
  h_reach("stopped");
}
int harness_main(void) {
  u64 m, i, b;
  char *p, *q;
  plan(1);
  what = h_param("what", 0);
  b = what == 4 ? 0 : streams(h_out_len()); /* (the first allocations happen before the file is selected) */
  if (banner && any() && what != 4) { h_assert(b > 0, "the banner is shown unless disabled"); has("DUMA "); has("Copyright"); has("Bruce Perens <bruce@perens.com>"); file(); }
  if (!banner && what != 4) { h_assert(h_out_len() == 0, "nothing is written at the start when the banner is disabled"); h_assert(h_out_opens() == 0, "no file is created when there is nothing to write"); }
  h_out_reset();
  if (what == 0) {
    L = h_conc(h_sym("len", 16, h_param("min", 0), h_param("max", 40)));
    memset(big, 'x', L);
    k = L ? h_conc(h_sym("where", 8, 0, 1)) * (L - 1) : 0;
    if (L) big[k] = (char)h_sym("c", 8, 1, 255);
    big[L] = 0;
    DUMA_Print("%s", big);
    m = streams(h_out_len());
    if (any()) {
      h_assert(m == L, "the text is written completely, and nothing else");
      file();
      if (L) for (i = 0; i < h_out_len(); ++i) h_assert(h_out_byte(i) == (unsigned char)big[i % L], "the text is written unchanged");
    } else h_assert(m == 0, "nothing is written when no output is selected");
    h_out_reset();
  }
  p = (char *)_duma_malloc(5, "ta.c", 11);
  q = (char *)_duma_malloc(6, "tb.c", 12);
  p[0] = q[0] = 1;
  if (what == 1) { h_abort_ok(1); _duma_free(p + 1, "tc.c", 77); h_assert(0, "the faulty call never returns"); }
  if (what == 5) { h_exit_ok(1); DUMA_Exit("because %i", 42); h_assert(0, "DUMA_Exit never returns"); }
  if (what == 4) {
    m = streams(h_out_len());
    if (any()) { file(); has("Allocating 5 byte(s) at ta.c(11)"); has("Allocating 6 byte(s) at tb.c(12)"); }
    h_out_reset();
    _duma_free(p, "td.c", 13);
    m = streams(h_out_len());
    if (any()) { file(); h_assert(m > 0, "a release is shown"); }
    _duma_free(q, "td.c", 14);
  } else {
    _duma_free(p, "td.c", 13);
    if (what == 3) _duma_free(q, "td.c", 14);
    h_assert(h_out_len() == 0 && h_out_opens() == 0, "nothing is written while there is nothing to report");
    DUMA_delFrame();
    m = streams(h_out_len());
    if (what == 3) h_assert(m == 0 && h_out_opens() == 0, "nothing is reported when every block was freed");
    else if (any()) { file(); has("size=6"); has("tb.c(12)"); has("Reported 1 leak(s)"); }
    else h_assert(m == 0, "nothing is written when no output is selected");
  }
  h_reach("end");
  return 0;
}
