/* C21 diagnostic text. mode 0: one number of any value in each conversion, with D digits; 1: a string of length
 * min..max; 2: mixed conversions. how: 0 DUMA_sprintf, 1 DUMA_Print, 2 DUMA_Abort (jobs with realabort), 3 DUMA_Exit */
#include "hx.h"
#include <stdarg.h>
#include <string.h>
void DUMA_Print(const char *, ...);
void DUMA_Abort(const char *, ...);
void DUMA_Exit(const char *, ...);
void DUMA_sprintf(char *, const char *, ...);
const char *DUMA_strerror(int);
#include "h_txt.h"
static char big[9000], buf[9000];
static void check(const char *got, int n) {
  int i;
  for (i = 0; i < n; ++i) h_assert(got[i] == ref[i], "the text is exactly the value");
}
static void checkout(int from, u64 fd) {
  int i;
  h_assert(h_out_len() >= (u64)(from + nref), "the whole text is written");
  for (i = 0; i < nref; ++i) { h_assert(h_out_byte((u64)(from + i)) == (unsigned char)ref[i], "the text written is exactly the value"); h_assert((u64)h_out_fd((u64)(from + i)) == fd, "the text goes to the selected output"); }
}
void harness_pre(void) { h_real_print(1); }
int harness_main(void) {
  u64 mode = h_param("mode", 0), how = h_param("how", 0), d, n, k;
  if (mode == 0) {
    int conv = (int)h_param("conv", 'd'), base = conv == 'a' || conv == 'x' ? 16 : 10;
    u64 neg = conv == 'i' || conv == 'l' ? h_conc(h_sym("neg", 8, 0, 1)) : 0;
    int v;
    u64 top = conv == 'i' ? 0x7fffffffull + neg : conv == 'l' ? 0x7fffffffffffffffull + neg : ~0ull;
    char pat[8] = {'<', '%', 0, '>', '%', '%', 0, 0};
    pat[2] = (char)conv;
    n = number("n", "digits", base, 1, base == 16 ? 16 : conv == 'i' ? 10 : conv == 'l' ? 19 : 20, top, &d);
    if (neg) h_assume(n != 0);
    put("<");
    if (neg) put("-");
    digits(n, d, base);
    put(">%");
    v = (int)n;
    if (neg) n = 0 - n;
    if (neg) v = (int)(0u - (unsigned)v);
    if (how == 0) {
      for (k = 0; k < 60; ++k) buf[k] = 0x55;
      if (conv == 'i') DUMA_sprintf(buf, pat, v); else DUMA_sprintf(buf, pat, n);
      check(buf, nref);
      h_assert(buf[nref] == 0, "the text ends after the last character");
      h_assert(buf[nref + 1] == 0x55, "nothing is written after the text");
    } else {
      h_out_reset();
      if (conv == 'i') DUMA_Print(pat, v); else DUMA_Print(pat, n);
      checkout(0, 2);
      h_assert(h_out_len() == (u64)nref, "nothing else is written");
    }
  } else if (mode == 1) {
    u64 L = h_conc(h_sym("len", 16, h_param("min", 0), h_param("max", 5000))), off, pre = how == 2 ? 16 : how == 3 ? 15 : 0;
    memset(big, 'x', L);
    k = h_conc(h_sym("where", 8, 0, 2));
    k = k == 0 ? 0 : k == 1 ? L / 2 : L ? L - 1 : 0;
    if (L) big[k] = (char)h_sym("c", 8, 1, 255);
    big[L] = 0;
    h_out_reset();
    if (how == 0) {
      buf[L + 6] = 'Z';
      DUMA_sprintf(buf, "%s:%i", big, 12);
      h_assert(!L || (unsigned char)buf[k] == (unsigned char)big[k], "every character of a string is rendered");
      h_assert(buf[L] == ':' && buf[L + 1] == '1' && buf[L + 2] == '2' && buf[L + 3] == 0, "the text continues after a string");
      h_assert(buf[L + 6] == 'Z', "nothing is written after the text");
    } else {
      off = pre + k;
      DUMA_Print("%s:%i", big, 12);
      if (L && off < 4000) h_assert(h_out_byte(off) == (unsigned char)big[k], "every character of a string is rendered");
      if (L < 4000) {
        h_assert(h_out_len() == L + 3, "the whole text is written, and nothing else");
        h_assert(h_out_byte(L) == ':' && h_out_byte(L + 1) == '1' && h_out_byte(L + 2) == '2', "the text continues after a string");
      }
      h_assert(h_out_len() <= L + 3, "nothing else is written");
    }
  } else {
    u64 a, dd, d2, i2;
    const char *s = h_conc(h_sym("null", 8, 0, 1)) ? (char *)0 : "file.c";
    a = number("a", "da", 16, h_param("d0", 9), h_param("d1", 12), ~0ull, &d);
    dd = number("n", "dn", 10, 3, 6, ~0ull, &d2);
    i2 = number("l", "dl", 10, 1, 3, ~0ull, &k);
    put("ptr=0x"); digits(a, d, 16); put(" size="); digits(dd, d2, 10); put(" at "); put(s ? s : "NULL"); put("("); digits(i2, k, 10); put(") %c");
    h_out_reset();
    DUMA_Print("ptr=0x%a size=%d at %s(%i) %%%c", a, dd, s, (int)i2, 'c');
    checkout(0, 2);
    h_assert(h_out_len() == (u64)nref, "nothing else is written");
  }
  h_reach("end");
  return 0;
}
