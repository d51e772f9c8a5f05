/* expected texts with symbolic digits, and a search in the captured output */
static char ref[1024];
static int nref;
static u64 p10(u64 d) { u64 r = 1; while (d--) r *= 10; return r; }
static void digits(u64 n, u64 d, int base) {
  u64 i;
  for (i = 0; i < d; ++i) {
    u64 q = base == 10 ? n / p10(d - 1 - i) % 10 : (n >> 4 * (d - 1 - i)) & 15;
    ref[nref++] = (char)(q < 10 ? '0' + q : 'a' + q - 10);
  }
}
static void put(const char *s) { while (*s) ref[nref++] = *s++; }
static void dec(u64 n) { u64 d = 1; while (d < 20 && n >= p10(d)) ++d; digits(n, d, 10); } /* one path per length */
static void hex(u64 n) { u64 d = 1; while (d < 16 && n >> 4 * d) ++d; digits(n, d, 16); }
/* a number whose count of digits is known on every path: its value is symbolic within them */
static u64 number(const char *nm, const char *dn, int base, u64 dmin, u64 dmax, u64 top, u64 *d) {
  u64 lo, hi;
  *d = h_conc(h_sym(dn, 8, dmin, dmax));
  lo = *d == 1 ? 0 : base == 10 ? p10(*d - 1) : 1ull << 4 * (*d - 1);
  hi = base == 10 ? (*d == 20 ? ~0ull : p10(*d) - 1) : *d == 16 ? ~0ull : (1ull << 4 * *d) - 1;
  if (hi > top) hi = top;
  return h_sym(nm, 64, lo, hi);
}
/* first position where the output contains the first m characters of ref */
static long find(int m) {
  u64 i, n = h_out_len();
  int j;
  for (i = 0; i + (u64)m <= n; ++i) {
    for (j = 0; j < m && h_out_byte(i + (u64)j) == (unsigned char)ref[j]; ++j) ;
    if (j == m) return (long)i;
  }
  return -1;
}
static int same(long at) {
  int j, ok = at >= 0 && (u64)at + (u64)nref <= h_out_len();
  for (j = 0; ok && j < nref; ++j) ok = h_out_byte((u64)(at + j)) == (unsigned char)ref[j];
  return ok;
}
