/* C20 leak report: N blocks of any origin, any subset freed, then the report (via 0 DUMA_delFrame, 1 at exit).
 * One block has a symbolic size and line. all 0/1: DUMA_REPORT_ALL_LEAKS; pre: concrete blocks before;
 * file: the library keeps file names given by the environment, which are no leaks of the program */
#include "hx.h"
void DUMA_delFrame(void);
static char *mydup(u64 n, const char *f, int l) {
  static char s[16];
  u64 i;
  for (i = 0; i < 15; ++i) s[i] = 'x';
  s[n - 1] = 0;
  return _duma_strdup(s, f, l);
}
#include "h_txt.h"
static const char *const TY[10] = {"malloc()", "calloc()", "realloc()", "memalign()", "posix_memalign()", "valloc()", "strdup()", "scalar new", "vector new[]", "member vector new[]"};
static const char *const FN[4] = {"f0.c", "dir/f1.cpp", "f2", "a b.c"};
static struct { char *p; u64 n, api, line, live, al; } B[8];
static void make(int i, u64 api, u64 n, u64 line) {
  const char *f = FN[h_param("sf", 0) ? 0 : i & 3];
  int l = (int)line;
  void *p = 0;
  if (line) switch (api) {
  case 0: p = _duma_malloc(n, f, l); break;
  case 1: p = _duma_calloc(n, 1, f, l); break;
  case 2: p = _duma_realloc(_duma_malloc(77, "old.c", 3), n, f, l); break;
  case 3: p = _duma_memalign(64, n, f, l); break;
  case 4: _duma_posix_memalign(&p, 32, n, f, l); break;
  case 5: p = _duma_valloc(n, f, l); break;
  case 6: p = mydup(n = 5, f, l); break;
  case 7: p = _duma_allocate(0, n, 0, -1, 1, EFA_NEW_ELEM, DUMA_FAIL_ENV, f, l); break;
  case 8: p = _duma_allocate(0, n, 0, -1, 1, EFA_NEW_ARRAY, DUMA_FAIL_ENV, f, l); break;
  default: p = _duma_allocate(0, n, 0, -1, 1, EFA_MEMBER_NEW_ARRAY, DUMA_FAIL_ENV, f, l); break;
  } else switch (api) {
  case 1: p = calloc(1, n); break;
  case 2: p = realloc(0, n); break;
  case 3: p = memalign(64, n); break;
  case 4: posix_memalign(&p, 32, n); break;
  case 5: p = valloc(n); break;
  default: p = malloc(n); api = 0; break;
  }
  h_assert(p != 0, "a satisfiable request is satisfied");
  B[i].p = (char *)p;
  B[i].n = n;
  B[i].api = api;
  B[i].line = line;
  B[i].live = 1;
}
static void drop(int i) {
  u64 a = B[i].api;
  if (a < 7) if (B[i].line) _duma_free(B[i].p, "x.c", 5); else free(B[i].p);
  else _duma_deallocate(B[i].p, 1, a == 7 ? EFA_DEL_ELEM : a == 8 ? EFA_DEL_ARRAY : EFA_MEMBER_DEL_ARRAY, "y.c", 6);
  B[i].live = 0;
}
static void check(void) {
  u64 N = h_param("N", 3), all = h_param("all", 0), rep = 0, extra = 0, total, i;
  total = 0;
  for (i = 0; i < N; ++i) {
    long at;
    nref = 0;
    put("\nDUMA: ptr=0x");
    digits((u64)B[i].p >> 12, 9, 16);
    h_assert((u64)B[i].p >> 44 && !((u64)B[i].p >> 48), "addresses have twelve digits");
    at = find(nref);
    if (B[i].live && (B[i].line || all)) {
      ++rep;
      digits((u64)B[i].p & 4095, 3, 16);
      put(" size="); dec(B[i].n); put(" type='"); put(TY[B[i].api]); put("' alloced from ");
      if (B[i].line) { put(FN[h_param("sf", 0) ? 0 : i & 3]); put("("); dec(B[i].line); } else put("UNKNOWN (use #include \"duma.h\")(0");
      put(") not freed\n");
      h_assert(at >= 0, "every block still live is reported");
      h_assert((u64)same(at), "size, kind, file and line of a leak are those of the allocation");
      total += (u64)nref;
    } else {
      h_assert(at < 0, "no other block is reported");
      if (B[i].live) ++extra;
    }
  }
  if (rep || extra) {
    nref = 0;
    put("DUMA: Reported "); dec(rep); put(" leak(s).\nDUMA: There are "); dec(extra); put(" extra leak(s) without allocation information.\n");
    h_assert(find(nref) >= 0, "the counts announced are the numbers of leaks");
    total += (u64)nref;
  }
  h_assert(h_out_len() == total, "nothing else is written");
  h_reach("end");
}
static void again(void) {
  u64 N = h_param("N", 3), i;
  if (h_param("again", 0)) { /* the report changes nothing: later operations and a second report still work */
    char *q = _duma_malloc(10, "z.c", 1);
    q[9] = 1;
    h_assert(NOACC(x_table()), "the bookkeeping memory is closed after the report");
    for (i = 0; i < N; ++i) if (B[i].live) drop((int)i);
    _duma_free(q, "z.c", 2);
    h_out_reset();
    DUMA_delFrame();
    h_assert(h_out_len() == 0, "no report when everything is freed");
    h_reach("again");
  }
}
void harness_post(void) { if (h_param("via", 0)) check(); }
void harness_pre(void) {
  h_config();
  h_real_print(1);
  if (h_param("all", 0)) h_setenv("DUMA_REPORT_ALL_LEAKS", "1");
  if (h_param("file", 0)) { h_setenv("DUMA_OUTPUT_FILE", "l.txt"); h_setenv("DUMA_OUTPUT_STACKTRACE_MAPFILE", "m.txt"); h_setenv("DUMA_OUTPUT_STDERR", "0"); }
}
int harness_main(void) {
  u64 N = h_param("N", 3), pre = h_param("pre", 0), i, f = N, nd, ld;
  static void *P[300];
  static u64 G[8];
  for (i = 0; i < pre; ++i) P[i] = malloc(3);
  if (N) f = h_conc(h_sym("focus", 8, 0, N - 1));
  for (i = 0; i < N; ++i) {
    u64 gone = h_conc(h_sym("freed", 8, 0, 1)), foc = i == f && !gone && !h_param("cheap", 0), site = i + 1 == N && N > 1 && h_param("known", 0) == 0 ? h_conc(h_sym("site", 8, 0, 1)) : 1;
    u64 api = i == f || h_param("sf", 0) && i ? h_conc(h_sym("api", 8, 0, 9)) : (h_param("api", 0) + 3 * i) % 10;
    u64 n = foc ? number("n", "nd", 10, 1, 4, 4000, &nd) : 1 + 37 * i, line = foc ? number("line", "ld", 10, 1, 5, 99999, &ld) : 10 + i * 100;

    if (foc) { h_assume(n != 0); h_assume(line != 0); }
    G[i] = gone;
    make((int)i, api, n, site ? line : 0);
  }
  for (i = 0; i < N; ++i) if (G[i]) drop((int)i);
  for (i = 0; i < pre; ++i) free(P[i]);
  h_out_reset();
  h_exit_ok(0);
  if (h_param("via", 0)) { h_run_dtors(); return 0; }
  DUMA_delFrame();
  check();
  again();
  return 0;
}
