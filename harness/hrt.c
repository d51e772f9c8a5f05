/* Native runtime: executes a harness against the natively compiled DUMA sources with the inputs,
 * mapping addresses, OS failures and schedule of one path of the symbolic executor.
 * It uses no libc allocation: malloc is DUMA's. */
#define _GNU_SOURCE
#include "h.h"
#include "h_io.inc"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>
extern char **environ;
static char rbuf[1 << 20];
#define MAXE 20000
static struct { const char *k, *n; u64 v; } E[MAXE];
static int nE;
static int stage = -1;
static const char *hexec;
static int noctors, rundtors, sigign, realp;
static long rsys(long n, long a, long b, long c, long d, long e, long f) { return syscall(n, a, b, c, d, e, f); }
static size_t sl(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
static int se(const char *a, const char *b) { while (*a && *a == *b) ++a, ++b; return *a == *b; }
static void out(const char *s) { rsys(SYS_write, 1, (long)s, (long)sl(s), 0, 0, 0); }
static void outn(u64 v) { char b[24]; int i = 23; b[i] = 0; do b[--i] = (char)('0' + v % 10); while (v /= 10); out(b + i); }
static void die(int c) { rsys(SYS_exit_group, c, 0, 0, 0, 0, 0); }
static const char *env0(const char *k) { for (int i = 0; environ[i]; ++i) { size_t j = 0; while (k[j] && environ[i][j] == k[j]) ++j; if (!k[j] && environ[i][j] == '=') return environ[i] + j + 1; } return 0; }
static void hexit(int c) { die(c); }
static void post(void);
static void load(const char *f) {
  int fd = (int)rsys(SYS_open, (long)f, O_RDONLY, 0, 0, 0, 0);
  long n = 0, r;
  if (fd < 0) { out("NOREPLAY\n"); die(99); }
  while ((r = rsys(SYS_read, fd, (long)(rbuf + n), (long)(sizeof rbuf - 1 - n), 0, 0, 0)) > 0) n += r;
  rsys(SYS_close, fd, 0, 0, 0, 0, 0);
  char *p = rbuf;
  while (*p && nE < MAXE) {
    char *k = p; while (*p && *p != ' ' && *p != '\n') ++p;
    if (*p != ' ') { if (*p) ++p; continue; }
    *p++ = 0;
    char *m = p; while (*p && *p != ' ' && *p != '\n') ++p;
    u64 v = 0;
    if (*p == ' ') { *p++ = 0; while (*p >= '0' && *p <= '9') v = v * 10 + (u64)(*p++ - '0'); }
    E[nE].k = k; E[nE].n = m; E[nE].v = v; ++nE;
    while (*p && *p != '\n') ++p;
    if (*p) *p++ = 0;
  }
}
static int find(const char *k, const char *n, u64 *v) { for (int i = 0; i < nE; ++i) if (se(E[i].k, k) && se(E[i].n, n)) { *v = E[i].v; return 1; } return 0; }
static int findn(const char *k, const char *pre, u64 num, u64 *v) {
  char b[64]; int i = 0; while (pre[i]) b[i] = pre[i], ++i;
  char t[24]; int j = 23; t[j] = 0; do t[--j] = (char)('0' + num % 10); while (num /= 10);
  while ((b[i++] = t[j++]));
  return find(k, b, v);
}
/* ------------------------------------------------------------------ inputs */
static struct { const char *n; int c; } used[20000];
static int nused;
static char namebuf[1 << 18];
static int nb;
u64 h_sym(const char *name, u64 bits, u64 lo, u64 hi) {
  int i, c = 0;
  for (i = 0; i < nused; ++i) if (se(used[i].n, name)) { c = ++used[i].c; break; }
  if (i == nused) { used[nused].n = name; used[nused].c = 0; ++nused; }
  u64 v = lo;
  if (!c) find("sym", name, &v);
  else {
    char *b = namebuf + nb; int j = 0; while (name[j]) b[j] = name[j], ++j; b[j++] = '#'; b[j] = 0;
    findn("sym", b, (u64)c, &v);
  }
  return v;
}
u64 h_get(const char *name) { u64 v = 0; find("sym", name, &v); return v; }
u64 h_conc(u64 v) { return v; }
void h_assume(u64 c) { if (!c) { out("ASSUMEFAIL\n"); die(98); } }
void h_assert(u64 c, const char *msg) { if (!c) { out("ASSERTFAIL "); out(msg); out("\n"); die(77); } }
static u64 hexn(const char **p) { u64 v = 0; for (;; ++*p) { char c = **p; if (c >= '0' && c <= '9') v = v * 16 + (u64)(c - '0'); else if (c >= 'a' && c <= 'f') v = v * 16 + (u64)(c - 'a' + 10); else return v; } }
int h_perm(const void *a) {
  static char mb[1 << 20];
  int fd = (int)rsys(SYS_open, (long)"/proc/self/maps", O_RDONLY, 0, 0, 0, 0);
  long n = 0, r;
  while ((r = rsys(SYS_read, fd, (long)(mb + n), (long)(sizeof mb - 1 - n), 0, 0, 0)) > 0) n += r;
  mb[n] = 0;
  rsys(SYS_close, fd, 0, 0, 0, 0, 0);
  const char *p = mb;
  while (*p) {
    u64 lo = hexn(&p); ++p;
    u64 hi = hexn(&p); ++p;
    if ((u64)a >= lo && (u64)a < hi) return 4 | (p[0] == 'r') | (p[1] == 'w') * 2;
    while (*p && *p != '\n') ++p;
    if (*p) ++p;
  }
  return 0;
}
int h_load(const void *a) {
  static int fd = -1;
  unsigned char c = 0;
  if (fd < 0) fd = (int)rsys(SYS_open, (long)"/proc/self/mem", O_RDONLY, 0, 0, 0, 0);
  rsys(SYS_pread64, fd, (long)&c, 1, (long)a, 0, 0);
  return c;
}
static void ok(const char *k, u64 c) { out("OK "); out(k); out(c ? " 1\n" : " 0\n"); }
void h_abort_ok(u64 c) { ok("ABORT", c); }
void h_segv_ok(u64 c) { ok("SEGV", c); }
void h_exit_ok(u64 c) { ok("EXIT", c); }
void h_reach(const char *l) {}
void h_trace(const char *n, u64 v) { out("TRACE "); out(n); out(" "); outn(v); out("\n"); }
u64 h_param(const char *n, u64 d) { find("param", n, &d); return d; }
static u64 failBudget, failSticky, mfBudget;
static u64 mapped;
u64 h_mapped(void) { return mapped; }
static u64 mprotBudget, nprot;
void h_mprot_fail(u64 b) { mprotBudget = b; }
void h_os_fail(u64 b, u64 s) { failBudget = b; failSticky = s; }
void h_munmap_fail(u64 b) { mfBudget = b; }
void h_map_skew(u64 p) {}
void h_real_print(u64 on) { realp = (int)on; }
int h_native(void) { return 1; }
static u64 nmap, nunmap;
u64 h_nmaps(void) { return nmap; }
/* ------------------------------------------------------------------ environment of the second stage */
static char *envs[64];
static int nenv;
static char ebuf[1 << 16];
static size_t eb;
static void envput(const char *k, const char *v, size_t n) {
  char *p = ebuf + eb; envs[nenv++] = p;
  while (*k) ebuf[eb++] = *k++;
  ebuf[eb++] = '=';
  for (size_t i = 0; i < n; ++i) ebuf[eb++] = v[i];
  ebuf[eb++] = 0;
}
void h_setenv(const char *k, const char *v) { envput(k, v, sl(v)); }
void h_setenv_bytes(const char *k, const char *v, u64 n) { envput(k, v, n); }
void h_setenv_num(const char *k, u64 v) {
  char b[32]; int i = 31; b[i] = 0; int neg = (int64_t)v < 0; u64 m = neg ? 0 - v : v;
  do b[--i] = (char)('0' + m % 10); while (m /= 10);
  if (neg) b[--i] = '-';
  envput(k, b + i, sl(b + i));
}
void h_no_ctors(void) { noctors = 1; }
void h_sig_ignore(u64 on) { sigign = (int)on; }
void h_run_dtors(void) { rundtors = 1; }
void harness_pre(void) __attribute__((weak));
void harness_post(void) __attribute__((weak));
void harness_abort(void) __attribute__((weak));
static void onabort(int sig) {
  long ka[4] = {0, 0, 0, 0}; /* SIG_DFL */
  rsys(SYS_rt_sigaction, sig, (long)ka, 0, 8, 0, 0);
  long z = 0;
  rsys(SYS_rt_sigprocmask, 2 /* SIG_SETMASK */, (long)&z, 0, 8, 0, 0);
  if (harness_abort) harness_abort();
  rsys(SYS_kill, rsys(SYS_getpid, 0, 0, 0, 0, 0, 0), sig, 0, 0, 0, 0);
}
static void finishd(void) { out("DONE\n"); die(0); }
static void post(void) { if (rundtors) { if (harness_post) harness_post(); finishd(); } }
static u64 envnum(const char *n) { const char *s = env0(n); u64 v = 0; while (s && *s >= '0' && *s <= '9') v = v * 10 + (u64)(*s++ - '0'); return v; }
__attribute__((constructor(101))) static void hrt_early(void) {
  const char *st = env0("H_STAGE"), *rp = env0("H_REPLAY");
  if (!st || !rp) return;
  load(rp);
  if (st[0] == '1' && env0("H_SIGIGN")) { int i; for (i = 1; i < 16; ++i) if (i != 9 && i != SIGSEGV && i != SIGBUS) signal(i, SIG_IGN); }
  else if (harness_abort && st[0] == '1') { signal(SIGILL, onabort); signal(SIGABRT, onabort); }
  stage = st[0] - '0';
  if (stage == 1) { failBudget = envnum("H_FAILB"); failSticky = envnum("H_FAILS"); mprotBudget = envnum("H_FAILP"); mfBudget = envnum("H_FAILU"); }
  if (stage == 1 && env0("H_NOCTORS")) { harness_main(); finishd(); }
}
/* runs after every default-priority destructor of the program */
__attribute__((destructor(101))) static void hrt_late(void) { if (stage == 1) post(); }
int main(int argc, char **argv) {
  if (stage == 0) {
    if (harness_pre) harness_pre();
    if (noctors) envput("H_NOCTORS", "1", 1);
    if (rundtors) envput("H_DTORS", "1", 1);
    if (realp) envput("H_RP", "1", 1);
    if (sigign) envput("H_SIGIGN", "1", 1);
    envput("H_STAGE", "1", 1);
    h_setenv_num("H_FAILB", failBudget); h_setenv_num("H_FAILS", failSticky); h_setenv_num("H_FAILP", mprotBudget); h_setenv_num("H_FAILU", mfBudget);
    const char *rp = env0("H_REPLAY");
    envput("H_REPLAY", rp, sl(rp));
    envs[nenv] = 0;
    execve("/proc/self/exe", argv, envs);
    die(97);
  }
  if (env0("H_DTORS")) rundtors = 1;
  harness_main();
  if (rundtors) return 0;
  finishd();
}
/* ------------------------------------------------------------------ coroutine threads */
#define MAXT 8
static struct { ucontext_t c; void (*fn)(void *); void *arg; int st; void *wait; } T[MAXT];
static int nT = 1, cur = 0;
static u64 points;
int h_self(void) { return cur; }
static void swtch(int to) { int f = cur; if (f == to) return; cur = to; swapcontext(&T[f].c, &T[to].c); }
enum { RUN, BLOCK, JOIN, DONE };
static void forced(void) { /* current cannot run */
  int any = 0, i, all = 1;
  for (i = 1; i < nT; ++i) { if (T[i].st == RUN) any = 1; if (T[i].st != DONE) all = 0; }
  if (!any) { if (all) { T[0].st = RUN; swtch(0); return; } out("DEADLOCK\n"); die(96); }
  u64 to;
  u64 pt = points++;
  if (!findn("sched", "", pt, &to) || T[to].st != RUN) { for (to = 1; T[to].st != RUN; ++to); }
  swtch((int)to);
}
static void point(void) {
  int live = 0;
  if (nT == 1 || cur == 0) return;
  for (int i = 0; i < nT; ++i) if (T[i].st != DONE && T[i].st != JOIN) live++;
  if (live < 2) return;
  u64 to, pt = points++;
  if (findn("sched", "", pt, &to) && (int)to != cur && T[to].st == RUN) swtch((int)to);
}
void h_sched_point(void) { point(); }
void h_yield(void) { point(); }
static void tmain(void) { T[cur].fn(T[cur].arg); T[cur].st = DONE; forced(); for (;;) ; }
void h_spawn(void (*fn)(void *), void *arg) {
  int id = nT++;
  T[id].fn = fn; T[id].arg = arg; T[id].st = RUN;
  getcontext(&T[id].c);
  void *st = (void *)rsys(SYS_mmap, 0, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  T[id].c.uc_stack.ss_sp = st; T[id].c.uc_stack.ss_size = 1 << 20; T[id].c.uc_link = 0;
  makecontext(&T[id].c, tmain, 0);
}
void h_preempt(u64 n) {}
void h_join(void) {
  for (;;) {
    int all = 1;
    for (int i = 1; i < nT; ++i) if (T[i].st != DONE) all = 0;
    if (all) { T[0].st = RUN; return; }
    T[0].st = JOIN;
    forced();
  }
}
static struct { void *m; int owner; } MX[32];
static int nMX;
static int mx(void *m) { for (int i = 0; i < nMX; ++i) if (MX[i].m == m) return i; MX[nMX].m = m; MX[nMX].owner = -1; return nMX++; }
pthread_t __wrap_pthread_self(void) { return (pthread_t)(0x7000 + (u64)cur); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { MX[mx(m)].owner = -1; return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { point(); int i = mx(m); if (MX[i].owner >= 0) return EBUSY; MX[i].owner = cur; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  point();
  int i = mx(m);
  while (MX[i].owner >= 0) {
    if (cur == 0 || nT == 1) { out("DEADLOCK\n"); die(96); }
    T[cur].st = BLOCK; T[cur].wait = m;
    forced();
  }
  MX[i].owner = cur;
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
  point();
  int i = mx(m);
  if (MX[i].owner != cur) { out("DEADLOCK\n"); die(96); }
  MX[i].owner = -1;
  for (int k = 1; k < nT; ++k) if (T[k].st == BLOCK && T[k].wait == (void *)m) T[k].st = RUN;
  return 0;
}
/* ------------------------------------------------------------------ operating system */
void *__wrap_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off) {
  point();
  if (stage != 1) return (void *)rsys(SYS_mmap, 0, (long)len, prot, flags, fd, off);
  if (len == 0) { errno = EINVAL; return MAP_FAILED; }
  if (len > (1ull << 40)) { ++nmap; errno = ENOMEM; return MAP_FAILED; }
  u64 base, f;
  if (failBudget && (failSticky == 2 || (findn("sym", "mmapfail_", nmap, &f) && f))) { if (!failSticky) --failBudget; ++nmap; errno = ENOMEM; return MAP_FAILED; }
  int have = findn("map", "", nmap, &base);
  ++nmap;
  mapped += (len + 4095) & ~4095ull;
  if (!have || base == ~0ull) return (void *)rsys(SYS_mmap, 0, (long)len, prot, flags | MAP_NORESERVE, fd, off);
  long r = rsys(SYS_mmap, (long)base, (long)len, prot, flags | MAP_FIXED_NOREPLACE | MAP_NORESERVE, fd, off);
  if (r != (long)base) { out("MAPMISMATCH\n"); die(95); }
  return (void *)r;
}
int __wrap_munmap(void *a, size_t len) {
  u64 f;
  point();
  if (stage == 1 && len && mfBudget && findn("sym", "munmapfail_", nunmap, &f) && f) { --mfBudget; ++nunmap; errno = ENOMEM; return -1; }
  if (len) ++nunmap;
  mapped -= (len + 4095) & ~4095ull;
  return (int)rsys(SYS_munmap, (long)a, (long)len, 0, 0, 0, 0);
}
int __wrap_mprotect(void *a, size_t len, int prot) {
  u64 f;
  point();
  if (stage == 1 && len && mprotBudget && findn("sym", "mprotfail_", nprot++, &f) && f) { --mprotBudget; errno = ENOMEM; return -1; }
  return (int)rsys(SYS_mprotect, (long)a, (long)len, prot, 0, 0, 0);
}
ssize_t __wrap_write(int fd, const void *p, size_t n) { return io_write(fd, p, n); }
int __wrap_open(const char *path, int flags, ...) { return io_open(path, flags); }
int __wrap_close(int fd) { return 0; }
void __wrap__exit(int c) { if (harness_abort && stage == 1 && env0("H_RP")) { stage = 2; harness_abort(); } die(c); }
