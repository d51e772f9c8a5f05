/* Interface between a harness and its two back ends: the symbolic executor and the native
 * replay runtime (hrt.c). */
#ifndef H_H
#define H_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint64_t u64;
/* an arbitrary value of 'bits' bits in [lo,hi] */
u64 h_sym(const char *name, u64 bits, u64 lo, u64 hi);
u64 h_get(const char *name);             /* the value of an input introduced earlier (harness_pre) */
u64 h_conc(u64 v);                       /* case split: one path per feasible value */
void h_assume(u64 c);
void h_assert(u64 c, const char *msg);
int h_perm(const void *p);               /* 0 unmapped, 4 no access, 5 read only, 7 read/write */
int h_load(const void *p);               /* byte at p, whatever its protection */
void h_abort_ok(u64 c);                  /* is a diagnostic stop legitimate from here on? */
void h_segv_ok(u64 c);
void h_exit_ok(u64 c);
void h_reach(const char *label);
void h_trace(const char *name, u64 v);
u64 h_param(const char *name, u64 dflt);
void h_os_fail(u64 budget, u64 sticky);  /* that many mmap calls may fail (any of them); sticky 1: any number of them, 2: all of them */
void h_mprot_fail(u64 budget);           /* that many mprotect calls may fail */
void h_munmap_fail(u64 budget);
void h_map_skew(u64 pages);              /* later mappings start this many pages off the grid */
void h_real_print(u64 on);               /* execute the diagnostics code instead of stopping at it */
void h_sig_ignore(u64 on);               /* signals that can be ignored are (harness_pre) */
void h_run_dtors(void);
void h_no_ctors(void);
void h_setenv(const char *k, const char *v);
void h_setenv_num(const char *k, u64 v); /* text of the decimal number v (signed 64 bit) */
void h_setenv_bytes(const char *k, const char *v, u64 n);
void h_spawn(void (*fn)(void *), void *arg);
void h_preempt(u64 n);
void h_join(void);
int h_self(void);
void h_yield(void);
int h_native(void);
u64 h_nmaps(void);
u64 h_mapped(void);                      /* bytes mapped and not yet unmapped */
/* captured output */
u64 h_out_len(void);
int h_out_byte(u64 i);
int h_out_fd(u64 i);
void h_out_reset(void);
void h_out_fail(u64 on);                  /* the system refuses every write */
const char *h_out_path(void);
int h_out_opens(void);
int h_out_flags(void);
void harness_pre(void);
int harness_main(void);
void harness_abort(void); /* optional: called when a diagnostic stop happens, before the end */
#ifdef __cplusplus
}
#endif
#define H_NONE 4
#define H_RW 7
#define H_ACC(p) (h_perm((const void *)(p)) == H_RW)
#endif
