/* C18 the library lock: T threads, each takes and releases it 'rounds' times with a symbolic nesting; every
 * interleaving of up to P preemptions at any access to shared memory of the lock code and any pthread call.
 * pat: shape of a round, 0: take^d release^d, 1: take take release take release release */
#include "hx.h"
void DUMA_get_sem(void);
int DUMA_rel_sem(int);
static int owner, inside, rounds, dmax, pat, taken[5];
static void take(void) {
  int me = h_self() + 1;
  DUMA_get_sem();
  h_assert(owner == 0 || owner == me, "one holder at a time");
  owner = me;
  ++inside;
  ++taken[h_self()];
  h_yield();
  h_assert(owner == me, "no other thread gets the lock while it is held");
}
static void give(void) {
  int me = h_self() + 1, r;
  h_assert(owner == me, "no other thread gets the lock while it is held");
  if (--inside == 0) owner = 0;
  r = DUMA_rel_sem(40 + me);
  h_assert(r == 40 + me, "releasing returns the value given");
  if (inside && owner == me) {
    h_yield();
    h_assert(owner == me, "an inner release does not make the lock available");
  }
}
static void th(void *x) {
  int i, j, d;
  for (i = 0; i < rounds; ++i) {
    d = (int)h_conc(h_sym("depth", 8, 1, (u64)dmax));
    for (j = 0; j < d; ++j) take();
    if (pat && h_conc(h_sym("pat", 8, 0, 1))) { give(); take(); }
    for (j = 0; j < d; ++j) give();
  }
}
int harness_main(void) {
  int t, T = (int)h_param("T", 2);
  rounds = (int)h_param("rounds", 2);
  dmax = (int)h_param("dmax", 2);
  pat = (int)h_param("pat", 0);
  h_preempt(h_param("P", 3));
  for (t = 0; t < T; ++t) h_spawn(th, 0);
  h_join();
  h_assert(inside == 0 && owner == 0, "the lock is free when every holder released it");
  DUMA_get_sem();
  DUMA_rel_sem(0);
  for (t = 1; t <= T; ++t) h_assert(taken[t] >= rounds, "every thread got the lock");
  h_trace("taken", (u64)(taken[1] * 100 + taken[2]));
  h_reach("end");
  return 0;
}
