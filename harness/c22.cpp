/* C22 operator new / new[] in all forms. hk: 0 no handler, 1 a handler that returns up to T times and then throws,
 * 2 a handler that removes itself after T calls, 3 a handler that frees a block.
 * size: 0 up to pg pages, 1 some megabytes (needs a new mapping, which the system may refuse), 2 more than an address space */
#include <new>
#include "dumapp.h"
#include "hx.h"
static u64 calls, T, hk;
static void *spare;
static void handler() {
  ++calls;
  if (hk == 1 && calls > T) throw std::bad_alloc();
  if (hk == 2 && calls > T) std::set_new_handler(0);
  if (hk == 3) {
    if (spare) ::operator delete(spare);
    else throw std::bad_alloc();
    spare = 0;
  }
}
static void *get(u64 f, u64 n) {
  switch (f) {
  case 0: return ::operator new(n);
  case 1: return ::operator new[](n);
  case 2: return ::operator new(n, "t.c", 8);
  case 3: return ::operator new[](n, "t.c", 9);
  case 4: return ::operator new(n, std::nothrow);
  case 5: return ::operator new[](n, std::nothrow);
  case 6: return ::operator new(n, std::nothrow, "t.c", 10);
  default: return ::operator new[](n, std::nothrow, "t.c", 11);
  }
}
static void rel(u64 r, void *p) {
  switch (r) {
  case 0: ::operator delete(p); break;
  case 1: ::operator delete[](p); break;
  case 2: ::operator delete(p, "t.c", 25); break;
  case 3: ::operator delete[](p, "t.c", 26); break;
  case 4: ::operator delete(p, std::nothrow); break;
  case 5: ::operator delete[](p, std::nothrow); break;
  case 6: ::operator delete(p, std::nothrow, "t.c", 27); break;
  default: ::operator delete[](p, std::nothrow, "t.c", 28); break;
  }
}
extern "C" void harness_pre(void) {
  if (h_param("z", 0)) h_setenv_num("DUMA_NEW_0_STRATEGY", h_conc(h_sym("strategy", 8, 2, 3)));
  if (h_param("pf", 0)) h_setenv("DUMA_PROTECT_FREE", "0");
  if (h_param("ma", 0)) h_setenv("DUMA_MAX_ALLOC", "2000");
}
extern "C" int harness_main(void) {
  u64 size = h_param("size", 0), f = h_conc(h_sym("form", 8, h_param("f0", 0), h_param("f1", 7))), n, threw = 0, nothrow = f >= 4, i;
  unsigned char *p = 0, *o;
  hk = h_param("hk", 0);
  T = hk == 1 || hk == 2 ? h_conc(h_sym("T", 8, 0, h_param("tmax", 2))) : 0;
  o = (unsigned char *)::operator new(40);
  o[39] = 7;
  if (hk == 3) spare = ::operator new(3000000);
  n = size == 0 ? x_size("n", "pages", 0, h_param("pg", 1)) : size == 1 ? 3000000 + h_sym("n", 12, 0, 4095) : size == 3 ? 0 : h_sym("n", 64, 1ull << 62, ~0ull);
  if (h_param("fail", 0)) h_os_fail(h_param("budget", 4), h_param("fail", 0) - 1);
  if (hk) std::set_new_handler(handler);
  try {
    p = (unsigned char *)get(f, n);
  } catch (const std::bad_alloc &) {
    threw = 1;
    p = 0;
  }
  h_assert(!(threw && nothrow), "a nothrow operator never throws");
  h_assert(threw || nothrow || p != 0, "a throwing operator never returns null");
  if (size == 0 || size == 3) h_assert(p != 0, "a satisfiable request is satisfied");
  if (size == 2) h_assert(p == 0, "an impossible request fails");
  if (h_param("fail", 0) == 0 && size == 1) h_assert(p != 0, "a satisfiable request is satisfied");
  if (p) {
    h_reach("served");
    if (hk == 0 || h_param("fail", 0) == 0) h_assert(calls == 0, "the handler is called only after a failure");
    if (hk == 1) h_assert(calls <= T, "a handler that throws ends the request");
    if (hk == 2) h_assert(calls <= T + 1, "a handler removed is not called again");
    if (n) {
      u64 k = h_sym("k", 64, 0, size == 1 ? 3004095 : 8191);
      h_assume(k < n);
      h_assert(H_ACC(p + k), "every byte of a block is accessible");
      h_assert(NOACC(UP(p + n)), "the page after the block is inaccessible");
      p[k] = 5;
    }
    rel(f, p);
    if (n) h_assert(NOACC(p), "a deleted block is inaccessible");
  } else {
    h_reach("failed");
    if (hk == 0) h_assert(calls == 0, "no handler, no call");
    if (hk == 1) h_assert(calls == T + 1, "the handler is called until it gives up");
    if (hk == 2) h_assert(calls == T + 1, "the handler is called until there is none");
    if (hk == 3) h_assert(calls == 2, "the handler is called until it gives up");
  }
  /* the library and the installed handler stay as they were */
  {
    std::new_handler h = std::set_new_handler(0);
    h_assert(h == (hk == 0 || (hk == 2 && calls > T) ? (std::new_handler)0 : handler), "the installed handler stays installed");
  }
  for (i = 0; i < 8; ++i) rel(i, 0);
  h_assert(o[39] == 7, "other blocks are untouched");
  ::operator delete(o);
  h_reach("end");
  return 0;
}
