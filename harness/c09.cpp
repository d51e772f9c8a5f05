/* C09 every allocation entry point x every release entry point: accepted exactly when both are of the same family */
#include <new>
#include "dumapp.h"
#include "hx.h"
enum { NA = 18, NR = 14 };
static u64 armed, k, v;
static unsigned char *B;
static u64 afam(u64 a) { return a < 8 ? 0 : a < 12 ? 1 : a < 16 ? 2 : a - 13; }
static u64 rfam(u64 r) { return r < 4 ? 0 : r < 8 ? 1 : r < 12 ? 2 : r - 9; }
static void *get(u64 a, u64 n) {
  void *p = 0;
  switch (a) {
  case 0: return _duma_malloc(n, "t.c", 1);
  case 1: return _duma_calloc(n, 1, "t.c", 2);
  case 2: return _duma_realloc(0, n, "t.c", 3);
  case 3: return _duma_memalign(16, n, "t.c", 4);
  case 4: return _duma_posix_memalign(&p, 32, n, "t.c", 5) ? (void *)0 : p;
  case 5: return _duma_valloc(n, "t.c", 6);
  case 6: return _duma_strdup("some text", "t.c", 7);
  case 7: return malloc(n);
  case 8: return ::operator new(n);
  case 9: return ::operator new(n, std::nothrow);
  case 10: return ::operator new(n, "t.c", 8);
  case 11: return ::operator new(n, std::nothrow, "t.c", 9);
  case 12: return ::operator new[](n);
  case 13: return ::operator new[](n, std::nothrow);
  case 14: return ::operator new[](n, "t.c", 8);
  case 15: return ::operator new[](n, std::nothrow, "t.c", 9);
  case 16: return _duma_allocate(0, n, 0, 255, 1, EFA_MEMBER_NEW_ELEM, DUMA_FAIL_NULL, "t.c", 10);
  default: return _duma_allocate(0, n, 0, 255, 1, EFA_MEMBER_NEW_ARRAY, DUMA_FAIL_NULL, "t.c", 11);
  }
}
static void rel(u64 r, void *p) {
  void *q = 0;
  switch (r) {
  case 0: _duma_free(p, "t.c", 21); break;
  case 1: free(p); break;
  case 2: q = _duma_realloc(p, 20, "t.c", 22); h_assert(q != 0, "realloc of a block of the C functions is served"); if (q) _duma_free(q, "t.c", 23); break;
  case 3: q = _duma_realloc(p, 0, "t.c", 24); h_assert(q == 0, "realloc to zero returns NULL"); break;
  case 4: ::operator delete(p); break;
  case 5: ::operator delete(p, std::nothrow); break;
  case 6: ::operator delete(p, "t.c", 25); break;
  case 7: ::operator delete(p, std::nothrow, "t.c", 26); break;
  case 8: ::operator delete[](p); break;
  case 9: ::operator delete[](p, std::nothrow); break;
  case 10: ::operator delete[](p, "t.c", 25); break;
  case 11: ::operator delete[](p, std::nothrow, "t.c", 26); break;
  case 12: _duma_deallocate(p, 1, EFA_MEMBER_DEL_ELEM, "t.c", 27); break;
  default: _duma_deallocate(p, 1, EFA_MEMBER_DEL_ARRAY, "t.c", 28); break;
  }
}
extern "C" void harness_pre(void) {
  if (h_param("pf", 0)) h_setenv("DUMA_PROTECT_FREE", "0");
  if (h_param("below", 0)) h_setenv("DUMA_PROTECT_BELOW", "1");
  if (h_param("access", 0)) h_setenv("DUMA_FREE_ACCESS", "1");
  h_setenv("DUMA_FILL", "-1");
}
extern "C" void harness_abort(void) {
  if (!armed) return;
  h_assert(H_ACC(B + k) && h_load(B + k) == (int)v, "other blocks are untouched when a mismatch is diagnosed");
  h_reach("diagnosed");
}
extern "C" int harness_main(void) {
  u64 a = h_conc(h_sym("a", 8, h_param("a0", 0), h_param("a1", NA - 1))), r = h_conc(h_sym("r", 8, h_param("r0", 0), h_param("r1", NR - 1)));
  u64 n = h_param("zero", 0) ? 0 : h_param("access", 0) ? h_sym("n", 8, 1, 12) : x_size("n", "npg", 0, h_param("pg", 0));
  unsigned char *p;
  B = (unsigned char *)malloc(100);
  k = h_sym("k", 8, 0, 99);
  v = h_sym("v", 8, 0, 255);
  B[k] = (unsigned char)v;
  p = (unsigned char *)get(a, n);
  h_assert(p != 0, "allocation");
  if (!h_param("zero", 0)) h_assert(H_ACC(p), "the block is accessible");
  if (afam(a) == rfam(r)) {
    rel(r, p);
    h_assert(NOACC(p), "a matched release is accepted and the block is inaccessible afterwards");
    free(B);
    h_reach("accepted");
    return 0;
  }
  armed = 1;
  h_abort_ok(1);
  rel(r, p);
  h_assert(0, "a release by a function of another family was accepted");
  return 0;
}
