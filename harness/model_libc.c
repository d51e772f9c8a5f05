/* plain C models of the few libc functions DUMA calls; only used by the symbolic executor */
#include "h.h"
#include "h_io.inc"
#include <sys/types.h>
ssize_t write(int fd, const void *p, size_t n) { return io_write(fd, p, n); }
int open(const char *path, int flags, ...) { return io_open(path, flags); }
int close(int fd) { return 0; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) ++a, ++b; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) ++a, ++b, --n; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; while (n && *a == *b) ++a, ++b, --n; return n ? *a - *b : 0; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
void *memset(void *d, int c, size_t n) { unsigned char *p = d; while (n--) *p++ = (unsigned char)c; return d; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
void free(void *);
char *strerror(int e) { free(0); return (char *)"error"; } /* glibc calls free(NULL) here */
long strtol(const char *s, char **end, int base) {
  unsigned long v = 0;
  int neg = 0;
  while (isspace(*s)) ++s;
  if (*s == '-' || *s == '+') neg = *s++ == '-';
  while (isdigit(*s)) v = v * 10 + (unsigned long)(*s++ - '0');
  if (end) *end = (char *)s;
  return neg ? -(long)v : (long)v;
}
long atol(const char *s) { return strtol(s, 0, 10); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
extern char **environ;
char *getenv(const char *k) {
  int i;
  for (i = 0; environ[i]; ++i) {
    size_t j = 0;
    while (k[j] && environ[i][j] == k[j]) ++j;
    if (!k[j] && environ[i][j] == '=') return environ[i] + j + 1;
  }
  return 0;
}
/* libstdc++: std::set_new_handler, std::get_new_handler */
static void *newhandler;
void *_ZSt15set_new_handlerPFvvE(void *h) { void *o = newhandler; newhandler = h; return o; }
void *_ZSt15get_new_handlerv(void) { return newhandler; }
