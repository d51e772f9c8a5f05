/* output capture shared by the model and by the native runtime */
#define OUTMAX 32768
static unsigned char ob[OUTMAX];
static unsigned char ofd[OUTMAX];
static u64 on;
static char opath[512];
static int oopens, oflags;
u64 h_out_len(void) { return on; }
int h_out_byte(u64 i) { return ob[i]; }
int h_out_fd(u64 i) { return ofd[i]; }
void h_out_reset(void) { on = 0; oopens = 0; opath[0] = 0; }
const char *h_out_path(void) { return opath; }
int h_out_opens(void) { return oopens; }
int h_out_flags(void) { return oflags; }
static int ofail;
void h_out_fail(u64 on) { ofail = (int)on; }
static long io_write(int fd, const void *p, size_t n) {
  const unsigned char *q = (const unsigned char *)p;
  size_t i;
  if (ofail) return -1;
  for (i = 0; i < n && on < OUTMAX; ++i) { ob[on] = q[i]; ofd[on] = (unsigned char)fd; ++on; }
  return (long)n;
}
static int io_open(const char *path, int flags) {
  int i;
  for (i = 0; i < 511 && path[i]; ++i) opath[i] = path[i];
  opath[i] = 0;
  oflags = flags;
  ++oopens;
  return 9 + oopens;
}
