/* C18: randombytes under every schedule of open/read outcomes. */
#include "xse.h"
#include <sys/types.h>
void randombytes(unsigned char *x, unsigned long long xlen);
#define NBUF 16
static unsigned long reads, max_reads, opens, max_opens; static int wide; static uint64_t devs; /* bit i: i-th open succeeded and is not closed */
static int fds[8]; static int nfd;
static unsigned char *base; static unsigned long len; static uint64_t probe; static int cover; /* wide: one arbitrary byte position */
/* the schedule, drawn before the call: outcome of each read (0 fails, 1 returns nothing, 2 returns data), its length, results of open, errno */
static int kind[16], ofd[16], eno[16]; static long got[16];
static unsigned char stream[256]; static unsigned long drawn; static int err;
int *xs_errno(void) { return &err; }
static void fail_errno(void) { err = eno[reads + opens]; }
int xs_open(const char *path, int flags, ...) {
  (void)flags; xse_check(!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random"), "opens the random device");
  if (++opens > max_opens) xse_kill();
  int r = ofd[opens]; if (r == -1) { fail_errno(); xse_reach("open fails"); return -1; }
  fds[nfd++] = r; return r; }
int xs_openat(int d, const char *path, int flags, ...) { (void)d; return xs_open(path, flags); }
static int live(int fd) { int i, ok = 0; for (i = 0; i < nfd; i++) ok |= fds[i] == fd; return ok; }
int xs_close(int fd) { int i; for (i = 0; i < nfd; i++) if (fds[i] == fd) { fds[i] = -2; return 0; } return -1; }
unsigned int xs_sleep(unsigned int s) { (void)s; return 0; }
int xs_usleep(unsigned int s) { (void)s; return 0; }
ssize_t xs_read(int fd, void *buf, size_t n) {
  if (++reads > max_reads) xse_kill();
  xse_check(live(fd), "reads from the opened device");
  long r; int kd = kind[reads - 1];
  if (kd == 0) { fail_errno(); xse_reach("read fails"); return -1; }
  if (kd == 1) { xse_reach("read returns nothing"); return 0; }
  r = got[reads]; xse_assume((unsigned long)r <= n);
  if ((unsigned long)r < n) xse_reach("short read");
  if (wide) { uint64_t o = (unsigned char *)buf - base; xse_check(o <= len && n <= len - o, "reads into the caller's buffer"); cover += (o <= probe) & (probe - o < (uint64_t)r); drawn += r; return r; }
  unsigned char *q = buf; unsigned long i; for (i = 0; i < NBUF && i < n; i++) { if (i < (unsigned long)r) q[i] = stream[drawn + i]; else q[i] = q[i]; } drawn += r; return r; }
static void call(const char *nm) {
  unsigned long i, d0 = drawn; reads = opens = 0;
  for (i = 0; i <= max_reads; i++) { if (wide && i < max_reads) kind[i] = xse_choice("read", 3); else { kind[i] = xse_sym(2, "outcome"); xse_assume(kind[i] < 3); } got[i] = (long)xse_sym(32, "got"); xse_assume(got[i] >= 1); }
  for (i = 0; i <= max_opens + 1; i++) { ofd[i] = xse_sym(32, "fd"); xse_assume(ofd[i] >= -1); }
  for (i = 0; i <= max_reads + max_opens + 1; i++) { eno[i] = xse_sym(8, "errno"); xse_assume(eno[i] > 0 && eno[i] < 134); }
  if (wide) { len = xse_sym(xse_param("bits", 23), nm); xse_assume(len >= (unsigned long)xse_param("min", 0)); base = xse_malloc_sym(0, len, nm); probe = xse_sym(64, "probe"); xse_assume(probe < len || len == 0); cover = 0;
    randombytes(base, len); xse_check(cover == (len > 0), "every byte filled exactly once"); xse_check(drawn - d0 == len, "exactly the requested bytes are drawn"); if (len >= (1UL << 21)) xse_reach("several chunks"); xse_reach("returned"); return; }
  unsigned char b[NBUF + 2], c[NBUF + 2]; xse_sym_bytes(b, sizeof b, "old"); memcpy(c, b, sizeof b); len = xse_param("len", 4); base = b + 1;
  randombytes(base, len);
  xse_check(drawn - d0 == len, "exactly the requested bytes are drawn"); xse_check_eq(base, stream + d0, len, "the buffer holds the bytes read, in order, each once");
  xse_check(b[0] == c[0], "nothing outside is written"); for (i = len + 1; i < sizeof b; i++) xse_check(b[i] == c[i], "nothing outside is written"); xse_reach("returned"); }
void harness(void) {
  wide = xse_param("wide", 0); max_reads = xse_param("reads", 5); max_opens = xse_param("opens", 3); xse_sym_bytes(stream, sizeof stream, "urandom");
  call("len"); if (xse_param("again", 1)) call("len2"); xse_reach("end"); }
