/* Scripted stand-in for the system entropy source, preloaded into the process under test.
 * While armed it answers open/read/close/fopen of the random devices and getrandom/getentropy
 * from a script of faults and records every byte it delivered. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <unistd.h>

static int armed, open_err, close_err, nplan, ipos, sticky;
static long plan[64];              /* 0: everything asked for; >0: at most that many bytes; <0: -errno; LONG_MIN.. eof = 1<<40 */
static unsigned char *logbuf;
static size_t loglen, logcap;
static long opens, closes, reads, failed, other;
static uint64_t ctr = 0x9E3779B97F4A7C15ULL;
static char dev[4096];             /* fds that are ours */

#define REAL(n) ({ static __typeof__(&n) p; if (!p) p = (__typeof__(&n))dlsym(RTLD_NEXT, #n); p; })

static int is_dev(const char *p) { return p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")); }

static void produce(unsigned char *d, size_t n) {
  if (loglen + n > logcap) { logcap = (loglen + n) * 2; logbuf = realloc(logbuf, logcap); }
  for (size_t i = 0; i < n; i++) {
    uint64_t z = (ctr += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; z ^= z >> 31;
    d[i] = 1 + z % 255;            /* never zero: unfilled words show */
  }
  memcpy(logbuf + loglen, d, n);
  loglen += n;
}

static ssize_t deliver(void *d, size_t n) {
  long a = 0;
  reads++;
  if (ipos < nplan) a = plan[ipos++];
  else if (sticky && nplan) a = plan[nplan - 1];
  if (a == (1L << 40)) { failed++; return 0; }
  if (a < 0) { failed++; errno = (int)-a; return -1; }
  if (a > 0 && (size_t)a < n) { failed++; n = (size_t)a; }
  produce(d, n);
  return (ssize_t)n;
}

static int do_open(const char *p, int real) {
  (void)p;
  opens++;
  if (open_err) { failed++; if (real >= 0) REAL(close)(real); opens--; errno = open_err; return -1; }
  if (real >= 0 && real < (int)sizeof dev) dev[real] = 1;
  return real;
}

#define OPENER(name, proto, pass)                                                    \
  int name proto {                                                                   \
    mode_t m = 0; va_list ap; va_start(ap, fl); if (fl & (O_CREAT | __O_TMPFILE)) m = va_arg(ap, mode_t); va_end(ap); \
    int r = REAL(name) pass;                                                         \
    if (armed && is_dev(path)) return do_open(path, r);                              \
    return r; }
OPENER(open, (const char *path, int fl, ...), (path, fl, m))
OPENER(open64, (const char *path, int fl, ...), (path, fl, m))
OPENER(openat, (int dfd, const char *path, int fl, ...), (dfd, path, fl, m))
OPENER(openat64, (int dfd, const char *path, int fl, ...), (dfd, path, fl, m))
extern int __open_2(const char *, int), __open64_2(const char *, int);
int __open_2(const char *path, int fl) { int r = REAL(__open_2)(path, fl); return armed && is_dev(path) ? do_open(path, r) : r; }
int __open64_2(const char *path, int fl) { int r = REAL(__open64_2)(path, fl); return armed && is_dev(path) ? do_open(path, r) : r; }

ssize_t read(int fd, void *d, size_t n) {
  if (armed && fd >= 0 && fd < (int)sizeof dev && dev[fd]) return deliver(d, n);
  return REAL(read)(fd, d, n);
}
extern ssize_t __read_chk(int, void *, size_t, size_t);
ssize_t __read_chk(int fd, void *d, size_t n, size_t b) {
  if (armed && fd >= 0 && fd < (int)sizeof dev && dev[fd]) return deliver(d, n);
  return REAL(__read_chk)(fd, d, n, b);
}
int close(int fd) {
  if (fd >= 0 && fd < (int)sizeof dev && dev[fd]) {
    dev[fd] = 0; closes++;
    int r = REAL(close)(fd);
    if (armed && close_err) { failed++; errno = close_err; return -1; }
    return r;
  }
  return REAL(close)(fd);
}
ssize_t getrandom(void *d, size_t n, unsigned fl) {
  if (armed) { other++; if (open_err) { failed++; errno = open_err; return -1; } return deliver(d, n); }
  return REAL(getrandom)(d, n, fl);
}
int getentropy(void *d, size_t n) {
  if (armed) { other++; if (open_err) { failed++; errno = open_err; return -1; }
    ssize_t r = deliver(d, n); if (r < 0) return -1; if ((size_t)r < n) { errno = EIO; return -1; } return 0; }
  return REAL(getentropy)(d, n);
}
static ssize_t ck_read(void *c, char *d, size_t n) { (void)c; return deliver(d, n); }
static int ck_close(void *c) { (void)c; closes++; if (close_err) { errno = close_err; return -1; } return 0; }
static FILE *do_fopen(void) {
  if (open_err) { failed++; errno = open_err; return NULL; }
  opens++; other++;
  return fopencookie(NULL, "r", (cookie_io_functions_t){ck_read, NULL, NULL, ck_close});
}
FILE *fopen(const char *p, const char *m) { return armed && is_dev(p) ? do_fopen() : REAL(fopen)(p, m); }
FILE *fopen64(const char *p, const char *m) { return armed && is_dev(p) ? do_fopen() : REAL(fopen64)(p, m); }

void vp_arm(int oerr, int cerr, const long *pl, int n, int stick) {
  open_err = oerr; close_err = cerr; nplan = n; sticky = stick; ipos = 0; loglen = 0;
  opens = closes = reads = failed = other = 0;
  memcpy(plan, pl, n * sizeof *pl);
  armed = 1;
}
/* stats: opens closes reads failed other loglen */
void vp_disarm(long *st) {
  armed = 0;
  st[0] = opens; st[1] = closes; st[2] = reads; st[3] = failed; st[4] = other; st[5] = (long)loglen;
}
void *vp_log(void) { return logbuf; }
