/* Fault injection under the real binary: counts the operations it performs on files below SHIM_DIR and lets it die,
 * or lets them fail, from the SHIM_AT-th one on.  SHIM_MODE: kill (die before the operation, or after SHIM_PART/1000 of a
 * write), full (every operation fails from there on), short (every write from there on is short, every other one interrupted).
 * One byte per operation is appended to SHIM_LOG: o(pen) w(rite) r(ename) t(runcate) u(nlink). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
static long count = 0, at = -1, part = 0; static int mode = 0, logfd = -1, ready = 0; static char dir[4096]; static size_t dirlen;
static void init(void) {
  if (ready) return; ready = 1;
  const char *d = getenv("SHIM_DIR"), *m = getenv("SHIM_MODE"), *a = getenv("SHIM_AT"), *p = getenv("SHIM_PART"), *l = getenv("SHIM_LOG");
  if (d) { strncpy(dir, d, sizeof dir - 1); dirlen = strlen(dir); }
  if (a) at = atol(a);
  if (p) part = atol(p);
  if (m) mode = m[0];
  if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND, 0644);
}
static int mine(const char *p) { init(); return dirlen && p && strncmp(p, dir, dirlen) == 0; }
static int minefd(int fd) { init(); if (!dirlen || fd == logfd) return 0; char l[64], b[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, b, sizeof b - 1); if (n <= 0) return 0; b[n] = 0; return mine(b); }
static void die(void) { syscall(SYS_exit_group, 77); }
/* returns 1 when the operation has to fail */
static int op(char c) { count++; if (logfd >= 0) syscall(SYS_write, logfd, &c, 1); if (at < 0 || count < at) return 0; if (mode == 'k') { if (c != 'w') die(); return 0; } return mode == 'f'; }
ssize_t write(int fd, const void *b, size_t n) {
  if (!minefd(fd)) return syscall(SYS_write, fd, b, n);
  int bad = op('w');
  if (bad) { errno = ENOSPC; return -1; }
  if (at >= 0 && count >= at && mode == 'k') { size_t k = n * part / 1000; if (part >= 1000) k = n; while (k > 0) { ssize_t w = syscall(SYS_write, fd, b, k); if (w <= 0) break; b = (const char *)b + w; k -= w; } die(); }
  if (at >= 0 && count >= at && mode == 's') { if (count % 2) { errno = EINTR; return -1; } size_t k = 1 + n * part / 1001; if (k > n) k = n; return syscall(SYS_write, fd, b, k); }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) { if (!minefd(fd)) return syscall(SYS_writev, fd, v, c); if (c < 1) return 0; int k = 0; while (k < c - 1 && v[k].iov_len == 0) k++; return write(fd, v[k].iov_base, v[k].iov_len); }
#define OPEN(name, base) int name(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); \
  if (mine(p) && (fl & (O_CREAT | O_TRUNC)) && op('o')) { errno = ENOSPC; return -1; } return syscall(SYS_openat, AT_FDCWD, p, fl | O_CLOEXEC, m); }
OPEN(open, "open")
OPEN(open64, "open64")
int openat(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); if (mine(p) && (fl & (O_CREAT | O_TRUNC)) && op('o')) { errno = ENOSPC; return -1; } return syscall(SYS_openat, d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(ap, mode_t) : 0; va_end(ap); if (mine(p) && (fl & (O_CREAT | O_TRUNC)) && op('o')) { errno = ENOSPC; return -1; } return syscall(SYS_openat, d, p, fl, m); }
int rename(const char *a, const char *b) { if ((mine(a) || mine(b)) && op('r')) { errno = ENOSPC; return -1; } return syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
int ftruncate(int fd, off_t n) { if (minefd(fd) && op('t')) { errno = ENOSPC; return -1; } return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { if (minefd(fd) && op('t')) { errno = ENOSPC; return -1; } return syscall(SYS_ftruncate, fd, n); }
int unlink(const char *p) { if (mine(p)) op('u'); return syscall(SYS_unlinkat, AT_FDCWD, p, 0); }
