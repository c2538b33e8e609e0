/* LD_PRELOAD shim: numbers every mutating file-system call below a prefix and, at a chosen one, crashes the
 * process, tears the write, or answers with an error.  Controlled from Python through ctypes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

enum { OFF = 0, COUNT = 1, CRASH = 2, TORN = 3, FAIL_ONCE = 4, FAIL_FROM = 5, SHORT = 6 };
static char prefix[PATH_MAX];
static size_t plen;
static int mode = OFF, err_no = ENOSPC;
static long target = -1, counter;
static char logbuf[1 << 20];
static size_t logn;

void shim_arm(const char *p, int m, long t, int e) {
  strncpy(prefix, p, sizeof prefix - 1);
  plen = strlen(prefix);
  mode = m; target = t; err_no = e; counter = 0; logn = 0; logbuf[0] = 0;
}
void shim_disarm(void) { mode = OFF; }
long shim_count(void) { return counter; }
const char *shim_log(void) { return logbuf; }

#define REAL(name) ((__typeof__(&name))dlsym(RTLD_NEXT, #name))

static int under(const char *path) {
  char buf[PATH_MAX], full[PATH_MAX * 2];
  if (mode == OFF || !path) return 0;
  if (path[0] != '/') {
    if (!getcwd(buf, sizeof buf)) return 0;
    snprintf(full, sizeof full, "%s/%s", buf, path);
    path = full;
  }
  return strncmp(path, prefix, plen) == 0;
}
static int fdpath(int fd, char *out) {
  char link[64];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, out, PATH_MAX - 1);
  if (n < 0) return 0;
  out[n] = 0;
  return 1;
}
static int underfd(int fd, char *out) { return mode != OFF && fdpath(fd, out) && under(out); }

/* returns 0: proceed; 1: fail with errno; 2: tear (do half, then crash); 3: short (do half) */
static int point(const char *op, const char *path, int is_write) {
  long k = counter++;
  if (logn < sizeof logbuf - 600)
    logn += snprintf(logbuf + logn, 512, "%s %s\n", op, path + (plen < strlen(path) ? plen : 0));
  if (mode == CRASH && k == target) _exit(97);
  if (mode == TORN && k == target) { if (is_write) return 2; _exit(97); }
  if (mode == FAIL_ONCE && k == target) { errno = err_no; return 1; }
  if (mode == FAIL_FROM && k >= target) { errno = err_no; return 1; }
  if (mode == SHORT && k == target && is_write) return 3;
  return 0;
}

#define WRITE_BODY(call_full, call_half, n)                                   \
  char p_[PATH_MAX];                                                          \
  if (!underfd(fd, p_)) return call_full;                                     \
  int a_ = point("write", p_, 1);                                             \
  if (a_ == 1) return -1;                                                     \
  if (a_ == 2) { if ((n) / 2) (void)!(call_half); _exit(97); }                \
  if (a_ == 3 && (n) > 1) return call_half;                                   \
  return call_full;

ssize_t write(int fd, const void *b, size_t n) {
  WRITE_BODY(REAL(write)(fd, b, n), REAL(write)(fd, b, n / 2), n)
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  WRITE_BODY(REAL(pwrite)(fd, b, n, o), REAL(pwrite)(fd, b, n / 2, o), n)
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  WRITE_BODY(REAL(pwrite64)(fd, b, n, o), REAL(pwrite64)(fd, b, n / 2, o), n)
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  char p[PATH_MAX];
  if (!underfd(fd, p)) return REAL(writev)(fd, v, c);
  if (point("writev", p, 0)) return -1;
  return REAL(writev)(fd, v, c);
}
static int mutating(int flags) { return (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0; }
#define OPEN_BODY(NAME, PATHEXPR, CALL)                                       \
  mode_t m = 0;                                                               \
  if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); } \
  if (mutating(flags) && under(PATHEXPR)) {                                   \
    if (point("open", PATHEXPR, 0)) return -1;                                \
  }                                                                           \
  return CALL;
int open(const char *path, int flags, ...) { OPEN_BODY(open, path, REAL(open)(path, flags, m)) }
int open64(const char *path, int flags, ...) { OPEN_BODY(open64, path, REAL(open64)(path, flags, m)) }
int openat(int d, const char *path, int flags, ...) { OPEN_BODY(openat, path, REAL(openat)(d, path, flags, m)) }
int openat64(int d, const char *path, int flags, ...) { OPEN_BODY(openat64, path, REAL(openat64)(d, path, flags, m)) }
int creat(const char *path, mode_t m) {
  if (under(path) && point("creat", path, 0)) return -1;
  return REAL(creat)(path, m);
}
#define FD1(NAME, ARGT)                                                       \
  int NAME(int fd, ARGT x) {                                                  \
    char p[PATH_MAX];                                                         \
    if (underfd(fd, p) && point(#NAME, p, 0)) return -1;                      \
    return REAL(NAME)(fd, x);                                                 \
  }
FD1(ftruncate, off_t)
FD1(ftruncate64, off64_t)
int truncate(const char *path, off_t n) {
  if (under(path) && point("truncate", path, 0)) return -1;
  return REAL(truncate)(path, n);
}
int fsync(int fd) {
  char p[PATH_MAX];
  if (underfd(fd, p) && point("fsync", p, 0)) return -1;
  return REAL(fsync)(fd);
}
int fdatasync(int fd) {
  char p[PATH_MAX];
  if (underfd(fd, p) && point("fdatasync", p, 0)) return -1;
  return REAL(fdatasync)(fd);
}
int rename(const char *a, const char *b) {
  if ((under(a) || under(b)) && point("rename", b, 0)) return -1;
  return REAL(rename)(a, b);
}
int renameat(int x, const char *a, int y, const char *b) {
  if ((under(a) || under(b)) && point("renameat", b, 0)) return -1;
  return REAL(renameat)(x, a, y, b);
}
int renameat2(int x, const char *a, int y, const char *b, unsigned f) {
  if ((under(a) || under(b)) && point("renameat2", b, 0)) return -1;
  return REAL(renameat2)(x, a, y, b, f);
}
int link(const char *a, const char *b) {
  if ((under(a) || under(b)) && point("link", b, 0)) return -1;
  return REAL(link)(a, b);
}
int unlink(const char *a) {
  if (under(a) && point("unlink", a, 0)) return -1;
  return REAL(unlink)(a);
}
int unlinkat(int d, const char *a, int f) {
  if (under(a) && point("unlinkat", a, 0)) return -1;
  return REAL(unlinkat)(d, a, f);
}

/* data copied from one file to another inside the kernel */
#define COPY_BODY(NAME, fd, call_full, call_half, n)                          \
  char p_[PATH_MAX];                                                          \
  if (!underfd(fd, p_)) return call_full;                                     \
  int a_ = point(NAME, p_, 1);                                                \
  if (a_ == 1) return -1;                                                     \
  if (a_ == 2) { if ((n) / 2) (void)!(call_half); _exit(97); }                \
  if (a_ == 3 && (n) > 1) return call_half;                                   \
  return call_full;
static size_t left(int in, const off_t *o, size_t n) {
  struct stat s;
  off_t at = o ? *o : lseek(in, 0, SEEK_CUR);
  if (fstat(in, &s) || at < 0 || s.st_size <= at) return n;
  return (size_t)(s.st_size - at) < n ? (size_t)(s.st_size - at) : n;
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
  COPY_BODY("sendfile", out, REAL(sendfile)(out, in, o, n), REAL(sendfile)(out, in, o, left(in, o, n) / 2), left(in, o, n))
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
  COPY_BODY("sendfile", out, REAL(sendfile64)(out, in, o, n), REAL(sendfile64)(out, in, o, left(in, o, n) / 2), left(in, o, n))
}
ssize_t copy_file_range(int in, off64_t *io, int out, off64_t *oo, size_t n, unsigned f) {
  COPY_BODY("copy_file_range", out, REAL(copy_file_range)(in, io, out, oo, n, f), REAL(copy_file_range)(in, io, out, oo, left(in, io, n) / 2, f), left(in, io, n))
}
int symlink(const char *a, const char *b) {
  if (under(b) && point("symlink", b, 0)) return -1;
  return REAL(symlink)(a, b);
}
int linkat(int x, const char *a, int y, const char *b, int f) {
  if ((under(a) || under(b)) && point("linkat", b, 0)) return -1;
  return REAL(linkat)(x, a, y, b, f);
}
FILE *fopen(const char *a, const char *m) {
  if ((m[0] != 'r' || strchr(m, '+')) && under(a) && point("open", a, 0)) return NULL;
  return REAL(fopen)(a, m);
}
FILE *fopen64(const char *a, const char *m) {
  if ((m[0] != 'r' || strchr(m, '+')) && under(a) && point("open", a, 0)) return NULL;
  return REAL(fopen64)(a, m);
}
