/* LD_PRELOAD: log file system calls on paths below $FS_ROOT, fail the n-th ($FS_FAIL_AT, $FS_ERRNO), die before it ($FS_KILL_AT),
   write half of it first ($FS_HALF), give coarse file times ($FS_COARSE), shift the clock ($FS_SHIFT seconds). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <limits.h>

static const char *root, *match; static int logfd = -1; static long at, fail_at, kill_at, half, coarse, shift, dirs; static int err; static int ready;
static char *fds[4096];
static void setup(void) {
  if (ready) return;
  ready = 1; char *v;
  root = getenv("FS_ROOT"); match = getenv("FS_MATCH");
  if ((v = getenv("FS_LOG"))) logfd = syscall(SYS_openat, AT_FDCWD, v, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
  if ((v = getenv("FS_FAIL_AT"))) fail_at = atol(v);
  if ((v = getenv("FS_KILL_AT"))) kill_at = atol(v);
  if ((v = getenv("FS_ERRNO"))) err = atoi(v);
  if ((v = getenv("FS_HALF"))) half = atol(v);
  if ((v = getenv("FS_COARSE"))) coarse = atol(v);
  if ((v = getenv("FS_DIRS"))) dirs = atol(v);          /* directory operations count too */
  if ((v = getenv("FS_SHIFT"))) shift = atol(v);
}
static char *full(int dfd, const char *p) {     /* absolute path or NULL when not below the root */
  setup();
  if (!root || !p) return NULL;
  char b[PATH_MAX * 2];
  if (p[0] == '/') snprintf(b, sizeof b, "%s", p);
  else {
    char d[PATH_MAX];
    if (dfd == AT_FDCWD) { if (!getcwd(d, sizeof d)) return NULL; }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dfd); ssize_t n = syscall(SYS_readlinkat, AT_FDCWD, l, d, sizeof d - 1); if (n < 0) return NULL; d[n] = 0; }
    snprintf(b, sizeof b, "%s/%s", d, p);
  }
  /* drop "/./" */
  char *q; while ((q = strstr(b, "/./"))) memmove(q, q + 2, strlen(q + 2) + 1);
  size_t n = strlen(root);
  if (strncmp(b, root, n) || (b[n] && b[n] != '/')) return NULL;
  if (match && !strstr(b + n, match)) return NULL;
  return strdup(b[n] ? b + n + 1 : ".");
}
static void put(const char *s) { if (logfd >= 0) syscall(SYS_write, logfd, s, strlen(s)); }
static void hex(const char *s, size_t n) { char b[3]; for (size_t i = 0; i < n; i++) { snprintf(b, 3, "%02x", (unsigned char)s[i]); put(b); } }
/* one call on a path below the root: 1 when it has to fail */
static int step(const char *op, const char *a, const char *b, const char *data, size_t n) {
  at++;
  if (kill_at == at && !half) { put("KILL\n"); syscall(SYS_exit_group, 137); }
  int f = fail_at == at;
  put(op); put(" "); put(f ? "fail" : kill_at == at ? "half" : "ok"); put(" "); put(a); put(" "); put(b ? b : "-"); put(" "); put("x");
  if (data) hex(data, (f || kill_at == at) && half ? n / 2 : f ? 0 : n);
  put("\n");
  return f;
}
#define REAL(name, type) static type real_; if (!real_) real_ = (type)dlsym(RTLD_NEXT, name)
static int opened(int fd, char *p) { if (fd >= 0 && fd < 4096) { free(fds[fd]); fds[fd] = p; } else free(p); return fd; }
static const char *mode_of(int fl) { return (fl & O_ACCMODE) == O_RDONLY ? "openr" : fl & O_TRUNC ? "opentrunc" : fl & O_EXCL ? "create" : fl & O_CREAT ? "opencreat" : fl & O_APPEND ? "openappend" : "openw"; }
static int do_open(int dfd, const char *p, int fl, mode_t m) {
  char *f = full(dfd, p);
  if (f && (fl & O_DIRECTORY)) { free(f); f = NULL; }
  if (f && step(mode_of(fl), f, NULL, NULL, 0)) { free(f); errno = err; return -1; }
  int fd = syscall(SYS_openat, dfd, p, fl | O_LARGEFILE, m);
  if (f && fd < 0) { int e = errno; put("ABSENT\n"); free(f); errno = e; return fd; }
  return f ? opened(fd, f) : (opened(fd, NULL), fd);
}
#define MODE va_list ap; va_start(ap, fl); mode_t m = fl & (O_CREAT | O_TMPFILE) ? va_arg(ap, mode_t) : 0; va_end(ap)
int open(const char *p, int fl, ...) { MODE; return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE; return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { MODE; return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE; return do_open(d, p, fl, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t write(int fd, const void *b, size_t n) {
  setup();
  if (fd >= 0 && fd < 4096 && fds[fd]) {
    if (step("write", fds[fd], NULL, b, n)) { if (half) syscall(SYS_write, fd, b, n / 2); errno = err; return -1; }
    if (kill_at == at) { syscall(SYS_write, fd, b, n / 2); syscall(SYS_exit_group, 137); }
  }
  return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { setup(); if (fd >= 0 && fd < 4096 && fds[fd] && step("pwrite", fds[fd], NULL, b, n)) { errno = err; return -1; } return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t read(int fd, void *b, size_t n) {
  setup();
  if (fd >= 0 && fd < 4096 && fds[fd] && step("read", fds[fd], NULL, NULL, 0)) { errno = err; return -1; }
  return syscall(SYS_read, fd, b, n);
}
int close(int fd) {
  setup();
  if (fd >= 0 && fd < 4096 && fds[fd]) { int f = step("close", fds[fd], NULL, NULL, 0); free(fds[fd]); fds[fd] = NULL; if (f) { syscall(SYS_close, fd); errno = err; return -1; } }
  return syscall(SYS_close, fd);
}
/* copies go through read and write */
ssize_t sendfile(int a, int b, off_t *o, size_t n) { errno = ENOSYS; return -1; }
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) { errno = ENOSYS; return -1; }
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) { errno = ENOSYS; return -1; }
ssize_t writev(int fd, const struct iovec *v, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t k = write(fd, v[i].iov_base, v[i].iov_len); if (k < 0) return t ? t : -1; t += k; } return t; }
ssize_t pwritev(int fd, const struct iovec *v, int n, off_t o) { ssize_t t = 0; for (int i = 0; i < n; i++) { ssize_t k = pwrite(fd, v[i].iov_base, v[i].iov_len, o + t); if (k < 0) return t ? t : -1; t += k; } return t; }
ssize_t pwritev64(int fd, const struct iovec *v, int n, off64_t o) { return pwritev(fd, v, n, o); }
#define TWO(op, ad, a, bd, b, call) { char *x = full(ad, a), *y = full(bd, b); if ((x || y) && step(op, x ? x : "?", y ? y : "?", NULL, 0)) { free(x); free(y); errno = err; return -1; } int was = x || y; free(x); free(y); int rc = call; if (rc && was) { int e = errno; put("ABSENT\n"); errno = e; } return rc; }
int rename(const char *a, const char *b) TWO("rename", AT_FDCWD, a, AT_FDCWD, b, syscall(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0))
int renameat(int ad, const char *a, int bd, const char *b) TWO("rename", ad, a, bd, b, syscall(SYS_renameat2, ad, a, bd, b, 0))
int renameat2(int ad, const char *a, int bd, const char *b, unsigned f) TWO("rename", ad, a, bd, b, syscall(SYS_renameat2, ad, a, bd, b, f))
int link(const char *a, const char *b) TWO("link", AT_FDCWD, a, AT_FDCWD, b, syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0))
int linkat(int ad, const char *a, int bd, const char *b, int f) TWO("link", ad, a, bd, b, syscall(SYS_linkat, ad, a, bd, b, f))
#define ONE(op, d, p, call) { char *x = full(d, p); if (x && step(op, x, NULL, NULL, 0)) { free(x); errno = err; return -1; } int was = !!x; free(x); int rc = call; if (rc && was) { int e = errno; put("ABSENT\n"); errno = e; } return rc; }
int unlink(const char *p) ONE("unlink", AT_FDCWD, p, syscall(SYS_unlinkat, AT_FDCWD, p, 0))
int unlinkat(int d, const char *p, int f) ONE("unlink", d, p, syscall(SYS_unlinkat, d, p, f))
int remove(const char *p) ONE("unlink", AT_FDCWD, p, syscall(SYS_unlinkat, AT_FDCWD, p, 0) ? (errno == EISDIR ? syscall(SYS_unlinkat, AT_FDCWD, p, 0x200) : -1) : 0)
#define DIRONE(op, p, call) { setup(); if (!dirs) return call; ONE(op, AT_FDCWD, p, call) }
int mkdir(const char *p, mode_t m) DIRONE("mkdir", p, syscall(SYS_mkdirat, AT_FDCWD, p, m))
int rmdir(const char *p) DIRONE("rmdir", p, syscall(SYS_unlinkat, AT_FDCWD, p, 0x200))
int chmod(const char *p, mode_t m) ONE("chmod", AT_FDCWD, p, syscall(SYS_fchmodat, AT_FDCWD, p, m))
int fchmodat(int d, const char *p, mode_t m, int f) ONE("chmod", d, p, syscall(SYS_fchmodat, d, p, m))
int fchmod(int fd, mode_t m) { setup(); if (fd >= 0 && fd < 4096 && fds[fd] && step("chmod", fds[fd], NULL, NULL, 0)) { errno = err; return -1; } return syscall(SYS_fchmod, fd, m); }
int truncate(const char *p, off_t n) ONE("truncate", AT_FDCWD, p, syscall(SYS_truncate, p, n))
int truncate64(const char *p, off_t n) ONE("truncate", AT_FDCWD, p, syscall(SYS_truncate, p, n))
int ftruncate(int fd, off_t n) { setup(); if (fd >= 0 && fd < 4096 && fds[fd] && step("truncate", fds[fd], NULL, NULL, 0)) { errno = err; return -1; } return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off_t n) { return ftruncate(fd, n); }
int utimensat(int d, const char *p, const struct timespec t[2], int f) { if (!p) return syscall(SYS_utimensat, d, p, t, f); ONE("utime", d, p, syscall(SYS_utimensat, d, p, t, f)) }
static void round_times(struct stat *s) { if (coarse) { s->st_mtim.tv_nsec = 0; s->st_mtim.tv_sec -= s->st_mtim.tv_sec % coarse; s->st_ctim = s->st_atim = s->st_mtim; } }
#define STAT(d, p, call) { char *x = full(d, p); if (x && step("stat", x, NULL, NULL, 0)) { free(x); errno = err; return -1; } int was = !!x; free(x); int rc = call; if (was && rc) { int e = errno; put("ABSENT\n"); errno = e; } if (was && !rc) round_times(s); return rc; }
int stat(const char *p, struct stat *s) STAT(AT_FDCWD, p, syscall(SYS_newfstatat, AT_FDCWD, p, s, 0))
int stat64(const char *p, struct stat64 *t) { return stat(p, (struct stat *)t); }
int lstat(const char *p, struct stat *s) STAT(AT_FDCWD, p, syscall(SYS_newfstatat, AT_FDCWD, p, s, AT_SYMLINK_NOFOLLOW))
int lstat64(const char *p, struct stat64 *t) { return lstat(p, (struct stat *)t); }
int fstatat(int d, const char *p, struct stat *s, int f) STAT(d, p, syscall(SYS_newfstatat, d, p, s, f))
int fstatat64(int d, const char *p, struct stat64 *t, int f) { return fstatat(d, p, (struct stat *)t, f); }
int fstat(int fd, struct stat *s) { setup(); int rc = syscall(SYS_fstat, fd, s); if (!rc && fd >= 0 && fd < 4096 && fds[fd]) round_times(s); return rc; }
int fstat64(int fd, struct stat64 *t) { return fstat(fd, (struct stat *)t); }
int clock_gettime(clockid_t c, struct timespec *t) { setup(); int rc = syscall(SYS_clock_gettime, c, t); if (!rc && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) t->tv_sec += shift; return rc; }
time_t time(time_t *t) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (t) *t = s.tv_sec; return s.tv_sec; }
int gettimeofday(struct timeval *t, void *z) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
