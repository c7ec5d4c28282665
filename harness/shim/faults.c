// Preloaded into the driver or the command-line program: numbers the calls that
// concern files below FI_DIR, makes the FI_K-th of them fail with FI_ERR, and
// writes to FI_LOG what the directory holds after each call that may change it.
// With FI_SPLIT, writes are cut in two.
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir[4096];
static size_t ndir;
static int split, ready;
static long count, at_k = -1;
static int err_k;
static FILE *lg;
static __thread int busy;

#define REAL(name) ({ static __typeof__(&name) p; if (!p) p = (__typeof__(&name)) dlsym(RTLD_NEXT, #name); p; })

__attribute__((constructor)) static void init(void) {
  const char *d = getenv("FI_DIR"), *l = getenv("FI_LOG"), *k = getenv("FI_K"), *e = getenv("FI_ERR");
  if (!d || !l) return;
  busy = 1;
  snprintf(dir, sizeof dir, "%s/", d);
  ndir = strlen(dir);
  split = getenv("FI_SPLIT") != 0;
  if (k) at_k = atol(k);
  if (e) err_k = atoi(e);
  lg = REAL(fopen)(l, "w");
  ready = lg != 0;
  busy = 0;
}

static int in_path(const char *p) {
  char b[8192];
  if (!ready || busy || !p) return 0;
  if (*p != '/') {
    if (!getcwd(b, 4096)) return 0;
    snprintf(b + strlen(b), 4096, "/%s", p);
    p = b;
  }
  return !strncmp(p, dir, ndir) || (!strncmp(p, dir, ndir - 1) && !p[ndir - 1]);
}

static int in_fd(int fd) {
  char n[64], b[4096];
  if (!ready || busy || fd < 0) return 0;
  snprintf(n, sizeof n, "/proc/self/fd/%d", fd);
  long k = syscall(SYS_readlink, n, b, sizeof b - 1);
  if (k <= 0) return 0;
  b[k] = 0;
  return !strncmp(b, dir, ndir);
}

static void snapshot(const char *op, int fault) {
  int e = errno;
  busy = 1;
  fprintf(lg, "{\"n\":%ld,\"op\":\"%s\",\"fault\":%d,\"files\":{", count, op, fault);
  DIR *d = REAL(opendir)(dir);
  struct dirent *x;
  int first = 1;
  while (d && (x = readdir(d))) {
    if (!strcmp(x->d_name, ".") || !strcmp(x->d_name, "..")) continue;
    char p[8192];
    snprintf(p, sizeof p, "%s%s", dir, x->d_name);
    int fd = syscall(SYS_open, p, O_RDONLY);
    if (fd < 0) continue;
    fprintf(lg, "%s\"%s\":\"", first ? "" : ",", x->d_name);
    first = 0;
    unsigned char b[4096];
    long n;
    while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0)
      for (long i = 0; i < n; ++i) fprintf(lg, "%02x", b[i]);
    syscall(SYS_close, fd);
    fprintf(lg, "\"");
  }
  if (d) closedir(d);
  fprintf(lg, "}}\n");
  fflush(lg);
  busy = 0;
  errno = e;
}

// counts a call; true if it is to fail
static int hit(const char *op) {
  if (++count != at_k) return 0;
  snapshot(op, 1);
  errno = err_k;
  return 1;
}

#define GUARD(in, op, bad) int in_ = (in); if (in_ && hit(op)) return bad;
#define DONE(op, r) do { if (in_) snapshot(op, 0); return r; } while (0)

static mode_t mode_of(int flags, va_list ap) { return flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, mode_t) : 0; }

int open(const char *p, int f, ...) {
  va_list ap; va_start(ap, f); mode_t m = mode_of(f, ap); va_end(ap);
  GUARD(in_path(p), "open", -1);
  int r = REAL(open)(p, f, m);
  if (f & (O_CREAT | O_TRUNC)) DONE("open", r);
  return r;
}
int open64(const char *p, int f, ...) {
  va_list ap; va_start(ap, f); mode_t m = mode_of(f, ap); va_end(ap);
  GUARD(in_path(p), "open", -1);
  int r = REAL(open64)(p, f, m);
  if (f & (O_CREAT | O_TRUNC)) DONE("open", r);
  return r;
}
int openat(int d, const char *p, int f, ...) {
  va_list ap; va_start(ap, f); mode_t m = mode_of(f, ap); va_end(ap);
  GUARD(in_path(p) || (p[0] != '/' && in_fd(d)), "openat", -1);
  int r = REAL(openat)(d, p, f, m);
  if (f & (O_CREAT | O_TRUNC)) DONE("openat", r);
  return r;
}
int openat64(int d, const char *p, int f, ...) {
  va_list ap; va_start(ap, f); mode_t m = mode_of(f, ap); va_end(ap);
  GUARD(in_path(p) || (p[0] != '/' && in_fd(d)), "openat", -1);
  int r = REAL(openat64)(d, p, f, m);
  if (f & (O_CREAT | O_TRUNC)) DONE("openat", r);
  return r;
}
FILE *fopen(const char *p, const char *m) {
  GUARD(in_path(p), "fopen", 0);
  FILE *r = REAL(fopen)(p, m);
  if (*m != 'r') DONE("fopen", r);
  return r;
}
FILE *fopen64(const char *p, const char *m) {
  GUARD(in_path(p), "fopen", 0);
  FILE *r = REAL(fopen64)(p, m);
  if (*m != 'r') DONE("fopen", r);
  return r;
}
int mkstemp(char *t) { GUARD(in_path(t), "mkstemp", -1); int r = REAL(mkstemp)(t); DONE("mkstemp", r); }
int mkstemp64(char *t) { GUARD(in_path(t), "mkstemp", -1); int r = REAL(mkstemp64)(t); DONE("mkstemp", r); }
int mkostemp(char *t, int f) { GUARD(in_path(t), "mkstemp", -1); int r = REAL(mkostemp)(t, f); DONE("mkstemp", r); }

ssize_t read(int fd, void *b, size_t n) { GUARD(in_fd(fd), "read", -1); return REAL(read)(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { GUARD(in_fd(fd), "read", -1); return REAL(pread)(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) {
  GUARD(in_fd(fd), "write", -1);
  ssize_t r = REAL(write)(fd, b, in_ && split && n > 1 ? n / 2 : n);
  DONE("write", r);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  GUARD(in_fd(fd), "write", -1);
  ssize_t r = REAL(pwrite)(fd, b, in_ && split && n > 1 ? n / 2 : n, o);
  DONE("write", r);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  GUARD(in_fd(fd), "writev", -1);
  ssize_t r;
  if (in_ && split && n > 0 && v[0].iov_len > 1) r = REAL(write)(fd, v[0].iov_base, v[0].iov_len / 2);
  else if (in_ && split && n > 1) r = REAL(writev)(fd, v, n - 1);
  else r = REAL(writev)(fd, v, n);
  DONE("writev", r);
}
ssize_t sendfile(int o, int i, off_t *p, size_t n) {
  GUARD(in_fd(o), "sendfile", -1); ssize_t r = REAL(sendfile)(o, i, p, n); DONE("sendfile", r);
}
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) {
  GUARD(in_fd(o), "sendfile", -1); ssize_t r = REAL(sendfile64)(o, i, p, n); DONE("sendfile", r);
}
ssize_t copy_file_range(int i, off64_t *pi, int o, off64_t *po, size_t n, unsigned f) {
  GUARD(in_fd(o), "copy_file_range", -1); ssize_t r = REAL(copy_file_range)(i, pi, o, po, n, f); DONE("copy_file_range", r);
}
int rename(const char *a, const char *b) { GUARD(in_path(a) || in_path(b), "rename", -1); int r = REAL(rename)(a, b); DONE("rename", r); }
int renameat(int d, const char *a, int e, const char *b) {
  GUARD(in_path(a) || in_path(b), "rename", -1); int r = REAL(renameat)(d, a, e, b); DONE("rename", r);
}
int link(const char *a, const char *b) { GUARD(in_path(a) || in_path(b), "link", -1); int r = REAL(link)(a, b); DONE("link", r); }
int truncate(const char *p, off_t n) { GUARD(in_path(p), "truncate", -1); int r = REAL(truncate)(p, n); DONE("truncate", r); }
int truncate64(const char *p, off64_t n) { GUARD(in_path(p), "truncate", -1); int r = REAL(truncate64)(p, n); DONE("truncate", r); }
int ftruncate(int fd, off_t n) { GUARD(in_fd(fd), "ftruncate", -1); int r = REAL(ftruncate)(fd, n); DONE("ftruncate", r); }
int ftruncate64(int fd, off64_t n) { GUARD(in_fd(fd), "ftruncate", -1); int r = REAL(ftruncate64)(fd, n); DONE("ftruncate", r); }
int chmod(const char *p, mode_t m) { GUARD(in_path(p), "chmod", -1); return REAL(chmod)(p, m); }
int fchmod(int fd, mode_t m) { GUARD(in_fd(fd), "fchmod", -1); return REAL(fchmod)(fd, m); }
int fchmodat(int d, const char *p, mode_t m, int f) { GUARD(in_path(p), "fchmodat", -1); return REAL(fchmodat)(d, p, m, f); }
int fsync(int fd) { GUARD(in_fd(fd), "fsync", -1); return REAL(fsync)(fd); }
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { GUARD(in_fd(fd), "mmap", MAP_FAILED); return REAL(mmap)(a, n, p, f, fd, o); }
void *mmap64(void *a, size_t n, int p, int f, int fd, off64_t o) { GUARD(in_fd(fd), "mmap", MAP_FAILED); return REAL(mmap64)(a, n, p, f, fd, o); }
DIR *opendir(const char *p) { GUARD(in_path(p), "opendir", 0); return REAL(opendir)(p); }

// these never fail here, but may change the directory
int unlink(const char *p) { int in_ = in_path(p); int r = REAL(unlink)(p); DONE("unlink", r); }
int unlinkat(int d, const char *p, int f) { int in_ = in_path(p); int r = REAL(unlinkat)(d, p, f); DONE("unlink", r); }
int remove(const char *p) { int in_ = in_path(p); int r = REAL(remove)(p); DONE("remove", r); }
int munmap(void *a, size_t n) { int in_ = ready && !busy; int r = REAL(munmap)(a, n); if (in_ && 0) DONE("munmap", r); return r; }

// the file is closed all the same
int fclose(FILE *f) {
  int in_ = ready && !busy && f != lg && in_fd(fileno(f));
  int r = REAL(fclose)(f);
  if (in_ && hit("fclose")) return EOF;
  DONE("fclose", r);
}
int close(int fd) {
  int in_ = in_fd(fd);
  int r = REAL(close)(fd);
  if (in_) snapshot("close", 0);
  return r;
}
