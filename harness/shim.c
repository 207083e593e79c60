// Preloaded into the command under test: makes chosen reads or writes of one
// file fail, fall short or be interrupted, and says so in a log.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <stdio.h>

static int on = -1, op, nth, err, persist, seen;
static const char *path, *logf_;
// VH_FAULT = "<r|w> <n> <errno or -1 for short or -2 for every call short> <persist 0|1>"
static void init(void) {
  if (on >= 0) return;
  const char *f = getenv("VH_FAULT");
  path = getenv("VH_FAULT_PATH");
  logf_ = getenv("VH_FAULT_LOG");
  char o = 0;
  on = f && path && sscanf(f, "%c %d %d %d", &o, &nth, &err, &persist) == 4;
  op = o;
}
static int ours(int fd) {
  char link[64], buf[4096];
  if (!strcmp(path, "stdout")) return fd == 1;
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = syscall(SYS_readlink, link, buf, sizeof buf - 1);
  if (n <= 0) return 0;
  buf[n] = 0;
  return !strcmp(buf, path);
}
static void note(const char *what) {
  int fd = syscall(SYS_openat, AT_FDCWD, logf_, O_WRONLY | O_CREAT | O_APPEND, 0600);
  if (fd >= 0) {
    syscall(SYS_write, fd, what, strlen(what));
    syscall(SYS_close, fd);
  }
}
// 0: as usual; 1: fail with errno; 2: fall short
static int decide(int fd, int kind) {
  int e = errno;
  init();
  int r = 0;
  if (on && kind == op && ours(fd)) {
    seen++;
    if (err == -2) r = 2;
    else if (seen == nth || (persist && seen > nth)) r = err == -1 ? 2 : 1;
    if (r == 1) note(err == EINTR ? "i" : "f");
    if (r == 2) note("s");
  }
  errno = e;
  return r;
}
static size_t part(size_t n) { return n > 1 ? (n + 2) / 3 : n; }

ssize_t write(int fd, const void *b, size_t n) {
  int d = decide(fd, 'w');
  if (d == 1) { errno = err; return -1; }
  return syscall(SYS_write, fd, b, d == 2 ? part(n) : n);
}
ssize_t read(int fd, void *b, size_t n) {
  int d = decide(fd, 'r');
  if (d == 1) { errno = err; return -1; }
  return syscall(SYS_read, fd, b, d == 2 ? part(n) : n);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
  int d = decide(fd, 'w');
  if (d == 1) { errno = err; return -1; }
  if (d == 2 && k > 0) return syscall(SYS_write, fd, v[0].iov_base, part(v[0].iov_len));
  return syscall(SYS_writev, fd, v, k);
}
ssize_t readv(int fd, const struct iovec *v, int k) {
  int d = decide(fd, 'r');
  if (d == 1) { errno = err; return -1; }
  return syscall(SYS_readv, fd, v, k);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  int d = decide(fd, 'w');
  if (d == 1) { errno = err; return -1; }
  return syscall(SYS_pwrite64, fd, b, d == 2 ? part(n) : n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  int d = decide(fd, 'r');
  if (d == 1) { errno = err; return -1; }
  return syscall(SYS_pread64, fd, b, d == 2 ? part(n) : n, o);
}
