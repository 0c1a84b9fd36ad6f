// Preloaded into the converter by C20: numbers the read calls on the file FAULT_IN and the write calls on the file
// FAULT_OUT, answers the calls named in FAULTS ("w3:5,r0:s1": the fourth write fails with errno 5, the first read
// transfers one byte; a trailing + repeats the answer for all later calls) and appends every answer it gave to FAULT_LOG.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
static long nr, nw;
static int is(int fd, const char *var) {
  const char *p = getenv(var);
  if (!p || fd < 3) return 0;
  char link[64], to[4200];
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, to, sizeof to - 1);
  if (n <= 0) return 0;
  to[n] = 0;
  return !strcmp(to, p);
}
// 0: go on; 1: *err set; 2: *max set
static int answer(char rw, long k, int *err, size_t *max, size_t len) {
  const char *s = getenv("FAULTS");
  while (s && *s) {
    char *e;
    char w = *s++;
    long at = strtol(s, &e, 10);
    s = e;
    if (*s == ':') s++;
    int sh = *s == 's';
    if (sh) s++;
    long v = strtol(s, &e, 10);
    s = e;
    int on = *s == '+';
    if (on) s++;
    if (*s == ',') s++;
    if (w != rw || !(k == at || (on && k > at))) continue;
    char line[64];
    int n = snprintf(line, sizeof line, "%c%ld:%s%ld\n", rw, k, sh ? "s" : "", v);
    const char *lp = getenv("FAULT_LOG");
    if (lp) { int f = open(lp, O_WRONLY | O_APPEND | O_CREAT, 0644); if (f >= 0) { syscall(SYS_write, f, line, n); close(f); } }
    if (!sh) { *err = (int)v; return 1; }
    // s0: half; otherwise at most v bytes
    *max = v ? (size_t)v : (len + 1) / 2;
    if (*max > len) *max = len;
    return 2;
  }
  return 0;
}
ssize_t write(int fd, const void *b, size_t n) {
  if (is(fd, "FAULT_OUT")) { int e; size_t m; int a = answer('w', __sync_fetch_and_add(&nw, 1), &e, &m, n); if (a == 1) { errno = e; return -1; } if (a == 2) n = m; }
  return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (is(fd, "FAULT_OUT")) {
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    int e; size_t m; int a = answer('w', __sync_fetch_and_add(&nw, 1), &e, &m, n);
    if (a == 1) { errno = e; return -1; }
    if (a == 2) for (int i = 0; i < c; i++) if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, m < v[i].iov_len ? m : v[i].iov_len);
  }
  return syscall(SYS_writev, fd, v, c);
}
ssize_t read(int fd, void *b, size_t n) {
  if (is(fd, "FAULT_IN")) { int e; size_t m; int a = answer('r', __sync_fetch_and_add(&nr, 1), &e, &m, n); if (a == 1) { errno = e; return -1; } if (a == 2) n = m; }
  return syscall(SYS_read, fd, b, n);
}
