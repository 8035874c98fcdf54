/* Lets the n-th read, write or open of a netCDF file fail: VERIF_FAULT="op n errno"; counts the calls when n is 0. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static char kept[1024];
static int count, wanted = -1, code, ready;
static char op[16];

static void prepare(void) {
  const char *v = getenv("VERIF_FAULT");
  ready = 1;
  if (!v || sscanf(v, "%15s %d %d", op, &wanted, &code) != 3) wanted = -1;
}

static int hit(const char *what, int fd) {
  if (!ready) prepare();
  if (wanted < 0 || fd < 0 || fd >= 1024 || !kept[fd] || strcmp(op, what)) return 0;
  count++;
  if (wanted && count >= wanted) { errno = code; return 1; }
  return 0;
}

static void note(int fd, const char *path) {
  size_t n = path ? strlen(path) : 0;
  if (fd >= 0 && fd < 1024) kept[fd] = n > 3 && !strcmp(path + n - 3, ".nc");
}

ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  static ssize_t (*f)(int, void *, size_t, off64_t);
  if (!f) f = dlsym(RTLD_NEXT, "pread64");
  if (hit("read", fd)) return -1;
  return f(fd, b, n, o);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  static ssize_t (*f)(int, const void *, size_t, off64_t);
  if (!f) f = dlsym(RTLD_NEXT, "pwrite64");
  if (hit("write", fd)) return -1;
  return f(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }

static int opened(int (*f)(const char *, int, ...), const char *p, int fl, int mode) {
  int fd = f(p, fl, mode);
  note(fd, p);
  if (hit("open", fd)) { close(fd); errno = code; return -1; }
  return fd;
}
int open(const char *p, int fl, ...) {
  static int (*f)(const char *, int, ...);
  va_list a;
  va_start(a, fl);
  int mode = va_arg(a, int);
  va_end(a);
  if (!f) f = dlsym(RTLD_NEXT, "open");
  return opened(f, p, fl, mode);
}
int open64(const char *p, int fl, ...) {
  static int (*f)(const char *, int, ...);
  va_list a;
  va_start(a, fl);
  int mode = va_arg(a, int);
  va_end(a);
  if (!f) f = dlsym(RTLD_NEXT, "open64");
  return opened(f, p, fl, mode);
}

__attribute__((destructor)) static void told(void) {
  if (wanted >= 0) fprintf(stderr, "faults: %s %d\n", op, count);
}
