/* The simulated system interface of the command line tools: loaded into the tool's process, it decides
 * how much every read and write transfers, which calls are interrupted or fail, what the random number
 * source yields, and when the run has taken too many steps. All decisions follow from the plan that the
 * harness puts into shared memory; what happened is reported there. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

struct plan {
  uint64_t seed;
  uint64_t chunk;       /* 0: transfers are complete, otherwise the largest transfer */
  uint64_t eintr;       /* one of this many calls is interrupted (0: none) */
  uint64_t read_fail;   /* index (from 1) of the read that fails, and all later ones of that file */
  uint64_t read_errno;
  uint64_t write_cap;   /* bytes accepted before writes fail, plus one (0: no limit) */
  uint64_t write_errno;
  uint64_t open_fail;   /* index (from 1) of the open call that fails */
  uint64_t open_errno;
  uint64_t max_steps;
  /* reported */
  uint64_t steps, reads, writes, opens, written;
  uint64_t shorts, eintrs, read_failed, write_failed, open_failed, ran;
};

static struct plan *p;
static char dir[256];
static int mine[64];
static uint64_t rng;
static int bad_fd = -1;

static uint64_t rnd(void) {
  rng += 0x9E3779B97F4A7C15ULL;
  uint64_t z = rng;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}

__attribute__((constructor)) static void init(void) {
  const char *f = getenv("DST_PLAN");
  const char *d = getenv("DST_DIR");
  if (!f || !d || strlen(d) >= sizeof dir) return;
  int fd = syscall(SYS_openat, AT_FDCWD, f, O_RDWR);
  if (fd < 0) return;
  void *m = mmap(0, sizeof(struct plan), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  syscall(SYS_close, fd);
  if (m == MAP_FAILED) return;
  strcpy(dir, d);
  p = m;
  rng = p->seed;
  p->ran = 1;
  mine[0] = mine[1] = 1;
  unsetenv("LD_PRELOAD");
}

static void step(void) {
  if (++p->steps > p->max_steps) syscall(SYS_exit_group, 97);
}

static int ours(int fd) { return p && fd >= 0 && fd < 64 && mine[fd]; }

static int interrupted(void) {
  if (p->eintr && rnd() % p->eintr == 0) {
    p->eintrs++;
    errno = EINTR;
    return 1;
  }
  return 0;
}

static size_t part(size_t n) {
  if (!p->chunk || n < 2) return n;
  size_t k = 1 + rnd() % p->chunk;
  if (k < n) {
    p->shorts++;
    return k;
  }
  return n;
}

ssize_t read(int fd, void *buf, size_t n) {
  if (!ours(fd)) return syscall(SYS_read, fd, buf, n);
  step();
  if (interrupted()) return -1;
  p->reads++;
  if (p->read_fail && p->reads == p->read_fail) bad_fd = fd;
  if (fd == bad_fd) {
    p->read_failed++;
    errno = p->read_errno;
    return -1;
  }
  return syscall(SYS_read, fd, buf, part(n));
}

ssize_t write(int fd, const void *buf, size_t n) {
  if (!ours(fd)) return syscall(SYS_write, fd, buf, n);
  step();
  if (interrupted()) return -1;
  p->writes++;
  n = part(n);
  if (p->write_cap && n > 0) {
    uint64_t left = p->write_cap - 1 > p->written ? p->write_cap - 1 - p->written : 0;
    if (left == 0) {
      p->write_failed++;
      errno = p->write_errno;
      return -1;
    }
    if (n > left) n = left;
  }
  ssize_t r = syscall(SYS_write, fd, buf, n);
  if (r > 0) p->written += r;
  return r;
}

ssize_t writev(int fd, const struct iovec *v, int k) {
  if (!ours(fd)) return syscall(SYS_writev, fd, v, k);
  for (int i = 0; i < k; i++)
    if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}

ssize_t readv(int fd, const struct iovec *v, int k) {
  if (!ours(fd)) return syscall(SYS_readv, fd, v, k);
  for (int i = 0; i < k; i++)
    if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}

static int do_open(int at, const char *path, int flags, int mode) {
  int is = p && (strncmp(path, dir, strlen(dir)) == 0);
  if (is) {
    step();
    if (interrupted()) return -1;
    p->opens++;
    if (p->open_fail && p->opens == p->open_fail) {
      p->open_failed++;
      errno = p->open_errno;
      return -1;
    }
  }
  int fd = syscall(SYS_openat, at, path, flags, mode);
  if (fd >= 0 && fd < 64) {
    mine[fd] = is;
    if (bad_fd == fd) bad_fd = -1;
  }
  return fd;
}

#define OPEN(name)                                   \
  int name(const char *path, int flags, ...) {       \
    va_list a;                                       \
    va_start(a, flags);                              \
    int mode = va_arg(a, int);                       \
    va_end(a);                                       \
    return do_open(AT_FDCWD, path, flags, mode);     \
  }
OPEN(open)
OPEN(open64)

#define OPENAT(name)                                     \
  int name(int at, const char *path, int flags, ...) {   \
    va_list a;                                           \
    va_start(a, flags);                                  \
    int mode = va_arg(a, int);                           \
    va_end(a);                                           \
    return do_open(at, path, flags, mode);               \
  }
OPENAT(openat)
OPENAT(openat64)

int close(int fd) {
  if (fd >= 0 && fd < 64) mine[fd] = 0;
  return syscall(SYS_close, fd);
}

ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  if (!p) return syscall(SYS_getrandom, buf, n, flags);
  for (size_t i = 0; i < n; i++) ((unsigned char *)buf)[i] = rnd();
  return n;
}
