// File-system faults and a deterministic thread scheduler for native replays: the same decisions
// the symbolic executor made are read from the recorded inputs.
#define _GNU_SOURCE
#include "driver.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define REAL(name) ({ static __typeof__(&name) p_; if (!p_) p_ = (__typeof__(&name))dlsym(RTLD_NEXT, #name); p_; })

// ---------------------------------------------------------------- scheduler
enum { RUN, FUTEX, JOIN, ENDED };
struct thr { int status, joinOn, futexWoken; void *waitAddr; pthread_t real; void *(*fn)(void *); void *arg; };
static struct thr T[64];
static int nthr = 1, cur, schedMode, preempt, on, finishing;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static __thread int self;
static pthread_key_t endKey;

static void stop(const char *m, int code) { (void)!REAL(write)(1, m, strlen(m)); drv_exit(code); }
static uint64_t choice(uint64_t n) { return n <= 1 ? 0 : drv_input(8); }
static int runnable(int except, int *r) { int n = 0; for (int i = 0; i < nthr; i++) if (T[i].status == RUN && i != except) r[n++] = i; return n; }
// hands the token to t and, unless this thread has ended, waits to get it back
static void give(int t, int wait) {
  pthread_mutex_lock(&mu);
  cur = t;
  pthread_cond_broadcast(&cv);
  while (wait && cur != self) pthread_cond_wait(&cv, &mu);
  pthread_mutex_unlock(&mu);
}
static void pickNext(int wait) {
  int r[64], n = runnable(-1, r);
  if (!n) stop("DEADLOCK\n", 14);
  give(r[schedMode && n > 1 ? choice(n) : 0], wait);
}
static void schedPoint(void) {
  if (!schedMode || preempt <= 0 || finishing) return;
  int r[64], n = runnable(self, r);
  if (!n) return;
  uint64_t k = choice(n + 1);
  if (!k) return;
  preempt--;
  give(r[k - 1], 1);
}
static void ended(void *p) {
  long round = (long)p;
  if (round < 4) { pthread_setspecific(endKey, (void *)(round + 1)); return; }
  T[self].status = ENDED;
  for (int i = 0; i < nthr; i++) if (T[i].status == JOIN && T[i].joinOn == self) T[i].status = RUN;
  if (!finishing) pickNext(0);
}
static void *start(void *p) {
  self = (int)(long)p;
  pthread_setspecific(endKey, (void *)1);
  pthread_mutex_lock(&mu);
  while (cur != self) pthread_cond_wait(&cv, &mu);
  pthread_mutex_unlock(&mu);
  return T[self].fn(T[self].arg);
}
int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  (void)at;
  if (!on) { on = 1; pthread_key_create(&endKey, ended); }
  int i = nthr++;
  if (i >= 64) stop("too many threads\n", 11);
  T[i].fn = fn; T[i].arg = arg; T[i].status = RUN;
  int r = REAL(pthread_create)(&T[i].real, 0, start, (void *)(long)i);
  *out = T[i].real;
  return r;
}
int pthread_join(pthread_t t, void **ret) {
  int i = nthr - 1; // the newest: identifiers are reused
  while (i > 0 && !pthread_equal(T[i].real, t)) i--;
  if (i > 0 && T[i].status != ENDED) { T[self].joinOn = i; T[self].status = JOIN; pickNext(1); }
  return REAL(pthread_join)(t, ret);
}
long syscall(long nr, ...) {
  va_list ap; va_start(ap, nr);
  long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (nr == SYS_futex && !finishing) {
    int op = a[1] & 0x7f;
    if (op == 0 || op == 9) {
      if (*(volatile int *)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
      T[self].waitAddr = (void *)a[0];
      T[self].status = FUTEX;
      pickNext(1);
      return 0;
    }
    if (op == 1 || op == 10) {
      long n = 0;
      for (int i = 0; i < nthr; i++) if (n < a[2] && T[i].status == FUTEX && T[i].waitAddr == (void *)a[0]) { T[i].status = RUN; n++; }
      return n;
    }
  }
  return REAL(syscall)(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
void sx_threads(uint64_t n) { schedMode = 1; preempt = (int)n; }
void sx_yield(void) { schedPoint(); }
void sx_settle(void) {
  int r[64];
  while (runnable(self, r)) give(r[0], 1);
}
uint64_t sx_tid(void) { return self; }
void drv_finish(void) { finishing = 1; }

// ---------------------------------------------------------------- faults
static int armed, fired, faultBg; static uint64_t faultAt, ops;
void sx_fault(uint64_t v) { armed = 1; fired = 0; ops = 0; faultAt = v; faultBg = 0; }
void sx_fault_bg(uint64_t v) { sx_fault(v); faultBg = 1; }
_Bool sx_fault_off(void) { armed = 0; return fired; }
// a call that may fail
static int fault(void) {
  if (!armed || fired || (self != 0) != faultBg) return 0;
  if (ops++ != faultAt) return 0;
  fired = 1;
  errno = EIO;
  return 1;
}
// a call that may be preempted or fail
static int pfault(void) { schedPoint(); return fault(); }
#define HOOK(ret, name, params, ...) ret name params { if (drv_running && fault()) return (ret)-1; return REAL(name)(__VA_ARGS__); }
#define PHOOK(ret, name, params, ...) ret name params { if (drv_running && pfault()) return (ret)-1; return REAL(name)(__VA_ARGS__); }
int open64(const char *p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = va_arg(ap, mode_t); va_end(ap); if (drv_running && pfault()) return -1; return REAL(open64)(p, f, m); }
int openat64(int d, const char *p, int f, ...) { va_list ap; va_start(ap, f); mode_t m = va_arg(ap, mode_t); va_end(ap); if (drv_running && pfault()) return -1; return REAL(openat64)(d, p, f, m); }
HOOK(ssize_t, read, (int fd, void *b, size_t n), fd, b, n)
HOOK(ssize_t, pread64, (int fd, void *b, size_t n, off64_t o), fd, b, n, o)
HOOK(ssize_t, pwrite64, (int fd, const void *b, size_t n, off64_t o), fd, b, n, o)
ssize_t write(int fd, const void *b, size_t n) {
  if (drv_running && fd <= 2) return n;
  if (drv_running && fault()) return -1;
  return REAL(write)(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (drv_running && fd <= 2) { ssize_t t = 0; for (int i = 0; i < n; i++) t += v[i].iov_len; return t; }
  if (drv_running && fault()) return -1;
  return REAL(writev)(fd, v, n);
}
HOOK(off64_t, lseek64, (int fd, off64_t o, int w), fd, o, w)
HOOK(int, ftruncate64, (int fd, off64_t n), fd, n)
HOOK(int, fsync, (int fd), fd)
HOOK(int, fdatasync, (int fd), fd)
PHOOK(int, mkdir, (const char *p, mode_t m), p, m)
PHOOK(int, unlink, (const char *p), p)
PHOOK(int, rmdir, (const char *p), p)
PHOOK(int, unlinkat, (int d, const char *p, int f), d, p, f)
PHOOK(int, rename, (const char *p, const char *q), p, q)
DIR *opendir(const char *p) { if (drv_running && pfault()) return 0; return REAL(opendir)(p); }
