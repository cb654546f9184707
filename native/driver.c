// Native replay of one symbolic path: provides sx_* from a recorded input vector.
// usage: driver LIB.so ENTRY INPUTS [ARG...]; INPUTS holds "width value" lines.
// exit: 0 completed (prints OBS ...), 10 assertion failed, 11 diverged (assume/inputs), 12 panic/abort,
//       13 expected panic, 14 crash
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "driver.h"

static uint64_t in_v[1 << 16]; static unsigned in_w[1 << 16]; static size_t in_n, in_p;
static uint64_t obs[1 << 16]; static size_t obs_n;
static int expect_panic;
int drv_running;
static char reached[65536];

// the interposed write swallows what the code under test prints
static void raw(const char *s, size_t n) { int r = drv_running; drv_running = 0; (void)!write(1, s, n); drv_running = r; }
static void out(const char *s) { raw(s, strlen(s)); }
void drv_exit(int c) {
  char b[64];
  drv_running = 0;
  out("OBS");
  for (size_t i = 0; i < obs_n; i++) { snprintf(b, 64, " %llu", (unsigned long long)obs[i]); out(b); }
  out("\n");
  _exit(c);
}
uint64_t drv_input(unsigned w) {
  if (in_p >= in_n) { out("DIVERGED: out of inputs\n"); drv_exit(11); }
  if (in_w[in_p] != w) { out("DIVERGED: input width\n"); drv_exit(11); }
  return in_v[in_p++];
}
uint8_t sx_u8(void) { return drv_input(8); }
uint16_t sx_u16(void) { return drv_input(16); }
uint32_t sx_u32(void) { return drv_input(32); }
uint64_t sx_u64(void) { return drv_input(64); }
_Bool sx_bool(void) { return drv_input(8) & 1; }
uint64_t sx_choose(uint64_t n) { return n <= 1 ? 0 : drv_input(8); }
uint64_t sx_below(uint64_t n) { (void)n; return drv_input(64); }
void sx_assume(_Bool c) { if (!c) { out("DIVERGED: assume\n"); drv_exit(11); } }
void sx_check(_Bool c, const char *p, size_t n) {
  if (!c) { out("CHECK "); raw(p, n); out("\n"); drv_exit(10); }
}
void sx_reach(const char *p, size_t n) { (void)p; (void)n; }
void sx_observe(uint64_t v) { if (obs_n < 1 << 16) obs[obs_n++] = v; }
uint64_t sx_concretize(uint64_t v) { return v; }
void sx_expect_panic(_Bool on) { expect_panic = on; }
void sx_catch(int d) { (void)d; }
void sx_end(void) { out("DIVERGED: end\n"); drv_exit(11); }
int sx_engine(void) { return 0; }

static void on_sig(int s) {
  if (s == SIGABRT || s == SIGILL || s == SIGTRAP) {
    if (expect_panic) { out("EXPECTED-PANIC\n"); drv_exit(13); }
    out(s == SIGABRT ? "PANIC or abort\n" : "ILLEGAL instruction\n"); drv_exit(12);
  }
  if (s == SIGALRM) out("TIMEOUT\n"); else out("CRASH\n");
  drv_exit(14);
}
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  FILE *f = fopen(argv[3], "r");
  if (!f) return 2;
  unsigned w; unsigned long long v;
  while (in_n < 1 << 16 && fscanf(f, "%u %llu", &w, &v) == 2) { in_w[in_n] = w; in_v[in_n++] = v; }
  fclose(f);
  static char alt[1 << 16];
  stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
  void *lib = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
  if (!lib) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  drv_heap(argv[1]);
  void (*fn)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t) = dlsym(lib, argv[2]);
  if (!fn) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  sigaltstack(&ss, 0);
  struct sigaction sa = {.sa_handler = on_sig, .sa_flags = SA_ONSTACK};
  int sigs[] = {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGALRM};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, 0);
  alarm(60);
  uint64_t a[8] = {0};
  for (int i = 4; i < argc && i < 12; i++) a[i - 4] = strtoull(argv[i], 0, 10);
  drv_running = 1;
  fn(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]);
  drv_running = 0;
  if (expect_panic) { out("CHECK the call has to panic and returned\n"); drv_exit(10); }
  drv_finish();
  drv_exit(0);
}
