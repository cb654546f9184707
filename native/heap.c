// Counts the allocations the code under test holds (the ones it makes itself, not those of the C library).
#define _GNU_SOURCE
#include <link.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); void __libc_free(void *);
static uintptr_t lo, hi; static int64_t live;
#define MINE ((uintptr_t)__builtin_return_address(0) - lo < hi - lo)
#define ADD(n) __atomic_add_fetch(&live, n, __ATOMIC_RELAXED)
static int find(struct dl_phdr_info *i, size_t s, void *name) {
  (void)s;
  if (strcmp(i->dlpi_name, name)) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
    uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz;
    if (!lo || a < lo) lo = a;
    if (b > hi) hi = b;
  }
  return 1;
}
void drv_heap(const char *lib) { dl_iterate_phdr(find, (void *)lib); }
int64_t sx_heap_live(void) { return live; }
void *malloc(size_t n) { if (MINE) ADD(1); return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { if (MINE) ADD(1); return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { if (MINE && !p) ADD(1); return __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { if (MINE) ADD(1); return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { if (MINE) ADD(1); return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { if (MINE) ADD(1); *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
void free(void *p) { if (MINE && p) ADD(-1); __libc_free(p); }
