/* LD_PRELOAD: fills every block of heap memory with a pattern when it is
 * allocated and again when it is released, so that a value read before it is
 * written (or after release) differs from run to run.
 *   K2V_POISON=zero|ones|huge|small|random */
#define _GNU_SOURCE
#include <errno.h>
#include <malloc.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);

static int mode = -1;

static int get_mode(void) {
  if (mode < 0) {
    const char *s = getenv("K2V_POISON");
    mode = !s ? 5 : !strcmp(s, "zero") ? 0 : !strcmp(s, "ones") ? 1 : !strcmp(s, "huge") ? 2
           : !strcmp(s, "small") ? 3 : !strcmp(s, "random") ? 4 : 5;
  }
  return mode;
}

static void fill(void *p, size_t n, int released) {
  static __thread uint32_t x = 2463534242u;
  int m = get_mode();
  if (!p || m == 5) return;
  switch (m) {
    case 0: memset(p, 0, n); return;
    case 1: memset(p, 0xff, n); return;
    case 2: memset(p, 0x7f, n); return;
  }
  /* k2 arrays start at the block or at 16-byte multiples: words stay words */
  uint32_t *w = (uint32_t *)(((uintptr_t)p + 3) & ~(uintptr_t)3);
  n = ((char *)p + n - (char *)w) / 4;
  for (size_t i = 0; i < n; ++i) {
    x ^= x << 13; x ^= x >> 17; x ^= x << 5;
    w[i] = m == 3 ? (x >> 7) % 5 + released : x;
  }
}

static void *filled(void *p) {
  if (p) fill(p, malloc_usable_size(p), 0);
  return p;
}

void *malloc(size_t n) { return filled(__libc_malloc(n)); }

void free(void *p) {
  int e = errno;
  if (p) fill(p, malloc_usable_size(p), 1);
  __libc_free(p);
  errno = e;
}

void *realloc(void *p, size_t n) {
  size_t old = p ? malloc_usable_size(p) : 0;
  void *q = __libc_realloc(p, n);
  if (q && n) {
    size_t now = malloc_usable_size(q);
    if (now > old) fill((char *)q + old, now - old, 0);
  }
  return q;
}

int posix_memalign(void **out, size_t align, size_t n) {
  void *p = __libc_memalign(align, n);
  if (!p) return ENOMEM;
  *out = filled(p);
  return 0;
}

void *memalign(size_t align, size_t n) { return filled(__libc_memalign(align, n)); }
void *aligned_alloc(size_t align, size_t n) { return filled(__libc_memalign(align, n)); }
