#include "heap.h"
#include <malloc.h>
#include <pthread.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
__thread int heap_on; int heap_fill = -1; long heap_fail_at, heap_count, heap_failed;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
enum { SLOTS = 1 << 17 };
static void *slot[SLOTS]; static long live, dead; long heap_overflow;      // open addressing; (void *)1 marks a deleted slot
static unsigned hash(void *p) { uint64_t x = (uint64_t)p; x ^= x >> 17; x *= 0x9E3779B97F4A7C15ull; return (unsigned)(x >> 40) % SLOTS; }
static void add(void *p) { pthread_mutex_lock(&mu); if (live < SLOTS / 2) { unsigned i = hash(p); while (slot[i] > (void *)1) i = (i + 1) % SLOTS; slot[i] = p; } else heap_overflow++; live++; pthread_mutex_unlock(&mu); }
static void del(void *p) {
  if (!p || !__atomic_load_n(&live, __ATOMIC_RELAXED)) return; pthread_mutex_lock(&mu); unsigned i = hash(p); int n = 0;
  while (slot[i] && n++ < SLOTS) { if (slot[i] == p) { slot[i] = (void *)1; dead++; live--; break; } i = (i + 1) % SLOTS; }
  if ((!live && dead > 2000) || dead > SLOTS / 4) {   // drop the deleted marks
    static void *keep[SLOTS / 2]; long m = 0; for (int k = 0; k < SLOTS; k++) if (slot[k] > (void *)1) keep[m++] = slot[k];
    memset(slot, 0, sizeof slot); dead = 0; for (long k = 0; k < m; k++) { unsigned q = hash(keep[k]); while (slot[q]) q = (q + 1) % SLOTS; slot[q] = keep[k]; }
  }
  pthread_mutex_unlock(&mu);
}
long heap_live(void) { return live; }
void *heap_any_live(void) { for (int i = 0; i < SLOTS; i++) if (slot[i] > (void *)1) return slot[i]; return 0; }
void heap_forget(void) { memset(slot, 0, sizeof slot); live = 0; }
static int refuse(void) {
  if (!heap_on) return 0; long n = __atomic_add_fetch(&heap_count, 1, __ATOMIC_RELAXED);
  if (heap_fail_at && (n == heap_fail_at || (heap_fail_at < 0 && n >= -heap_fail_at))) { heap_failed++; errno = ENOMEM; return 1; } return 0;
}
static void paint(void *p, size_t n) {
  if (heap_fill < 0) return; if (heap_fill < 256) { memset(p, heap_fill, n); return; }
  static __thread uint64_t s = 88172645463325252ull; unsigned char *b = p; for (size_t i = 0; i < n; i++) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; b[i] = (unsigned char)(s >> 24); }
}
static void *do_malloc(size_t n) { if (refuse()) return 0; void *p = REAL_MALLOC(n); if (p && heap_on) { paint(p, n); add(p); } return p; }
static void *do_calloc(size_t a, size_t b) { if (refuse()) return 0; void *p = REAL_CALLOC(a, b); if (p && heap_on) add(p); return p; }
static void do_free(void *p) { if (p) { del(p); if (heap_on && heap_fill >= 0 && CAN_PAINT_DEAD) paint(p, malloc_usable_size(p)); } REAL_FREE(p); }
static void *do_realloc(void *p, size_t n) {
  if (n && refuse()) return 0;
  if (!heap_on || heap_fill < 0) { if (p) del(p); void *q = REAL_REALLOC(p, n); if (!q && n && p) { if (heap_on) add(p); } else if (q && heap_on) add(q); return q; }
  if (!n) { do_free(p); return 0; }
  void *q = REAL_MALLOC(n); if (!q) return 0; paint(q, n);    // always move
  if (p) { size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); do_free(p); }
  add(q); return q;
}
