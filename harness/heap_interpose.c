#include <stddef.h>
void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *);
#define REAL_MALLOC __libc_malloc
#define REAL_CALLOC __libc_calloc
#define REAL_REALLOC __libc_realloc
#define REAL_FREE __libc_free
#define CAN_PAINT_DEAD 1
#include "heap_core.h"
void *malloc(size_t n) { return do_malloc(n); }
void *calloc(size_t a, size_t b) { return do_calloc(a, b); }
void *realloc(void *p, size_t n) { return do_realloc(p, n); }
void free(void *p) { do_free(p); }
