#include <stddef.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
#define REAL_MALLOC __real_malloc
#define REAL_CALLOC __real_calloc
#define REAL_REALLOC __real_realloc
#define REAL_FREE __real_free
#define CAN_PAINT_DEAD 1
#include "heap_core.h"
void *__wrap_malloc(size_t n) { return do_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return do_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return do_realloc(p, n); }
void __wrap_free(void *p) { do_free(p); }
