// Control of the allocator seen by the library: fill patterns, failure injection, and a ledger of live blocks.
// heap_wrap.c replaces only the calls made by the objects linked into the monitor (works with the sanitizers' allocators);
// heap_interpose.c replaces malloc for the whole process, shared libraries included.
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
extern __thread int heap_on;            // the calling thread is inside the library: fill, count, fail and record
extern int heap_fill;                   // -1: leave memory alone, otherwise the byte new and dead memory is filled with; 256: scrambled
extern long heap_fail_at;               // the n-th counted allocation fails (0: none); negative: every allocation from the -n-th on fails
extern long heap_count;                 // allocations counted since it was last set to 0
extern long heap_failed;                // allocations refused
long heap_live(void);                   // blocks allocated while on and not freed since
extern long heap_overflow;              // blocks the ledger had no room for: its counts are then meaningless
void *heap_any_live(void);
void heap_forget(void);                 // drop the ledger
#ifdef __cplusplus
}
#endif
