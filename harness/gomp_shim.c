// A stand-in for libgomp that ThreadSanitizer can see through: every parallel region forks and joins plain pthreads, every
// synchronisation is a pthread primitive, and the schedule is perturbed by seeded random delays. Controlled by the monitor.
#include <pthread.h>
#include <sched.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

int shim_threads = 4;              // team size used when the region does not ask for one
int shim_delays = 0;               // 0: none, 1: yields, 2: sleeps
uint64_t shim_seed = 1;
uint64_t shim_regions, shim_parallel_regions, shim_criticals;   // touched by the forking thread / under the lock only

static int max_threads = 8;
typedef struct { int n; pthread_barrier_t bar; pthread_mutex_t mu; long next, end, incr, chunk; int loop_gen; int single_gen; uint64_t order; uint32_t arrived[4]; } Team;
typedef struct { Team *team; int id; int loop_gen, single_gen; uint64_t rng; long done; } Self;
static __thread Self *self;

static uint64_t rnd(Self *s) { uint64_t z = (s->rng += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; return z ^ (z >> 29); }
void shim_delay(void) {
  Self *s = self; if (!s || !shim_delays || s->team->n < 2) return;
  uint64_t r = rnd(s);
  if (r % 5 < 2) return;
  if (r % 5 < 4 || shim_delays < 2) { for (int i = (int)((r >> 8) % 4); i >= 0; i--) sched_yield(); }
  else { struct timespec t = {0, (long)((r >> 8) % 120000)}; nanosleep(&t, 0); }
}
typedef struct { void (*fn)(void *); void *data; Self s; } Start;
static void *worker(void *p) { Start *st = p; Self *old = self; self = &st->s; shim_delay(); st->fn(st->data); self = old; return 0; }
static void run_region(void (*fn)(void *), void *data, unsigned n, Team *t) {
  shim_regions++; static uint64_t serial; serial++;
  int k = n ? (int)n : shim_threads; if (k > max_threads) k = max_threads; if (self && self->team->n > 1) k = 1;   // nested regions are serial
  t->n = k; pthread_mutex_init(&t->mu, 0); pthread_barrier_init(&t->bar, 0, k); t->loop_gen = t->single_gen = 0;
  if (k > 1) shim_parallel_regions++;
  Start *st = calloc(k, sizeof *st); pthread_t *th = calloc(k, sizeof *th);
  for (int i = 0; i < k; i++) { st[i].fn = fn; st[i].data = data; st[i].s.team = t; st[i].s.id = i; st[i].s.rng = shim_seed + serial * 977 + i * 0x5851F42D4C957F2Dull; }
  for (int i = 1; i < k; i++) if (pthread_create(&th[i], 0, worker, &st[i])) abort();
  worker(&st[0]);
  for (int i = 1; i < k; i++) pthread_join(th[i], 0);
  free(st); free(th); pthread_mutex_destroy(&t->mu); pthread_barrier_destroy(&t->bar);
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { Team t; memset(&t, 0, sizeof t); run_region(fn, data, n, &t); }

// worksharing loops with a shared cursor
static void loop_init(Team *t, long a, long b, long inc, long chunk) { t->next = a; t->end = b; t->incr = inc; t->chunk = chunk > 0 ? chunk : 1; }
static bool loop_next(long *is, long *ie) {
  Team *t = self->team; shim_delay(); bool r = false; pthread_mutex_lock(&t->mu);
  if (t->incr > 0 ? t->next < t->end : t->next > t->end) {
    *is = t->next; long e = t->next + t->chunk * t->incr; if (t->incr > 0 ? e > t->end : e < t->end) e = t->end;
    *ie = e; t->next = e; r = true;
  }
  pthread_mutex_unlock(&t->mu); return r;
}
#define PLOOP(NAME) void NAME(void (*fn)(void *), void *d, unsigned n, long a, long b, long inc, long chunk, unsigned fl) { Team t; memset(&t, 0, sizeof t); loop_init(&t, a, b, inc, chunk); run_region(fn, d, n, &t); }
PLOOP(GOMP_parallel_loop_dynamic) PLOOP(GOMP_parallel_loop_guided) PLOOP(GOMP_parallel_loop_static)
PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic) PLOOP(GOMP_parallel_loop_nonmonotonic_guided)
#define PLOOPR(NAME) void NAME(void (*fn)(void *), void *d, unsigned n, long a, long b, long inc, unsigned fl) { Team t; memset(&t, 0, sizeof t); loop_init(&t, a, b, inc, 1); run_region(fn, d, n, &t); }
PLOOPR(GOMP_parallel_loop_runtime) PLOOPR(GOMP_parallel_loop_nonmonotonic_runtime) PLOOPR(GOMP_parallel_loop_maybe_nonmonotonic_runtime)
static bool loop_start(long a, long b, long inc, long chunk, long *is, long *ie) {
  Team *t = self->team; pthread_mutex_lock(&t->mu);
  if (self->loop_gen == t->loop_gen) { t->loop_gen++; loop_init(t, a, b, inc, chunk); }
  self->loop_gen = t->loop_gen; pthread_mutex_unlock(&t->mu); return loop_next(is, ie);
}
#define LSTART(NAME) bool NAME(long a, long b, long inc, long chunk, long *is, long *ie) { return loop_start(a, b, inc, chunk, is, ie); }
LSTART(GOMP_loop_dynamic_start) LSTART(GOMP_loop_guided_start) LSTART(GOMP_loop_static_start) LSTART(GOMP_loop_nonmonotonic_dynamic_start) LSTART(GOMP_loop_nonmonotonic_guided_start)
#define LSTARTR(NAME) bool NAME(long a, long b, long inc, long *is, long *ie) { return loop_start(a, b, inc, 1, is, ie); }
LSTARTR(GOMP_loop_runtime_start) LSTARTR(GOMP_loop_nonmonotonic_runtime_start) LSTARTR(GOMP_loop_maybe_nonmonotonic_runtime_start)
#define LNEXT(NAME) bool NAME(long *is, long *ie) { return loop_next(is, ie); }
LNEXT(GOMP_loop_dynamic_next) LNEXT(GOMP_loop_guided_next) LNEXT(GOMP_loop_static_next) LNEXT(GOMP_loop_runtime_next) LNEXT(GOMP_loop_nonmonotonic_dynamic_next)
LNEXT(GOMP_loop_nonmonotonic_guided_next) LNEXT(GOMP_loop_nonmonotonic_runtime_next) LNEXT(GOMP_loop_maybe_nonmonotonic_runtime_next)
void GOMP_barrier(void) { if (self && self->team->n > 1) pthread_barrier_wait(&self->team->bar); }
void GOMP_loop_end(void) { GOMP_barrier(); GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
bool GOMP_single_start(void) {
  if (!self) return true; Team *t = self->team; pthread_mutex_lock(&t->mu);
  bool mine = self->single_gen == t->single_gen; if (mine) t->single_gen++; self->single_gen++; pthread_mutex_unlock(&t->mu); return mine;
}
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, named = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t named_map = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start(void) { shim_delay(); pthread_mutex_lock(&crit); shim_criticals++; }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); shim_delay(); }
static pthread_mutex_t *nm(void **p) {
  pthread_mutex_lock(&named_map); if (!*p) { *p = malloc(sizeof(pthread_mutex_t)); pthread_mutex_init(*p, 0); } pthread_mutex_t *m = *p; pthread_mutex_unlock(&named_map); return m;
}
void GOMP_critical_name_start(void **p) { shim_delay(); pthread_mutex_lock(nm(p)); }
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock(nm(p)); shim_delay(); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
void GOMP_ordered_start(void) { pthread_mutex_lock(&named); }
void GOMP_ordered_end(void) { pthread_mutex_unlock(&named); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool if_c, unsigned fl, void **dep, int prio, void *det) {
  if (cpy) { char *buf = malloc(size + align); char *a = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1)); cpy(a, data); fn(a); free(buf); } else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
int omp_get_thread_num(void) { return self ? self->id : 0; }
int omp_get_num_threads(void) { return self ? self->team->n : 1; }
int omp_get_max_threads(void) { return max_threads < 64 ? shim_threads : max_threads; }
void omp_set_num_threads(int n) { if (n > 0) shim_threads = n < max_threads ? n : max_threads; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return self && self->team->n > 1; }
void omp_set_dynamic(int d) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int d) {}
int omp_get_thread_limit(void) { return max_threads; }
int omp_get_level(void) { return self ? 1 : 0; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
typedef struct { pthread_mutex_t *m; } L;
void omp_init_lock(L *l) { l->m = malloc(sizeof *l->m); pthread_mutex_init(l->m, 0); }
void omp_destroy_lock(L *l) { pthread_mutex_destroy(l->m); free(l->m); }
void omp_set_lock(L *l) { shim_delay(); pthread_mutex_lock(l->m); }
void omp_unset_lock(L *l) { pthread_mutex_unlock(l->m); }
int omp_test_lock(L *l) { return !pthread_mutex_trylock(l->m); }
