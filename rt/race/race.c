/* Race monitor: a runtime for the hooks which gcc -fsanitize=thread inserts,
 * and for the calls which gcc -fopenmp inserts.
 *
 * The worker threads are real.  Two accesses race when two threads of a team
 * touch the same byte between the same two barriers, at least one of them
 * writes, they are not both atomic, and no common lock is held.  That does not
 * depend on which thread came first, so one run judges all schedules that
 * execute the same accesses; random delays additionally vary the schedule. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

#define MAXT 16
#define LOOPS 8

typedef struct {
  int n;
  void (*fn)(void *);
  void *data;
  pthread_barrier_t bar;
  pthread_mutex_t mu;
  unsigned long singles;        /* single constructs entered by any thread */
  struct { long next, end, incr, chunk; int init; unsigned long gen; } loop[LOOPS];
} team_t;

static int g_threads = 4;
static unsigned g_region;
static unsigned g_delay;        /* per 65536 accesses */
static unsigned long g_seed = 1;

static __thread team_t *t_team;
static __thread int t_id;
static __thread unsigned t_epoch;
static __thread unsigned long t_singles, t_loops;
static __thread unsigned char t_lock;
static __thread uint64_t t_rng;

static unsigned long s_access, s_regions, s_barriers, s_delays, s_races, s_shared;

/* ---- shadow memory ---- */
typedef struct { uintptr_t g; uint64_t stamp; uint8_t acc[4][MAXT]; uint8_t lock[MAXT]; } cell_t;
/* acc: 0 read, 1 write, 2 atomic read, 3 atomic write; bits: bytes of the granule */
#define CELLS (1u << 19)
static cell_t *cells;
static pthread_spinlock_t stripe[1024];
static pthread_mutex_t rep_mu = PTHREAD_MUTEX_INITIALIZER;
static struct { void *pc; int t1, t2, w; } rep[16];
static unsigned long s_full;

__attribute__((constructor)) static void init(void) {
  cells = calloc(CELLS, sizeof(cell_t));
  for (int i = 0; i < 1024; i++) pthread_spin_init(&stripe[i], 0);
}

static void report(void *pc, int t1, int t2, int w) {
  pthread_mutex_lock(&rep_mu);
  if (s_races < 16) { rep[s_races].pc = pc; rep[s_races].t1 = t1; rep[s_races].t2 = t2; rep[s_races].w = w; }
  s_races++;
  pthread_mutex_unlock(&rep_mu);
}

static void touch(uintptr_t g, uint8_t mask, int kind, void *pc) {
  uint64_t stamp = ((uint64_t)g_region << 32) | (t_epoch + 1);
  uint64_t h = (g * 0x9E3779B97F4A7C15ull) >> 20;
  /* a bucket of 8 cells under one lock */
  uint32_t b = (uint32_t)(h % (CELLS / 8));
  pthread_spinlock_t *l = &stripe[b % 1024];
  pthread_spin_lock(l);
  cell_t *c = NULL;
  for (int i = 0; i < 8; i++) {
    cell_t *k = &cells[b * 8 + i];
    if (k->g == g) { c = k; break; }
    if (!c && k->stamp != stamp) c = k;     /* empty or stale */
  }
  if (!c) { s_full++; pthread_spin_unlock(l); return; }
  if (c->g != g || c->stamp != stamp) { memset(c, 0, sizeof *c); c->g = g; c->stamp = stamp; }
  int me = t_id, is_w = kind & 1, at = kind >> 1;
  int other = 0;
  for (int t = 0; t < t_team->n; t++) {
    if (t == me) continue;
    uint8_t rd = c->acc[0][t], wr = c->acc[1][t], ard = c->acc[2][t], awr = c->acc[3][t];
    if (rd | wr | ard | awr) other = 1;
    uint8_t conf = 0;
    if (is_w) conf |= rd | wr; else conf |= wr;
    if (!at) { if (is_w) conf |= ard | awr; else conf |= awr; }
    if (!(conf & mask)) continue;
    if (t_lock && c->lock[t] == t_lock) continue;
    report(pc, t, me, is_w);
    c->acc[kind][t] = 0;
    break;
  }
  if (other) s_shared++;
  if (!(c->acc[0][me] | c->acc[1][me] | c->acc[2][me] | c->acc[3][me])) c->lock[me] = t_lock;
  else if (c->lock[me] != t_lock) c->lock[me] = 0;
  c->acc[kind][me] |= mask;
  pthread_spin_unlock(l);
}

static void dly(void) {
  if (!g_delay) return;
  t_rng = t_rng * 6364136223846793005ull + 1442695040888963407ull;
  if (((t_rng >> 33) & 0xffff) >= g_delay) return;
  s_delays++;
  unsigned k = (t_rng >> 50) & 7;
  if (k < 5) sched_yield();
  else { struct timespec ts = {0, 1000 * (1 + k * 20)}; nanosleep(&ts, NULL); }
}

static void range(uintptr_t a, size_t n, int kind, void *pc) {
  if (!t_team || t_team->n < 2) return;
  s_access++;
  dly();
  while (n) {
    uintptr_t g = a >> 3;
    unsigned off = a & 7, k = 8 - off;
    if (k > n) k = (unsigned)n;
    touch(g, (uint8_t)(((1u << k) - 1) << off), kind, pc);
    a += k; n -= k;
  }
}

void vm_fresh(void *p, size_t n) {     /* a new block has no history */
  if (!t_team || t_team->n < 2) return;
  for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n) >> 3; g++) {
    uint64_t h = (g * 0x9E3779B97F4A7C15ull) >> 20;
    uint32_t b = (uint32_t)(h % (CELLS / 8));
    pthread_spinlock_t *l = &stripe[b % 1024];
    pthread_spin_lock(l);
    for (int i = 0; i < 8; i++)
      if (cells[b * 8 + i].g == g) memset(&cells[b * 8 + i], 0, sizeof(cell_t));
    pthread_spin_unlock(l);
  }
}
void vm_access(void *p, size_t n, int w) { range((uintptr_t)p, n, w, __builtin_return_address(0)); }

#define PC __builtin_return_address(0)
#define RW(N) \
  void __tsan_read##N(void *p) { range((uintptr_t)p, N, 0, PC); } \
  void __tsan_write##N(void *p) { range((uintptr_t)p, N, 1, PC); } \
  void __tsan_unaligned_read##N(void *p) { range((uintptr_t)p, N, 0, PC); } \
  void __tsan_unaligned_write##N(void *p) { range((uintptr_t)p, N, 1, PC); } \
  void __tsan_volatile_read##N(void *p) { range((uintptr_t)p, N, 0, PC); } \
  void __tsan_volatile_write##N(void *p) { range((uintptr_t)p, N, 1, PC); } \
  void __tsan_unaligned_volatile_read##N(void *p) { range((uintptr_t)p, N, 0, PC); } \
  void __tsan_unaligned_volatile_write##N(void *p) { range((uintptr_t)p, N, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { range((uintptr_t)p, n, 0, PC); }
void __tsan_write_range(void *p, size_t n) { range((uintptr_t)p, n, 1, PC); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
void __tsan_atomic_thread_fence(int mo) { (void)mo; __sync_synchronize(); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T *p, int mo) { (void)mo; range((uintptr_t)p, sizeof(T), 2, PC); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##B##_store(volatile T *p, T v, int mo) { (void)mo; range((uintptr_t)p, sizeof(T), 3, PC); __atomic_store_n(p, v, 5); } \
  T __tsan_atomic##B##_exchange(volatile T *p, T v, int mo) { (void)mo; range((uintptr_t)p, sizeof(T), 3, PC); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int mo) { (void)mo; range((uintptr_t)p, sizeof(T), 3, PC); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int mo) { (void)mo; range((uintptr_t)p, sizeof(T), 3, PC); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int mo) { (void)mo; range((uintptr_t)p, sizeof(T), 3, PC); return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int mo) { (void)mo; range((uintptr_t)p, sizeof(T), 3, PC); return __atomic_fetch_or(p, v, 5); } \
  T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int mo) { (void)mo; range((uintptr_t)p, sizeof(T), 3, PC); return __atomic_fetch_xor(p, v, 5); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int m1, int m2) { (void)m1; (void)m2; range((uintptr_t)p, sizeof(T), 3, PC); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int m1, int m2) { (void)m1; (void)m2; range((uintptr_t)p, sizeof(T), 3, PC); return __atomic_compare_exchange_n(p, e, v, 1, 5, 5); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int m1, int m2) { (void)m1; (void)m2; range((uintptr_t)p, sizeof(T), 3, PC); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

/* ---- OpenMP run time ---- */
typedef struct { team_t *t; int id; } start_t;
static void *worker(void *v) {
  start_t *s = v;
  t_team = s->t; t_id = s->id; t_epoch = 0; t_singles = 0; t_lock = 0;
  t_loops = s->t->loop[0].init ? 1 : 0;   /* combined parallel loop */
  t_rng = g_seed * 977 + (uint64_t)s->id * 7919 + g_region;
  s->t->fn(s->t->data);
  return NULL;
}
static void run_team(team_t *t) {
  pthread_t th[MAXT];
  start_t st[MAXT];
  g_region++;
  s_regions++;
  pthread_barrier_init(&t->bar, NULL, t->n);
  pthread_mutex_init(&t->mu, NULL);
  for (int i = 1; i < t->n; i++) { st[i].t = t; st[i].id = i; pthread_create(&th[i], NULL, worker, &st[i]); }
  st[0].t = t; st[0].id = 0;
  worker(&st[0]);
  for (int i = 1; i < t->n; i++) pthread_join(th[i], NULL);
  t_team = NULL; t_id = 0;
  pthread_barrier_destroy(&t->bar);
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
  (void)flags;
  if (t_team) { fn(data); return; }     /* nested: serial in the caller */
  team_t t;
  memset(&t, 0, sizeof t);
  t.n = n ? (int)n : g_threads;
  if (t.n > MAXT) t.n = MAXT;
  t.fn = fn; t.data = data;
  run_team(&t);
}
void GOMP_barrier(void) {
  if (!t_team) return;
  s_barriers++;
  pthread_barrier_wait(&t_team->bar);
  t_epoch++;
}
_Bool GOMP_single_start(void) {
  if (!t_team) return 1;
  pthread_mutex_lock(&t_team->mu);
  _Bool mine = t_team->singles == t_singles;
  t_singles++;
  if (mine) t_team->singles++;
  pthread_mutex_unlock(&t_team->mu);
  return mine;
}
static unsigned char lock_id(void *p) { uintptr_t x = (uintptr_t)p; return (unsigned char)(1 + (x / 8) % 250); }
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); t_lock = 253; }
void GOMP_critical_end(void) { t_lock = 0; pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { pthread_mutex_lock(&crit); t_lock = lock_id(p); }
void GOMP_critical_name_end(void **p) { (void)p; t_lock = 0; pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); t_lock = 254; }
void GOMP_atomic_end(void) { t_lock = 0; pthread_mutex_unlock(&atom); }
int omp_get_thread_num(void) { return t_team ? t_id : 0; }
int omp_get_num_threads(void) { return t_team ? t_team->n : 1; }
int omp_get_max_threads(void) { return g_threads; }
int omp_get_num_procs(void) { return g_threads; }
int omp_in_parallel(void) { return t_team && t_team->n > 1; }
int omp_get_thread_limit(void) { return MAXT; }
void omp_set_num_threads(int n) { if (n > 0) g_threads = n > MAXT ? MAXT : n; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int n) { (void)n; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
void omp_init_lock(void **l) { *l = malloc(sizeof(pthread_mutex_t)); pthread_mutex_init(*l, NULL); }
void omp_destroy_lock(void **l) { free(*l); }
void omp_set_lock(void **l) { pthread_mutex_lock(*l); t_lock = lock_id(l); }
void omp_unset_lock(void **l) { t_lock = 0; pthread_mutex_unlock(*l); }

/* dynamic and guided loops; the chunk order is as good as any */
static _Bool loop_next(long *is, long *ie) {
  if (!t_team) return 0;
  team_t *t = t_team;
  unsigned k = (unsigned)((t_loops - 1) % LOOPS);
  pthread_mutex_lock(&t->mu);
  long a = t->loop[k].next, inc = t->loop[k].incr, b = a + t->loop[k].chunk * inc;
  _Bool more = inc > 0 ? a < t->loop[k].end : a > t->loop[k].end;
  if (more) {
    if (inc > 0 ? b > t->loop[k].end : b < t->loop[k].end) b = t->loop[k].end;
    t->loop[k].next = b;
    *is = a; *ie = b;
  }
  pthread_mutex_unlock(&t->mu);
  return more;
}
static _Bool loop_start(long s, long e, long inc, long chunk, long *is, long *ie) {
  if (!t_team) { *is = s; *ie = e; return inc > 0 ? s < e : s > e; }
  team_t *t = t_team;
  unsigned k = (unsigned)(t_loops % LOOPS);
  t_loops++;
  pthread_mutex_lock(&t->mu);
  if (!t->loop[k].init || t->loop[k].gen != t_loops) {
    t->loop[k].init = 1; t->loop[k].gen = t_loops;
    t->loop[k].next = s; t->loop[k].end = e; t->loop[k].incr = inc; t->loop[k].chunk = chunk > 0 ? chunk : 1;
  }
  pthread_mutex_unlock(&t->mu);
  return loop_next(is, ie);
}
#define LOOP(K) \
  _Bool GOMP_loop_##K##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); } \
  _Bool GOMP_loop_##K##_next(long *a, long *b) { return loop_next(a, b); } \
  _Bool GOMP_loop_ull_##K##_start(_Bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) \
    { (void)up; return loop_start((long)s, (long)e, (long)i, (long)c, (long *)a, (long *)b); } \
  _Bool GOMP_loop_ull_##K##_next(unsigned long long *a, unsigned long long *b) { return loop_next((long *)a, (long *)b); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
#define PLOOP(K) \
  void GOMP_parallel_loop_##K(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned fl) { \
    (void)fl; team_t t; memset(&t, 0, sizeof t); t.n = n ? (int)n : g_threads; if (t.n > MAXT) t.n = MAXT; \
    t.fn = fn; t.data = data; \
    t.loop[0].init = 1; t.loop[0].gen = 1; t.loop[0].next = s; t.loop[0].end = e; t.loop[0].incr = i; t.loop[0].chunk = c > 0 ? c : 1; \
    run_team(&t); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)

/* ---- control ---- */
void vr_config(int threads, unsigned delay, unsigned long seed) {
  g_threads = threads < 1 ? 1 : threads > MAXT ? MAXT : threads; g_delay = delay; g_seed = seed;
}
void vr_stats(unsigned long *out) {
  out[0] = s_access; out[1] = s_regions; out[2] = s_barriers; out[3] = s_delays; out[4] = s_races; out[5] = s_shared; out[6] = s_full;
}
void vr_reset(void) { s_races = 0; }
int vr_describe(char *buf, int n) {
  int k = 0;
  for (unsigned long i = 0; i < (s_races < 16 ? s_races : 16) && k < n - 200; i++) {
    Dl_info d;
    unsigned long off = 0;
    if (dladdr(rep[i].pc, &d)) off = (unsigned long)((char *)rep[i].pc - (char *)d.dli_fbase);
    k += snprintf(buf + k, n - k, "0x%lx threads %d,%d %s\n", off, rep[i].t1, rep[i].t2, rep[i].w ? "write" : "read");
  }
  return k;
}
