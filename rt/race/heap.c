/* Heap monitor: live blocks of the code under test, double frees, and
 * injected allocation failures (the k-th, or every one from the k-th on). */
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef VM_RACE
void vm_fresh(void *p, size_t n);
void vm_access(void *p, size_t n, int write);
#else
static void vm_fresh(void *p, size_t n) { (void)p; (void)n; }
static void vm_access(void *p, size_t n, int write) { (void)p; (void)n; (void)write; }
#endif

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
#define MAXB 65536
static void *live[MAXB];
static size_t live_n, n_alloc, n_failed, n_badfree;
static long fail_at = -1;      /* index of the allocation to fail, -1: none */
static int fail_rest;          /* also fail all later ones */

static int should_fail(void) {
  int f = (fail_at >= 0) && (((long)n_alloc == fail_at) || (fail_rest && (long)n_alloc >= fail_at));
  n_alloc++;
  if (f) n_failed++;
  return f;
}

static void add(void *p) { if (p && live_n < MAXB) live[live_n++] = p; }

static int del(void *p) {
  for (size_t i = live_n; i-- > 0;)
    if (live[i] == p) { live[i] = live[--live_n]; return 1; }
  return 0;
}

void *vm_malloc(size_t n) {
  pthread_mutex_lock(&mu);
  void *p = NULL;
  if (!should_fail()) {
    p = malloc(n);
    add(p);
    if (p && n) memset(p, 0xA5, n);   /* never hand out accidental zeros */
  }
  pthread_mutex_unlock(&mu);
  if (p) vm_fresh(p, n);
  return p;
}

void *vm_calloc(size_t a, size_t b) {
  pthread_mutex_lock(&mu);
  void *p = NULL;
  if (!should_fail()) { p = calloc(a, b); add(p); }
  pthread_mutex_unlock(&mu);
  if (p) vm_fresh(p, a * b);
  return p;
}

void *vm_realloc(void *q, size_t n) {
  pthread_mutex_lock(&mu);
  void *p = NULL;
  if (!should_fail()) {
    if (q && !del(q)) n_badfree++;
    p = realloc(q, n);
    add(p);
  }
  pthread_mutex_unlock(&mu);
  return p;
}

void vm_free(void *p) {
  if (!p) return;
  pthread_mutex_lock(&mu);
  if (!del(p)) n_badfree++; else free(p);
  pthread_mutex_unlock(&mu);
}

void *vm_memset(void *p, int c, size_t n) { vm_access(p, n, 1); return memset(p, c, n); }
void *vm_memcpy(void *d, const void *s, size_t n) {
  vm_access(d, n, 1); vm_access((void *)s, n, 0); return memcpy(d, s, n);
}
void *vm_memmove(void *d, const void *s, size_t n) {
  vm_access(d, n, 1); vm_access((void *)s, n, 0); return memmove(d, s, n);
}

void vm_heap_reset(long at, int rest) {
  pthread_mutex_lock(&mu);
  fail_at = at; fail_rest = rest; n_alloc = 0; n_failed = 0;
  pthread_mutex_unlock(&mu);
}
size_t vm_heap_live(void) { return live_n; }
size_t vm_heap_allocs(void) { return n_alloc; }
size_t vm_heap_failed(void) { return n_failed; }
size_t vm_heap_badfree(void) { return n_badfree; }
