// A simulated OpenMP library (GCC's libgomp interface) with its own race detector. The threads of a team are real
// threads, but exactly one of them runs at a time; a seeded scheduler decides at every directive, at every shared
// iteration and at every instrumented memory access whether another one continues. The accesses (compiled in with
// -fsanitize=thread, whose run-time entry points are defined here) are compared with vector clocks: two accesses to the
// same bytes, at least one of them a write, by different threads without ordering between them are a race whatever the
// schedule of the run happened to be.
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include "libsim.h"

extern struct sim_sched *sim_sc(void) __attribute__((weak));
extern uint32_t sim_choose(uint32_t n, uint32_t permillion) __attribute__((weak));
extern void sim_trace(uint64_t) __attribute__((weak));
extern int sim_comm_op(int, int64_t, int64_t, int, int64_t *) __attribute__((weak));
extern void sim_die(int) __attribute__((weak));

#define MT 8
typedef uint32_t vc_t[MT];
enum { T_IDLE, T_RUN, T_BLOCK, T_BARRIER, T_DONE };
struct ws { int ready, left, kind; long next, end, incr, chunk; unsigned long unext, uend, uincr, uchunk; int up; long ordnext; void *copy; int single; };
#define NWS 64
struct team { int n; int barrier; int nws[MT]; struct ws ws[NWS]; void (*fn)(void *); void *data; int done; };
static struct team team0;
static struct {
  pthread_t pt;
  int turn, state, tid;
  void *waiting;   // lock it waits for
  vc_t vc;
  int nested;      // depth of serialised parallel regions
  long inwait, curit;
} th[MT];
static __thread int self = 0;
static int nthr = 1, active = 0, icv_n = 0, created = 1;
static uint32_t region = 0;
static struct sim_sched *C;
static struct { int on; uint64_t accesses, regions, teams; } st;
static int quiet; // inside this library

static void fw(int *p, int v) { syscall(SYS_futex, p, FUTEX_WAIT, v, 0, 0, 0); }
static void wk(int *p) { syscall(SYS_futex, p, FUTEX_WAKE, 1, 0, 0, 0); }
static void stop(int code) { fflush(stderr); sim_die(code); _exit(code); }
static void notsim(const char *what) { fprintf(stderr, "simomp: %s is not simulated\n", what); stop(196); }

static void give(int t) {
  __atomic_store_n(&th[t].turn, 1, __ATOMIC_RELEASE);
  wk(&th[t].turn);
}
static void await(int t) {
  while (!__atomic_load_n(&th[t].turn, __ATOMIC_ACQUIRE)) fw(&th[t].turn, 0);
  th[t].turn = 0;
}
static struct { void *key; int owner; int depth; vc_t vc; } lk[256];
static int nlk;
static int lock_of(void *k) {
  for (int i = 0; i < nlk; i++) if (lk[i].key == k) return i;
  if (nlk == 256) notsim("the 257th lock");
  lk[nlk].key = k; lk[nlk].owner = -1; lk[nlk].depth = 0;
  memset(lk[nlk].vc, 0, sizeof(vc_t));
  return nlk++;
}
static int can_run(int t) {
  switch (th[t].state) {
    case T_RUN: return 1;
    case T_BLOCK: return lk[lock_of(th[t].waiting)].owner < 0;
    default: return 0;
  }
}
// Lets the scheduler decide who runs next. The caller's state is already set.
static void sched(uint32_t p) {
  int cand[MT], n = 0, me = self;
  for (int k = 0; k < nthr; k++) { int t = (me + k) % nthr; if (can_run(t)) cand[n++] = t; }
  if (!n) {
    if (C) C->verdict = 1;
    fprintf(stderr, "simomp: deadlock: no thread of the team can run\n");
    stop(SIM_DEADLOCK_EXIT);
  }
  int blocked = cand[0] != me;
  uint32_t c = n > 1 ? sim_choose((uint32_t)n, blocked ? 500000 : p) : 0;
  int t = cand[c];
  if (C) {
    C->steps++;
    if (C->step_limit && C->steps > C->step_limit && th[me].state == T_BLOCK) { C->verdict = 3; stop(SIM_DEADLOCK_EXIT); }
  }
  if (t == me) return;
  if (C) C->nswitch++;
  sim_trace(((uint64_t)(C ? C->count : 0) << 8) | (uint64_t)t);
  give(t);
  await(me);
}
static void point(void) { if (active && C) sched(C->p_switch); }
static void apoint(void) {
  if (!C || !C->p_delay) return;
  int cand[MT], n = 0, me = self;
  for (int k = 0; k < nthr; k++) { int t = (me + k) % nthr; if (can_run(t)) cand[n++] = t; }
  if (n < 2) return;
  uint32_t c = sim_choose((uint32_t)n, C->p_delay);
  if (!c) return;
  C->nswitch++; C->steps++;
  sim_trace(((uint64_t)C->count << 8) | (uint64_t)cand[c]);
  give(cand[c]);
  await(me);
}
static void join_vc(uint32_t *a, const uint32_t *b) { for (int i = 0; i < MT; i++) if (b[i] > a[i]) a[i] = b[i]; }

// ---------------------------------------------------------------- shadow memory
struct cell { uint32_t region; uint32_t clk[2][MT]; uint8_t mask[2][MT]; uint32_t pc[2][MT]; };
#define HB 16
static struct { uintptr_t page; struct cell *c; } tab[1 << HB];
static char *pool; static size_t pool_left;
extern char __executable_start;
static struct cell *cells(uintptr_t page, int make) {
  uint32_t h = (uint32_t)((page * 0x9E3779B97F4A7C15ull) >> (64 - HB));
  for (uint32_t i = 0; i < (1u << HB); i++, h = (h + 1) & ((1u << HB) - 1)) {
    if (tab[h].page == page) return tab[h].c;
    if (!tab[h].page) {
      if (!make) return 0;
      size_t sz = 512 * sizeof(struct cell);
      if (pool_left < sz) {
        pool_left = sz * 64;
        pool = mmap(0, pool_left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (pool == MAP_FAILED) notsim("that much shared memory");
      }
      tab[h].page = page; tab[h].c = (struct cell *)pool; pool += sz; pool_left -= sz;
      return tab[h].c;
    }
  }
  notsim("that much shared memory");
  return 0;
}
static void race(uintptr_t a, int w, int ow, int ot, uint32_t opc, uint32_t pc) {
  if (C) C->verdict = 4;
  fprintf(stderr, "simomp: RACE: %s by thread %d at +0x%x and %s by thread %d at +0x%x without ordering, address %p\n", w ? "write" : "read", self, pc, ow ? "write" : "read", ot, opc, (void *)a);
  stop(SIM_RACE_EXIT);
}
static void access_(const void *p, size_t n, int w, void *ret) {
  if (!n) return;
  uintptr_t a = (uintptr_t)p, e = a + n;
  uint32_t pc = (uint32_t)((char *)ret - &__executable_start);
  int t = self;
  struct cell *pg = 0; uintptr_t pgn = 0;
  st.accesses++;
  while (a < e) {
    uintptr_t g = a & ~7ull, lim = g + 8 < e ? g + 8 : e;
    uint8_t m = (uint8_t)(((1u << (lim - a)) - 1) << (a - g));
    uintptr_t page = g >> 12;
    if (!pg || page != pgn) { pg = cells(page, 1); pgn = page; }
    struct cell *c = &pg[(g & 4095) >> 3];
    if (c->region != region) { memset(c, 0, sizeof *c); c->region = region; }
    for (int o = 0; o < nthr; o++) if (o != t) {
      if ((c->mask[1][o] & m) && c->clk[1][o] > th[t].vc[o]) race(a, w, 1, o, c->pc[1][o], pc);
      if (w && (c->mask[0][o] & m) && c->clk[0][o] > th[t].vc[o]) race(a, w, 0, o, c->pc[0][o], pc);
    }
    uint32_t k = th[t].vc[t];
    if (c->clk[w][t] == k) c->mask[w][t] |= m; else { c->clk[w][t] = k; c->mask[w][t] = m; }
    c->pc[w][t] = pc;
    a = lim;
  }
}
static void fresh(const void *p, size_t n) { // new memory: nobody has touched it
  uintptr_t a = (uintptr_t)p, e = a + n;
  for (uintptr_t g = a & ~7ull; g < e; g += 8) {
    struct cell *pg = cells(g >> 12, 0);
    if (!pg) { g = ((g >> 12) + 1) * 4096 - 8; continue; }
    pg[(g & 4095) >> 3].region = 0;
  }
}
static inline void acc(const void *p, size_t n, int w, void *ret) {
  if (!active || quiet || nthr < 2) return;
  apoint();
  access_(p, n, w, ret);
}

#define RA __builtin_return_address(0)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_read1(void *p) { acc(p, 1, 0, RA); }
void __tsan_read2(void *p) { acc(p, 2, 0, RA); }
void __tsan_read4(void *p) { acc(p, 4, 0, RA); }
void __tsan_read8(void *p) { acc(p, 8, 0, RA); }
void __tsan_read16(void *p) { acc(p, 16, 0, RA); }
void __tsan_write1(void *p) { acc(p, 1, 1, RA); }
void __tsan_write2(void *p) { acc(p, 2, 1, RA); }
void __tsan_write4(void *p) { acc(p, 4, 1, RA); }
void __tsan_write8(void *p) { acc(p, 8, 1, RA); }
void __tsan_write16(void *p) { acc(p, 16, 1, RA); }
void __tsan_unaligned_read2(void *p) { acc(p, 2, 0, RA); }
void __tsan_unaligned_read4(void *p) { acc(p, 4, 0, RA); }
void __tsan_unaligned_read8(void *p) { acc(p, 8, 0, RA); }
void __tsan_unaligned_read16(void *p) { acc(p, 16, 0, RA); }
void __tsan_unaligned_write2(void *p) { acc(p, 2, 1, RA); }
void __tsan_unaligned_write4(void *p) { acc(p, 4, 1, RA); }
void __tsan_unaligned_write8(void *p) { acc(p, 8, 1, RA); }
void __tsan_unaligned_write16(void *p) { acc(p, 16, 1, RA); }
void __tsan_volatile_read1(void *p) { acc(p, 1, 0, RA); }
void __tsan_volatile_read4(void *p) { acc(p, 4, 0, RA); }
void __tsan_volatile_read8(void *p) { acc(p, 8, 0, RA); }
void __tsan_volatile_write1(void *p) { acc(p, 1, 1, RA); }
void __tsan_volatile_write4(void *p) { acc(p, 4, 1, RA); }
void __tsan_volatile_write8(void *p) { acc(p, 8, 1, RA); }
void __tsan_read_range(void *p, unsigned long n) { acc(p, n, 0, RA); }
void __tsan_write_range(void *p, unsigned long n) { acc(p, n, 1, RA); }
// constructing an object writes the same pointer again; the first read of it may come from anywhere in the region
void __tsan_vptr_update(void **p, void *v) { if (*p != v) acc(p, 8, 1, RA); }
void __tsan_vptr_read(void *p) { acc(p, 8, 0, RA); }

// ---------------------------------------------------------------- synchronisation
static void acquire(int l) { join_vc(th[self].vc, lk[l].vc); }
static void release(int l) { join_vc(lk[l].vc, th[self].vc); th[self].vc[self]++; }
static void lock(void *k, int nestable) {
  if (!active) return;
  int l = lock_of(k), t = self;
  point();
  if (lk[l].owner == t && nestable) { lk[l].depth++; return; }
  while (lk[l].owner >= 0) { th[t].state = T_BLOCK; th[t].waiting = k; sched(500000); th[t].state = T_RUN; }
  lk[l].owner = t; lk[l].depth = 1;
  acquire(l);
}
static int trylock(void *k) {
  if (!active) return 1;
  int l = lock_of(k);
  point();
  if (lk[l].owner >= 0) return 0;
  lk[l].owner = self; lk[l].depth = 1; acquire(l);
  return 1;
}
static void unlock(void *k) {
  if (!active) return;
  int l = lock_of(k);
  if (--lk[l].depth > 0) return;
  release(l);
  lk[l].owner = -1;
  point();
}
static int crit_default, crit_atomic;
void GOMP_critical_start(void) { lock(&crit_default, 0); }
void GOMP_critical_end(void) { unlock(&crit_default); }
void GOMP_critical_name_start(void **p) { lock(p, 0); }
void GOMP_critical_name_end(void **p) { unlock(p); }
void GOMP_atomic_start(void) { lock(&crit_atomic, 0); }
void GOMP_atomic_end(void) { unlock(&crit_atomic); }

static void barrier_(void) {
  int t = self;
  if (!active || th[t].nested || nthr < 2) return;
  th[t].state = T_BARRIER;
  int all = 1;
  for (int i = 0; i < nthr; i++) if (th[i].state != T_BARRIER && th[i].state != T_DONE) all = 0;
  if (all) {
    vc_t m = {0};
    for (int i = 0; i < nthr; i++) join_vc(m, th[i].vc);
    for (int i = 0; i < nthr; i++) { join_vc(th[i].vc, m); th[i].vc[i]++; if (th[i].state == T_BARRIER) th[i].state = T_RUN; }
    sched(C ? C->p_switch : 0);
  } else {
    sched(500000);
  }
}
void GOMP_barrier(void) { barrier_(); }
_Bool GOMP_barrier_cancel(void) { barrier_(); return 0; }
_Bool GOMP_cancel(int a, _Bool b) { (void)a; (void)b; return 0; }
_Bool GOMP_cancellation_point(int a) { (void)a; return 0; }

// atomics: every one acquires and releases; two atomics never race
static void sync_at(const volatile void *p) {
  if (!active || quiet || nthr < 2) return;
  apoint();
  // one clock per address, in a small table separate from the locks
  static struct { const volatile void *k; uint32_t region; vc_t vc; } at[4096];
  uint32_t h = (uint32_t)(((uintptr_t)p * 0x9E3779B97F4A7C15ull) >> 52);
  for (int i = 0; i < 4096; i++, h = (h + 1) & 4095) {
    if (at[h].region != region) { at[h].region = region; at[h].k = p; memset(at[h].vc, 0, sizeof(vc_t)); }
    if (at[h].k == p) { join_vc(th[self].vc, at[h].vc); join_vc(at[h].vc, th[self].vc); th[self].vc[self]++; return; }
  }
  notsim("the 4097th atomic object");
}
#define ATOMIC(N, T) \
  T __tsan_atomic##N##_load(const volatile T *p, int mo) { (void)mo; sync_at(p); return *p; } \
  void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { (void)mo; sync_at(p); *p = v; } \
  T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) { (void)mo; sync_at(p); T o = *p; *p = v; return o; } \
  T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) { (void)mo; sync_at(p); T o = *p; *p = (T)(o + v); return o; } \
  T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) { (void)mo; sync_at(p); T o = *p; *p = (T)(o - v); return o; } \
  T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) { (void)mo; sync_at(p); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) { (void)mo; sync_at(p); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) { (void)mo; sync_at(p); T o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int f) { (void)mo; (void)f; sync_at(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int f) { return __tsan_atomic##N##_compare_exchange_strong(p, e, v, mo, f); }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

// ---------------------------------------------------------------- wrapped library calls of the instrumented code
void *__real_memcpy(void *, const void *, size_t), *__real_memmove(void *, const void *, size_t), *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { acc(s, n, 0, RA); acc(d, n, 1, RA); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { acc(s, n, 0, RA); acc(d, n, 1, RA); return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { acc(d, n, 1, RA); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { acc(a, n, 0, RA); acc(b, n, 0, RA); return __real_memcmp(a, b, n); }
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t), *__real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void **, size_t, size_t);
void __real_free(void *);
size_t malloc_usable_size(void *);
static void *got(void *p, size_t n) { (void)n; if (p && active && nthr > 1) fresh(p, malloc_usable_size(p)); return p; }
void *__wrap_malloc(size_t n) { return got(__real_malloc(n), n); }
void *__wrap_calloc(size_t n, size_t m) { return got(__real_calloc(n, m), n * m); }
void *__wrap_realloc(void *p, size_t n) { return got(__real_realloc(p, n), n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return got(__real_aligned_alloc(a, n), n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) got(*p, n); return r; }
void __wrap_free(void *p) { if (p && active && nthr > 1) acc(p, malloc_usable_size(p), 1, RA); __real_free(p); }
// for the operators new and delete (simompnew.cc)
void *simomp_new(size_t n) { return got(__real_malloc(n ? n : 1), n); }
void *simomp_new_aligned(size_t a, size_t n) { return got(__real_aligned_alloc(a, (n + a - 1) / a * a), n); }
void *__real___cxa_allocate_exception(size_t);
void *__wrap___cxa_allocate_exception(size_t n) { void *p = __real___cxa_allocate_exception(n); if (p && active && nthr > 1) fresh(p, n); return p; }
void simomp_delete(void *p, void *ra) { if (p && active && nthr > 1) acc(p, malloc_usable_size(p), 1, ra); __real_free(p); }

int __real_pthread_mutex_lock(pthread_mutex_t *), __real_pthread_mutex_unlock(pthread_mutex_t *), __real_pthread_mutex_trylock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { lock(m, 1); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { unlock(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return trylock(m) ? 0 : EBUSY; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *d) { (void)t; (void)a; (void)f; (void)d; notsim("pthread_create"); return EAGAIN; }
// construction of function-local statics
int __wrap___cxa_guard_acquire(uint64_t *g) {
  unsigned char *b = (unsigned char *)g;
  if (b[0]) { if (active) acquire(lock_of(g)); return 0; }
  lock(g, 1);
  if (b[0]) { unlock(g); return 0; }
  return 1;
}
void __wrap___cxa_guard_release(uint64_t *g) { sync_at(g); *(unsigned char *)g = 1; unlock(g); }
void __wrap___cxa_guard_abort(uint64_t *g) { unlock(g); }

// accesses made by uninstrumented library code on behalf of the instrumented program
void simomp_access(const void *p, size_t n, int w, void *ra) { acc(p, n, w, ra); }
void simomp_point(void) { point(); }

// ---------------------------------------------------------------- teams
static void run_body(void) {
  int t = self;
  team0.fn(team0.data);
  th[t].state = T_DONE;
}
static void *worker(void *arg) {
  int t = (int)(intptr_t)arg;
  self = t;
  __atomic_store_n(&th[t].state, T_IDLE, __ATOMIC_RELEASE);
  wk(&th[t].state);
  for (;;) {
    await(t);
    run_body();
    // the next one, or the master when everybody is done
    int all = 1;
    for (int i = 0; i < nthr; i++) if (th[i].state != T_DONE) all = 0;
    if (all) { th[t].state = T_DONE; give(0); }
    else {
      // waiters at a barrier that only this thread was missing
      int wait = 1, any = 0;
      for (int i = 0; i < nthr; i++) { if (th[i].state == T_RUN || th[i].state == T_BLOCK) wait = 0; if (th[i].state == T_BARRIER) any = 1; }
      if (wait && any) { if (C) C->verdict = 1; fprintf(stderr, "simomp: deadlock: a barrier that not all threads reach\n"); stop(SIM_DEADLOCK_EXIT); }
      int cand[MT], n = 0;
      for (int k = 1; k <= nthr; k++) { int i = (t + k) % nthr; if (can_run(i)) cand[n++] = i; }
      if (!n) { if (C) C->verdict = 1; fprintf(stderr, "simomp: deadlock: no thread of the team can run\n"); stop(SIM_DEADLOCK_EXIT); }
      int i = cand[n > 1 ? sim_choose((uint32_t)n, 500000) : 0];
      if (C) { C->steps++; C->nswitch++; }
      sim_trace(((uint64_t)(C ? C->count : 0) << 8) | (uint64_t)i);
      give(i);
    }
  }
  return 0;
}
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static void init(void) {
  static int done;
  if (done) return;
  done = 1;
  if (sim_sc) C = sim_sc();
  const char *e = getenv("OMP_NUM_THREADS");
  icv_n = e && atoi(e) > 0 ? atoi(e) : 1;
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nth, unsigned flags) {
  (void)flags;
  init();
  if (active) { // nested parallelism is off: a team of one
    th[self].nested++;
    fn(data);
    th[self].nested--;
    return;
  }
  int n = nth ? (int)nth : icv_n;
  if (n > MT) n = MT;
  if (n > 1 && C && C->p_miss && sim_choose(2, C->p_miss)) n--; // the system may give fewer threads
  if (n < 1) n = 1;
  if (!C) n = 1;
  for (; created < n; created++) {
    th[created].state = T_DONE;
    th[created].turn = 0;
    if (__real_pthread_create(&th[created].pt, 0, worker, (void *)(intptr_t)created)) notsim("a thread that cannot be created");
    int s;
    while ((s = __atomic_load_n(&th[created].state, __ATOMIC_ACQUIRE)) != T_IDLE) fw(&th[created].state, s);
  }
  nthr = n;
  st.regions++;
  if (n > 1) st.teams++;
  region++;
  if (C && n > 1) C->nmsg++;
  for (int i = 0; i < n; i++) {
    memset(th[i].vc, 0, sizeof(vc_t));
    th[i].vc[i] = 1; // everything before the region happened before every thread of it
    th[i].state = T_RUN; th[i].waiting = 0; th[i].nested = 0; th[i].turn = 0;
    team0.nws[i] = 0;
  }
  nlk = 0;
  memset(team0.ws, 0, sizeof team0.ws);
  team0.n = n; team0.fn = fn; team0.data = data;
  self = 0;
  active = 1;
  if (n > 1) point();
  fn(data);
  th[0].state = T_DONE;
  for (;;) {
    int all = 1;
    for (int i = 0; i < n; i++) if (th[i].state != T_DONE) all = 0;
    if (all) break;
    int wait = 1;
    for (int i = 0; i < n; i++) if (th[i].state == T_RUN || th[i].state == T_BLOCK) wait = 0;
    if (wait) { if (C) C->verdict = 1; fprintf(stderr, "simomp: deadlock: a barrier that not all threads reach\n"); stop(SIM_DEADLOCK_EXIT); }
    sched(500000);
  }
  active = 0;
  nthr = 1;
}

// ---------------------------------------------------------------- work sharing
static struct team solo[MT];
static struct ws *next_ws(int *first) {
  struct team *t = th[self].nested ? &solo[self] : &team0;
  int k = t->nws[self]++ % NWS;
  struct ws *w = &t->ws[k];
  int n = th[self].nested ? 1 : nthr;
  *first = !w->ready;
  if (*first) { w->ready = 1; w->left = n; }
  return w;
}
static struct ws *cur_ws(void) { struct team *t = th[self].nested ? &solo[self] : &team0; return &t->ws[(t->nws[self] + NWS - 1) % NWS]; }
static void leave_ws(void) { struct ws *w = cur_ws(); if (--w->left <= 0) memset(w, 0, sizeof *w); }
static int team_n(void) { return th[self].nested || !active ? 1 : nthr; }

enum { DYN, STAT, GUIDED };
static _Bool loop_next(long *s, long *e) {
  struct ws *w = cur_ws();
  point();
  if (w->kind == STAT && !w->chunk) {
    // one contiguous block per thread, taken by number
    int t = th[self].nested ? 0 : self;
    if (th[self].curit++) return 0;
    long total = w->incr > 0 ? (w->end - w->next + w->incr - 1) / w->incr : (w->end - w->next + w->incr + 1) / w->incr;
    if (total < 0) total = 0;
    long q = total / team_n(), r = total % team_n();
    long a = t * q + (t < r ? t : r), b = a + q + (t < r);
    if (a >= b) return 0;
    *s = w->next + a * w->incr; *e = w->next + b * w->incr;
    return 1;
  }
  if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return 0;
  long c = (w->chunk ? w->chunk : 1) * w->incr;
  *s = w->next;
  if (w->kind == GUIDED) { long left = (w->end - w->next) / w->incr / team_n() / 2; if (left > 1) c = left * w->incr; }
  *e = *s + c;
  if (w->incr > 0 ? *e > w->end : *e < w->end) *e = w->end;
  w->next = *e;
  return 1;
}
static void loop_init(int kind, long start, long end, long incr, long chunk) {
  if (!active) { th[self].nested++; } // an orphaned directive outside of a parallel region
  int first;
  struct ws *w = next_ws(&first);
  if (first) { w->kind = kind; w->next = start; w->end = end; w->incr = incr; w->chunk = chunk; }
  th[self].curit = 0;
  if (!active) th[self].nested--;
}
#define LOOP(name, kind) \
  _Bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) { init(); loop_init(kind, s, e, i, c); return loop_next(is, ie); } \
  _Bool GOMP_loop_##name##_next(long *is, long *ie) { return loop_next(is, ie); } \
  _Bool GOMP_loop_ull_##name##_start(_Bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long *is, unsigned long *ie) { \
    (void)up; init(); loop_init(kind, (long)s, (long)e, (long)i, (long)c); return loop_next((long *)is, (long *)ie); } \
  _Bool GOMP_loop_ull_##name##_next(unsigned long *is, unsigned long *ie) { return loop_next((long *)is, (long *)ie); }
#define LOOPR(name, kind) \
  _Bool GOMP_loop_##name##_start(long s, long e, long i, long *is, long *ie) { init(); loop_init(kind, s, e, i, 1); return loop_next(is, ie); } \
  _Bool GOMP_loop_##name##_next(long *is, long *ie) { return loop_next(is, ie); } \
  _Bool GOMP_loop_ull_##name##_start(_Bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long *is, unsigned long *ie) { \
    (void)up; init(); loop_init(kind, (long)s, (long)e, (long)i, 1); return loop_next((long *)is, (long *)ie); } \
  _Bool GOMP_loop_ull_##name##_next(unsigned long *is, unsigned long *ie) { return loop_next((long *)is, (long *)ie); }
LOOP(dynamic, DYN) LOOP(nonmonotonic_dynamic, DYN) LOOP(guided, GUIDED) LOOP(nonmonotonic_guided, GUIDED) LOOP(static, STAT)
LOOP(ordered_dynamic, DYN) LOOP(ordered_guided, DYN) LOOP(ordered_static, DYN)
LOOPR(runtime, DYN) LOOPR(nonmonotonic_runtime, DYN) LOOPR(maybe_nonmonotonic_runtime, DYN) LOOPR(ordered_runtime, DYN)
void GOMP_loop_end_nowait(void) { leave_ws(); }
void GOMP_loop_end(void) { leave_ws(); barrier_(); }
_Bool GOMP_loop_end_cancel(void) { GOMP_loop_end(); return 0; }
// combined parallel loops
struct pl { void (*fn)(void *); void *data; int kind; long s, e, i, c; };
static void pl_body(void *d) {
  struct pl *p = d;
  loop_init(p->kind, p->s, p->e, p->i, p->c);
  p->fn(p->data);
}
#define PLOOP(name, kind_) \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c, unsigned fl) { \
    struct pl p = {fn, data, kind_, s, e, i, c}; GOMP_parallel(pl_body, &p, n, fl); }
PLOOP(dynamic, DYN) PLOOP(nonmonotonic_dynamic, DYN) PLOOP(guided, GUIDED) PLOOP(nonmonotonic_guided, GUIDED) PLOOP(static, STAT)
#define PLOOPR(name) \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, unsigned fl) { \
    struct pl p = {fn, data, DYN, s, e, i, 1}; GOMP_parallel(pl_body, &p, n, fl); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
void GOMP_ordered_start(void) { notsim("an ordered region"); }
void GOMP_ordered_end(void) {}

_Bool GOMP_single_start(void) {
  if (!active || th[self].nested || nthr < 2) return 1;
  point();
  int first; struct ws *w = next_ws(&first);
  int r = !w->single; w->single = 1;
  leave_ws();
  return (_Bool)r;
}
void *GOMP_single_copy_start(void) { notsim("copyprivate"); return 0; }
void GOMP_single_copy_end(void *p) { (void)p; }
static unsigned section_next(void) { long s, e; if (!loop_next(&s, &e)) return 0; return (unsigned)s; }
unsigned GOMP_sections_start(unsigned n) { loop_init(DYN, 1, (long)n + 1, 1, 1); return section_next(); }
unsigned GOMP_sections_next(void) { return section_next(); }
void GOMP_sections_end(void) { leave_ws(); barrier_(); }
void GOMP_sections_end_nowait(void) { leave_ws(); }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned fl) { struct pl p = {fn, data, DYN, 1, (long)count + 1, 1, 1}; GOMP_parallel(pl_body, &p, n, fl); }
// tasks run at once in the thread that creates them, which every implementation may do
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, _Bool ifc, unsigned fl, void **dep, int prio, void *det) {
  (void)ifc; (void)fl; (void)dep; (void)prio; (void)det;
  point();
  if (cpy) { char *b = __real_malloc((size_t)(sz + al)); char *a = (char *)(((uintptr_t)b + (size_t)al - 1) & ~((uintptr_t)al - 1)); cpy(a, data); fn(a); __real_free(b); }
  else fn(data);
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { point(); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_taskloop(void (*fn)(void *), void *d) { (void)fn; (void)d; notsim("taskloop"); }
void GOMP_taskloop_ull(void (*fn)(void *), void *d) { (void)fn; (void)d; notsim("taskloop"); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *d, unsigned n, unsigned f) { (void)fn; (void)d; (void)n; (void)f; notsim("a task reduction"); return 0; }

// ---------------------------------------------------------------- queries
int omp_get_thread_num(void) { return active && !th[self].nested ? self : 0; }
int omp_get_num_threads(void) { return team_n(); }
int omp_get_max_threads(void) { init(); return icv_n > MT ? MT : icv_n; }
void omp_set_num_threads(int n) { init(); icv_n = n > 0 ? n : 1; }
int omp_get_num_procs(void) { return MT; }
int omp_in_parallel(void) { return active && nthr > 1; }
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int d) { (void)d; }
int omp_get_nested(void) { return 0; }
void omp_set_nested(int d) { (void)d; }
int omp_get_max_active_levels(void) { return 1; }
void omp_set_max_active_levels(int d) { (void)d; }
int omp_get_level(void) { return active + th[self].nested; }
int omp_get_active_level(void) { return active && nthr > 1; }
int omp_get_thread_limit(void) { return MT; }
int omp_get_team_size(int l) { return l == 1 && active ? nthr : 1; }
int omp_get_ancestor_thread_num(int l) { return l == 1 && active ? self : 0; }
void omp_get_schedule(int *k, int *c) { *k = 2; *c = 1; }
void omp_set_schedule(int k, int c) { (void)k; (void)c; }
int omp_get_proc_bind(void) { return 0; }
int omp_get_cancellation(void) { return 0; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(void *l) { (void)l; }
void omp_destroy_lock(void *l) { (void)l; }
void omp_set_lock(void *l) { lock(l, 0); }
void omp_unset_lock(void *l) { unlock(l); }
int omp_test_lock(void *l) { return trylock(l); }
void omp_init_nest_lock(void *l) { (void)l; }
void omp_destroy_nest_lock(void *l) { (void)l; }
void omp_set_nest_lock(void *l) { lock(l, 1); }
void omp_unset_nest_lock(void *l) { unlock(l); }
