/*
 * simrt.c - deterministic simulation runtime.
 *
 * One process, one baton.  Every thread the code under test creates is a real
 * OS thread that only runs while it holds the baton; who gets the baton next
 * is decided here, from a seeded PRNG (search) or from a recorded list
 * (replay).  Control is taken at
 *   - every memory access and atomic of instrumented code (this file is the
 *     ThreadSanitizer runtime those crates are compiled against: __tsan_*),
 *   - every libc entry point through which std reaches the kernel: futex,
 *     pthread_create/join, sched_yield, sleeps, clocks, getrandom, file I/O,
 *     standard error,
 *   - every heap allocation made through the Rust global allocator.
 * Files live in an in-memory file system with crash semantics; clocks are
 * simulated; randomness comes from the seed; faults are injected from a plan.
 * Outside a simulation (sim_tid < 0) every entry point passes through.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
/* std asks statx with null pointers whether it exists: keep the compiler from trusting the header */
#define statx statx_in_header
#include <sys/stat.h>
#undef statx
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define MAXT 1100
#define NONE64 (~0ull)

/* ------------------------------------------------------------------ raw */
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
static inline long ret_errno(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

/* ------------------------------------------------------------------ rng */
typedef struct { uint64_t s; } Rng;
static inline uint64_t rng_next(Rng *r) {
  uint64_t z = (r->s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static inline uint64_t rng_below(Rng *r, uint64_t n) { return n ? rng_next(r) % n : 0; }

/* ------------------------------------------------------------ structures */
enum { ST_FREE, ST_RUN, ST_FUTEX, ST_JOIN, ST_STALL, ST_QSTALL, ST_DONE };

/* sync point classes */
enum { C_ATOMIC = 1, C_FUTEX, C_THREAD, C_ALLOC, C_IO, C_USER, C_YIELD, C_CONFLICT, C_MEM, C_BLOCK, C_WAKE, C_FUNC };

/* fatal kinds reported to the harness */
enum { K_DEADLOCK = 1, K_BUDGET = 2, K_CRASH = 3, K_ABORT = 4, K_HARNESS = 5, K_EXIT = 6 };

typedef struct { uint32_t tid; uint32_t kind; uint64_t lstep; int64_t val; } Dev; /* kind 0 = who runs next, 1 = waiter picked, 2 = spurious event */

typedef struct Dtor { void (*f)(void *); void *obj; struct Dtor *next; } Dtor;

typedef struct {
  int state;
  _Atomic int go;
  uint64_t lstep, next;
  uint32_t *faddr; uint32_t fmask; uint64_t fseq;
  uint64_t wake_at; int timed, timed_out;
  int join_target;
  int owner;               /* set by the workload, inherited by the threads a thread starts */
  int joined, detached;
  int prio;
  pthread_t pt;
  void *(*fn)(void *); void *arg; void *ret;
  Dtor *dtors;
  Dev *dv; uint32_t ndv, idv;
} SimThread;

/* plan, filled by the harness before sim_begin; layout mirrored in Rust */
typedef struct {
  uint64_t seed;
  uint64_t max_steps;
  uint64_t crash_at;       /* global step of a simulated process crash, 0 = never */
  uint64_t fair_slice;     /* forced switch after that many steps of one thread */
  uint32_t replay;         /* 1: decisions only from the recorded list */
  uint32_t policy;         /* 0 uniform, 1 priorities (PCT) */
  uint32_t p_sync;         /* /4096, preempt at atomics/futex/io/user points */
  uint32_t p_alloc;        /* /4096, preempt at allocations */
  uint32_t p_conf;         /* /4096, preempt at conflicting memory accesses */
  uint32_t mem_mean;       /* mean number of local steps between blind preemptions, 0 = off */
  uint32_t p_spur;         /* /4096, spurious futex returns and weak CAS failures */
  uint32_t pct_mean;       /* mean steps between priority change points */
  uint64_t tick;           /* simulated nanoseconds per scheduling point */
  uint64_t skew;           /* seed of the jumps of the wall clock, 0 = none */
} SimPlan;

enum { F_WRITE_ERR = 0, F_WRITE_SHORT, F_WRITE_EINTR, F_DISK_CAP, F_OPEN_ERR, F_OPEN_EINTR, F_SPAWN, F_STDERR, F_SYNC_ERR,
       F_ALLOC, F_RANDOM_EINTR, F_CRASH, F_SPURIOUS, F_WRITE_ZERO, F_STALL, F_RENAME_ERR, F_RANDOM_ERR, F_STDERR_EINTR, F_STDERR_SHORT,
       F_CLOCK_JUMP, F_SLOW_IO, F_RANDOM_SHORT, NFAULT };
typedef struct { uint32_t kind, armed; uint64_t at; int64_t arg; } Fault;
#define MAXF 256
static Fault faults[MAXF];
static int nfaults;
static uint64_t fcount[NFAULT]; /* occurrences of the faultable operation */
static uint64_t ffired[NFAULT];

static SimThread T[MAXT];
static int nT;
static int cur = -1;
static SimThread *curT;
static SimPlan plan;
static uint64_t gstep, glimit, slice_start, simtime, fseq_ctr;
static Rng rs, re; /* scheduler, environment */
static uint64_t thash, ihash;
static uint64_t nswitch, nsync, npreempt;
static int live;
static int prio_dirty;
static uint64_t pct_next;
static __thread int sim_tid __attribute__((tls_model("initial-exec"))) = -1;
static __thread int no_preempt __attribute__((tls_model("initial-exec"))) = 0;
static void (*on_fatal)(int kind);

#define MAXDEV (1 << 20)
static Dev *devs; static uint32_t ndevs; static uint64_t devs_lost;
static Dev *rdevs; static uint32_t nrdevs;

/* ------------------------------------------------------------- real libc */
#define REAL(ret, name, args) static ret (*real_##name) args
REAL(int, pthread_create, (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *));
REAL(int, pthread_join, (pthread_t, void **));
REAL(int, pthread_detach, (pthread_t));
REAL(int, cxa_thread_atexit_impl, (void (*)(void *), void *, void *));
REAL(void, abort, (void)) __attribute__((noreturn));
static void resolve(void) {
  if (real_pthread_create) return;
  real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  real_pthread_detach = dlsym(RTLD_NEXT, "pthread_detach");
  real_cxa_thread_atexit_impl = dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl");
  real_abort = dlsym(RTLD_NEXT, "abort");
  real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
}
__attribute__((constructor)) static void ctor(void) { resolve(); }

/* ------------------------------------------------------------- hashing */
static inline void hmix(uint64_t *h, uint64_t v) { *h = (*h ^ v) * 0x100000001b3ull; *h ^= *h >> 29; }

/* -------------------------------------------------------------- fatal */
static void fatal(int kind) {
  sim_tid = -1;
  if (on_fatal) on_fatal(kind);
  _exit(99);
}

static void harness_bug(const char *m) {
  sim_tid = -1;
  raw6(SYS_write, 2, (long)m, strlen(m), 0, 0, 0);
  raw6(SYS_write, 2, (long)"\n", 1, 0, 0, 0);
  if (on_fatal) on_fatal(K_HARNESS);
  _exit(98);
}

/* --------------------------------------------------------------- baton */
static void park(SimThread *t) {
  while (!atomic_load(&t->go)) raw6(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  atomic_store(&t->go, 0);
}
static void unpark(SimThread *t) {
  atomic_store(&t->go, 1);
  raw6(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void set_limit(void) {
  uint64_t l = plan.max_steps;
  if (plan.crash_at && plan.crash_at < l) l = plan.crash_at;
  if (slice_start + plan.fair_slice < l) l = slice_start + plan.fair_slice;
  glimit = l;
}
static void give(int to, int wait) {
  int me = cur;
  if (to == me) return;
  nswitch++;
  cur = to; curT = &T[to];
  slice_start = gstep;
  set_limit();
  unpark(&T[to]);
  if (wait) park(&T[me]);
}

static void dev_add(uint32_t tid, uint32_t kind, uint64_t lstep, int64_t val) {
  if (ndevs < MAXDEV) { devs[ndevs].tid = tid; devs[ndevs].kind = kind; devs[ndevs].lstep = lstep; devs[ndevs].val = val; ndevs++; }
  else devs_lost++;
}

/* replay: look for a recorded decision of this thread at this local step */
static Dev *dev_find(SimThread *t, uint32_t kind) {
  while (t->idv < t->ndv && t->dv[t->idv].lstep < t->lstep) t->idv++;
  for (uint32_t i = t->idv; i < t->ndv && t->dv[i].lstep == t->lstep; i++)
    if (t->dv[i].kind == kind) return &t->dv[i];
  return 0;
}
static void dev_next(SimThread *t) {
  while (t->idv < t->ndv && t->dv[t->idv].lstep <= t->lstep) t->idv++;
  t->next = t->idv < t->ndv ? t->dv[t->idv].lstep : NONE64;
}
static void mem_next(SimThread *t) {
  if (plan.replay) { dev_next(t); return; }
  if (!plan.mem_mean) { t->next = NONE64; return; }
  t->next = t->lstep + 1 + rng_below(&rs, 2ull * plan.mem_mean);
}

static void wake_timers(void) {
  for (int i = 0; i < nT; i++)
    if (T[i].timed && T[i].wake_at <= simtime && (T[i].state == ST_STALL || T[i].state == ST_FUTEX)) {
      T[i].timed = 0;
      T[i].timed_out = T[i].state == ST_FUTEX;
      T[i].state = ST_RUN; prio_dirty = 1;
    }
}
static int ntimed;

static uint64_t nquiesce;
static void (*on_quiesce)(void);

/* choose among runnable threads other than `me` (or including, when me >= 0 and runnable) */
static int choose(int *list, int n) {
  if (plan.policy == 1) {
    int b = list[0];
    for (int i = 1; i < n; i++) if (T[list[i]].prio > T[b].prio) b = list[i];
    return b;
  }
  return list[rng_below(&rs, n)];
}

static int runnable(int *list, int except) {
  int n = 0;
  for (int i = 0; i < nT; i++) if (T[i].state == ST_RUN && i != except) list[n++] = i;
  return n;
}

/* the current thread cannot go on: pick who runs */
static int pick_blocked(void) {
  int list[MAXT], n;
  for (;;) {
    n = runnable(list, -1);
    if (n) break;
    uint64_t best = NONE64;
    for (int i = 0; i < nT; i++) if (T[i].timed && T[i].wake_at < best && (T[i].state == ST_STALL || T[i].state == ST_FUTEX)) best = T[i].wake_at;
    if (best != NONE64) { if (best > simtime) simtime = best; wake_timers(); continue; }
    int q = 0;
    for (int i = 0; i < nT; i++) if (T[i].state == ST_QSTALL) q++;
    if (q) {
      nquiesce++;
      hmix(&thash, 0x51);
      if (on_quiesce) { int s = sim_tid; sim_tid = -1; on_quiesce(); sim_tid = s; }
      for (int i = 0; i < nT; i++) if (T[i].state == ST_QSTALL) T[i].state = ST_RUN;
      prio_dirty = 1;
      continue;
    }
    fatal(K_DEADLOCK);
  }
  int to = list[0];
  if (plan.replay) {
    Dev *d = dev_find(curT, 0);
    if (d) for (int i = 0; i < n; i++) if (list[i] == d->val) to = list[i];
  } else if (n > 1) {
    to = choose(list, n);
    if (to != list[0]) dev_add(cur, 0, curT->lstep, to);
  }
  return to;
}

static void block(void) { /* curT->state already set to a blocked state */
  curT->lstep++; gstep++; simtime += plan.tick;
  hmix(&thash, (uint64_t)cur << 8 | C_BLOCK);
  hmix(&ihash, (uint64_t)cur << 8 | C_BLOCK);
  SimThread *me = curT;
  int to = pick_blocked();
  if (to != cur) give(to, 1);
  else { slice_start = gstep; set_limit(); }
  if (me->next < me->lstep) mem_next(me);
}

static void limit_slow(void) {
  if (gstep >= plan.max_steps) fatal(K_BUDGET);
  if (plan.crash_at && gstep >= plan.crash_at) { ffired[F_CRASH]++; fatal(K_CRASH); }
  if (gstep >= slice_start + plan.fair_slice) {
    slice_start = gstep;
    if (!no_preempt) {
      int list[MAXT], n = runnable(list, cur);
      if (n) {
        int to = list[0];
        for (int i = 0; i < n; i++) if (list[i] > cur) { to = list[i]; break; }
        if (plan.policy == 1) T[cur].prio -= 1000; /* starvation guard */
        give(to, 1);
      }
    }
  }
  set_limit();
}

static void preempt(int *list, int n, int to) {
  dev_add(cur, 0, curT->lstep, to);
  npreempt++;
  give(to, 1);
}

static uint32_t cls_p(int cls) {
  return cls == C_ALLOC ? plan.p_alloc : cls == C_CONFLICT ? plan.p_conf : plan.p_sync;
}

static int trace_fd = -1; /* SIM_TRACE=<file>: every synchronisation point, for debugging the simulator */
static void trace(int cls, void *ra) {
  char b[96]; int n = snprintf(b, sizeof b, "%d %llu %d %p\n", cur, (unsigned long long)curT->lstep, cls, ra);
  raw6(SYS_write, trace_fd, (long)b, n, 0, 0, 0);
}
/* a point where another thread may be scheduled */
__attribute__((noinline)) static void sync_point(int cls) {
  SimThread *t = curT;
  if (trace_fd >= 0) trace(cls, __builtin_return_address(0));
  t->lstep++; gstep++; simtime += plan.tick; nsync++;
  hmix(&thash, (uint64_t)cur << 40 ^ t->lstep << 4 ^ cls);
  if (cls != C_ALLOC) hmix(&ihash, (uint64_t)cur << 8 | cls);
  if (gstep >= glimit) limit_slow();
  if (ntimed) wake_timers();
  if (plan.replay) {
    if (t->lstep >= t->next) {
      Dev *d = dev_find(t, 0);
      int to = d ? (int)d->val : -1;
      dev_next(t);
      if (!no_preempt && to >= 0 && to < nT && to != cur && T[to].state == ST_RUN) give(to, 1);
    }
    return;
  }
  if (t->lstep >= t->next) mem_next(t);
  if (no_preempt || live < 2) return;
  if (plan.policy == 1) {
    if (!prio_dirty && gstep < pct_next) return;
    if (gstep >= pct_next) {
      pct_next = gstep + 1 + rng_below(&rs, 2ull * plan.pct_mean);
      T[cur].prio = -(int)rng_below(&rs, 1000);
    }
    prio_dirty = 0;
    int list[MAXT], n = runnable(list, -1);
    int to = choose(list, n);
    if (to != cur) preempt(list, n, to);
    return;
  }
  uint32_t p = cls_p(cls);
  if (!p || (rng_next(&rs) & 4095) >= p) return;
  int list[MAXT], n = runnable(list, cur);
  if (n) preempt(list, n, list[rng_below(&rs, n)]);
}

/* ------------------------------------------------------ memory accesses */
#define ARENA_SIZE (8ull << 30)
static char *arena; static uint64_t arena_top;
#define CT (1 << 18)
static uint16_t ct_w[CT], ct_r[CT]; /* tid+1 of last writer / reader */

static void mem_slow(SimThread *t) {
  if (plan.replay) {
    Dev *d = dev_find(t, 0);
    int to = d ? (int)d->val : -1;
    dev_next(t);
    if (!no_preempt && to >= 0 && to < nT && to != cur && T[to].state == ST_RUN) give(to, 1);
    return;
  }
  mem_next(t);
  if (no_preempt || live < 2) return;
  int list[MAXT], n = runnable(list, cur);
  if (!n) return;
  hmix(&thash, (uint64_t)cur << 40 ^ t->lstep << 4 ^ C_MEM);
  int to = plan.policy == 1 ? choose(list, n) : list[rng_below(&rs, n)];
  preempt(list, n, to);
}

static uint64_t nconf;
static void conflict(uint64_t off, int w) {
  uint32_t h = (uint32_t)((off >> 3) * 2654435761u) >> 14;
  uint16_t me = cur + 1;
  int c = (ct_w[h] && ct_w[h] != me) || (w && ct_r[h] && ct_r[h] != me);
  if (w) { ct_w[h] = me; ct_r[h] = 0; } else ct_r[h] = me;
  if (c) {
    nconf++;
    if (plan.policy == 0 && plan.p_conf && (rng_next(&rs) & 4095) < plan.p_conf && !no_preempt) {
      int list[MAXT], n = runnable(list, cur);
      if (n) { hmix(&thash, (uint64_t)cur << 40 ^ curT->lstep << 4 ^ C_CONFLICT); preempt(list, n, list[rng_below(&rs, n)]); }
    }
  }
}

static inline void mem(void *a, int w) {
  if (__builtin_expect(sim_tid < 0, 0)) return;
  SimThread *t = curT;
  t->lstep++;
  if (__builtin_expect(++gstep >= glimit, 0)) limit_slow();
  if (__builtin_expect(t->lstep >= t->next, 0)) { mem_slow(t); }
  else if (live > 1 && plan.p_conf && !plan.replay) {
    uint64_t off = (uint64_t)((char *)a - arena);
    if (off < ARENA_SIZE) conflict(off, w);
  }
}

#define RW(n) \
  void __tsan_read##n(void *a) { mem(a, 0); } \
  void __tsan_write##n(void *a) { mem(a, 1); } \
  void __tsan_read_write##n(void *a) { mem(a, 1); } \
  void __tsan_unaligned_read##n(void *a) { mem(a, 0); } \
  void __tsan_unaligned_write##n(void *a) { mem(a, 1); } \
  void __tsan_unaligned_read_write##n(void *a) { mem(a, 1); } \
  void __tsan_volatile_read##n(void *a) { mem(a, 0); } \
  void __tsan_volatile_write##n(void *a) { mem(a, 1); } \
  void __tsan_unaligned_volatile_read##n(void *a) { mem(a, 0); } \
  void __tsan_unaligned_volatile_write##n(void *a) { mem(a, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; mem(0, 0); }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **p, void *v) { mem(p, 1); (void)v; }
void __tsan_vptr_read(void **p) { mem(p, 0); }
void __tsan_read_range(void *a, unsigned long n) { mem(a, 0); (void)n; }
void __tsan_write_range(void *a, unsigned long n) { mem(a, 1); (void)n; }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { mem((void *)s, 0); mem(d, 1); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { mem((void *)s, 0); mem(d, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { mem(d, 1); return memset(d, c, n); }

static inline void apoint(void) { if (sim_tid >= 0) sync_point(C_ATOMIC); }
static int spurious(void) {
  if (sim_tid < 0) return 0;
  curT->lstep++; gstep++;
  if (plan.replay) {
    Dev *d = dev_find(curT, 2);
    if (curT->lstep >= curT->next) dev_next(curT);
    if (d) { ffired[F_SPURIOUS]++; return 1; }
    return 0;
  }
  if (curT->lstep >= curT->next) mem_next(curT);
  if (!plan.p_spur || (rng_next(&rs) & 4095) >= plan.p_spur) return 0;
  dev_add(cur, 2, curT->lstep, 1);
  ffired[F_SPURIOUS]++;
  return 1;
}
#define AT(n, ty) \
  ty __tsan_atomic##n##_load(const volatile ty *a, int mo) { (void)mo; apoint(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile ty *a, ty v, int mo) { (void)mo; apoint(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##n##_exchange(volatile ty *a, ty v, int mo) { (void)mo; apoint(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##n##_fetch_add(volatile ty *a, ty v, int mo) { (void)mo; apoint(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##n##_fetch_sub(volatile ty *a, ty v, int mo) { (void)mo; apoint(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##n##_fetch_and(volatile ty *a, ty v, int mo) { (void)mo; apoint(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##n##_fetch_or(volatile ty *a, ty v, int mo) { (void)mo; apoint(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##n##_fetch_xor(volatile ty *a, ty v, int mo) { (void)mo; apoint(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##n##_fetch_nand(volatile ty *a, ty v, int mo) { (void)mo; apoint(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile ty *a, ty *c, ty v, int mo, int fmo) { (void)mo; (void)fmo; apoint(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile ty *a, ty *c, ty v, int mo, int fmo) { (void)mo; (void)fmo; apoint(); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  ty __tsan_atomic##n##_compare_exchange_val(volatile ty *a, ty c, ty v, int mo, int fmo) { (void)mo; (void)fmo; apoint(); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; apoint(); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ------------------------------------------------------------ allocator */
#define NCLS 64
static void *flist[NCLS];
static int size_class(uint64_t n, uint64_t *csz) {
  if (n < 16) n = 16;
  if (n <= 256) { n = (n + 15) & ~15ull; *csz = n; return (int)(n / 16); }
  int c = 17; uint64_t s = 512;
  while (s < n) { s <<= 1; c++; }
  *csz = s;
  return c;
}
static uint64_t nalloc;
static _Atomic int64_t live_bytes, live_blocks;
static int64_t peak_bytes;
static int fault_hit(int kind, int64_t *arg);
void *sim_alloc(uint64_t size, uint64_t align) {
  if (sim_tid < 0) {
    void *p = 0;
    if (align <= 16) return malloc(size ? size : 1);
    if (posix_memalign(&p, align, size)) return 0;
    return p;
  }
  nalloc++;
  sync_point(C_ALLOC);
  if (nfaults) { int64_t a; if (fault_hit(F_ALLOC, &a)) return 0; }
  live_bytes += size; live_blocks++; if (live_bytes > peak_bytes) peak_bytes = live_bytes;
  uint64_t cs; int c = size_class(size, &cs);
  if (align <= 16 && flist[c]) { void *p = flist[c]; flist[c] = *(void **)p; return p; }
  if (align < 16) align = 16;
  uint64_t o = (arena_top + align - 1) & ~(align - 1);
  if (o + cs > ARENA_SIZE) harness_bug("simrt: arena exhausted");
  arena_top = o + cs;
  return arena + o;
}
void sim_free(void *p, uint64_t size, uint64_t align) {
  uint64_t off = (uint64_t)((char *)p - arena);
  if (!arena || off >= ARENA_SIZE) { free(p); return; }
  live_bytes -= size; live_blocks--;
  if (sim_tid < 0) return; /* after the simulation, or a thread leaving: leak */
  sync_point(C_ALLOC);
  if (align > 16) return;
  uint64_t cs; int c = size_class(size, &cs);
  *(void **)p = flist[c]; flist[c] = p;
}

/* --------------------------------------------------------------- faults */
static int fault_hit(int kind, int64_t *arg) {
  uint64_t n = fcount[kind]++;
  for (int i = 0; i < nfaults; i++)
    if (faults[i].armed && (int)faults[i].kind == kind && faults[i].at == n) {
      faults[i].armed = 0; ffired[kind]++;
      if (arg) *arg = faults[i].arg;
      hmix(&thash, 0xfa00 + kind);
      return 1;
    }
  return 0;
}
/* sticky: armed from occurrence `at` on */
static int fault_sticky(int kind, int64_t *arg) {
  uint64_t n = fcount[kind]++;
  for (int i = 0; i < nfaults; i++)
    if (faults[i].armed && (int)faults[i].kind == kind && n >= faults[i].at) { ffired[kind]++; *arg = faults[i].arg; return 1; }
  return 0;
}
static int fault_get(int kind, Fault **f) {
  for (int i = 0; i < nfaults; i++) if (faults[i].armed && (int)faults[i].kind == kind) { *f = &faults[i]; return 1; }
  return 0;
}

/* --------------------------------------------------------------- futex */
static uint64_t clock_base = 1000000000000ull;
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t mask) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    sync_point(C_FUTEX);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    if (spurious()) { errno = EINTR; return -1; }
    SimThread *t = curT;
    t->faddr = addr; t->fmask = cmd == FUTEX_WAIT ? ~0u : mask; t->fseq = fseq_ctr++;
    t->timed = 0; t->timed_out = 0;
    if (ts) {
      uint64_t ns = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
      if (cmd == FUTEX_WAIT) ns += simtime; else ns = ns > clock_base ? ns - clock_base : 0;
      t->timed = 1; t->wake_at = ns; ntimed++;
    }
    t->state = ST_FUTEX;
    block();
    t->timed = 0;
    if (t->timed_out) { t->timed_out = 0; errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t m = cmd == FUTEX_WAKE ? ~0u : mask;
    uint32_t n = 0;
    while (n < val) {
      int w[MAXT], k = 0;
      for (int i = 0; i < nT; i++) if (T[i].state == ST_FUTEX && T[i].faddr == addr && (T[i].fmask & m)) w[k++] = i;
      if (!k) break;
      for (int i = 1; i < k; i++) for (int j = i; j > 0 && T[w[j]].fseq < T[w[j - 1]].fseq; j--) { int x = w[j]; w[j] = w[j - 1]; w[j - 1] = x; }
      int pick = 0;
      curT->lstep++; gstep++;
      if (plan.replay) {
        Dev *d = dev_find(curT, 1);
        if (d && d->val < k) pick = (int)d->val;
        if (curT->lstep >= curT->next) dev_next(curT);
      } else {
        if (curT->lstep >= curT->next) mem_next(curT);
        if (k > 1) { pick = (int)rng_below(&rs, k); if (pick) dev_add(cur, 1, curT->lstep, pick); }
      }
      T[w[pick]].state = ST_RUN; T[w[pick]].timed = 0; prio_dirty = 1;
      n++;
    }
    sync_point(C_WAKE);
    return n;
  }
  harness_bug("simrt: unsupported futex operation");
  return -1;
}

static long sim_random(void *buf, size_t n) {
  int64_t a;
  sync_point(C_IO);
  if (fault_hit(F_RANDOM_EINTR, &a)) { errno = EINTR; return -1; }
  if (fault_hit(F_RANDOM_ERR, &a)) { errno = (int)a; return -1; }
  if (n > 256 && fault_hit(F_RANDOM_SHORT, &a)) n = 256 + (uint64_t)a % (n - 256); /* only longer requests come short */
  for (size_t i = 0; i < n; i++) ((unsigned char *)buf)[i] = (unsigned char)rng_next(&re);
  return (long)n;
}

long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (sim_tid >= 0) {
    if (n == SYS_futex) return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
    if (n == SYS_getrandom) return sim_random((void *)a, (size_t)b);
    if (n == SYS_gettid) return 100000 + sim_tid;
  }
  return ret_errno(raw6(n, a, b, c, d, e, f));
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (sim_tid >= 0) return sim_random(buf, n);
  return ret_errno(raw6(SYS_getrandom, (long)buf, n, fl, 0, 0, 0));
}

/* ------------------------------------------------------------- threads */
int __cxa_thread_atexit_impl(void (*f)(void *), void *obj, void *dso) {
  if (sim_tid > 0) {
    Dtor *d = malloc(sizeof *d);
    d->f = f; d->obj = obj; d->next = T[sim_tid].dtors; T[sim_tid].dtors = d;
    return 0;
  }
  resolve();
  return real_cxa_thread_atexit_impl(f, obj, dso);
}

/* destructors of pthread keys also run while the thread still holds the baton */
#define MAXKEY 1024
static void (*key_dtor[MAXKEY])(void *);
int pthread_key_create(pthread_key_t *k, void (*f)(void *)) {
  static int (*real)(pthread_key_t *, void (*)(void *));
  if (!real) real = dlsym(RTLD_NEXT, "pthread_key_create");
  int r = real(k, f);
  if (!r && *k < MAXKEY) key_dtor[*k] = f;
  return r;
}
int pthread_key_delete(pthread_key_t k) {
  static int (*real)(pthread_key_t);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_key_delete");
  if (k < MAXKEY) key_dtor[k] = 0;
  return real(k);
}
static void run_dtors(SimThread *t) {
  for (int round = 0, more = 1; more && round < 8; round++) {
    more = 0;
    while (t->dtors) { Dtor *d = t->dtors; t->dtors = d->next; d->f(d->obj); free(d); more = 1; }
    for (pthread_key_t k = 0; k < MAXKEY; k++) if (key_dtor[k]) {
      void *v = pthread_getspecific(k);
      if (v) { pthread_setspecific(k, 0); key_dtor[k](v); more = 1; }
    }
  }
}

static void *tramp(void *p) {
  SimThread *t = p;
  int id = (int)(t - T);
  park(t);
  sim_tid = id;
  t->ret = t->fn(t->arg);
  run_dtors(t);
  /* finish */
  t->lstep++; gstep++;
  hmix(&thash, (uint64_t)id << 8 | C_THREAD);
  hmix(&ihash, (uint64_t)id << 8 | C_THREAD);
  t->state = ST_DONE; live--;
  for (int i = 0; i < nT; i++)
    if (T[i].state == ST_JOIN && (T[i].join_target == id || (T[i].join_target == -2 && live == 1))) T[i].state = ST_RUN;
  prio_dirty = 1;
  int to = pick_blocked();
  sim_tid = -1;
  give(to, 0);
  return t->ret;
}

static uint64_t nspawn;
static int maxlive;
int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  resolve();
  if (sim_tid < 0) return real_pthread_create(th, attr, fn, arg);
  int64_t a;
  sync_point(C_THREAD);
  if (fault_hit(F_SPAWN, &a)) return (int)a;
  if (nT >= MAXT) harness_bug("simrt: too many threads");
  int id = nT;
  SimThread *t = &T[id];
  Dev *dv = t->dv; uint32_t ndv = t->ndv; /* recorded decisions of this slot */
  memset(t, 0, sizeof *t);
  t->dv = dv; t->ndv = ndv;
  t->fn = fn; t->arg = arg; t->owner = curT->owner;
  t->prio = 1000 + (plan.replay ? 0 : (int)rng_below(&rs, 1000));
  int r = real_pthread_create(&t->pt, attr, tramp, t);
  if (r) harness_bug("simrt: real pthread_create failed");
  *th = t->pt;
  nspawn++;
  nT++; live++;
  if (live > maxlive) maxlive = live;
  mem_next(t);
  t->state = ST_RUN; prio_dirty = 1;
  sync_point(C_THREAD);
  return 0;
}
int pthread_join(pthread_t th, void **ret) {
  resolve();
  if (sim_tid < 0) return real_pthread_join(th, ret);
  int id = -1;
  for (int i = nT - 1; i > 0; i--) if (!T[i].joined && T[i].pt == th) { id = i; break; }
  if (id < 0) return real_pthread_join(th, ret);
  sync_point(C_THREAD);
  while (T[id].state != ST_DONE) { curT->state = ST_JOIN; curT->join_target = id; block(); }
  T[id].joined = 1;
  return real_pthread_join(th, ret);
}
int pthread_detach(pthread_t th) {
  resolve();
  if (sim_tid >= 0) {
    for (int i = nT - 1; i > 0; i--) if (!T[i].joined && T[i].pt == th) { T[i].joined = 1; T[i].detached = 1; break; }
    sync_point(C_THREAD);
  }
  return real_pthread_detach(th);
}
int sched_yield(void) {
  if (sim_tid < 0) return (int)ret_errno(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
  sync_point(C_YIELD);
  int list[MAXT], n = runnable(list, cur);
  if (n && !no_preempt) {
    int to = list[0];
    for (int i = 0; i < n; i++) if (list[i] > cur) { to = list[i]; break; }
    if (plan.policy == 1) T[cur].prio -= 1000;
    give(to, 1);
  }
  return 0;
}
int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) {
  if (sim_tid < 0) return (int)ret_errno(raw6(SYS_sched_getaffinity, pid, n, (long)set, 0, 0, 0)) < 0 ? -1 : 0;
  /* machines of 1 to 9 processors */
  memset(set, 0, n); for (int i = 0; i < 1 + (int)(plan.seed % 9); i++) CPU_SET(i, set);
  return 0;
}
static void stall_ns(uint64_t ns) {
  SimThread *t = curT;
  t->state = ST_STALL; t->timed = 1; t->wake_at = simtime + ns; ntimed++;
  block();
}
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (sim_tid < 0) return (int)ret_errno(raw6(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0));
  stall_ns((uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  if (sim_tid < 0) { long r = raw6(SYS_clock_nanosleep, c, fl, (long)a, (long)b, 0, 0); return r < 0 ? (int)-r : 0; }
  uint64_t ns = (uint64_t)a->tv_sec * 1000000000ull + a->tv_nsec;
  if (fl & 1) { uint64_t now = clock_base + simtime; ns = ns > now ? ns - now : 0; }
  stall_ns(ns);
  return 0;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  if (sim_tid < 0) return (int)ret_errno(raw6(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0));
  sync_point(C_IO);
  uint64_t ns = clock_base + simtime;
  if (plan.skew && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
    /* somebody sets the clock: up to an hour forward or back */
    static uint64_t off, n;
    uint64_t q = (plan.skew + ++n) * 0x9e3779b97f4a7c15ull; q ^= q >> 29; q *= 0xbf58476d1ce4e5b9ull; q ^= q >> 32;
    if ((q & 3) == 0) { off = (q >> 8) % 7200000000000ull; ffired[F_CLOCK_JUMP]++; }
    ns += 400000000000000ull + off;
  }
  /* clocks that move on only every so often */
  static const uint64_t grain[8] = { 1, 1, 1, 100, 1000, 1000000, 15625000, 1000000000 };
  uint64_t g = c == CLOCK_REALTIME || c == CLOCK_MONOTONIC ? grain[(plan.skew >> 33) & 7] : 1;
  if (g > 1000 * (plan.tick ? plan.tick : 1)) g = 1000 * (plan.tick ? plan.tick : 1); /* who waits for it to move gets there */
  ns -= ns % g;
  t->tv_sec = ns / 1000000000ull; t->tv_nsec = ns % 1000000000ull;
  return 0;
}
void abort(void) {
  resolve();
  if (sim_tid >= 0) fatal(K_ABORT);
  real_abort();
}

/* ------------------------------------------------------------------ vfs */
typedef struct { int type; uint64_t off, len; unsigned char *data; } Pend; /* type 0 write, 1 truncate to len */
typedef struct {
  int used, links; unsigned char *d; uint64_t n, cap;
  unsigned char *dur; uint64_t ndur; Pend *p; int np, cp;
  int mutated, dir;
  int lk_n, lk_x; /* flock: shared holders, exclusive holder */
} Ino;
typedef struct { char path[512]; int ino; } Ent;
typedef struct { int used, ino, flags, random, desc; char *dpath; } Vfd;
typedef struct { int refs, lock; uint64_t off; } Desc; /* what duplicates of a descriptor share */
#define NINO 1024
#define NENT 1024
#define NVFD 256
#define FDBASE (1 << 20)
static Ino I[NINO]; static Ent E[NENT]; static int nE; static Vfd V[NVFD]; static Desc D[NVFD];
static char cwd[512];
static uint64_t vfs_bytes_written;
static unsigned char *errbuf; static uint64_t errn; static int errlost;
#define ERRCAP (1 << 25)

#include <dirent.h>
#include <sys/file.h>
static int is_vfd(int fd) { return fd >= FDBASE && fd < FDBASE + NVFD && V[fd - FDBASE].used; }
/* the name of a file as it stands in the table: relative to the (only) working directory, no trailing slash */
static const char *norm(const char *p) {
  static char b[2][512]; static int w;
  size_t c = strlen(cwd);
  if (*p == '/' && c > 1 && !strncmp(p, cwd, c) && (!p[c] || p[c] == '/')) { p += c; while (*p == '/') p++; if (!*p) return "."; }
  while (p[0] == '.' && p[1] == '/') { p += 2; while (*p == '/') p++; }
  size_t n = strlen(p);
  if (n > 1 && p[n - 1] == '/' && n < 500) { char *o = b[w ^= 1]; memcpy(o, p, n); while (n > 1 && o[n - 1] == '/') n--; o[n] = 0; return o; }
  return p;
}
static int is_here(const char *p) { p = norm(p); return !*p || !strcmp(p, "."); }
static int ent_find(const char *p) {
  p = norm(p);
  for (int i = 0; i < nE; i++) if (E[i].ino >= 0 && !strcmp(E[i].path, p)) return i;
  return -1;
}
static int passthru(const char *p) {
  return !strncmp(p, "/dev/", 5) || !strncmp(p, "/proc/", 6) || !strncmp(p, "/sys/", 5) || !strncmp(p, "/etc/", 5) || !strncmp(p, "/lib", 4) || !strncmp(p, "/usr/", 5);
}
static int ino_new(void) {
  for (int i = 0; i < NINO; i++) if (!I[i].used) { memset(&I[i], 0, sizeof I[i]); I[i].used = 1; return i; }
  harness_bug("simrt: out of inodes"); return -1;
}
/* does the directory a file is to lie in exist? */
static int parent_ok(const char *p) {
  p = norm(p);
  const char *q = strrchr(p, '/');
  if (*p == '/' || !q) return 1;
  char b[512]; if (q - p >= 500) return 0;
  memcpy(b, p, q - p); b[q - p] = 0;
  int e = ent_find(b);
  return e >= 0 && I[E[e].ino].dir;
}
static int ent_new(const char *p, int ino) {
  p = norm(p);
  if (strlen(p) >= sizeof E[0].path) return -1;
  for (int i = 0; i < nE; i++) if (E[i].ino < 0) { strcpy(E[i].path, p); E[i].ino = ino; return i; }
  if (nE >= NENT) harness_bug("simrt: out of directory entries");
  strcpy(E[nE].path, p); E[nE].ino = ino;
  return nE++;
}
static void ino_reserve(Ino *f, uint64_t n) {
  if (n <= f->cap) return;
  uint64_t c = f->cap ? f->cap : 4096;
  while (c < n) c *= 2;
  f->d = realloc(f->d, c);
  memset(f->d + f->cap, 0, c - f->cap);
  f->cap = c;
}
static void pend_add(Ino *f, int type, uint64_t off, const void *data, uint64_t len) {
  if (f->np == f->cp) { f->cp = f->cp ? f->cp * 2 : 16; f->p = realloc(f->p, f->cp * sizeof(Pend)); }
  Pend *p = &f->p[f->np++];
  p->type = type; p->off = off; p->len = len; p->data = 0;
  if (type == 0) { p->data = malloc(len ? len : 1); memcpy(p->data, data, len); }
  f->mutated++;
}
static void raw_write(unsigned char **d, uint64_t *n, uint64_t off, const void *data, uint64_t len) {
  if (off + len > *n) { *d = realloc(*d, off + len + 1); if (off > *n) memset(*d + *n, 0, off - *n); *n = off + len; }
  memcpy(*d + off, data, len);
}
static void ino_trunc(Ino *f, uint64_t n) {
  if (n == f->n) return;
  ino_reserve(f, n);
  if (n > f->n) memset(f->d + f->n, 0, n - f->n); else memset(f->d + n, 0, f->n - n);
  f->n = n;
  pend_add(f, 1, 0, 0, n);
}
static void ino_sync(Ino *f) {
  free(f->dur); f->dur = malloc(f->n + 1); if (f->n) memcpy(f->dur, f->d, f->n); f->ndur = f->n;
  for (int i = 0; i < f->np; i++) free(f->p[i].data);
  f->np = 0;
}

/* a file-system operation is about to take effect: the process may die here */
static void slow_io(void) {
  int64_t a;
  if (!nfaults || no_preempt || !fault_hit(F_SLOW_IO, &a)) return;
  if (a > 0) { stall_ns((uint64_t)a); return; }
  curT->state = ST_QSTALL; /* until nothing else can run */
  block();
}
static void io_point(void) {
  sync_point(C_IO);
  slow_io();
  if (fault_hit(F_CRASH, 0)) fatal(K_CRASH);
}
/* of: a descriptor it shares its position with, or -1 */
static int vfd_new(int ino, int flags, const char *dpath, int of) {
  for (int i = 0; i < NVFD; i++) if (!V[i].used) {
    memset(&V[i], 0, sizeof V[i]);
    V[i].used = 1; V[i].ino = ino; V[i].flags = flags; V[i].dpath = dpath ? strdup(dpath) : 0;
    int d = of >= 0 ? V[of].desc : 0;
    if (of < 0) { while (D[d].refs) d++; D[d].off = 0; D[d].lock = 0; } else V[i].random = V[of].random;
    V[i].desc = d; D[d].refs++;
    return FDBASE + i;
  }
  errno = EMFILE; return -1;
}
static int vfs_open(const char *path, int flags) {
  int64_t a;
  io_point();
  if (fault_hit(F_OPEN_EINTR, &a)) { errno = EINTR; return -1; }
  if (fault_hit(F_OPEN_ERR, &a)) { errno = (int)a; return -1; }
  int e = ent_find(path), ino;
  if (is_here(path) || e >= 0 && I[E[e].ino].dir) {
    if ((flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    return vfd_new(e < 0 ? -1 : E[e].ino, flags, e < 0 ? "" : E[e].path, -1);
  }
  if (flags & O_DIRECTORY) { errno = e < 0 ? ENOENT : ENOTDIR; return -1; }
  if (e < 0) {
    if (!(flags & O_CREAT) || !parent_ok(path)) { errno = ENOENT; return -1; }
    ino = ino_new();
    if (ent_new(path, ino) < 0) { errno = ENAMETOOLONG; return -1; }
    I[ino].links = 1;
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    ino = E[e].ino;
  }
  if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && I[ino].n) ino_trunc(&I[ino], 0);
  int fd = vfd_new(ino, flags, 0, -1);
  if (fd >= 0) hmix(&thash, 0x0be0 + fd - FDBASE);
  return fd;
}

static long vfs_write_at(int fd, const void *buf, uint64_t n, int pos, uint64_t off) {
  int64_t a; Fault *f;
  io_point();
  Vfd *v = &V[fd - FDBASE];
  if (v->dpath || (v->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  uint64_t k = fcount[F_WRITE_ERR]; /* common write counter */
  fcount[F_WRITE_SHORT] = fcount[F_WRITE_EINTR] = fcount[F_WRITE_ZERO] = k;
  if (fault_hit(F_WRITE_ERR, &a)) { errno = (int)a; return -1; }
  if (fault_hit(F_WRITE_EINTR, &a)) { errno = EINTR; return -1; }
  if (n && fault_hit(F_WRITE_ZERO, &a)) return 0;
  if (n > 1 && fault_hit(F_WRITE_SHORT, &a)) { uint64_t m = 1 + (uint64_t)a % (n - 1); n = m; }
  if (fault_get(F_DISK_CAP, &f)) {
    uint64_t room = vfs_bytes_written >= (uint64_t)f->at ? 0 : (uint64_t)f->at - vfs_bytes_written;
    if (n > room) { ffired[F_DISK_CAP]++; if (!room) { errno = (int)f->arg; return -1; } n = room; }
  }
  Ino *in = &I[v->ino];
  if (!pos) off = (v->flags & O_APPEND) ? in->n : D[v->desc].off;
  ino_reserve(in, off + n);
  memcpy(in->d + off, buf, n);
  if (off + n > in->n) in->n = off + n;
  pend_add(in, 0, off, buf, n);
  vfs_bytes_written += n;
  if (!pos) D[v->desc].off = off + n;
  hmix(&thash, 0x3e17 ^ n << 8);
  return (long)n;
}
static long vfs_read_at(int fd, void *buf, uint64_t n, int pos, uint64_t off) {
  sync_point(C_IO);
  slow_io();
  Vfd *v = &V[fd - FDBASE];
  if (v->dpath) { errno = EISDIR; return -1; }
  if ((v->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
  if (v->random) return sim_random(buf, n);
  Ino *in = &I[v->ino];
  if (!pos) off = D[v->desc].off;
  if (off >= in->n) return 0;
  if (n > in->n - off) n = in->n - off;
  memcpy(buf, in->d + off, n);
  if (!pos) D[v->desc].off = off + n;
  return (long)n;
}
static void ino_unref(int ino) {
  if (I[ino].links > 0) return;
  for (int i = 0; i < NVFD; i++) if (V[i].used && V[i].ino == ino) return;
  free(I[ino].d); free(I[ino].dur);
  for (int i = 0; i < I[ino].np; i++) free(I[ino].p[i].data);
  free(I[ino].p);
  memset(&I[ino], 0, sizeof I[ino]);
}

static int do_open(int dfd, const char *path, int flags, int mode) {
  char full[1024];
  if (sim_tid >= 0 && is_vfd(dfd) && V[dfd - FDBASE].dpath && *path != '/') { snprintf(full, sizeof full, "%s%s%s", V[dfd - FDBASE].dpath, *V[dfd - FDBASE].dpath ? "/" : "", path); path = full; }
  if (sim_tid >= 0) {
    if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) {
      int ino = ino_new(); /* empty; reading gives seeded bytes */
      int fd = vfd_new(ino, O_RDONLY, 0, -1);
      if (fd >= 0) V[fd - FDBASE].random = 1;
      return fd;
    }
    if (!passthru(path)) return vfs_open(path, flags);
  }
  return (int)ret_errno(raw6(SYS_openat, dfd, (long)path, flags, mode, 0, 0));
}
#define OPENMODE int mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { OPENMODE return do_open(AT_FDCWD, p, flags | O_LARGEFILE, mode); }
int openat(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { OPENMODE return do_open(d, p, flags | O_LARGEFILE, mode); }

static long std_write(int fd, const void *b, uint64_t n) {
  sync_point(C_IO);
  slow_io();
  int64_t a;
  if (fd == 2 && fault_sticky(F_STDERR, &a)) { errno = (int)a; return -1; }
  if (fd == 2 && fault_hit(F_STDERR_EINTR, &a)) { errno = EINTR; return -1; }
  if (fd == 2 && n > 1 && fault_hit(F_STDERR_SHORT, &a)) n = 1 + (uint64_t)a % (n - 1);
  if (fd == 2) { if (errn + n < ERRCAP) { memcpy(errbuf + errn, b, n); errn += n; } else errlost = 1; }
  return (long)n;
}
static void await_fd(int fd, int what);
ssize_t write(int fd, const void *b, size_t n) {
  if (sim_tid >= 0) {
    if (is_vfd(fd)) return vfs_write_at(fd, b, n, 0, 0);
    if (fd == 1 || fd == 2) return std_write(fd, b, n);
    await_fd(fd, 4);
  }
  return ret_errno(raw6(SYS_write, fd, (long)b, n, 0, 0, 0));
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  if (sim_tid >= 0 && is_vfd(fd)) return vfs_write_at(fd, b, n, 1, o);
  return ret_errno(raw6(SYS_pwrite64, fd, (long)b, n, o, 0, 0));
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (sim_tid >= 0 && (is_vfd(fd) || fd == 1 || fd == 2)) {
    uint64_t tot = 0;
    for (int i = 0; i < c; i++) tot += v[i].iov_len;
    char *tmp = malloc(tot + 1); uint64_t k = 0;
    for (int i = 0; i < c; i++) { memcpy(tmp + k, v[i].iov_base, v[i].iov_len); k += v[i].iov_len; }
    long r = is_vfd(fd) ? vfs_write_at(fd, tmp, tot, 0, 0) : std_write(fd, tmp, tot);
    int e = errno; free(tmp); errno = e;
    return r;
  }
  return ret_errno(raw6(SYS_writev, fd, (long)v, c, 0, 0, 0));
}
/* pipes and the like: the others go on while this one waits */
static void await_fd(int fd, int what) {
  if (sim_tid < 0 || fd < 3) return;
  for (;;) {
    struct { int fd; short ev, rev; } p = { fd, what, 0 };
    struct timespec z = { 0, 0 };
    if (raw6(SYS_ppoll, (long)&p, 1, (long)&z, 0, 0, 0) != 0) return;
    sched_yield();
  }
}
ssize_t read(int fd, void *b, size_t n) {
  if (sim_tid >= 0 && is_vfd(fd)) return vfs_read_at(fd, b, n, 0, 0);
  await_fd(fd, 1);
  return ret_errno(raw6(SYS_read, fd, (long)b, n, 0, 0, 0));
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
  if (sim_tid >= 0 && is_vfd(fd)) return vfs_read_at(fd, b, n, 1, o);
  return ret_errno(raw6(SYS_pread64, fd, (long)b, n, o, 0, 0));
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (sim_tid >= 0 && is_vfd(fd)) {
    long tot = 0;
    for (int i = 0; i < c; i++) {
      long r = vfs_read_at(fd, v[i].iov_base, v[i].iov_len, 0, 0);
      if (r < 0) return tot ? tot : r;
      tot += r;
      if ((size_t)r < v[i].iov_len) break;
    }
    return tot;
  }
  return ret_errno(raw6(SYS_readv, fd, (long)v, c, 0, 0, 0));
}
static void unlock(int fd) {
  Vfd *v = &V[fd - FDBASE]; Ino *f = &I[v->ino];
  if (D[v->desc].lock == 2) f->lk_x = 0; else if (D[v->desc].lock == 1) f->lk_n--;
  D[v->desc].lock = 0;
}
int flock(int fd, int op) {
  if (sim_tid < 0 || !is_vfd(fd)) return (int)ret_errno(raw6(SYS_flock, fd, op, 0, 0, 0, 0));
  io_point();
  Vfd *v = &V[fd - FDBASE];
  if (v->dpath) return 0;
  int had = D[v->desc].lock;
  unlock(fd);
  if (op & LOCK_UN) return 0;
  for (;;) {
    Ino *f = &I[v->ino];
    if (!f->lk_x && !((op & LOCK_EX) && f->lk_n)) break;
    if (op & LOCK_NB) { (void)had; errno = EWOULDBLOCK; return -1; }
    sched_yield();
  }
  if (op & LOCK_EX) { I[v->ino].lk_x = v->desc + 1; D[v->desc].lock = 2; } else { I[v->ino].lk_n++; D[v->desc].lock = 1; }
  return 0;
}
int close(int fd) {
  if (sim_tid >= 0 && is_vfd(fd)) {
    io_point();
    Vfd *v = &V[fd - FDBASE];
    if (v->dpath) { free(v->dpath); v->dpath = 0; v->used = 0; D[v->desc].refs--; return 0; }
    if (!--D[v->desc].refs) unlock(fd);
    v->used = 0; ino_unref(v->ino);
    return 0;
  }
  return (int)ret_errno(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
}
off64_t lseek64(int fd, off64_t o, int wh) {
  if (sim_tid >= 0 && is_vfd(fd)) {
    Vfd *v = &V[fd - FDBASE];
    if (v->dpath) { errno = EINVAL; return -1; }
    int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)D[v->desc].off : (int64_t)I[v->ino].n;
    if (b + o < 0) { errno = EINVAL; return -1; }
    return (off64_t)(D[v->desc].off = b + o);
  }
  return ret_errno(raw6(SYS_lseek, fd, o, wh, 0, 0, 0));
}
off_t lseek(int fd, off_t o, int wh) { return lseek64(fd, o, wh); }
int ftruncate64(int fd, off64_t n) {
  if (sim_tid >= 0 && is_vfd(fd)) {
    int64_t a; io_point();
    if (fault_hit(F_SYNC_ERR, &a)) { errno = (int)a; return -1; }
    if (V[fd - FDBASE].dpath || (V[fd - FDBASE].flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; }
    ino_trunc(&I[V[fd - FDBASE].ino], n); return 0;
  }
  return (int)ret_errno(raw6(SYS_ftruncate, fd, n, 0, 0, 0, 0));
}
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
static int do_fsync(int fd, long nr) {
  if (sim_tid >= 0 && is_vfd(fd)) {
    int64_t a; io_point();
    if (fault_hit(F_SYNC_ERR, &a)) { errno = (int)a; return -1; }
    if (V[fd - FDBASE].dpath) return 0; /* entries are durable at once */
    ino_sync(&I[V[fd - FDBASE].ino]); return 0;
  }
  return (int)ret_errno(raw6(nr, fd, 0, 0, 0, 0, 0));
}
int fsync(int fd) { return do_fsync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_fsync(fd, SYS_fdatasync); }
int rename(const char *a, const char *b) {
  if (sim_tid >= 0) {
    int64_t x; io_point();
    if (fault_hit(F_RENAME_ERR, &x)) { errno = (int)x; return -1; }
    int e = ent_find(a);
    if (e < 0) { errno = ENOENT; return -1; }
    int t = ent_find(b);
    if (t == e) return 0;
    if (!parent_ok(b)) { errno = ENOENT; return -1; }
    if (I[E[e].ino].dir || t >= 0 && I[E[t].ino].dir) { errno = I[E[e].ino].dir ? ENOTDIR : EISDIR; return -1; }
    if (t >= 0) { int o = E[t].ino; E[t].ino = -1; I[o].links--; ino_unref(o); }
    int ino = E[e].ino; E[e].ino = -1; ent_new(b, ino);
    I[ino].mutated++;
    return 0;
  }
  return (int)ret_errno(raw6(SYS_rename, (long)a, (long)b, 0, 0, 0, 0));
}
int unlink(const char *a) {
  if (sim_tid >= 0) {
    io_point();
    int e = ent_find(a);
    if (e < 0) { errno = ENOENT; return -1; }
    if (I[E[e].ino].dir) { errno = EISDIR; return -1; }
    int o = E[e].ino; E[e].ino = -1; I[o].links--; ino_unref(o);
    return 0;
  }
  return (int)ret_errno(raw6(SYS_unlink, (long)a, 0, 0, 0, 0, 0));
}
int access(const char *a, int m) {
  if (sim_tid >= 0 && !passthru(a)) { if (ent_find(a) >= 0 || is_here(a)) return 0; errno = ENOENT; return -1; }
  return (int)ret_errno(raw6(SYS_access, (long)a, m, 0, 0, 0, 0));
}
static void fill_stat(struct stat *st, int ino) {
  memset(st, 0, sizeof *st);
  int d = ino < 0 || I[ino].dir;
  st->st_mode = d ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_nlink = ino < 0 ? 1 : I[ino].links; st->st_size = d ? 4096 : I[ino].n; st->st_ino = ino + 10; st->st_blksize = 4096;
}
/* inode of a path: -1 working directory, -2 none */
static int path_ino(const char *p) { int e = ent_find(p); return e >= 0 ? E[e].ino : is_here(p) ? -1 : -2; }
static const char *at(int d, const char *p, char *full) {
  if (!is_vfd(d) || !V[d - FDBASE].dpath || *p == '/') return p;
  snprintf(full, 1024, "%s%s%s", V[d - FDBASE].dpath, *V[d - FDBASE].dpath ? "/" : "", p);
  return full;
}
char *realpath(const char *p, char *out) {
  if (sim_tid < 0 || passthru(p)) return ((char *(*)(const char *, char *))dlsym(RTLD_NEXT, "realpath"))(p, out);
  sync_point(C_IO);
  int i = path_ino(p);
  if (i == -2) { errno = ENOENT; return 0; }
  if (!out) out = malloc(4096);
  const char *q = norm(p);
  if (i == -1) strcpy(out, cwd); else if (*q == '/') strcpy(out, q); else snprintf(out, 4096, "%s/%s", cwd, q);
  return out;
}
char *__realpath_chk(const char *p, char *out, size_t n) { return realpath(p, out); }
int fstat(int fd, struct stat *st) {
  if (sim_tid >= 0 && is_vfd(fd)) { fill_stat(st, V[fd - FDBASE].ino); return 0; }
  return (int)ret_errno(raw6(SYS_fstat, fd, (long)st, 0, 0, 0, 0));
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int stat(const char *p, struct stat *st) {
  if (sim_tid >= 0 && !passthru(p)) { int i = path_ino(p); if (i == -2) { errno = ENOENT; return -1; } fill_stat(st, i); return 0; }
  return (int)ret_errno(raw6(SYS_stat, (long)p, (long)st, 0, 0, 0, 0));
}
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) { if (sim_tid >= 0) return stat(p, st); return (int)ret_errno(raw6(SYS_lstat, (long)p, (long)st, 0, 0, 0, 0)); }
int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
int fstatat(int d, const char *p, struct stat *st, int fl) {
  char full[1024];
  if (sim_tid >= 0) { if (is_vfd(d) && !*p) return fstat(d, st); return stat(at(d, p, full), st); }
  return (int)ret_errno(raw6(SYS_newfstatat, d, (long)p, (long)st, fl, 0, 0));
}
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return fstatat(d, p, (struct stat *)st, fl); }
int statx(int d, const char *p, int fl, unsigned m, struct statx_in_header *st) {
  char full[1024];
  if (sim_tid >= 0) {
    int ino = -2;
    if (is_vfd(d) && (!p || !*p)) ino = V[d - FDBASE].ino;
    else if (p && *p && !passthru(p)) { ino = path_ino(at(d, p, full)); if (ino == -2) { errno = ENOENT; return -1; } }
    if (ino != -2) {
      struct stat s; fill_stat(&s, ino);
      memset(st, 0, sizeof *st);
      st->stx_mask = STATX_BASIC_STATS; st->stx_mode = s.st_mode; st->stx_nlink = s.st_nlink; st->stx_size = s.st_size; st->stx_ino = s.st_ino; st->stx_blksize = 4096;
      return 0;
    }
  }
  return (int)ret_errno(raw6(SYS_statx, d, (long)p, fl, m, (long)st, 0));
}
/* files in the working directory or below, one level */
typedef struct { uint32_t magic; int fd; int i; char dir[512]; struct dirent64 de; } SimDir;
#define DIRMAGIC 0x51d1d1e5
static SimDir *simdir(void *d) { return d && ((SimDir *)d)->magic == DIRMAGIC ? d : 0; }
DIR *fdopendir(int fd) {
  if (sim_tid < 0) return ((DIR *(*)(int))dlsym(RTLD_NEXT, "fdopendir"))(fd);
  if (!is_vfd(fd) || !V[fd - FDBASE].dpath) { errno = ENOTDIR; return 0; }
  SimDir *d = calloc(1, sizeof *d); d->magic = DIRMAGIC; d->fd = fd; d->i = -2; strcpy(d->dir, V[fd - FDBASE].dpath);
  return (DIR *)d;
}
DIR *opendir(const char *p) {
  if (sim_tid < 0) return ((DIR *(*)(const char *))dlsym(RTLD_NEXT, "opendir"))(p);
  int fd = vfs_open(p, O_RDONLY | O_DIRECTORY);
  return fd < 0 ? 0 : fdopendir(fd);
}
struct dirent64 *readdir64(DIR *dd) {
  SimDir *d = simdir(dd);
  if (!d) return ((struct dirent64 *(*)(DIR *))dlsym(RTLD_NEXT, "readdir64"))(dd);
  sync_point(C_IO);
  size_t n = strlen(d->dir);
  for (;;) {
    int i = d->i++;
    const char *name = 0; int dir = 1;
    if (i == -2) name = "."; else if (i == -1) name = "..";
    else if (i >= nE) { d->i--; return 0; }
    else if (E[i].ino >= 0) {
      const char *p = E[i].path;
      if (n && (strncmp(p, d->dir, n) || p[n] != '/')) continue;
      if (n) p += n + 1;
      if (!*p || strchr(p, '/')) continue;
      name = p; dir = I[E[i].ino].dir;
    } else continue;
    memset(&d->de, 0, sizeof d->de);
    d->de.d_ino = i + 100; d->de.d_off = i; d->de.d_type = dir ? DT_DIR : DT_REG; d->de.d_reclen = sizeof d->de;
    snprintf(d->de.d_name, sizeof d->de.d_name, "%s", name);
    return &d->de;
  }
}
struct dirent *readdir(DIR *d) { return (struct dirent *)readdir64(d); }
int dirfd(DIR *dd) { SimDir *d = simdir(dd); if (d) return d->fd; return ((int (*)(DIR *))dlsym(RTLD_NEXT, "dirfd"))(dd); }
int closedir(DIR *dd) { SimDir *d = simdir(dd); if (!d) return ((int (*)(DIR *))dlsym(RTLD_NEXT, "closedir"))(dd); close(d->fd); free(d); return 0; }

int unlinkat(int f, const char *p, int fl) {
  char full[1024];
  if (sim_tid >= 0) { p = at(f, p, full); return fl & AT_REMOVEDIR ? rmdir(p) : unlink(p); }
  return (int)ret_errno(raw6(SYS_unlinkat, f, (long)p, fl, 0, 0, 0));
}
int link(const char *a, const char *b) {
  if (sim_tid < 0) return (int)ret_errno(raw6(SYS_link, (long)a, (long)b, 0, 0, 0, 0));
  io_point();
  int e = ent_find(a);
  if (e < 0 || !parent_ok(b)) { errno = ENOENT; return -1; }
  if (I[E[e].ino].dir) { errno = EPERM; return -1; }
  if (ent_find(b) >= 0) { errno = EEXIST; return -1; }
  ent_new(b, E[e].ino); I[E[e].ino].links++;
  return 0;
}
int linkat(int d, const char *a, int e, const char *b, int fl) {
  char f1[1024], f2[1024];
  if (sim_tid >= 0) return link(at(d, a, f1), at(e, b, f2));
  return (int)ret_errno(raw6(SYS_linkat, d, (long)a, e, (long)b, fl, 0));
}
int renameat(int d, const char *a, int e, const char *b) {
  char f1[1024], f2[1024];
  if (sim_tid >= 0) return rename(at(d, a, f1), at(e, b, f2));
  return (int)ret_errno(raw6(SYS_renameat, d, (long)a, e, (long)b, 0, 0));
}
int symlink(const char *a, const char *b) {
  if (sim_tid >= 0) { errno = EPERM; return -1; } /* as on file systems without them */
  return (int)ret_errno(raw6(SYS_symlink, (long)a, (long)b, 0, 0, 0, 0));
}
int truncate64(const char *p, off64_t n) {
  if (sim_tid < 0) return (int)ret_errno(raw6(SYS_truncate, (long)p, n, 0, 0, 0, 0));
  int64_t a; io_point();
  if (fault_hit(F_SYNC_ERR, &a)) { errno = (int)a; return -1; }
  int e = ent_find(p);
  if (e < 0) { errno = ENOENT; return -1; }
  ino_trunc(&I[E[e].ino], n);
  return 0;
}
int truncate(const char *p, off_t n) { return truncate64(p, n); }
/* in-kernel copying is not available: callers fall back on reading and writing */
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned fl) {
  if (sim_tid >= 0 && (is_vfd(a) || is_vfd(b))) { errno = ENOSYS; return -1; }
  return ret_errno(raw6(SYS_copy_file_range, a, (long)x, b, (long)y, n, fl));
}
ssize_t sendfile64(int o, int i, off64_t *x, size_t n) {
  if (sim_tid >= 0 && (is_vfd(i) || is_vfd(o))) { errno = ENOSYS; return -1; }
  return ret_errno(raw6(SYS_sendfile, o, i, (long)x, n, 0, 0));
}
ssize_t sendfile(int o, int i, off_t *x, size_t n) { return sendfile64(o, i, x, n); }
ssize_t splice(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned fl) {
  if (sim_tid >= 0) { errno = EINVAL; return -1; }
  return ret_errno(raw6(SYS_splice, a, (long)x, b, (long)y, n, fl));
}
int fallocate64(int fd, int mode, off64_t o, off64_t n) { if (sim_tid >= 0 && is_vfd(fd)) { errno = EOPNOTSUPP; return -1; } return (int)ret_errno(raw6(SYS_fallocate, fd, mode, o, n, 0, 0)); }
int posix_fallocate64(int fd, off64_t o, off64_t n) {
  if (sim_tid < 0 || !is_vfd(fd)) return EBADF;
  io_point();
  Ino *f = &I[V[fd - FDBASE].ino];
  if (o + n > f->n) ino_trunc(f, o + n);
  return 0;
}
int posix_fallocate(int fd, off_t o, off_t n) { return posix_fallocate64(fd, o, n); }
int fchmod(int fd, mode_t m) { if (sim_tid >= 0 && is_vfd(fd)) return 0; return (int)ret_errno(raw6(SYS_fchmod, fd, m, 0, 0, 0, 0)); }
int fchmodat(int d, const char *p, mode_t m, int fl) { if (sim_tid >= 0) return 0; return (int)ret_errno(raw6(SYS_fchmodat, d, (long)p, m, fl, 0, 0)); }
int futimens(int fd, const struct timespec *t) { if (sim_tid >= 0 && is_vfd(fd)) return 0; return (int)ret_errno(raw6(SYS_utimensat, fd, 0, (long)t, 0, 0, 0)); }
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (sim_tid >= 0 && is_vfd(fd)) {
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
      return vfd_new(V[fd - FDBASE].ino, V[fd - FDBASE].flags, V[fd - FDBASE].dpath, fd - FDBASE);
    }
    return 0;
  }
  return (int)ret_errno(raw6(SYS_fcntl, fd, cmd, a, 0, 0, 0));
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  return fcntl(fd, cmd, a);
}
int mkdir(const char *p, mode_t m) {
  if (sim_tid >= 0) {
    io_point();
    if (ent_find(p) >= 0 || is_here(p)) { errno = EEXIST; return -1; }
    if (!parent_ok(p)) { errno = ENOENT; return -1; }
    int ino = ino_new();
    I[ino].dir = 1; I[ino].links = 1;
    ent_new(p, ino);
    return 0;
  }
  return (int)ret_errno(raw6(SYS_mkdir, (long)p, m, 0, 0, 0, 0));
}
int rmdir(const char *p) {
  if (sim_tid >= 0) {
    io_point();
    int e = ent_find(p);
    if (e < 0) { errno = ENOENT; return -1; }
    if (!I[E[e].ino].dir) { errno = ENOTDIR; return -1; }
    size_t n = strlen(E[e].path);
    for (int i = 0; i < nE; i++) if (E[i].ino >= 0 && !strncmp(E[i].path, E[e].path, n) && E[i].path[n] == '/') { errno = ENOTEMPTY; return -1; }
    memset(&I[E[e].ino], 0, sizeof(Ino)); E[e].ino = -1;
    return 0;
  }
  return (int)ret_errno(raw6(SYS_rmdir, (long)p, 0, 0, 0, 0, 0));
}
int chmod(const char *p, mode_t m) {
  if (sim_tid >= 0) { (void)p; (void)m; return 0; }
  return (int)ret_errno(raw6(SYS_chmod, (long)p, m, 0, 0, 0, 0));
}

/* --------------------------------------------------- harness interface */
void simrt_prepare(const SimPlan *p, const Dev *rd, uint32_t nrd, void (*fatal_cb)(int)) {
  if (raw6(SYS_getcwd, (long)cwd, sizeof cwd, 0, 0, 0, 0) <= 0) strcpy(cwd, "/");
  resolve();
  plan = *p;
  const char *tf = getenv("SIM_TRACE");
  if (tf) trace_fd = (int)raw6(SYS_openat, AT_FDCWD, (long)tf, O_WRONLY | O_CREAT | O_TRUNC, 0600, 0, 0);
  if (!plan.fair_slice) plan.fair_slice = 2000000;
  if (!plan.pct_mean) plan.pct_mean = 5000;
  if (!plan.tick) plan.tick = 1;
  rs.s = p->seed * 0x2545F4914F6CDD1Dull + 1; re.s = p->seed ^ 0xabcdef0123456789ull;
  on_fatal = fatal_cb;
  if (!arena) {
    arena = mmap((void *)0x200000000000ull, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (arena == MAP_FAILED) { arena = 0; harness_bug("simrt: no arena"); }
  }
  devs = mmap(0, MAXDEV * sizeof(Dev), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  errbuf = malloc(ERRCAP);
  nrdevs = nrd;
  if (nrd) {
    rdevs = malloc(nrd * sizeof(Dev));
    uint32_t k = 0;
    for (uint32_t t = 0; t < MAXT; t++) {
      uint32_t k0 = k;
      for (uint32_t i = 0; i < nrd; i++) if (rd[i].tid == t) rdevs[k++] = rd[i];
      T[t].dv = rdevs + k0; T[t].ndv = k - k0;
    }
  }
}
void simrt_fault(uint32_t kind, uint64_t at, int64_t arg) {
  if (nfaults < MAXF) { faults[nfaults].kind = kind; faults[nfaults].at = at; faults[nfaults].arg = arg; faults[nfaults].armed = 1; nfaults++; }
}
void simrt_faults_clear(void) { nfaults = 0; memset(fcount, 0, sizeof fcount); vfs_bytes_written = 0; }
uint64_t simrt_fired(uint32_t kind) { return kind < NFAULT ? ffired[kind] : 0; }
uint64_t simrt_ops(uint32_t kind) { return kind < NFAULT ? fcount[kind] : 0; }

void simrt_begin(void) {
  SimThread *t = &T[0];
  t->state = ST_RUN; t->pt = pthread_self(); t->prio = 1000;
  nT = 1; live = 1; maxlive = 1; cur = 0; curT = t;
  gstep = 0; slice_start = 0; simtime = 0;
  pct_next = 1 + rng_below(&rs, 2ull * plan.pct_mean);
  set_limit(); mem_next(t);
  sim_tid = 0;
}
/* wait until every other simulated thread has finished */
void simrt_drain(void) {
  if (sim_tid != 0) harness_bug("simrt: drain from a worker");
  while (live > 1) { curT->state = ST_JOIN; curT->join_target = -2; block(); }
}
void simrt_end(void) { sim_tid = -1; }

int simrt_tid(void) { return sim_tid; }
uint64_t simrt_now(void) { return gstep; }
int simrt_live(void) { return live; }
uint64_t simrt_stat(int k) {
  switch (k) {
    case 0: return gstep; case 1: return nswitch; case 2: return nsync; case 3: return npreempt; case 4: return thash;
    case 5: return ihash; case 6: return nspawn; case 7: return nalloc; case 8: return simtime; case 9: return nconf;
    case 10: return nquiesce; case 11: return maxlive; case 12: return devs_lost; case 13: return arena_top;
    case 14: return live_bytes; case 15: return live_blocks; case 17: return live;
    case 18: return peak_bytes; case 19: return errn; case 20: return errlost;
    case 16: { int n = 0; for (int i = 0; i < NVFD; i++) n += V[i].used; return n; }
  }
  return 0;
}
void simrt_own(int o) { if (sim_tid >= 0) curT->owner = o; }
int simrt_owner(void) { return sim_tid >= 0 ? curT->owner : 0; }
void simrt_peak_reset(void) { peak_bytes = live_bytes; }
void simrt_point(void) { if (sim_tid >= 0) sync_point(C_USER); }
void simrt_mix(uint64_t v) { if (sim_tid >= 0) hmix(&thash, v); }
void simrt_stall(uint64_t ns) { if (sim_tid >= 0) { ffired[F_STALL]++; stall_ns(ns); } }
void simrt_stall_quiesce(void) {
  if (sim_tid < 0) return;
  ffired[F_STALL]++;
  curT->state = ST_QSTALL;
  block();
}
void simrt_on_quiesce(void (*f)(void)) { on_quiesce = f; }
void simrt_no_preempt(int d) { no_preempt += d; }
/* run harness code invisibly (no scheduling points): returns previous state */
int simrt_mask(void) { int s = sim_tid; sim_tid = -1; return s; }
void simrt_unmask(int s) { sim_tid = s; }
uint32_t simrt_devs(const Dev **p) { *p = devs; return ndevs; }

/* directories have names that end in a slash */
void simrt_vfs_put(const char *path, const unsigned char *d, uint64_t n) {
  if (*path && path[strlen(path) - 1] == '/') { if (ent_find(path) < 0) { int k = ino_new(); I[k].dir = 1; I[k].links = 1; ent_new(path, k); } return; }
  int e = ent_find(path), ino;
  if (e >= 0) ino = E[e].ino; else { ino = ino_new(); ent_new(path, ino); I[ino].links = 1; }
  I[ino].n = 0; ino_reserve(&I[ino], n); if (n) memcpy(I[ino].d, d, n); I[ino].n = n;
  ino_sync(&I[ino]); I[ino].mutated = 0;
}
int64_t simrt_vfs_get(const char *path, const unsigned char **d) {
  int e = ent_find(path);
  if (e < 0) return -1;
  *d = I[E[e].ino].d;
  return (int64_t)I[E[e].ino].n;
}
int simrt_vfs_mutated(const char *path) { int e = ent_find(path); return e < 0 ? 0 : I[E[e].ino].mutated; }
int simrt_vfs_count(void) { int n = 0; for (int i = 0; i < nE; i++) if (E[i].ino >= 0) n++; return n; }
const char *simrt_vfs_name(int k) {
  static char b[520];
  for (int i = 0; i < nE; i++) if (E[i].ino >= 0 && !k--) { snprintf(b, sizeof b, "%s%s", E[i].path, I[E[i].ino].dir ? "/" : ""); return b; }
  return 0;
}
/* what a crash right now would leave of the file: durable image plus an arbitrary part of what was in flight */
int64_t simrt_vfs_crash_image(const char *path, unsigned char **out) {
  int e = ent_find(path);
  if (e < 0) return -1;
  Ino *f = &I[E[e].ino];
  unsigned char *d = malloc(f->ndur + 1); uint64_t n = f->ndur;
  if (n) memcpy(d, f->dur, n);
  int mode = (int)rng_below(&re, 3); /* 0 prefix, 1 arbitrary subset, 2 everything */
  uint64_t cut = rng_below(&re, f->np + 1);
  for (int i = 0; i < f->np; i++) {
    Pend *p = &f->p[i];
    uint64_t len = p->len;
    if (mode == 0) { if ((uint64_t)i > cut) break; if ((uint64_t)i == cut && p->type == 0) len = rng_below(&re, len + 1); }
    if (mode == 1) { if (rng_next(&re) & 1) continue; if (p->type == 0 && (rng_next(&re) & 3) == 0) len = rng_below(&re, len + 1); }
    if (p->type == 1) { if (len > n) { d = realloc(d, len + 1); memset(d + n, 0, len - n); } n = len; }
    else raw_write(&d, &n, p->off, p->data, len);
  }
  *out = d;
  return (int64_t)n;
}
uint64_t simrt_stderr(const unsigned char **p) { *p = errbuf; return errn; }
