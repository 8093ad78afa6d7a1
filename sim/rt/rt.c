// Deterministic simulation runtime.
//
// Owns every source of nondeterminism of the simulated process: which thread
// runs (one token, handed over at intercepted points), futex blocking, clocks,
// OS entropy, allocation failures. Instrumented code calls the __tsan_* entry
// points below (ThreadSanitizer's ABI, our implementation); libc calls are
// interposed by defining the symbols in the executable.
//
// Nothing in here reads a real clock, a real random source or an address to
// make a decision: a run is a function of the configuration in `R`.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#define MAXT 200
#define MAXDEC 20000

enum { S_FREE, S_RUN, S_FUTEX, S_JOIN, S_SLEEP, S_MUTEX, S_COND, S_DONE };
// decision classes
enum { C_PLAIN, C_SYNC, C_FORCED, C_N };

typedef struct {
  int32_t tid, cls;
  uint64_t count;
  int32_t target, pad;
} Dec;

// statistics counters, mirrored by src/rt.rs
enum {
  K_SWITCH, K_PREEMPT_PLAIN, K_PREEMPT_SYNC, K_FORCED, K_PLAIN, K_SYNC, K_ATOMIC,
  K_FUTEX_WAIT, K_FUTEX_WAKE, K_SPURIOUS, K_YIELD, K_CLOCK, K_CLOCK_JUMP, K_SLEEP,
  K_ENT_CALLS, K_ENT_BYTES, K_ENT_EINTR, K_ENT_SHORT, K_ENT_ENOSYS, K_ENT_HARD,
  K_ENT_DEV, K_ALLOC, K_ALLOC_FAIL, K_THREADS, K_STALL, K_FAIR, K_SEAM,
  K_TIMEOUT, K_MUTEX, K_RT_LAST
};

typedef struct {
  // ---- configuration (written by the harness before rt_begin)
  uint64_t sched_seed;
  uint32_t strategy;   // 0 random walk, 1 PCT-like priorities, 2 stalled victim
  uint32_t p_sync;     // per 1000: preempt at a sync event
  uint32_t gap_plain;  // mean plain accesses between preemptions, 0 = never
  uint32_t victim;     // strategy 2: stalled thread
  uint32_t stall_len;  // sync events of others before the victim may run again
  uint32_t p_spurious; // per 1000: spurious futex wake-up
  uint32_t pad2;
  uint32_t explicit_mode;
  uint64_t clock0;     // ns
  uint64_t clock_tick; // ns per reading, 0 = frozen
  uint32_t jump_at;    // at this realtime reading...
  uint32_t pad0;
  int64_t jump_by;     // ...the wall clock jumps by this (ns)
  uint64_t entropy_seed;
  uint32_t ent_eintr;  // per 1000
  uint32_t ent_short;  // per 1000
  uint32_t ent_enosys; // 1: getrandom absent
  uint32_t ent_nodev;  // 1: /dev/urandom absent too
  uint32_t ent_hard_after; // after this many successful calls, fail hard (0 = never)
  uint32_t ent_hard_errno;
  uint64_t sync_cap;   // livelock bound on sync events
  uint32_t fake_pid;
  uint32_t ent_hard_len; // ...for this many calls, then healthy again (0 = for good)
  // ---- results
  uint64_t stats[64];
  uint64_t hash;        // event-log hash
  uint64_t sched_hash;  // interleaving hash (switch sequence only)
  uint64_t now;
  uint32_t ndec;
  uint32_t ndec_in;
  int32_t end_code;     // 0 running/ok, 1 deadlock, 2 livelock
  int32_t cur_tid;
  char end_msg[512];
  Dec dec[MAXDEC];      // decisions taken (log)
  Dec dec_in[MAXDEC];   // decisions to take (explicit mode)
} Region;

Region *R; // in memory shared with the driver

typedef struct {
  int state;
  uint32_t go;
  uint64_t cnt[C_N];
  uint64_t armed;    // plain count up to which the countdown runs
  uint64_t waits;
  void *addr;
  uint32_t bitset;
  uint64_t deadline;
  int timed, timedout, join;
  pthread_t pt;
  void *(*fn)(void *);
  void *arg;
  int prio;
  uint64_t since_switch;
} Th;

static Th T[MAXT];
static int nT, cur = -1;
static int active;
static int quiet; // no voluntary preemption
static int low_prio;
static uint64_t prng_s, ent_s, jump_cnt, ent_ok, stall_used, all_sync;
static int64_t real_off;
static pthread_key_t endkey;

static int heads[MAXT][C_N], nxt[MAXDEC];
static void index_decisions(void) {
  static int tails[MAXT][C_N];
  for (int i = 0; i < MAXT; i++)
    for (int c = 0; c < C_N; c++) heads[i][c] = tails[i][c] = -1;
  for (int i = 0; i < (int)R->ndec_in; i++) {
    Dec *d = &R->dec_in[i];
    nxt[i] = -1;
    if (d->tid < 0 || d->tid >= MAXT || d->cls < 0 || d->cls >= C_N) continue;
    if (tails[d->tid][d->cls] < 0) heads[d->tid][d->cls] = i;
    else nxt[tails[d->tid][d->cls]] = i;
    tails[d->tid][d->cls] = i;
  }
}
static __thread int me = -1;
static __thread int off;          // >0: hooks ignored
static __thread int64_t cd = INT64_MAX; // plain countdown
static __thread int in_op;        // inside a library call
static __thread int64_t alloc_fail_in; // >0: fail the n-th allocation
static __thread int64_t heap_net;
static __thread uint64_t op_allocs;

static uint64_t sm(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint64_t rnd(uint64_t n) { return n ? sm(&prng_s) % n : 0; }

static inline void mix(uint64_t *h, uint64_t v) {
  *h = (*h ^ v) * 0x100000001b3ull;
  *h ^= *h >> 29;
}
void rt_log(uint64_t v) {
  if (R) mix(&R->hash, v);
}

// ---- raw system calls (never through the interposed symbol)
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static long raw6e(long n, long a, long b, long c, long d, long e, long f) {
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
static void raw_wait(uint32_t *w) {
  while (!__atomic_exchange_n(w, 0, __ATOMIC_ACQ_REL)) raw6(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
}
static void raw_wake(uint32_t *w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

// ---- real symbols
static int (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_join)(pthread_t, void **);
static int (*r_mlock)(pthread_mutex_t *);
static int (*r_mtry)(pthread_mutex_t *);
static int (*r_munlock)(pthread_mutex_t *);

static void init_real(void) {
  if (r_create) return;
  r_join = dlsym(RTLD_NEXT, "pthread_join");
  r_mlock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
  r_mtry = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  r_munlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  r_create = dlsym(RTLD_NEXT, "pthread_create");
}
__attribute__((constructor)) static void ctor(void) { init_real(); }

// ---- scheduler
static void __attribute__((noreturn)) finish(int code, const char *msg) {
  R->end_code = code;
  snprintf(R->end_msg, sizeof R->end_msg, "%s", msg);
  raw6(SYS_exit_group, 40 + code, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}

static void describe(char *b, size_t n) {
  static const char *nm[] = {"free", "runnable", "waiting on a lock", "joining", "sleeping",
                             "waiting on a mutex", "stalled in caller code", "done"};
  size_t o = 0;
  b[0] = 0;
  for (int i = 0; i < nT && o + 40 < n; i++)
    if (T[i].state != S_DONE && T[i].state != S_FREE)
      o += snprintf(b + o, n - o, "%sthread %d %s", o ? ", " : "", i, nm[T[i].state]);
}

static void arm_plain(int t) {
  // compute the next plain preemption of thread t; `cd` belongs to the running thread
  uint64_t gap;
  if (R->explicit_mode) {
    int i = heads[t][C_PLAIN];
    while (i >= 0 && R->dec_in[i].count <= T[t].cnt[C_PLAIN]) i = nxt[i];
    heads[t][C_PLAIN] = i;
    gap = i >= 0 ? R->dec_in[i].count - T[t].cnt[C_PLAIN] : INT64_MAX / 4;
  } else if (quiet || !R->gap_plain) {
    gap = INT64_MAX / 4;
  } else {
    // geometric-ish with the configured mean, heavy tail
    uint64_t r = rnd(1u << 20);
    int k = r ? __builtin_clzll(r) - 44 : 20; // 0 with p=1/2, 1 with 1/4, ...
    gap = 1 + rnd((uint64_t)R->gap_plain) * (k + 1);
    // a run of very many preemptions goes on with fewer, so that it ends
    uint64_t n = R->stats[K_PREEMPT_PLAIN] / 60000;
    gap <<= n < 12 ? n : 12;
  }
  T[t].armed = T[t].cnt[C_PLAIN] + gap;
  cd = (int64_t)gap;
}
// bring cnt[C_PLAIN] of the running thread up to date
static void settle(int t) { T[t].cnt[C_PLAIN] = T[t].armed - (uint64_t)cd; }
static int runnable_list(int *l, int excl) {
  int n = 0;
  for (int i = 0; i < nT; i++)
    if (T[i].state == S_RUN && i != excl) l[n++] = i;
  return n;
}

static int pick(int excl) {
  int l[MAXT], n = runnable_list(l, excl);
  if (!n) return -1;
  if (R->strategy == 2 && stall_used < R->stall_len) { // hold back the stalled victim
    int m = 0;
    for (int i = 0; i < n; i++)
      if (l[i] != (int)R->victim) l[m++] = l[i];
    if (m) {
      if (m < n) R->stats[K_STALL]++;
      n = m;
    } else if (excl >= 0 && T[excl].state == S_RUN)
      return -1; // only the victim could run: stay
  }
  if (R->strategy == 1) {
    int b = l[0];
    for (int i = 1; i < n; i++)
      if (T[l[i]].prio > T[b].prio) b = l[i];
    return b;
  }
  return l[rnd(n)];
}

static int explicit_target(int t, int cls, uint64_t count) {
  int i = heads[t][cls];
  while (i >= 0 && R->dec_in[i].count < count) i = nxt[i];
  heads[t][cls] = i;
  if (i < 0 || R->dec_in[i].count != count) return -1;
  heads[t][cls] = nxt[i];
  int g = R->dec_in[i].target;
  return g >= 0 && g < nT && T[g].state == S_RUN ? g : -1;
}

static void switch_to(int t, int cls, int g) {
  R->stats[K_SWITCH]++;
  if (R->ndec < MAXDEC) R->dec[R->ndec++] = (Dec){t, cls, T[t].cnt[cls], g, 0};
  mix(&R->hash, ((uint64_t)t << 40) ^ ((uint64_t)cls << 32) ^ (uint64_t)g);
  mix(&R->hash, T[t].cnt[C_PLAIN]);
  mix(&R->hash, T[t].cnt[C_SYNC]);
  mix(&R->sched_hash, ((uint64_t)t << 8) ^ (uint64_t)g);
  mix(&R->sched_hash, T[t].cnt[cls]);
  T[t].since_switch = 0;
  cur = g;
  R->cur_tid = g;
}

static void give(int t, int cls, int g) { // t keeps running later
  switch_to(t, cls, g);
  raw_wake(&T[g].go);
  raw_wait(&T[t].go);
}

// advance simulated time to the next deadline; returns 1 if something woke
static int advance(void) {
  int b = -1;
  for (int i = 0; i < nT; i++)
    if ((T[i].state == S_FUTEX || T[i].state == S_SLEEP) && T[i].timed && (b < 0 || T[i].deadline < T[b].deadline)) b = i;
  if (b < 0) return 0;
  if (T[b].deadline > R->now) R->now = T[b].deadline;
  T[b].state = S_RUN;
  T[b].timedout = 1;
  R->stats[K_TIMEOUT]++;
  return 1;
}

// the running thread cannot continue: hand the token to somebody
static int choose_forced(int t) {
  int l[MAXT];
  for (;;) {
    if (runnable_list(l, -1)) break;
    if (!advance()) {
      char b[400], m[500];
      describe(b, sizeof b);
      snprintf(m, sizeof m, "no thread can run: %s", b);
      finish(1, m);
    }
  }
  T[t].cnt[C_FORCED]++;
  R->stats[K_FORCED]++;
  int g = -1;
  if (R->explicit_mode) g = explicit_target(t, C_FORCED, T[t].cnt[C_FORCED]);
  else g = pick(-1);
  if (g < 0) {
    runnable_list(l, -1);
    g = l[0];
  }
  return g;
}

static void block(int t) {
  settle(t);
  int g = choose_forced(t);
  if (g == t) { // woken by time
    switch_to(t, C_FORCED, t);
    return;
  }
  give(t, C_FORCED, g);
}

static void maybe_preempt(int t, int cls, int want) {
  int g = -1;
  if (R->explicit_mode) {
    g = explicit_target(t, cls, T[t].cnt[cls]);
  } else if (want) {
    if (R->strategy == 1) T[t].prio = --low_prio;
    g = pick(t);
  }
  if (g >= 0 && g != t) {
    R->stats[cls == C_PLAIN ? K_PREEMPT_PLAIN : K_PREEMPT_SYNC]++;
    give(t, cls, g);
  }
}

static void __attribute__((noinline)) plain_slow(void) {
  int t = me;
  if (!active || off || t < 0) { cd = INT64_MAX / 4; if (t >= 0) T[t].armed = T[t].cnt[C_PLAIN] + (uint64_t)cd; return; }
  settle(t);
  off++;
  maybe_preempt(t, C_PLAIN, 1);
  arm_plain(t);
  off--;
}
static inline void plain(void) {
  if (me >= 0 && __builtin_expect(--cd <= 0, 0)) plain_slow();
}

// a synchronisation event: atomics, locks, seams, allocations in library calls
static void sync_ev(int weight) {
  int t = me;
  if (t < 0 || off || !active) return;
  off++;
  int e = errno;
  settle(t);
  T[t].cnt[C_SYNC]++;
  R->stats[K_SYNC]++;
  all_sync++;
  if (R->strategy == 2 && t != (int)R->victim) stall_used++;
  T[t].since_switch++;
  int want = 0;
  if (!R->explicit_mode) {
    if (!quiet && R->p_sync && rnd(1000) < (uint64_t)R->p_sync * weight) want = 1;
    if (T[t].since_switch > 4000) { // fairness: nobody spins forever while others could run
      want = 1;
      R->stats[K_FAIR]++;
      if (R->strategy == 2) stall_used = R->stall_len;
      T[t].since_switch = 0;
    }
  } else if (T[t].since_switch > 20000) { // keep explicit replays live when shrunk
    int l[MAXT];
    if (runnable_list(l, t)) {
      T[t].since_switch = 0;
      give(t, C_SYNC, l[0]);
    }
  }
  if (R->sync_cap && all_sync > R->sync_cap) {
    char b[400], m[500];
    describe(b, sizeof b);
    snprintf(m, sizeof m, "no progress within %lu scheduling points: %s", (unsigned long)R->sync_cap, b);
    finish(2, m);
  }
  maybe_preempt(t, C_SYNC, want);
  errno = e;
  off--;
}

void rt_seam(void) {
  if (me >= 0 && active) R->stats[K_SEAM]++;
  sync_ev(2);
}

// ---- run control
static void reset_thread(int i) {
  memset(&T[i], 0, sizeof T[i]);
}

static void key_end(void *v) {
  (void)v;
  int t = me;
  if (t < 0) return;
  off = 1;
  settle(t);
  T[t].state = S_DONE;
  for (int i = 0; i < nT; i++)
    if (T[i].state == S_JOIN && T[i].join == t) T[i].state = S_RUN;
  int g = choose_forced(t);
  switch_to(t, C_FORCED, g);
  me = -1;
  raw_wake(&T[g].go);
}

static void *tramp(void *a) {
  Th *h = a;
  me = (int)(h - T);
  off = 1;
  pthread_setspecific(endkey, h);
  raw_wait(&h->go);
  arm_plain(me);
  off = 0;
  return h->fn(h->arg);
}

void rt_begin(void) {
  init_real();
  pthread_key_create(&endkey, key_end);
  memset(T, 0, sizeof T);
  nT = 1;
  cur = 0;
  prng_s = R->sched_seed;
  ent_s = R->entropy_seed;
  jump_cnt = ent_ok = stall_used = all_sync = 0;
  real_off = 0;
  low_prio = 0;
  quiet = 0;
  R->now = R->clock0;
  R->hash = 0xcbf29ce484222325ull;
  R->sched_hash = 0xcbf29ce484222325ull;
  R->ndec = 0;
  R->end_code = 0;
  memset(R->stats, 0, sizeof R->stats);
  me = 0;
  off = 0;
  T[0].state = S_RUN;
  T[0].prio = 1000;
  index_decisions();
  active = 1;
  arm_plain(0);
}

void rt_quiet(int q) {
  quiet = q;
  if (me >= 0) {
    settle(me);
    arm_plain(me);
  }
}
// stop simulating; remaining (detached, blocked) threads stay parked for good
void rt_end(void) {
  if (me >= 0) settle(me);
  for (int i = 0; i < nT; i++) R->stats[K_PLAIN] += T[i].cnt[C_PLAIN];
  active = 0;
  me = -1;
}
int rt_tid(void) { return me; }
uint64_t rt_now(void) { return R->now; }
void rt_off(int d) { off += d; }
uint64_t rt_sync_events(void) { return all_sync; }
uint64_t rt_entropy_bytes(void) { return R->stats[K_ENT_BYTES]; }
// the calling process is a new one: the kernel gives it other entropy and another id
static uint32_t born;
void rt_forked(uint32_t k) {
  ent_s = (ent_s ^ ((uint64_t)k << 32 | 0x9E37)) * 0xD6E8FEB86659FD93ull;
  born = k;
}
void rt_set_entropy(uint64_t seed) { ent_s = seed; ent_ok = 0; }

// block the calling simulated thread until somebody calls rt_release(tid)
void rt_stall(void) {
  int t = me;
  if (t < 0 || !active) return;
  off++;
  T[t].state = S_COND;
  block(t);
  off--;
}
int rt_is_stalled(int t) { return t >= 0 && t < nT && T[t].state == S_COND; }
void rt_release(int t) {
  if (t >= 0 && t < nT && T[t].state == S_COND) T[t].state = S_RUN;
}

// ---- allocation seam
typedef struct {
  int64_t in_op, fail_in, net;
  uint64_t allocs;
} OpState;
// enter a library call (or, with in_op 0, leave it for caller code); the state
// that was in force is handed back so that it can be restored
void rt_op_swap(OpState *new, OpState *old) {
  OpState n = *new;
  old->in_op = in_op;
  old->fail_in = alloc_fail_in;
  old->net = heap_net;
  old->allocs = op_allocs;
  in_op = (int)n.in_op;
  alloc_fail_in = n.fail_in;
  heap_net = n.net;
  op_allocs = n.allocs;
}
static int64_t heap_all;
void rt_heap_add(int64_t n) { heap_net += n; __atomic_fetch_add(&heap_all, n, __ATOMIC_RELAXED); }
int64_t rt_heap_all(void) { return __atomic_load_n(&heap_all, __ATOMIC_RELAXED); }
// memory accesses and synchronisation of this thread so far
uint64_t rt_work(void) {
  if (me < 0) return 0;
  settle(me);
  uint64_t w = T[me].cnt[C_PLAIN] + T[me].cnt[C_SYNC];
  T[me].armed = T[me].cnt[C_PLAIN] + (uint64_t)cd;
  return w;
}
// `unwinding`: the panic machinery allocates while a panic is raised; a second
// failure there aborts by design, so none is injected
int rt_alloc_point(uint64_t size, int unwinding) {
  if (!in_op || me < 0) return 0;
  op_allocs++;
  R->stats[K_ALLOC]++;
  sync_ev(1);
  if (alloc_fail_in > 0 && !unwinding && --alloc_fail_in == 0) {
    R->stats[K_ALLOC_FAIL]++;
    mix(&R->hash, size);
    return 1;
  }
  return 0;
}

// ---- threads
int pthread_create(pthread_t *pt, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  init_real();
  if (!active || me < 0) return r_create(pt, at, fn, arg);
  if (nT >= MAXT) return EAGAIN;
  off++;
  int i = nT;
  reset_thread(i);
  T[i].fn = fn;
  T[i].arg = arg;
  T[i].prio = (int)rnd(1000) + 1;
  T[i].state = S_RUN;
  nT++;
  int r = r_create(pt, at, tramp, &T[i]);
  if (r) {
    T[i].state = S_DONE;
    off--;
    return r;
  }
  T[i].pt = *pt;
  R->stats[K_THREADS]++;
  off--;
  sync_ev(1);
  return 0;
}
int pthread_join(pthread_t pt, void **ret) {
  init_real();
  if (active && me >= 0) {
    off++;
    for (int i = 0; i < nT; i++)
      if (T[i].state != S_FREE && T[i].fn && pthread_equal(T[i].pt, pt)) {
        if (T[i].state != S_DONE) {
          T[me].join = i;
          T[me].state = S_JOIN;
          block(me);
        }
        T[i].fn = 0;
        break;
      }
    off--;
  }
  return r_join(pt, ret);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  init_real();
  if (!active || me < 0 || off) return r_mlock(m);
  R->stats[K_MUTEX]++;
  sync_ev(1);
  while (r_mtry(m) == EBUSY) {
    off++;
    T[me].addr = m;
    T[me].state = S_MUTEX;
    block(me);
    off--;
  }
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  init_real();
  int r = r_munlock(m);
  if (active && me >= 0 && !off) {
    for (int i = 0; i < nT; i++)
      if (T[i].state == S_MUTEX && T[i].addr == m) T[i].state = S_RUN;
    sync_ev(1);
  }
  return r;
}

// ---- futex
static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *ts, uint32_t val3) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    R->stats[K_FUTEX_WAIT]++;
    sync_ev(2);
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    uint64_t hs = R->sched_seed ^ ((uint64_t)me << 48) ^ (++T[me].waits * 0xD1B54A32D192ED03ull);
    if (R->p_spurious && !quiet && sm(&hs) % 1000 < R->p_spurious) {
      R->stats[K_SPURIOUS]++;
      return 0;
    }
    int t = me;
    off++;
    T[t].addr = addr;
    T[t].bitset = cmd == FUTEX_WAIT_BITSET ? val3 : ~0u;
    T[t].timed = ts != 0;
    T[t].timedout = 0;
    if (ts) {
      uint64_t d = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
      if (cmd == FUTEX_WAIT) d += R->now;
      else if (op & FUTEX_CLOCK_REALTIME) d -= real_off;
      T[t].deadline = d;
    }
    T[t].state = S_FUTEX;
    block(t);
    off--;
    if (T[t].timedout) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    R->stats[K_FUTEX_WAKE]++;
    uint32_t bs = cmd == FUTEX_WAKE_BITSET ? val3 : ~0u;
    long n = 0;
    uint64_t hs = R->sched_seed + R->stats[K_FUTEX_WAKE] * 0xD1B54A32D192ED03ull;
    int start = quiet ? 0 : (int)(sm(&hs) % (uint64_t)nT); // any waiter may be woken first
    for (int k = 0; k < nT && n < (long)val; k++) {
      int i = (start + k) % nT;
      if (T[i].state == S_FUTEX && T[i].addr == addr && (T[i].bitset & bs)) {
        T[i].state = S_RUN;
        n++;
      }
    }
    sync_ev(2);
    return n;
  }
  errno = ENOSYS;
  return -1;
}

// ---- entropy
static void ent_fill(void *p, size_t n) {
  unsigned char *b = p;
  uint64_t w = 0;
  for (size_t i = 0; i < n; i++) {
    if (i % 8 == 0) w = sm(&ent_s);
    b[i] = (unsigned char)(w >> (8 * (i % 8)));
  }
  R->stats[K_ENT_BYTES] += n;
}
// dev 0: getrandom, 1: reading the device, 2: getrandom that the kernel never
// refuses once it exists (GRND_INSECURE, which seeds hash tables)
static ssize_t sim_getrandom(void *p, size_t n, int dev) {
  R->stats[K_ENT_CALLS]++;
  sync_ev(1);
  if (dev == 1) R->stats[K_ENT_DEV]++;
  if (dev != 1 && R->ent_enosys) {
    R->stats[K_ENT_ENOSYS]++;
    errno = ENOSYS;
    return -1;
  }
  if (n == 0) return 0;
  if (dev != 2 && R->ent_hard_after && ent_ok + 1 >= R->ent_hard_after && (!R->ent_hard_len || R->stats[K_ENT_HARD] < R->ent_hard_len)) {
    R->stats[K_ENT_HARD]++;
    errno = R->ent_hard_errno ? (int)R->ent_hard_errno : EIO;
    return -1;
  }
  // entropy faults draw from their own stream so that schedules stay comparable
  uint64_t fs = R->entropy_seed * 31 + R->stats[K_ENT_CALLS] * 0x9E3779B97F4A7C15ull + 77;
  if (R->ent_eintr && sm(&fs) % 1000 < R->ent_eintr) {
    R->stats[K_ENT_EINTR]++;
    errno = EINTR;
    return -1;
  }
  if (R->ent_short && n > 1 && sm(&fs) % 1000 < R->ent_short) {
    R->stats[K_ENT_SHORT]++;
    n = 1 + sm(&fs) % (n - 1);
  }
  ent_ok++;
  ent_fill(p, n);
  return (ssize_t)n;
}
ssize_t getrandom(void *p, size_t n, unsigned flags) {
  if (active && me >= 0) return sim_getrandom(p, n, flags & 4 ? 2 : 0);
  return raw6e(SYS_getrandom, (long)p, (long)n, flags, 0, 0, 0);
}
int getentropy(void *p, size_t n) {
  if (active && me >= 0) return sim_getrandom(p, n, 0) == (ssize_t)n ? 0 : -1;
  return raw6e(SYS_getrandom, (long)p, (long)n, 0, 0, 0, 0) == (long)n ? 0 : -1;
}

#define FAKE_URANDOM 90001
#define FAKE_RANDOM 90002
static int fake_open(const char *path) {
  if (!(active && me >= 0) || !path) return 0;
  int u = !strcmp(path, "/dev/urandom"), r = !strcmp(path, "/dev/random");
  if (!u && !r) return 0;
  if (R->ent_nodev) { errno = ENOENT; R->stats[K_ENT_HARD]++; return -1; }
  return u ? FAKE_URANDOM : FAKE_RANDOM;
}
#define OPENBODY(name)                                            \
  int name(const char *path, int flags, ...) {                    \
    int f = fake_open(path);                                      \
    if (f) return f;                                              \
    va_list a;                                                    \
    va_start(a, flags);                                           \
    int mode = va_arg(a, int);                                    \
    va_end(a);                                                    \
    return (int)raw6e(SYS_openat, AT_FDCWD, (long)path, flags, mode, 0, 0); \
  }
OPENBODY(open)
OPENBODY(open64)
ssize_t read(int fd, void *b, size_t n) {
  if (fd == FAKE_URANDOM || fd == FAKE_RANDOM) return sim_getrandom(b, n, 1);
  return raw6e(SYS_read, fd, (long)b, (long)n, 0, 0, 0);
}
int close(int fd) {
  if (fd == FAKE_URANDOM || fd == FAKE_RANDOM) return 0;
  return (int)raw6e(SYS_close, fd, 0, 0, 0, 0, 0);
}
int poll(struct pollfd *p, nfds_t n, int to) {
  if (active && me >= 0 && n == 1 && p && (p->fd == FAKE_RANDOM || p->fd == FAKE_URANDOM)) {
    uint64_t fs = R->entropy_seed * 131 + ++R->stats[K_ENT_CALLS] * 0x9E3779B97F4A7C15ull;
    if (R->ent_eintr && sm(&fs) % 1000 < R->ent_eintr) { R->stats[K_ENT_EINTR]++; errno = EINTR; return -1; }
    p->revents = POLLIN;
    return 1;
  }
  return (int)raw6e(SYS_poll, (long)p, (long)n, to, 0, 0, 0);
}
pid_t getpid(void) {
  if (active && me >= 0 && R->fake_pid) return (pid_t)(R->fake_pid + born);
  return (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0);
}

// ---- clock
static uint64_t sim_clock(int realtime) {
  R->stats[K_CLOCK]++;
  R->now += R->clock_tick;
  uint64_t v = R->now;
  if (realtime) {
    if (R->jump_at && ++jump_cnt == R->jump_at) {
      real_off += R->jump_by;
      R->stats[K_CLOCK_JUMP]++;
    }
    v += (uint64_t)real_off + 1700000000ull * 1000000000ull;
  }
  return v;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (active && me >= 0) {
    sync_ev(1);
    uint64_t v = sim_clock(c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI);
    ts->tv_sec = v / 1000000000ull;
    ts->tv_nsec = v % 1000000000ull;
    return 0;
  }
  return (int)raw6e(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
}
int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *o) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
static void sim_sleep(uint64_t until) {
  R->stats[K_SLEEP]++;
  int t = me;
  off++;
  T[t].deadline = until;
  T[t].timed = 1;
  T[t].state = S_SLEEP;
  block(t);
  off--;
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (active && me >= 0) {
    sim_sleep(R->now + (uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec);
    return 0;
  }
  return (int)raw6e(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *rq, struct timespec *rm) {
  if (active && me >= 0) {
    uint64_t d = (uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec;
    sim_sleep(fl & TIMER_ABSTIME ? d : R->now + d);
    return 0;
  }
  long r = raw6(SYS_clock_nanosleep, c, fl, (long)rq, (long)rm, 0, 0);
  return (int)-r;
}
int sched_yield(void) {
  if (active && me >= 0) {
    if (off) return 0;
    R->stats[K_YIELD]++;
    int t = me;
    off++;
    settle(t);
    T[t].cnt[C_SYNC]++;
    R->stats[K_SYNC]++;
    all_sync++;
    if (R->strategy == 2) stall_used++;
    int l[MAXT];
    int n = runnable_list(l, t), g = -1;
    if (n) {
      if (R->explicit_mode) {
        g = explicit_target(t, C_SYNC, T[t].cnt[C_SYNC]);
        if (g < 0) g = l[0];
      } else {
        if (R->strategy == 1) T[t].prio = --low_prio;
        g = quiet ? l[0] : pick(t);
        if (g < 0) g = l[rnd(n)];
      }
      if (g != t) give(t, C_SYNC, g);
    }
    if (R->sync_cap && all_sync > R->sync_cap) {
      char b[400], m[500];
      describe(b, sizeof b);
      snprintf(m, sizeof m, "no progress within %lu scheduling points: %s", (unsigned long)R->sync_cap, b);
      finish(2, m);
    }
    off--;
    return 0;
  }
  return (int)raw6e(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

long syscall(long n, ...) {
  va_list v;
  va_start(v, n);
  long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long),
       f = va_arg(v, long);
  va_end(v);
  if (active && me >= 0) {
    if (n == SYS_futex && !off) return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
    if (n == SYS_getrandom) return sim_getrandom((void *)a, (size_t)b, c & 4 ? 2 : 0);
    if (n == SYS_clock_gettime) return clock_gettime((clockid_t)a, (struct timespec *)b);
  }
  return raw6e(n, a, b, c, d, e, f);
}

int rt_no_aslr(void) { // 1 if a re-exec is needed
  int p = personality(0xffffffff);
  if (p < 0 || (p & ADDR_NO_RANDOMIZE)) return 0;
  return personality((unsigned long)p | ADDR_NO_RANDOMIZE) >= 0;
}

// ---- ThreadSanitizer ABI
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define PL(name) void __tsan_##name(void *p) { (void)p; plain(); }
PL(read1) PL(read2) PL(read4) PL(read8) PL(read16)
PL(write1) PL(write2) PL(write4) PL(write8) PL(write16)
PL(unaligned_read2) PL(unaligned_read4) PL(unaligned_read8) PL(unaligned_read16)
PL(unaligned_write2) PL(unaligned_write4) PL(unaligned_write8) PL(unaligned_write16)
PL(volatile_read1) PL(volatile_read2) PL(volatile_read4) PL(volatile_read8) PL(volatile_read16)
PL(volatile_write1) PL(volatile_write2) PL(volatile_write4) PL(volatile_write8) PL(volatile_write16)
PL(unaligned_volatile_read2) PL(unaligned_volatile_read4) PL(unaligned_volatile_read8) PL(unaligned_volatile_read16)
PL(unaligned_volatile_write2) PL(unaligned_volatile_write4) PL(unaligned_volatile_write8) PL(unaligned_volatile_write16)
PL(read_write1) PL(read_write2) PL(read_write4) PL(read_write8) PL(read_write16)
PL(unaligned_read_write2) PL(unaligned_read_write4) PL(unaligned_read_write8) PL(unaligned_read_write16)
PL(vptr_read)
void __tsan_vptr_update(void *p, void *v) { (void)p; (void)v; plain(); }
void __tsan_read_range(void *p, size_t n) { (void)p; (void)n; plain(); }
void __tsan_write_range(void *p, size_t n) { (void)p; (void)n; plain(); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { plain(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { plain(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { plain(); return memset(d, c, n); }

static inline void at(void) {
  if (me >= 0 && active) { R->stats[K_ATOMIC]++; sync_ev(1); }
}

// Atomics execute sequentially consistently (one token); what varies is when
// the other threads run.
#define AT(N, TY)                                                                                      \
  TY __tsan_atomic##N##_load(const volatile TY *p, int mo) { (void)mo; at(); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##N##_store(volatile TY *p, TY v, int mo) { (void)mo; at(); __atomic_store_n(p, v, 5); } \
  TY __tsan_atomic##N##_exchange(volatile TY *p, TY v, int mo) { (void)mo; at(); return __atomic_exchange_n(p, v, 5); } \
  TY __tsan_atomic##N##_fetch_add(volatile TY *p, TY v, int mo) { (void)mo; at(); return __atomic_fetch_add(p, v, 5); } \
  TY __tsan_atomic##N##_fetch_sub(volatile TY *p, TY v, int mo) { (void)mo; at(); return __atomic_fetch_sub(p, v, 5); } \
  TY __tsan_atomic##N##_fetch_and(volatile TY *p, TY v, int mo) { (void)mo; at(); return __atomic_fetch_and(p, v, 5); } \
  TY __tsan_atomic##N##_fetch_or(volatile TY *p, TY v, int mo) { (void)mo; at(); return __atomic_fetch_or(p, v, 5); } \
  TY __tsan_atomic##N##_fetch_xor(volatile TY *p, TY v, int mo) { (void)mo; at(); return __atomic_fetch_xor(p, v, 5); } \
  TY __tsan_atomic##N##_fetch_nand(volatile TY *p, TY v, int mo) { (void)mo; at(); return __atomic_fetch_nand(p, v, 5); } \
  TY __tsan_atomic##N##_compare_exchange_val(volatile TY *p, TY e, TY v, int mo, int fmo) {            \
    (void)mo; (void)fmo; at();                                                                         \
    __atomic_compare_exchange_n(p, &e, v, 0, 5, 5);                                                    \
    return e;                                                                                          \
  }                                                                                                    \
  int __tsan_atomic##N##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int mo, int fmo) {       \
    (void)mo; (void)fmo; at();                                                                         \
    return __atomic_compare_exchange_n(p, e, v, 0, 5, 5);                                              \
  }                                                                                                    \
  int __tsan_atomic##N##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int mo, int fmo) {         \
    (void)mo; (void)fmo; at();                                                                         \
    return __atomic_compare_exchange_n(p, e, v, 0, 5, 5);                                              \
  }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; at(); __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
