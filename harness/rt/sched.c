/* Runtime for code compiled with -Zsanitizer=thread: instead of ThreadSanitizer's own runtime, every memory access
 * and atomic operation of the instrumented code arrives here.  It records which memory each controlled thread
 * touches and decides, access by access, which thread runs next; exactly one controlled thread runs at any time.
 * Blocking (std's locks wait by futex through libc's `syscall`) is a scheduling decision too. */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unistd.h>

enum { MAXT = 3, MAXP = 1 << 15, LOGCAP = 1 << 18, SETCAP = 1 << 13 };
enum { M_LOG = 1, M_TOUCH = 2, M_SET = 4, M_ALL = 8 };
enum { FAIR = 16 };
enum { IDLE, READY, BLOCKED, DONE };

struct point { uint8_t cur, enabled, chosen, pad; };
struct out { uint32_t np, overflow, deadlock, diverged, accesses; struct point p[MAXP]; };
struct entry { uint64_t g; uint64_t rw; };

struct thr {
  pthread_t th;
  int id, go, state;
  uintptr_t lo, hi, own_lo, own_hi;
  void (*fn)(void *);
  void *arg;
  int *waits;
  uint64_t n;
  uint64_t touched;
  int lost;
  struct entry *log;
  uint32_t *used, nused;
};
static struct thr T[MAXT];
static int nT, main_go;
static unsigned mode;
static const uint8_t *script;
static uint32_t script_len;
static struct out *out;
static uint64_t set[SETCAP];
static uint32_t nset;
static struct thr *last;
static uint32_t kept;
static uint64_t last_g;
static __thread struct thr *me;

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void post(int *w) {
  __atomic_store_n(w, 1, __ATOMIC_SEQ_CST);
  raw(SYS_futex, (long)w, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void await(int *w) {
  for (int i = 0; i < 300; i++) {
    if (__atomic_load_n(w, __ATOMIC_SEQ_CST)) goto got;
    __builtin_ia32_pause();
  }
  while (!__atomic_load_n(w, __ATOMIC_SEQ_CST)) raw(SYS_futex, (long)w, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
got:
  __atomic_store_n(w, 0, __ATOMIC_SEQ_CST);
}

static unsigned ready(void) {
  unsigned m = 0;
  for (int i = 0; i < nT; i++)
    if (T[i].state == READY) m |= 1u << i;
  return m;
}
/* Which thread runs next; cur: the one running, or 0xff if it cannot go on. */
static int decide(int cur, unsigned en) {
  int c = cur != 0xff ? cur : __builtin_ctz(en);
  if (__builtin_popcount(en) > 1) {
    if (out->np >= MAXP) {
      out->overflow = 1;
      return c;
    }
    uint32_t k = out->np++;
    if (k < script_len) {
      if (script[k] < MAXT && (en >> script[k] & 1)) c = script[k];
      else out->diverged = 1;
    }
    out->p[k] = (struct point){(uint8_t)cur, (uint8_t)en, (uint8_t)c, 0};
  }
  return c;
}
static void yield_point(struct thr *t, uint64_t g, int must) {
  unsigned en = ready();
  if (!(en & (en - 1))) return;
  /* who looks at one place again and again waits for the others, and gives way to them */
  if (t != last || g != last_g) kept = 0;
  last = t;
  last_g = g;
  if (++kept > FAIR) must = 1;
  if (must) kept = 0;
  int c = must ? decide(0xff, en & ~(1u << t->id)) : decide(t->id, en);
  if (c != t->id) {
    post(&T[c].go);
    await(&t->go);
  }
}

static inline uint64_t mix(uint64_t g) { return (g * 0x9e3779b97f4a7c15ull) >> 32; }
static int in_set(uint64_t g) {
  for (uint32_t i = mix(g) & (SETCAP - 1);; i = (i + 1) & (SETCAP - 1)) {
    if (set[i] == g) return 1;
    if (!set[i]) return 0;
  }
}
/* A place in the program's own memory, the same in every process; 0 for memory made while it runs. */
static int place(uint64_t g) {
  int64_t d = (int64_t)(g - ((uintptr_t)set >> 3));
  return d > -(1 << 24) && d < 1 << 24 ? 1 + (int)(mix((uint64_t)d) % 63) : 0;
}
static void note(struct thr *t, uint64_t g, int rw) {
  for (uint32_t i = mix(g) & (LOGCAP - 1);; i = (i + 1) & (LOGCAP - 1)) {
    if (t->log[i].g == g) {
      t->log[i].rw |= rw;
      return;
    }
    if (!t->log[i].g) {
      if (t->nused >= LOGCAP / 2) {
        t->lost = 1;
        return;
      }
      t->log[i] = (struct entry){g, rw};
      t->used[t->nused++] = i;
      return;
    }
  }
}
static void seen(struct thr *t, const void *p, size_t n, int rw) {
  uintptr_t a = (uintptr_t)p;
  if ((a >= t->lo && a < t->hi) || (a >= t->own_lo && a < t->own_hi)) return;
  if (!n) return;
  t->n++;
  int hit = mode & M_ALL;
  for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
    if (mode & M_LOG) note(t, g, rw);
    if (nset && (mode & (M_TOUCH | M_SET)) && in_set(g)) {
      t->touched |= 1ull << place(g);
      hit |= mode & M_SET;
    }
  }
  if (hit) yield_point(t, a >> 3, 0);
}
#define SEEN(p, n, rw) do { if (me) seen(me, p, n, rw); } while (0)

#define RW(s) \
  void __tsan_read##s(void *p) { SEEN(p, s, 1); } \
  void __tsan_write##s(void *p) { SEEN(p, s, 2); } \
  void __tsan_unaligned_read##s(void *p) { SEEN(p, s, 1); } \
  void __tsan_unaligned_write##s(void *p) { SEEN(p, s, 2); } \
  void __tsan_read_write##s(void *p) { SEEN(p, s, 3); } \
  void __tsan_unaligned_read_write##s(void *p) { SEEN(p, s, 3); } \
  void __tsan_volatile_read##s(void *p) { SEEN(p, s, 1); } \
  void __tsan_volatile_write##s(void *p) { SEEN(p, s, 2); } \
  void __tsan_unaligned_volatile_read##s(void *p) { SEEN(p, s, 1); } \
  void __tsan_unaligned_volatile_write##s(void *p) { SEEN(p, s, 2); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void *p, void *q) { (void)q; SEEN(p, 8, 2); }
void __tsan_vptr_read(void *p) { SEEN(p, 8, 1); }
void __tsan_read_range(void *p, unsigned long n) { SEEN(p, n, 1); }
void __tsan_write_range(void *p, unsigned long n) { SEEN(p, n, 2); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { SEEN(s, n, 1); SEEN(d, n, 2); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { SEEN(s, n, 1); SEEN(d, n, 2); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { SEEN(d, n, 2); return memset(d, c, n); }

#define OP(b, t, name, fn) \
  t __tsan_atomic##b##_##name(volatile t *p, t v, int o) { (void)o; SEEN((void *)p, sizeof(t), 3); return fn(p, v, __ATOMIC_SEQ_CST); }
#define AT(b, t) \
  t __tsan_atomic##b##_load(const volatile t *p, int o) { (void)o; SEEN((void *)p, sizeof(t), 1); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile t *p, t v, int o) { (void)o; SEEN((void *)p, sizeof(t), 2); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  OP(b, t, exchange, __atomic_exchange_n) OP(b, t, fetch_add, __atomic_fetch_add) OP(b, t, fetch_sub, __atomic_fetch_sub) \
  OP(b, t, fetch_and, __atomic_fetch_and) OP(b, t, fetch_or, __atomic_fetch_or) OP(b, t, fetch_xor, __atomic_fetch_xor) \
  OP(b, t, fetch_nand, __atomic_fetch_nand) \
  int __tsan_atomic##b##_compare_exchange_strong(volatile t *p, t *c, t v, int o, int f) { \
    (void)o; (void)f; SEEN((void *)p, sizeof(t), 3); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile t *p, t *c, t v, int o, int f) { \
    (void)o; (void)f; SEEN((void *)p, sizeof(t), 3); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  t __tsan_atomic##b##_compare_exchange_val(volatile t *p, t c, t v, int o, int f) { \
    (void)o; (void)f; SEEN((void *)p, sizeof(t), 3); __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { (void)o; __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int o) { (void)o; }

/* Waiting and waking of controlled threads are decisions of the scheduler; everything else goes to the kernel. */
long syscall(long n, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, n);
  long a = __builtin_va_arg(ap, long), b = __builtin_va_arg(ap, long), c = __builtin_va_arg(ap, long);
  long d = __builtin_va_arg(ap, long), e = __builtin_va_arg(ap, long), f = __builtin_va_arg(ap, long);
  __builtin_va_end(ap);
  struct thr *t = me;
  if (n == SYS_futex && t) {
    int op = (int)b & 127, *w = (int *)a;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (__atomic_load_n(w, __ATOMIC_SEQ_CST) != (int)c) {
        errno = EAGAIN;
        return -1;
      }
      t->state = BLOCKED;
      t->waits = w;
      unsigned en = ready();
      if (!en) {
        out->deadlock = 1;
        post(&main_go);
        for (;;) pause();
      }
      int to = decide(0xff, en);
      post(&T[to].go);
      await(&t->go);
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      int k = 0;
      for (int i = 0; i < nT && k < (int)c; i++)
        if (T[i].state == BLOCKED && T[i].waits == w) {
          T[i].state = READY;
          k++;
        }
      return k;
    }
  }
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

int sched_yield(void) {
  if (me) yield_point(me, 0, 1);
  else raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  return 0;
}

static void *body(void *p) {
  struct thr *t = p;
  pthread_attr_t at;
  void *lo;
  size_t n;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &lo, &n);
  pthread_attr_destroy(&at);
  t->lo = (uintptr_t)lo;
  t->hi = t->lo + n;
  free(malloc(100)); /* an arena of its own */
  post(&main_go);
  for (;;) {
    await(&t->go);
    me = t;
    t->fn(t->arg);
    me = NULL;
    t->state = DONE;
    unsigned en = ready();
    if (en) {
      int c = decide(0xff, en);
      post(&T[c].go);
    } else {
      for (int i = 0; i < nT; i++)
        if (T[i].state == BLOCKED) out->deadlock = 1;
      post(&main_go);
    }
  }
  return NULL;
}

void mc_threads(int n) {
  for (int i = nT; i < n; i++) {
    struct thr *t = &T[i];
    t->id = i;
    t->log = calloc(LOGCAP, sizeof *t->log);
    t->used = calloc(LOGCAP, sizeof *t->used);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 16 << 20);
    if (pthread_create(&t->th, &at, body, t)) abort();
    await(&main_go);
  }
  nT = n;
}
void mc_set(const uint64_t *g, uint32_t n) {
  memset(set, 0, sizeof set);
  nset = 0;
  for (uint32_t k = 0; k < n && k < SETCAP / 2; k++) {
    uint32_t i = mix(g[k]) & (SETCAP - 1);
    while (set[i] && set[i] != g[k]) i = (i + 1) & (SETCAP - 1);
    set[i] = g[k];
    nset++;
  }
}
void mc_clear(void) {
  for (int i = 0; i < nT; i++) {
    for (uint32_t k = 0; k < T[i].nused; k++) T[i].log[T[i].used[k]] = (struct entry){0, 0};
    T[i].nused = 0;
    T[i].lost = 0;
  }
}
/* Runs one job on each of the threads `first`..`first + n - 1`. */
void mc_run(int first, int n, void (*fn)(void *), void **args, const uint8_t *sc, uint32_t len, struct out *o, unsigned m) {
  o->np = o->overflow = o->deadlock = o->diverged = 0;
  out = o;
  script = sc;
  script_len = len;
  mode = m;
  last = NULL;
  kept = 0;
  for (int i = 0; i < nT; i++) T[i].state = IDLE;
  for (int i = first; i < first + n; i++) {
    T[i].fn = fn;
    T[i].arg = args[i - first];
    T[i].touched = 0;
    T[i].n = 0;
    T[i].state = READY;
  }
  int c = decide(0xff, ready());
  post(&T[c].go);
  await(&main_go);
  o->accesses = 0;
  for (int i = first; i < first + n; i++) o->accesses += (uint32_t)T[i].n;
}
/* Memory of the harness that only thread i writes: where it puts its answers. */
void mc_own(int i, uintptr_t lo, uintptr_t n) {
  T[i].own_lo = lo;
  T[i].own_hi = lo + n;
}
uint64_t mc_touched(int i) { return T[i].touched; }
int mc_place(uint64_t g) { return place(g); }
uint32_t mc_count(int i) { return T[i].nused; }
int mc_lost(int i) { return T[i].lost; }
uint32_t mc_log(int i, struct entry *e, uint32_t cap) {
  uint32_t n = 0;
  for (uint32_t k = 0; k < T[i].nused && n < cap; k++) e[n++] = T[i].log[T[i].used[k]];
  return n;
}
