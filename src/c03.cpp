// C03: two threads, one library call each, under a controlled scheduler.
//
// The library objects are compiled with ThreadSanitizer instrumentation, but
// linked with the runtime below instead of TSan's: every memory access of the
// library is reported here. Only one thread runs at a time; control can change
// hands before every visible operation (allocation, access to memory that is
// neither the thread's own stack nor its own heap and could be written by
// somebody else, synchronisation, libc call with process-wide state). Accesses
// outside a thread's own memory are recorded with vector clocks, so a pair of
// conflicting accesses is found in every schedule, not only in one where it
// changes the outcome; accesses that are not visible commute, so the schedules
// explored represent all interleavings up to the preemption bound.
#include "grid.hpp"
#include <array>
#include <pthread.h>
#include <semaphore.h>

static __thread int T = -1; // 0, 1: worker threads; -1: main

// ---------------------------------------------------------------- scheduler
struct Worker {
  pthread_t th;
  sem_t baton;
  char *stack_lo, *stack_hi;
  char *heap, *top; // bump allocator, reset for every run
  std::function<void()> job;
  bool done;
  long vis;
  long acc;
};
static const size_t HEAP = 3ull << 30;
static Worker WK[2];
static sem_t finished;
static bool controlled = false;     // a run is in progress
static std::vector<long> plan;      // switch when the running thread reaches its n-th visible operation
static size_t plan_pos;
static long switches;
static std::string problem;         // first violation of the run

static void switch_from(int t) {
  switches++;
  sem_post(&WK[1 - t].baton);
  while (sem_wait(&WK[t].baton) != 0) {
  }
}
static void visible() {
  int t = T;
  if (t < 0 || !controlled) {
    return;
  }
  WK[t].vis++;
  if (plan_pos < plan.size() && WK[t].vis == plan[plan_pos]) {
    plan_pos++;
    if (!WK[1 - t].done) {
      switch_from(t);
    }
  }
}

// ------------------------------------------------------- happens-before sets
static u32 clk[2][2];
struct Loc {
  u64 addr;
  u32 gen;
  u32 w[2], r[2]; // epochs of the last plain accesses
};
static const u64 NLOC = 1 << 20;
static Loc *loc;
static u32 gen = 0;
static u64 nloc;
struct Sync {
  u64 addr;
  u32 c[2];
  int owner;
};
static std::vector<Sync> syncs;
static Sync &sync_of(const void *p) {
  for (auto &s : syncs) {
    if (s.addr == (u64)p) {
      return s;
    }
  }
  syncs.push_back({(u64)p, {0, 0}, -1});
  return syncs.back();
}
static void acquire(const void *p) {
  if (T >= 0) {
    Sync &s = sync_of(p);
    for (int k = 0; k < 2; k++) {
      clk[T][k] = std::max(clk[T][k], s.c[k]);
    }
  }
}
static void release(const void *p) {
  if (T >= 0) {
    Sync &s = sync_of(p);
    for (int k = 0; k < 2; k++) {
      s.c[k] = std::max(s.c[k], clk[T][k]);
    }
    clk[T][T]++;
  }
}
static std::vector<std::array<u64, 2>> read_only; // inputs and constant segments
static std::string where(u64 a) {
  FILE *f = fopen("/proc/self/maps", "r");
  char l[512];
  std::string r = fw::str("%#llx", (unsigned long long)a);
  while (f && fgets(l, sizeof l, f)) {
    unsigned long long lo, hi;
    char perm[8] = "";
    if (sscanf(l, "%llx-%llx %7s", &lo, &hi, perm) == 3 && a >= lo && a < hi) {
      r = fw::str("%s", perm[1] == 'w' ? "writable" : "constant");
    }
  }
  if (f) {
    fclose(f);
  }
  return r;
}
static const char *cur_name[2];
static std::string what_is(u64 a) {
  for (int k = 0; k < 2; k++) {
    if ((char *)a >= WK[k].heap && (char *)a < WK[k].heap + HEAP) {
      return fw::str("memory allocated by '%s'", cur_name[k]);
    }
    if ((char *)a >= WK[k].stack_lo && (char *)a < WK[k].stack_hi) {
      return fw::str("the stack of '%s'", cur_name[k]);
    }
  }
  for (auto &r : read_only) {
    if (a >= r[0] && a < r[1]) {
      return "an input image";
    }
  }
  return "static memory (" + where(a) + ")";
}
static void touch(u64 a, bool write) {
  u64 i = fw::mix(a) & (NLOC - 1);
  for (u64 k = 0; k < NLOC; k++, i = (i + 1) & (NLOC - 1)) {
    Loc &l = loc[i];
    if (l.gen != gen) {
      if (nloc > NLOC * 3 / 4) {
        return; // table full: further addresses of this run are not watched
      }
      l = Loc{a, gen, {0, 0}, {0, 0}};
      nloc++;
    }
    if (l.addr == a) {
      int t = T, o = 1 - t;
      if (l.w[o] > clk[t][o] || (write && l.r[o] > clk[t][o])) {
        if (problem.empty()) {
          problem = fw::str("'%s' %s %s that '%s' %s, without synchronisation", cur_name[t], write ? "writes" : "reads", what_is(a).c_str(), cur_name[o], l.w[o] > clk[t][o] ? "writes" : "reads");
        }
      }
      (write ? l.w : l.r)[t] = clk[t][t];
      return;
    }
  }
}
static inline void access(const void *p, size_t n, bool write) {
  int t = T;
  if (t < 0 || !controlled || n == 0) {
    return;
  }
  Worker &w = WK[t];
  w.acc++;
  char *a = (char *)p;
  if ((a >= w.heap && a < w.top) || (a >= w.stack_lo && a < w.stack_hi)) {
    return;
  }
  bool ro = false;
  for (auto &r : read_only) {
    ro |= (u64)a >= r[0] && (u64)a < r[1];
  }
  if (write || !ro) {
    visible();
  }
  for (size_t k = 0; k < n; k++) {
    touch((u64)a + k, write);
  }
}
static char pseudo[64]; // process-wide state inside libc
static void unsafe(int k) {
  access(pseudo + k, 1, true);
}

// --------------------------------------------------------- own TSan runtime
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                                                                                                                           \
  void __tsan_read##n(void *p) { access(p, n, false); }                                                                                                                                                 \
  void __tsan_write##n(void *p) { access(p, n, true); }                                                                                                                                                 \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false); }                                                                                                                                       \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true); }                                                                                                                                       \
  void __tsan_read_write##n(void *p) {                                                                                                                                                                  \
    access(p, n, false);                                                                                                                                                                                \
    access(p, n, true);                                                                                                                                                                                 \
  }                                                                                                                                                                                                     \
  void __tsan_unaligned_read_write##n(void *p) { __tsan_read_write##n(p); }                                                                                                                             \
  void __tsan_volatile_read##n(void *p) { access(p, n, false); }                                                                                                                                        \
  void __tsan_volatile_write##n(void *p) { access(p, n, true); }                                                                                                                                        \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); }                                                                                                                              \
  void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  access(s, n, false);
  access(d, n, true);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  access(s, n, false);
  access(d, n, true);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  access(d, n, true);
  return memset(d, c, n);
}
// atomics: sequentially consistent, each one acquires and releases its location
#define ATOMIC(bits)                                                                                                                                                                                    \
  typedef uint##bits##_t a##bits;                                                                                                                                                                       \
  a##bits __tsan_atomic##bits##_load(const volatile a##bits *p, int) {                                                                                                                                  \
    visible();                                                                                                                                                                                          \
    acquire((const void *)p);                                                                                                                                                                           \
    return __atomic_load_n(p, 5);                                                                                                                                                                       \
  }                                                                                                                                                                                                     \
  void __tsan_atomic##bits##_store(volatile a##bits *p, a##bits v, int) {                                                                                                                               \
    visible();                                                                                                                                                                                          \
    release((const void *)p);                                                                                                                                                                           \
    __atomic_store_n(p, v, 5);                                                                                                                                                                          \
  }                                                                                                                                                                                                     \
  RMW(bits, exchange, __atomic_exchange_n)                                                                                                                                                              \
  RMW(bits, fetch_add, __atomic_fetch_add)                                                                                                                                                              \
  RMW(bits, fetch_sub, __atomic_fetch_sub)                                                                                                                                                              \
  RMW(bits, fetch_and, __atomic_fetch_and)                                                                                                                                                              \
  RMW(bits, fetch_or, __atomic_fetch_or)                                                                                                                                                                \
  RMW(bits, fetch_xor, __atomic_fetch_xor)                                                                                                                                                              \
  RMW(bits, fetch_nand, __atomic_fetch_nand)                                                                                                                                                            \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile a##bits *p, a##bits *e, a##bits v, int, int) {                                                                                             \
    visible();                                                                                                                                                                                          \
    acquire((const void *)p);                                                                                                                                                                           \
    release((const void *)p);                                                                                                                                                                           \
    return __atomic_compare_exchange_n(p, e, v, 0, 5, 5);                                                                                                                                               \
  }                                                                                                                                                                                                     \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile a##bits *p, a##bits *e, a##bits v, int m, int f) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, m, f); }                   \
  a##bits __tsan_atomic##bits##_compare_exchange_val(volatile a##bits *p, a##bits e, a##bits v, int m, int f) {                                                                                         \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, m, f);                                                                                                                                      \
    return e;                                                                                                                                                                                           \
  }
#define RMW(bits, name, fn)                                                                                                                                                                             \
  a##bits __tsan_atomic##bits##_##name(volatile a##bits *p, a##bits v, int) {                                                                                                                           \
    visible();                                                                                                                                                                                          \
    acquire((const void *)p);                                                                                                                                                                           \
    release((const void *)p);                                                                                                                                                                           \
    return fn(p, v, 5);                                                                                                                                                                                 \
  }
ATOMIC(8)
ATOMIC(16)
ATOMIC(32)
ATOMIC(64)
void __tsan_atomic_thread_fence(int) { visible(); }
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------ libc stand-ins
static void *bump(size_t n) {
  Worker &w = WK[T];
  size_t need = ((n + 15) & ~(size_t)15) + 32; // a gap: neighbouring blocks never touch
  if (w.top + need > w.heap + HEAP) {
    errno = ENOMEM;
    return nullptr;
  }
  char *p = w.top;
  *(size_t *)p = n;
  w.top += need;
  memset(p + 16, 0xCB, std::min(n, (size_t)4096));
  return p + 16;
}
void *vf_malloc(size_t n) {
  visible();
  return T >= 0 ? bump(n) : malloc(n);
}
void vf_free(void *p) {
  visible();
  if (!p) {
    return;
  }
  for (int k = 0; k < 2; k++) {
    if ((char *)p >= WK[k].heap && (char *)p < WK[k].heap + HEAP) {
      if (T >= 0 && T != k && problem.empty()) {
        problem = fw::str("'%s' frees memory allocated by '%s'", cur_name[T], cur_name[k]);
      }
      return;
    }
  }
  free(p);
}
void *vf_calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    return nullptr;
  }
  void *p = vf_malloc(n);
  return p ? memset(p, 0, n) : nullptr;
}
void *vf_realloc(void *p, size_t n) {
  if (T < 0) {
    return realloc(p, n);
  }
  visible();
  void *q = bump(n);
  if (p && q) {
    size_t old = *(size_t *)((char *)p - 16);
    access(p, std::min(old, n), false);
    memcpy(q, p, std::min(old, n));
  }
  return q;
}
void *vf_reallocarray(void *p, size_t a, size_t b) { return vf_realloc(p, a * b); }
char *vf_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  access(s, n, false);
  char *p = (char *)vf_malloc(n);
  return p ? (char *)memcpy(p, s, n) : nullptr;
}
char *vf_strndup(const char *s, size_t k) {
  size_t n = strnlen(s, k);
  char *p = (char *)vf_malloc(n + 1);
  if (p) {
    memcpy(p, s, n);
    p[n] = 0;
  }
  return p;
}
void *vf_aligned_alloc(size_t, size_t n) { return vf_malloc(n); }
int vf_posix_memalign(void **out, size_t, size_t n) {
  *out = vf_malloc(n);
  return *out ? 0 : ENOMEM;
}
FILE *vf_fopen(const char *p, const char *m) {
  visible();
  return fopen(p, m);
}
int vf_fclose(FILE *f) {
  visible();
  return fclose(f);
}
void *vf_memcpy(void *d, const void *s, size_t n) { return __tsan_memcpy(d, s, n); }
void *vf_memmove(void *d, const void *s, size_t n) { return __tsan_memmove(d, s, n); }
void *vf_memset(void *d, int c, size_t n) { return __tsan_memset(d, c, n); }
int vf_memcmp(const void *a, const void *b, size_t n) {
  access(a, n, false);
  access(b, n, false);
  return memcmp(a, b, n);
}
int vf_bcmp(const void *a, const void *b, size_t n) { return vf_memcmp(a, b, n); }
size_t vf_strlen(const char *s) {
  size_t n = strlen(s);
  access(s, n + 1, false);
  return n;
}
char *vf_strcpy(char *d, const char *s) { return (char *)__tsan_memcpy(d, s, strlen(s) + 1); }
char *vf_strncpy(char *d, const char *s, size_t n) {
  access(s, strnlen(s, n), false);
  access(d, n, true);
  return strncpy(d, s, n);
}
char *vf_strcat(char *d, const char *s) {
  access(d, strlen(d) + strlen(s) + 1, true);
  return strcat(d, s);
}
int vf_vsnprintf(char *d, size_t n, const char *f, va_list ap) {
  int r = vsnprintf(d, n, f, ap);
  access(d, std::min(n, (size_t)(r < 0 ? 0 : r) + 1), true);
  return r;
}
int vf_snprintf(char *d, size_t n, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vf_vsnprintf(d, n, f, ap);
  va_end(ap);
  return r;
}
int vf_sprintf(char *d, const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vf_vsnprintf(d, 1 << 20, f, ap);
  va_end(ap);
  return r;
}
size_t vf_fread(void *d, size_t a, size_t b, FILE *f) {
  access(d, a * b, true);
  return fread(d, a, b, f);
}
void vf_qsort(void *b, size_t n, size_t s, int (*c)(const void *, const void *)) {
  access(b, n * s, true);
  qsort(b, n, s, c);
}
#define UNSAFE(k, ret, name, par, arg)                                                                                                                                                                  \
  ret vf_##name par {                                                                                                                                                                                   \
    unsafe(k);                                                                                                                                                                                          \
    return name arg;                                                                                                                                                                                    \
  }
UNSAFE(0, char *, strtok, (char *a, const char *b), (a, b))
UNSAFE(1, int, rand, (), ())
UNSAFE(1, void, srand, (unsigned s), (s))
UNSAFE(1, long, random, (), ())
UNSAFE(1, void, srandom, (unsigned s), (s))
UNSAFE(1, double, drand48, (), ())
UNSAFE(1, long, lrand48, (), ())
UNSAFE(1, void, srand48, (long s), (s))
UNSAFE(2, struct tm *, localtime, (const time_t *t), (t))
UNSAFE(2, struct tm *, gmtime, (const time_t *t), (t))
UNSAFE(2, char *, ctime, (const time_t *t), (t))
UNSAFE(2, char *, asctime, (const struct tm *t), (t))
UNSAFE(3, char *, setlocale, (int a, const char *b), (a, b))
UNSAFE(4, int, setenv, (const char *a, const char *b, int c), (a, b, c))
UNSAFE(4, int, unsetenv, (const char *a), (a))
UNSAFE(5, int, chdir, (const char *a), (a))
UNSAFE(6, mode_t, umask, (mode_t m), (m))
UNSAFE(8, double, lgamma, (double x), (x))

// locks: never block while holding the baton
static int lock(void *m, bool block) {
  visible();
  while (sync_of(m).owner >= 0 && sync_of(m).owner != T) {
    if (!block) {
      return EBUSY;
    }
    if (WK[1 - T].done) {
      problem = fw::str("'%s' waits for a lock that '%s' never gives back", cur_name[T], cur_name[1 - T]);
      return 0;
    }
    switch_from(T);
  }
  sync_of(m).owner = T;
  acquire(m);
  return 0;
}
static int unlock(void *m) {
  release(m);
  sync_of(m).owner = -1;
  visible();
  return 0;
}
int vf_pthread_mutex_lock(void *m) { return T < 0 ? 0 : lock(m, true); }
int vf_pthread_mutex_trylock(void *m) { return T < 0 ? 0 : lock(m, false); }
int vf_pthread_mutex_unlock(void *m) { return T < 0 ? 0 : unlock(m); }
int vf_mtx_lock(void *m) { return T < 0 ? 0 : lock(m, true); }
int vf_mtx_unlock(void *m) { return T < 0 ? 0 : unlock(m); }
int vf_pthread_once(int *o, void (*f)()) {
  if (T >= 0) {
    lock(o, true);
  }
  if (*o == 0) {
    f();
    *o = 2;
  }
  if (T >= 0) {
    unlock(o);
  }
  return 0;
}
void vf_call_once(int *o, void (*f)()) { vf_pthread_once(o, f); }
}

// ------------------------------------------------------------------- a run
static void *worker_main(void *arg) {
  int t = (int)(size_t)arg;
  pthread_attr_t at;
  void *lo;
  size_t n;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &lo, &n);
  WK[t].stack_lo = (char *)lo;
  WK[t].stack_hi = (char *)lo + n;
  sem_post(&finished);
  for (;;) {
    while (sem_wait(&WK[t].baton) != 0) {
    }
    T = t;
    WK[t].job();
    WK[t].done = true;
    sem_post(WK[1 - t].done ? &finished : &WK[1 - t].baton);
  }
}
static bool started = false;
static void start_threads() {
  if (started) {
    return;
  }
  started = true;
  loc = (Loc *)calloc(NLOC, sizeof(Loc));
  sem_init(&finished, 0, 0);
  for (int t = 0; t < 2; t++) {
    sem_init(&WK[t].baton, 0, 0);
    WK[t].heap = WK[t].top = (char *)mmap(nullptr, HEAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_create(&WK[t].th, nullptr, worker_main, (void *)(size_t)t);
    sem_wait(&finished);
  }
}

static Api A;
static std::vector<Pic> PICS;
struct Call {
  int op, pic;
};
static std::vector<Call> CALLS;
struct Ref {
  u64 digest;
  int state;
  long vis; // visible operations of the call alone
};
static std::vector<Ref> REF; // per call
static std::string cname(int c) { return OPS[CALLS[c].op].name + " on " + PICS[CALLS[c].pic].name; }

static void *caller_alloc(size_t n) { return T >= 0 ? bump(n) : malloc(n); }
static void caller_free(void *p) { vf_free(p); }

// runs the two calls under the plan; first: which thread starts
static void run_pair(int ca, int cb, bool shared, int first, const std::vector<long> &pl, Result res[2], long vis[2]) {
  start_threads();
  int c[2] = {ca, cb};
  std::string nm[2] = {cname(ca), cb >= 0 ? cname(cb) : ""};
  std::vector<std::unique_ptr<Bufs>> b;
  b.emplace_back(new Bufs(PICS[CALLS[ca].pic]));
  if (cb >= 0 && !shared) {
    b.emplace_back(new Bufs(PICS[CALLS[cb].pic]));
  }
  read_only.clear();
  for (auto &x : b) {
    read_only.push_back({(u64)x->rgba, (u64)x->rgba + x->pic->rgba.size()});
    read_only.push_back({(u64)x->gray, (u64)x->gray + x->pic->gray.size()});
    read_only.push_back({(u64)x->rgb, (u64)x->rgb + x->pic->rgb.size()});
    read_only.push_back({(u64)x->resp, (u64)x->resp + x->pic->resp.size()});
  }
  gen++;
  nloc = 0;
  syncs.clear();
  problem.clear();
  plan = pl;
  plan_pos = 0;
  for (int t = 0; t < 2; t++) {
    WK[t].top = WK[t].heap;
    WK[t].vis = WK[t].acc = 0;
    WK[t].done = c[t] < 0;
    clk[t][t] = 1;
    clk[t][1 - t] = 0;
    cur_name[t] = nm[t].c_str();
    if (c[t] >= 0) {
      Bufs *q = b[t < (int)b.size() ? t : 0].get();
      const OpCall *o = &OPS[CALLS[c[t]].op];
      Result *r = &res[t];
      WK[t].job = [=] { call(A, *o, *q, *r); };
    }
  }
  controlled = true;
  sem_post(&WK[first].baton);
  while (sem_wait(&finished) != 0) {
  }
  controlled = false;
  for (int t = 0; t < 2; t++) {
    vis[t] = WK[t].vis;
    if (c[t] >= 0 && problem.empty() && (res[t].modified || b[t < (int)b.size() ? t : 0]->intact())) {
      problem = fw::str("'%s' changed its %s", cur_name[t], res[t].modified ? res[t].modified : b[t < (int)b.size() ? t : 0]->intact());
    }
  }
}
static std::string sched(int first, const std::vector<long> &pl) {
  std::string s = fw::str("thread %d first", first);
  int t = first;
  for (long p : pl) {
    s += fw::str(", switched before its visible operation %ld", p);
    t = 1 - t;
    s += fw::str(", then thread %d", t);
  }
  return s;
}
static u64 n_sched;
static void explore_one(int a, int b, bool shared, int first, const std::vector<long> &pl, long vis[2]) {
  Result r[2];
  run_pair(a, b, shared, first, pl, r, vis);
  n_sched++;
  fw::compared();
  std::string s = sched(first, pl);
  if (!problem.empty()) {
    fw::fail("%s%s: %s", s.c_str(), shared ? ", shared image" : "", problem.c_str());
  }
  for (int t = 0; t < 2; t++) {
    int c = t ? b : a;
    if (REF[c].state == 1 && r[t].digest != REF[c].digest) {
      fw::fail("%s%s: '%s' gives a result that differs from the one it gives alone", s.c_str(), shared ? ", shared image" : "", cname(c).c_str());
    }
  }
  fw::seen(fw::mix(r[0].digest) ^ r[1].digest ^ fw::mix(pl.size() * 1000003ull + (pl.empty() ? 0 : pl[0]) * 7919 + (pl.size() > 1 ? pl[1] : 0) * 31 + first * 2 + shared + fw::mix(a * 4096 + b)));
}
// all schedules with at most `bound` preemptions
static void explore(int a, int b, bool shared, int bound, long cap) {
  for (int first = 0; first < 2; first++) {
    long v[2], w[2];
    explore_one(a, b, shared, first, {}, v);
    long n1 = std::min(v[first], cap);
    for (long p = 1; p <= n1 && bound >= 1; p++) {
      explore_one(a, b, shared, first, {p}, w);
      long n2 = std::min(v[1 - first], cap);
      for (long q = 1; q <= n2 && bound >= 2; q++) {
        explore_one(a, b, shared, first, {p, q}, w);
      }
    }
  }
}

int main(int argc, char **argv) {
  A = direct_api();
  lib_free = vf_free;
  own_alloc = caller_alloc;
  own_free = caller_free;
  register_ops();
  PICS = {filled_pic(11, 8, F_HASH, 1), blob_pic(30, 23, 2), page_pic(60, 48), filled_pic(330, 200, F_HASH, 3), filled_pic(90, 70, F_HASH, 4), filled_pic(1100, 3, F_HASH, 5), filled_pic(3, 1100, F_HASH, 6)};
  for (int p = 0; p < 2; p++) {
    for (int k = 0; k < (int)OPS.size(); k++) {
      if (!OPS[k].heavy) {
        CALLS.push_back({k, p});
      }
    }
  }
  int n_light = (int)CALLS.size();
  for (int k = 0; k < (int)OPS.size(); k++) {
    if (OPS[k].heavy) {
      CALLS.push_back({k, 2});
    }
  }
  int n_doc = (int)CALLS.size(); // first call on a large picture
  for (int k = 0; k < (int)OPS.size(); k++) {
    if (!OPS[k].heavy) {
      // (watershed visits every pixel at every level)
      CALLS.push_back({k, OPS[k].name.compare(0, 9, "watershed") == 0 ? 4 : 3});
    }
  }
  int n_large = (int)CALLS.size(); // first call with finely spaced or large parameters
  int n_ops = (int)OPS.size();
  grid();
  grid_large();
  OPS.insert(OPS.end(), GRID.begin(), GRID.end());
  for (int k = n_ops; k < (int)OPS.size(); k++) {
    CALLS.push_back({k, 0});
  }
  n_ops = (int)OPS.size();
  OPS.insert(OPS.end(), LARGE.begin(), LARGE.end());
  for (int k = 0; k < (int)OPS.size(); k++) {
    if (!OPS[k].heavy && (k < n_ops - (int)GRID.size() || k >= n_ops)) {
      for (int p : {5, 6, 0}) {
        if (p || k >= n_ops) {
          CALLS.push_back({k, p});
        }
      }
    }
  }
  return fw::main_(argc, argv, [n_light, n_doc, n_large](std::vector<fw::Suite> &S) {
    // every call alone, in its own process
    if (REF.empty()) {
      REF.assign(CALLS.size(), Ref{0, 0, 0});
      for (size_t c = 0; c < (size_t)n_large; c++) { // (the others in their case)
        int fd[2];
        if (pipe(fd) != 0) {
          _exit(3);
        }
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
          int nul = open("/dev/null", O_WRONLY);
          dup2(nul, 2);
          Result r[2];
          long v[2];
          run_pair((int)c, -1, false, 0, {}, r, v);
          Ref q{r[0].digest, 1, v[0]};
          if (write(fd[1], &q, sizeof q) < 0) {
          }
          _exit(0);
        }
        close(fd[1]);
        Ref q;
        if (read(fd[0], &q, sizeof q) == (ssize_t)sizeof q) {
          REF[c] = q;
        }
        else {
          REF[c].state = 2;
        }
        close(fd[0]);
        waitpid(p, nullptr, 0);
      }
    }
    static std::vector<std::array<int, 2>> pairs;
    pairs.clear();
    for (int a = 0; a < n_light; a++) {
      for (int b = a; b < n_light; b++) {
        pairs.push_back({a, b});
      }
    }
    long all = 0;
    for (auto &r : REF) {
      all += r.vis;
    }
    static const long CAP = 60;
    fw::Suite s;
    s.name = "pairs";
    s.what = fw::str("every pair of %d calls x every schedule with at most one preemption at one of the first %ld visible operations (calls make %.1f on average), own images and one shared image", n_light, CAP, all / (double)REF.size());
    s.count = pairs.size();
    s.chunk = 100;
    s.hang_s = 60;
    s.describe = [](u64 i) { return cname(pairs[i][0]) + " || " + cname(pairs[i][1]); };
    s.run = [](u64 i) {
      auto p = pairs[i];
      explore(p[0], p[1], false, 1, CAP);
      if (CALLS[p[0]].pic == CALLS[p[1]].pic) {
        explore(p[0], p[1], true, 1, CAP);
      }
    };
    S.push_back(s);

    static std::vector<std::array<int, 2>> deep;
    deep.clear();
    for (auto &p : pairs) {
      if (CALLS[p[0]].op == CALLS[p[1]].op || fw::thorough) {
        deep.push_back(p);
      }
    }
    fw::Suite d;
    d.name = "two-preemptions";
    d.what = fw::str("%s x every schedule with at most two preemptions at the first 25 visible operations of each call", fw::thorough ? "every pair of calls" : "every call against itself on the same and on another picture");
    d.count = deep.size();
    d.chunk = 10;
    d.hang_s = 120;
    d.describe = [](u64 i) { return cname(deep[i][0]) + " || " + cname(deep[i][1]); };
    d.run = [](u64 i) { explore(deep[i][0], deep[i][1], CALLS[deep[i][0]].pic == CALLS[deep[i][1]].pic, 2, 25); };
    S.push_back(d);

    // document detection against itself and one call per operation
    static std::vector<std::array<int, 2>> heavy;
    heavy.clear();
    for (int a = n_light; a < n_doc; a++) {
      for (int b = n_light; b <= a; b++) {
        heavy.push_back({a, b});
      }
      for (int b = 0; b < n_light / 2 && a == n_light + 3; b++) {
        heavy.push_back({a, b});
      }
    }
    fw::Suite h;
    h.name = "document";
    h.what = "document detection and extraction against each other and against every light call: both orders and every one-preemption schedule at 3 (thorough: 60) visible operations spread over the call";
    h.count = heavy.size();
    h.chunk = 2;
    h.hang_s = 300;
    h.describe = [](u64 i) { return cname(heavy[i][0]) + " || " + cname(heavy[i][1]); };
    h.run = [](u64 i) {
      auto p = heavy[i];
      long v[2], w[2];
      explore_one(p[0], p[1], false, 0, {}, v);
      long n = fw::thorough ? 60 : 3;
      for (long k = 1; k <= n && k <= v[0]; k++) {
        explore_one(p[0], p[1], false, 0, {std::max(1l, k * v[0] / (n + 1))}, w);
      }
    };
    S.push_back(h);

    fw::Suite l;
    l.name = "large";
    l.what = "every light call on a 330x200 picture (watershed: 90x70) against itself on own images and on one shared image: both orders without preemption, and preempted at its first visible operation";
    l.count = n_large - n_doc;
    l.chunk = 2;
    l.hang_s = 300;
    l.describe = [n_doc](u64 i) { return cname(n_doc + i) + " || itself"; };
    l.run = [n_doc](u64 i) {
      for (int shared = 0; shared < 2; shared++) {
        explore(n_doc + i, n_doc + i, shared, 1, 1);
      }
    };
    S.push_back(l);

    fw::Suite q;
    q.name = "parameters";
    q.what = fw::str("%zu parameter settings on an 11x8 picture, every call of the operation table and %zu large settings on 1100x3 and 3x1100 pictures: each against itself, on own images and on one shared image, both orders without preemption, and preempted at its first visible operation", GRID.size(), LARGE.size());
    q.count = CALLS.size() - n_large;
    q.chunk = 40;
    q.hang_s = 120;
    q.describe = [n_large](u64 i) { return cname(n_large + i) + " || itself"; };
    q.run = [n_large](u64 i) {
      int c = n_large + (int)i;
      Result r[2];
      long v[2];
      run_pair(c, -1, false, 0, {}, r, v);
      REF[c] = Ref{r[0].digest, 1, v[0]};
      for (int shared = 0; shared < 2; shared++) {
        explore(c, c, shared, 1, 1);
      }
    };
    S.push_back(q);
  });
}
