// Accounting of the memory of the C library under the Haskell bindings: which
// blocks it handed out are alive. Blocks are overwritten when they are freed
// and kept back for a while, so that a use after free shows up as garbage.
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
void *__real_malloc(size_t);
void __real_free(void *);
#define N (1u << 20)
static struct E {
  void *p;
  size_t n;
  int state; // 0 empty, 1 live, 2 freed (quarantined), 3 deleted
} tab[N];
static void *ring[4096];
static unsigned head;
static uint64_t live, bad, watch_size, watched;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;

static struct E *find(void *p, int insert) {
  uint64_t h = (uint64_t)(uintptr_t)p * 0x9e3779b97f4a7c15ull >> 44;
  struct E *del = 0;
  for (unsigned k = 0; k < N; k++) {
    struct E *e = &tab[(h + k) & (N - 1)];
    if (e->state == 0) {
      return insert ? (del ? del : e) : 0;
    }
    if (e->state == 3) {
      if (!del) {
        del = e;
      }
      continue;
    }
    if (e->p == p) {
      return e;
    }
  }
  return del;
}
void __wrap_free(void *p);
void *shim_malloc(size_t n) {
  // the slack keeps known over-long vectors from running into unmapped memory
  void *p = n > SIZE_MAX / 8 ? 0 : __real_malloc(n <= 4096 ? n * 4 + 64 : n + 16384);
  if (p) {
    memset(p, 0xC9, n);
    pthread_mutex_lock(&mu);
    struct E *e = find(p, 1);
    e->p = p;
    e->n = n;
    e->state = 1;
    live++;
    pthread_mutex_unlock(&mu);
  }
  return p;
}
void *shim_calloc(size_t a, size_t b) {
  if (b && a > SIZE_MAX / b) {
    return 0;
  }
  void *p = shim_malloc(a * b);
  if (p) {
    memset(p, 0, a * b);
  }
  return p;
}
void *shim_realloc(void *q, size_t n) {
  void *p = shim_malloc(n);
  if (p && q) {
    pthread_mutex_lock(&mu);
    struct E *e = find(q, 0);
    size_t k = e ? e->n : 0;
    pthread_mutex_unlock(&mu);
    memcpy(p, q, k < n ? k : n);
    __wrap_free(q);
  }
  return p;
}
void shim_free(void *p) { __wrap_free(p); }

void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  if (p && watch_size && n == watch_size) {
    pthread_mutex_lock(&mu);
    struct E *e = find(p, 1);
    e->p = p;
    e->n = n;
    e->state = 4;
    watched++;
    pthread_mutex_unlock(&mu);
  }
  return p;
}
void __wrap_free(void *p) {
  if (!p) {
    return;
  }
  pthread_mutex_lock(&mu);
  struct E *e = find(p, 0);
  if (e && e->state == 4) {
    watched--;
    e->state = 3;
    pthread_mutex_unlock(&mu);
    __real_free(p);
    return;
  }
  if (e && e->state == 2) {
    bad++; // freed twice
    pthread_mutex_unlock(&mu);
    return;
  }
  if (e && e->state == 1) {
    memset(p, 0xDD, e->n);
    e->state = 2;
    live--;
    void *old = ring[head];
    ring[head] = p;
    head = (head + 1) % 4096;
    if (old) {
      struct E *o = find(old, 0);
      if (o) {
        o->state = 3;
      }
      __real_free(old);
    }
    pthread_mutex_unlock(&mu);
    return;
  }
  pthread_mutex_unlock(&mu);
  __real_free(p);
}
uint64_t shim_live(void) { return live; }
uint64_t shim_bad(void) { return bad; }
void shim_watch(uint64_t n) {
  watch_size = n;
  watched = 0;
}
uint64_t shim_watched(void) { return watched; }
