// Allocator seen by the library under test (its objects' references to malloc
// etc. are redirected here): counts, tracks what is live, fills fresh memory
// with a chosen pattern and can refuse a chosen allocation.
#pragma once
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>

namespace vf {
static const size_t CAP = 1 << 16;
static void *slot[CAP];
static size_t slot_len[CAP];
static long live = 0;         // blocks
static long count = 0;        // allocations so far
static long fail_at = -1;     // index of the allocation that fails
static bool and_later = false;
static long second_at = -1;   // another one
static long refused = 0;
static int fill_byte = -1;    // pattern for fresh memory
static long open_files = 0;
static bool bad_free = false; // free of something not allocated

static size_t find(void *p) {
  size_t h = ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48;
  for (size_t k = 0; k < CAP; k++) {
    size_t i = (h + k) & (CAP - 1);
    if (slot[i] == p) {
      return i;
    }
  }
  return CAP;
}
static void track(void *p, size_t n) {
  if (!p) {
    return;
  }
  size_t h = ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48;
  for (size_t k = 0; k < CAP; k++) {
    size_t i = (h + k) & (CAP - 1);
    if (slot[i] == nullptr || slot[i] == (void *)1) {
      slot[i] = p;
      slot_len[i] = n;
      live++;
      return;
    }
  }
  fprintf(stderr, "allocation table full\n");
  _exit(3);
}
static bool untrack(void *p) {
  size_t h = ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 48;
  for (size_t k = 0; k < CAP; k++) {
    size_t i = (h + k) & (CAP - 1);
    if (slot[i] == nullptr) {
      return false;
    }
    if (slot[i] == p) {
      slot[i] = (void *)1;
      live--;
      return true;
    }
  }
  return false;
}
static bool refuse() {
  long k = count++;
  if (k == second_at || (fail_at >= 0 && (k == fail_at || (and_later && k > fail_at)))) {
    refused++;
    errno = ENOMEM;
    return true;
  }
  return false;
}
static void reset(long at = -1, bool later = false) {
  count = 0;
  refused = 0;
  fail_at = at;
  and_later = later;
  if (live == 0) { // drop the tombstones
    memset(slot, 0, sizeof slot);
  }
}
} // namespace vf

extern "C" {
void *vf_malloc(size_t n) {
  if (vf::refuse()) {
    return nullptr;
  }
  void *p = malloc(n);
  if (p && vf::fill_byte >= 0) {
    memset(p, vf::fill_byte, n);
  }
  vf::track(p, n);
  return p;
}
void *vf_calloc(size_t a, size_t b) {
  if (vf::refuse()) {
    return nullptr;
  }
  void *p = calloc(a, b);
  vf::track(p, a * b);
  return p;
}
void vf_free(void *p) {
  if (!p) {
    return;
  }
  if (!vf::untrack(p)) {
    vf::bad_free = true;
  }
  free(p);
}
void *vf_realloc(void *p, size_t n) {
  if (vf::refuse()) {
    return nullptr;
  }
  size_t old = 0;
  if (p) {
    size_t i = vf::find(p);
    old = i < vf::CAP ? vf::slot_len[i] : 0;
    if (!vf::untrack(p)) {
      vf::bad_free = true;
    }
  }
  char *q = (char *)realloc(p, n);
  if (q && n > old && vf::fill_byte >= 0) {
    memset(q + old, vf::fill_byte, n - old);
  }
  vf::track(q ? q : p, q ? n : old);
  return q;
}
void *vf_reallocarray(void *p, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) {
    return nullptr;
  }
  return vf_realloc(p, n);
}
char *vf_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  char *p = (char *)vf_malloc(n);
  return p ? (char *)memcpy(p, s, n) : nullptr;
}
char *vf_strndup(const char *s, size_t k) {
  size_t n = strnlen(s, k);
  char *p = (char *)vf_malloc(n + 1);
  if (p) {
    memcpy(p, s, n);
    p[n] = 0;
  }
  return p;
}
void *vf_aligned_alloc(size_t al, size_t n) {
  if (vf::refuse()) {
    return nullptr;
  }
  void *p = aligned_alloc(al, n);
  if (p && vf::fill_byte >= 0) {
    memset(p, vf::fill_byte, n);
  }
  vf::track(p, n);
  return p;
}
int vf_posix_memalign(void **out, size_t al, size_t n) {
  if (vf::refuse()) {
    return ENOMEM;
  }
  int r = posix_memalign(out, al, n);
  if (r == 0) {
    if (vf::fill_byte >= 0) {
      memset(*out, vf::fill_byte, n);
    }
    vf::track(*out, n);
  }
  return r;
}
FILE *vf_fopen(const char *p, const char *m) {
  if (vf::refuse()) {
    return nullptr;
  }
  FILE *f = fopen(p, m);
  vf::open_files += f != nullptr;
  return f;
}
int vf_fclose(FILE *f) {
  vf::open_files--;
  return fclose(f);
}
}
