// Linked into the tool under test: lets a chosen allocation fail.
// FCVERIF_FD: shared page {count, fail_at, and_later, failed}
#include <errno.h>
#include <stddef.h>
#include <stdlib.h>
#include <sys/mman.h>
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void __libc_free(void *);
static volatile long *ctl;
static int refuse(void) {
  if (!ctl) {
    return 0;
  }
  long k = ctl[0]++;
  if (ctl[1] >= 0 && (k == ctl[1] || (ctl[2] && k > ctl[1]))) {
    ctl[3]++;
    errno = ENOMEM;
    return 1;
  }
  return 0;
}
void *malloc(size_t n) { return refuse() ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return refuse() ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return refuse() ? NULL : __libc_realloc(p, n); }
void free(void *p) { __libc_free(p); }
__attribute__((constructor)) static void init(void) {
  const char *e = getenv("FCVERIF_FD");
  if (e) {
    void *p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, atoi(e), 0);
    if (p != MAP_FAILED) {
      ctl = p;
    }
  }
}
