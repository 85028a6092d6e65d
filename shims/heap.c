/* Exact accounting of the C heap: every block handed out and not yet returned, and the bytes asked for. Preloaded.
 * Also the scripted entropy source. */
#include "entropy.c"
#include <malloc.h>
#include <unwind.h>
#include <stddef.h>

extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static long live, total;
static size_t bytes;
/* failure injection: the fail_at-th allocation from now on (counted from 1) of a thread that asked for it returns NULL */
static __thread long fail_at, fail_n, seen_n;

#define DEPTH 4                    /* malloc, the allocator of Python that called it, its wrapper, the caller */
struct bt { int n; void *ip[8]; };
static _Unwind_Reason_Code step(struct _Unwind_Context *c, void *a) {
  struct bt *b = a;
  b->ip[b->n++] = (void *)_Unwind_GetIP(c);
  return b->n < DEPTH ? _URC_NO_REASON : _URC_END_OF_STACK;
}
static __thread int inside;
/* does randomgen itself ask for it? directly, or through one of Python's allocation functions */
static int ours(void) {
  struct bt b = {0};
  Dl_info d;
  _Unwind_Backtrace(step, &b);
  for (int i = 0; i < b.n; i++)
    if (dladdr(b.ip[i], &d) && d.dli_fname && strstr(d.dli_fname, "/randomgen/")) return 1;
  return 0;
}
static int refuse(void) {
  if (!fail_at || inside) return 0;
  inside = 1;
  int o = ours();
  inside = 0;
  if (!o) return 0;
  seen_n++;
  if (seen_n >= fail_at && seen_n < fail_at + fail_n) { errno = ENOMEM; return 1; }
  return 0;
}
static void *in(void *p) {
  if (p) { __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&total, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&bytes, malloc_usable_size(p), __ATOMIC_RELAXED); }
  return p;
}
static void out(void *p) {
  if (p) { __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED); __atomic_sub_fetch(&bytes, malloc_usable_size(p), __ATOMIC_RELAXED); }
}
void *malloc(size_t n) { return refuse() ? NULL : in(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return refuse() ? NULL : in(__libc_calloc(a, b)); }
void free(void *p) { int e = errno; out(p); __libc_free(p); errno = e; }
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  if (refuse()) return NULL;
  size_t u = malloc_usable_size(p);
  void *q = __libc_realloc(p, n);
  if (q) { __atomic_sub_fetch(&bytes, u, __ATOMIC_RELAXED); __atomic_add_fetch(&bytes, malloc_usable_size(q), __ATOMIC_RELAXED); }
  else if (!n) { __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED); __atomic_sub_fetch(&bytes, u, __ATOMIC_RELAXED); }
  return q;
}
void *memalign(size_t a, size_t n) { return refuse() ? NULL : in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return refuse() ? NULL : in(__libc_memalign(a, n)); }
int posix_memalign(void **r, size_t a, size_t n) {
  if (refuse()) return ENOMEM;
  void *p = in(__libc_memalign(a, n));
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}
/* out: live blocks, bytes, blocks ever */
void vp_heap(long *o) { o[0] = live; o[1] = (long)bytes; o[2] = total; }
void vp_fail(long at, long n) { fail_at = at; fail_n = n; seen_n = 0; }
long vp_fail_end(void) { long s = seen_n; fail_at = 0; return s; }
