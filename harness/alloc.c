/* counts the library's live allocations and the bytes they hold: the build renames
   malloc and friends in the library's objects to these */
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
/* the vf_failat-th allocation from now on fails (with vf_fails > 1 so many of them in a row), 0: none;
   the number of failures so far is counted where vf_failp points */
long vf_failat, vf_fails = 1; static long nfail; long *vf_failp = &nfail;
static int refuse(void)
{
    if (!vf_failat) return 0;
    if (vf_failat > 1) { vf_failat--; return 0; }
    if (--vf_fails <= 0) vf_failat = 0;
    ++*vf_failp; errno = ENOMEM; return 1;
}
/* for programs that cannot be told otherwise */
__attribute__((constructor)) static void setup(void)
{
    const char *e = getenv("VF_FAILAT");
    if (e) { vf_failat = atol(e); e = getenv("VF_FAILS"); vf_fails = e ? atol(e) : 1; }
}
long vf_live, vf_bytes, vf_peak;
static void add(long n)
{
    long b = __atomic_add_fetch(&vf_bytes, n, __ATOMIC_RELAXED), p = __atomic_load_n(&vf_peak, __ATOMIC_RELAXED);
    while (b > p && !__atomic_compare_exchange_n(&vf_peak, &p, b, 1, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) ;
}
static void *up(void *p) { if (p) { __atomic_add_fetch(&vf_live, 1, __ATOMIC_RELAXED); add((long)malloc_usable_size(p)); } return p; }
void *vf_malloc(size_t n) { return refuse() ? NULL : up(malloc(n)); }
void *vf_calloc(size_t n, size_t m) { return refuse() ? NULL : up(calloc(n, m)); }
void vf_free(void *p) { if (p) { __atomic_sub_fetch(&vf_live, 1, __ATOMIC_RELAXED); add(-(long)malloc_usable_size(p)); } free(p); }
void *vf_realloc(void *q, size_t n)
{
    if (!q) return vf_malloc(n);
    if (n && refuse()) return NULL;
    long old = (long)malloc_usable_size(q);
    void *p = realloc(q, n);
    if (p) add((long)malloc_usable_size(p) - old);
    else if (!n) { __atomic_sub_fetch(&vf_live, 1, __ATOMIC_RELAXED); add(-old); }
    return p;
}
char *vf_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = vf_malloc(n); return p ? memcpy(p, s, n) : NULL; }
void *vf_aligned_alloc(size_t a, size_t n) { return refuse() ? NULL : up(aligned_alloc(a, n)); }
int vf_posix_memalign(void **q, size_t a, size_t n) { if (refuse()) return ENOMEM; int r = posix_memalign(q, a, n); if (!r) up(*q); return r; }
