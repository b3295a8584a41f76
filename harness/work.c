/* counts the work of the library: the build has every basic block of it report here,
   and renames the functions that move or compare memory to these */
#include <stddef.h>
#include <string.h>
#define PLAIN __attribute__((no_sanitize_coverage))
long vf_work; int vf_work_on;
PLAIN void __sanitizer_cov_trace_pc(void) { if (vf_work_on) vf_work++; }
PLAIN static void bytes(size_t n) { if (vf_work_on) vf_work += 1 + (long)(n / 16); }
PLAIN void *vf_memcpy(void *d, const void *s, size_t n) { bytes(n); return memcpy(d, s, n); }
PLAIN void *vf_memmove(void *d, const void *s, size_t n) { bytes(n); return memmove(d, s, n); }
PLAIN void *vf_memset(void *d, int c, size_t n) { bytes(n); return memset(d, c, n); }
PLAIN void *vf_memchr(const void *d, int c, size_t n) { bytes(n); return memchr(d, c, n); }
PLAIN int vf_memcmp(const void *a, const void *b, size_t n) { bytes(n); return memcmp(a, b, n); }
