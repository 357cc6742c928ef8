/* Counts the live memory blocks of the linked objects (linked with -Wl,--wrap for the allocation functions; operator new is not affected). */
#include <cstdlib>
#include <cstring>
static long liveBlocks = 0;
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) liveBlocks++; return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); if (p) liveBlocks++; return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); if (p && !q) liveBlocks++; return p; }
void __wrap_free(void *p) { if (p) liveBlocks--; __real_free(p); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
}
