// malloc and realloc of the program under test: fresh memory has known,
// unfavourable contents instead of whatever the heap happens to hold
#include <cstdlib>
#include <cstring>
#include <malloc.h>
int g_fill = 0x5b; // negative: off
static const size_t LIM = 1 << 20; // larger blocks come zeroed from the system and stay untouched
extern "C" {
void *__real_malloc(size_t); void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p && g_fill >= 0 && n <= LIM) memset(p, g_fill, n); return p; }
void *__wrap_realloc(void *q, size_t n) {
    size_t o = q ? malloc_usable_size(q) : 0;
    void *p = __real_realloc(q, n);
    if (p && g_fill >= 0 && n > o && n - o <= LIM) memset((char *)p + o, g_fill, n - o);
    return p;
}
}
