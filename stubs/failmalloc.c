/* fails the k-th allocation of the program under test, k = FAILMALLOC */
#include <stdlib.h>
#include <stddef.h>
extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
static long left = -1;
static void init(void) __attribute__((constructor));
static void init(void) { char *s = getenv("FAILMALLOC"); left = s ? atol(s) + 1 : -1; }
static int fails(void) { return left > 0 && --left == 0; }
void *malloc(size_t n) { return fails() ? NULL : __libc_malloc(n); }
void *calloc(size_t n, size_t m) { return fails() ? NULL : __libc_calloc(n, m); }
