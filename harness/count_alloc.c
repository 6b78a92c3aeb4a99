/* Linked into the application: counts the blocks that the program never released and the files
   it never closed, and writes the numbers into the file named by VH_LIVE when it exits. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); char *__real_strdup(const char *);
#define HB (1 << 18)
static void *blk[HB];
static long live;
static unsigned char had[256];
__attribute__((constructor)) static void start(void) { for (int d = 0; d < 256; d++) had[d] = fcntl(d, F_GETFD) != -1; }
static void mark(void *p) { if (!p) return; size_t h = ((size_t)p >> 4) % HB, k = 0; while (blk[h] && blk[h] != (void *)1 && k++ < HB) h = (h + 1) % HB; blk[h] = p; live++; }
static int unmark(void *p)
{
    size_t h = ((size_t)p >> 4) % HB, k = 0;
    while (blk[h] && k++ < HB) { if (blk[h] == p) { blk[h] = blk[(h + 1) % HB] ? (void *)1 : NULL; live--; return 1; } h = (h + 1) % HB; }
    return 0;
}
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); mark(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); mark(p); return p; }
void *__wrap_realloc(void *q, size_t n) { int was = q ? unmark(q) : 1; void *p = __real_realloc(q, n); if (was) mark(p ? p : q); return p; }
char *__wrap_strdup(const char *s) { char *p = __real_strdup(s); mark(p); return p; }
void __wrap_free(void *p) { if (p) unmark(p); __real_free(p); }
__attribute__((destructor)) static void report(void)
{
    const char *fn = getenv("VH_LIVE");
    char s[64];
    int open_ = 0;
    if (!fn) return;
    for (int d = 3; d < 256; d++) if (!had[d] && fcntl(d, F_GETFD) != -1) open_++;
    int f = open(fn, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (f < 0) return;
    if (write(f, s, snprintf(s, sizeof s, "%ld %d\n", live, open_)) < 0) {}
    close(f);
}
