/* Observation of the library's heap use: linked with --wrap, so only calls made by bml objects and the
 * driver come here. Every block gets guard zones and a header; fresh memory is filled with a pattern that is
 * no integer in any precision, released memory is filled with another before it is given back. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <errno.h>
#include <pthread.h>
#include "memwrap.h"
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
int __real_posix_memalign(void **, size_t, size_t);
#define G 64
#define MAGIC 0xb31c0de5a5a5f00dULL
#define DEAD 0xdeadb31cdeadb31cULL
typedef struct blk { struct blk *prev, *next; void *raw; size_t size; uint64_t magic; int lib; } blk;
static blk head = { &head, &head, 0, 0, 0, 0 };
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int lib, live, bad, badfree;
void mw_in(void) { lib = 1; }
void mw_out(void) { lib = 0; }
int mw_live(void) { return live; }
int mw_badfree(void) { return badfree; }
static blk *hdr(void *p) { return (blk *) ((char *) p - G - sizeof(blk)); }
static int guards_ok(blk *b)
{
    unsigned char *p = (unsigned char *) b + sizeof(blk);
    for (int i = 0; i < G; i++) if (p[i] != 0xbd) return 0;
    p += G + b->size;
    for (int i = 0; i < G; i++) if (p[i] != 0xbd) return 0;
    return 1;
}
static void *wrap_new(size_t n, int fill)
{
    /* layout: raw ... [blk][G][user, aligned 64][G] */
    char *raw = __real_malloc(n + sizeof(blk) + 2 * G + 64);
    if (!raw) return NULL;
    uintptr_t u = (uintptr_t) raw + sizeof(blk) + G;
    u = (u + 63) & ~(uintptr_t) 63;
    blk *b = hdr((void *) u);
    b->raw = raw; b->size = n; b->magic = MAGIC; b->lib = lib;
    memset((char *) b + sizeof(blk), 0xbd, G);
    memset((char *) u, fill, n);
    memset((char *) u + n, 0xbd, G);
    pthread_mutex_lock(&mu);
    b->next = head.next; b->prev = &head; head.next->prev = b; head.next = b;
    if (b->lib) live++;
    pthread_mutex_unlock(&mu);
    return (void *) u;
}
static int owned(void *p)
{
    /* membership without touching foreign memory */
    for (blk *b = head.next; b != &head; b = b->next)
        if ((char *) b + sizeof(blk) + G == p) return 1;
    return 0;
}
void *__wrap_malloc(size_t n) { return wrap_new(n, 0x5d); }
void *__wrap_calloc(size_t a, size_t b) { return wrap_new(a * b, 0); }
int __wrap_posix_memalign(void **o, size_t al, size_t n)
{
    if (al > 64) return __real_posix_memalign(o, al, n);
    *o = wrap_new(n, 0x5d);
    return *o ? 0 : ENOMEM;
}
extern int omp_defer_free(void *, size_t) __attribute__((weak));
static void *quar[256];
static int qi;
void __wrap_free(void *p)
{
    if (!p) return;
    pthread_mutex_lock(&mu);
    int own = owned(p);
    if (!own)
    {
        pthread_mutex_unlock(&mu);
        blk *b = hdr(p);
        if (((uintptr_t) p & 63) == 0)
            for (int i = 0; i < 256; i++)
                if (quar[i] && ((blk *) b)->raw == quar[i] && b->magic == DEAD) { badfree++; return; }
        __real_free(p);         /* from a shared library (getline, ...) */
        return;
    }
    blk *b = hdr(p);
    if (omp_defer_free && omp_defer_free(p, b->size)) { pthread_mutex_unlock(&mu); return; }
    if (!guards_ok(b)) bad++;
    b->prev->next = b->next; b->next->prev = b->prev;
    if (b->lib) live--;
    b->magic = DEAD;
    memset(p, 0xdb, b->size);
    void *old = quar[qi];
    quar[qi] = b->raw;
    qi = (qi + 1) % 256;
    pthread_mutex_unlock(&mu);
    if (old) __real_free(old);
}
void *__wrap_realloc(void *p, size_t n)
{
    if (!p) return __wrap_malloc(n);
    pthread_mutex_lock(&mu);
    int own = owned(p);
    pthread_mutex_unlock(&mu);
    if (!own) return __real_realloc(p, n);
    blk *b = hdr(p);
    int was = lib;
    lib = b->lib;
    void *q = wrap_new(n, 0x5d);
    lib = was;
    memcpy(q, p, b->size < n ? b->size : n);
    __wrap_free(p);
    return q;
}
int mw_check(void)
{
    int n = bad + badfree;
    pthread_mutex_lock(&mu);
    for (blk *b = head.next; b != &head; b = b->next)
        if (!guards_ok(b)) n++;
    pthread_mutex_unlock(&mu);
    return n;
}
