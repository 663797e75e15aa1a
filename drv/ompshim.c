/* A controlled OpenMP runtime. The library is compiled with -fopenmp -fsanitize=thread and linked with this file instead
 * of libgomp and the sanitizer's runtime: the threads of a team are coroutines of one process, every instrumented memory
 * access is a possible switching point, and the schedule follows from a seed. For every parallel region the accesses that
 * different threads make to the same bytes are recorded with the barrier phase and the locks held; the specification
 * (spec/Omp.tla) decides whether they are ordered in every schedule. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include "memwrap.h"
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
void __real_exit(int);

#define MAXT 16
#define STACK (1 << 20)
enum { RUN, BARRIER, BLOCKED, DONE };
typedef struct { ucontext_t uc; char *stack; int st; void *lock; int nheld; void *held[32]; int single, loopno; } fib;
static fib F[MAXT];
static ucontext_t sched;
static int team = 1, cur = 0, region = 0, nthreads = 2, epoch = 0, mode = 0, in_hook = 0, nested = 0;
static uint64_t rng = 88172645463325252ull;
static uint32_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (uint32_t) (rng >> 16); }
static void (*entry_fn)(void *);
static void *entry_data;

/* ---- recorded accesses */
typedef struct acc { struct acc *next; uint16_t epoch; uint8_t tid, mask, w, at; int ls; } acc;
typedef struct gran { struct gran *next; uintptr_t g; acc *first, **tail; int multi; } gran;
#define HB (1 << 16)
static gran *tab[HB];
static int *lset[4096];                         /* interned lock sets: count, ids... */
static int nlset;
static void *lockid[65536];
static int nlock;
static char *pool; static size_t poolused, poolcap;
typedef struct chunk { struct chunk *next; } chunk;
static chunk *chunks;
static void *grab(size_t n)
{
    n = (n + 15) & ~(size_t) 15;
    if (poolused + n > poolcap)
    {
        poolcap = 1 << 20;
        chunk *c = __real_malloc(poolcap + sizeof(chunk) + 16);
        c->next = chunks;
        chunks = c;
        pool = (char *) c + 16;
        poolused = 0;
    }
    void *p = pool + poolused;
    poolused += n;
    return p;
}
static int lock_no(void *l)
{
    for (int k = 0; k < nlock; k++) if (lockid[k] == l) return k + 1;
    if (nlock < 65536) lockid[nlock++] = l;
    return nlock;
}
static int lockset(void)
{
    fib *f = &F[cur];
    int s[33], n = 0;
    for (int k = 0; k < f->nheld; k++) s[n++] = lock_no(f->held[k]);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (s[j] < s[i]) { int t = s[i]; s[i] = s[j]; s[j] = t; }
    for (int k = 0; k < nlset; k++)
        if (lset[k][0] == n && !memcmp(lset[k] + 1, s, n * sizeof(int))) return k;
    if (nlset == 4096) return 0;
    lset[nlset] = __real_malloc((n + 1) * sizeof(int));
    lset[nlset][0] = n;
    memcpy(lset[nlset] + 1, s, n * sizeof(int));
    return nlset++;
}
static long nacc;
static void record1(uintptr_t g, int mask, int w, int at, int ls)
{
    gran **b = &tab[(g * 0x9E3779B97F4A7C15ull) >> 48];
    gran *x;
    for (x = *b; x; x = x->next) if (x->g == g) break;
    if (!x)
    {
        x = grab(sizeof *x);
        x->g = g; x->first = NULL; x->tail = &x->first; x->multi = 0; x->next = *b;
        *b = x;
    }
    for (acc *a = x->first; a; a = a->next)
        if (a->tid == cur && a->epoch == epoch && a->w == w && a->at == at && a->ls == ls && (a->mask & mask) == mask) return;
    if (x->first && x->first->tid != cur) x->multi = 1;
    acc *a = grab(sizeof *a);
    a->next = NULL; a->epoch = epoch; a->tid = cur; a->mask = mask; a->w = w; a->at = at; a->ls = ls;
    *x->tail = a;
    x->tail = &a->next;
    nacc++;
}
static void yield_(void) { swapcontext(&F[cur].uc, &sched); }
static int noyield;
static void access_(const void *p, size_t n, int w, int at)
{
    if (!region || nested) return;
    if (team > 1)
    {
        uintptr_t a = (uintptr_t) p, e = a + n;
        /* a thread's own stack */
        if (!(a >= (uintptr_t) F[cur].stack && e <= (uintptr_t) F[cur].stack + STACK))
        {
            int ls = F[cur].nheld ? lockset() : -1;
            while (a < e)
            {
                uintptr_t g = a >> 3;
                int lo = a & 7, hi = e - (g << 3) > 8 ? 8 : (int) (e - (g << 3));
                record1(g, ((1 << hi) - 1) & ~((1 << lo) - 1), w, at, ls);
                a = (g + 1) << 3;
            }
            if (mode >= 2 && !noyield && (mode == 2 ? rnd() % 2 == 0 : mode == 3 ? rnd() % 16 == 0 : rnd() % 128 == 0)) yield_();
        }
    }
}

/* ---- region log */
static FILE *olog;
extern int drv_trace_id(void);
extern const char *drv_cur_op(void);
static int is_conflict(gran *x)
{
    for (acc *a = x->first; a; a = a->next)
        for (acc *b = a->next; b; b = b->next)
            if (a->tid != b->tid && (a->mask & b->mask) && (a->w || b->w)) return 1;
    return 0;
}
static void flush_region(int n)
{
    static char *lines[65536];
    int nl = 0;
    long locs = 0;
    if (!olog)
    {
        const char *f = getenv("DRV_OMPLOG");
        if (f) olog = fopen(f, "a");
    }
    for (int h = 0; h < HB; h++)
    {
        for (gran *x = tab[h]; x; x = x->next)
        {
            locs++;
            if (!x->multi || !is_conflict(x)) continue;
            char buf[8192];
            int w = 0, map[64], nm = 0;
            for (acc *a = x->first; a && w < 7800; a = a->next)
            {
                w += sprintf(buf + w, "%s[%d,%d,%d,%d,%d", w ? "," : "", a->tid, a->epoch, a->w, a->at, a->mask);
                if (a->ls >= 0)
                    for (int k = 1; k <= lset[a->ls][0]; k++)
                    {
                        int q = 0;
                        while (q < nm && map[q] != lset[a->ls][k]) q++;
                        if (q == nm && nm < 64) map[nm++] = lset[a->ls][k];
                        w += sprintf(buf + w, ",%d", q + 1);
                    }
                w += sprintf(buf + w, "]");
            }
            int dup = 0;
            for (int k = 0; k < nl && !dup; k++) dup = !strcmp(lines[k], buf);
            if (!dup && nl < 200)
            {
                lines[nl] = __real_malloc(w + 1);
                memcpy(lines[nl++], buf, w + 1);
            }
        }
        tab[h] = NULL;
    }
    if (olog)
    {
        fprintf(olog, "{\"t\":%d,\"op\":\"%s\",\"nt\":%d,\"ep\":%d,\"mode\":%d,\"bytes\":%ld,\"loc\":[", drv_trace_id(), drv_cur_op(), n, epoch, mode, locs);
        for (int k = 0; k < nl; k++) fprintf(olog, "%s[%s]", k ? "," : "", lines[k]);
        fprintf(olog, "]}\n");
        fflush(olog);
    }
    for (int k = 0; k < nl; k++) __real_free(lines[k]);
    while (chunks) { chunk *c = chunks->next; __real_free(chunks); chunks = c; }
    poolused = poolcap = 0;
    for (int k = 0; k < nlset; k++) __real_free(lset[k]);
    nlset = nlock = 0;
}

/* ---- memory released inside a region is given back when the region ends */
static void *later[1 << 16];
static int nlater;
int omp_defer_free(void *p, size_t n)
{
    if (!region || nlater == 1 << 16) return 0;
    for (int k = 0; k < nlater; k++) if (later[k] == p) return 0;       /* released twice */
    noyield = 1;
    access_(p, n, 1, 0);
    noyield = 0;
    later[nlater++] = p;
    return 1;
}

/* ---- teams */
static void boot(void)
{
    entry_fn(entry_data);
    F[cur].st = DONE;
    swapcontext(&F[cur].uc, &sched);
}
void omp_seed(unsigned s) { rng = 88172645463325252ull ^ ((uint64_t) s * 0x9E3779B97F4A7C15ull); rnd(); rnd(); }
static int loop_lo, loop_next, loop_gen, single_gen;
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned flags)
{
    (void) flags;
    if (region)
    {
        nested++;
        int t = team, c = cur;
        fib keep = F[cur];
        fn(data);
        (void) t; (void) c; (void) keep;
        nested--;
        return;
    }
    int n = nt ? (int) nt : nthreads;
    if (n > MAXT) n = MAXT;
    if (n < 1) n = 1;
    team = n; epoch = 0; region = 1; loop_gen = single_gen = 0;
    entry_fn = fn; entry_data = data;
    mode = rnd() % 5;
    for (int k = 0; k < n; k++)
    {
        if (!F[k].stack) F[k].stack = __real_malloc(STACK);
        memset(F[k].stack + STACK - 65536, 0x5d, 65536);
        getcontext(&F[k].uc);
        F[k].uc.uc_stack.ss_sp = F[k].stack;
        F[k].uc.uc_stack.ss_size = STACK;
        F[k].uc.uc_link = NULL;
        F[k].st = RUN; F[k].nheld = 0; F[k].lock = NULL; F[k].single = F[k].loopno = 0;
        makecontext(&F[k].uc, boot, 0);
    }
    for (;;)
    {
        int cand[MAXT], nc = 0, waiting = 0, blocked = 0;
        for (int k = 0; k < n; k++)
        {
            if (F[k].st == BLOCKED && *(int *) F[k].lock == 0) F[k].st = RUN;
            if (F[k].st == RUN) cand[nc++] = k;
            else if (F[k].st == BARRIER) waiting++;
            else if (F[k].st == BLOCKED) blocked++;
        }
        if (!nc)
        {
            if (blocked) abort();                       /* every thread waits for a lock */
            if (!waiting) break;
            epoch++;
            for (int k = 0; k < n; k++) if (F[k].st == BARRIER) F[k].st = RUN;
            continue;
        }
        cur = mode == 0 ? cand[0] : mode == 1 ? cand[nc - 1] : cand[rnd() % nc];
        swapcontext(&sched, &F[cur].uc);
    }
    region = 0;
    cur = 0;
    if (team > 1) flush_region(n);
    else { memset(tab, 0, sizeof tab); }
    team = 1;
    for (int k = 0; k < nlater; k++) free(later[k]);
    nlater = 0;
}
void GOMP_barrier(void)
{
    if (!region || nested || team == 1) return;
    F[cur].st = BARRIER;
    yield_();
}
static void acquire(void *l)
{
    int *o = l;                 /* omp_lock_t has 4 bytes */
    if (!region || nested) return;
    while (*o)
    {
        F[cur].st = BLOCKED;
        F[cur].lock = l;
        yield_();
    }
    *o = cur + 1;
    if (F[cur].nheld < 32) F[cur].held[F[cur].nheld++] = l;
    if (mode >= 2 && rnd() % 2) yield_();
}
static void release(void *l)
{
    int *o = l;
    if (!region || nested) return;
    *o = 0;
    for (int k = 0; k < F[cur].nheld; k++)
        if (F[cur].held[k] == l) { F[cur].held[k] = F[cur].held[--F[cur].nheld]; break; }
    if (mode >= 2 && rnd() % 2) yield_();
}
static void *l_atomic, *l_crit;
void GOMP_atomic_start(void) { acquire(&l_atomic); }
void GOMP_atomic_end(void) { release(&l_atomic); }
void GOMP_critical_start(void) { acquire(&l_crit); }
void GOMP_critical_end(void) { release(&l_crit); }
void GOMP_critical_name_start(void **p) { acquire(p); }
void GOMP_critical_name_end(void **p) { release(p); }
void GOMP_ordered_start(void) { acquire(&l_crit); }
void GOMP_ordered_end(void) { release(&l_crit); }
void omp_init_lock(void *l) { *(int *) l = 0; }
void omp_destroy_lock(void *l) { (void) l; }
void omp_set_lock(void *l) { acquire(l); }
void omp_unset_lock(void *l) { release(l); }
int omp_test_lock(void *l) { if (region && !nested && *(int *) l) return 0; acquire(l); return 1; }
int omp_get_thread_num(void) { return region && !nested ? cur : 0; }
int omp_get_num_threads(void) { return region && !nested ? team : 1; }
int omp_get_max_threads(void) { return nthreads; }
void omp_set_num_threads(int n) { nthreads = n; }
int omp_in_parallel(void) { return region; }
int omp_get_num_procs(void) { return 8; }
int omp_get_level(void) { return region + nested; }
int omp_get_default_device(void) { return 0; }
int omp_get_initial_device(void) { return 0; }
double omp_get_wtime(void) { return 0; }
/* work sharing with run-time schedules: iterations are handed out in pieces, in the order in which threads ask */
static struct { int gen; long next, end, incr, chunk; } L[64];
static int loop_open(long a, long b, long inc, long ch, long *s, long *e);
static int loop_take(int k, long *s, long *e)
{
    if (L[k].incr > 0 ? L[k].next >= L[k].end : L[k].next <= L[k].end) return 0;
    long last = L[k].next + L[k].chunk * L[k].incr;
    if (L[k].incr > 0 ? last > L[k].end : last < L[k].end) last = L[k].end;
    *s = L[k].next; *e = last;
    L[k].next = last;
    if (mode >= 2 && rnd() % 2) yield_();
    return 1;
}
static int loop_open(long a, long b, long inc, long ch, long *s, long *e)
{
    int g = nested ? 0 : ++F[cur].loopno;
    int k = g % 64;
    if (L[k].gen != g || g > loop_gen || nested)
    {
        loop_gen = g;
        L[k].gen = g; L[k].next = a; L[k].end = b; L[k].incr = inc; L[k].chunk = ch > 0 ? ch : 1;
    }
    return loop_take(k, s, e);
}
static int loop_more(long *s, long *e) { return loop_take(nested ? 0 : F[cur].loopno % 64, s, e); }
#define LOOP(x) \
    int GOMP_loop_##x##_start(long a, long b, long i, long c, long *s, long *e) { return loop_open(a, b, i, c, s, e); } \
    int GOMP_loop_##x##_next(long *s, long *e) { return loop_more(s, e); }
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
int GOMP_loop_runtime_start(long a, long b, long i, long *s, long *e) { return loop_open(a, b, i, 1, s, e); }
int GOMP_loop_runtime_next(long *s, long *e) { return loop_more(s, e); }
int GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) { return loop_open(a, b, i, 1, s, e); }
int GOMP_loop_maybe_nonmonotonic_runtime_next(long *s, long *e) { return loop_more(s, e); }
int GOMP_loop_nonmonotonic_runtime_start(long a, long b, long i, long *s, long *e) { return loop_open(a, b, i, 1, s, e); }
int GOMP_loop_nonmonotonic_runtime_next(long *s, long *e) { return loop_more(s, e); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { }
#define PLOOP(x) void GOMP_parallel_loop_##x(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, long c, unsigned fl) \
    { L[1].gen = 1; L[1].next = a; L[1].end = b; L[1].incr = i; L[1].chunk = c > 0 ? c : 1; pl_fn = fn; pl_data = d; GOMP_parallel(pl_run, d, nt, fl); }
static void (*pl_fn)(void *);
static void *pl_data;
static void pl_run(void *d) { (void) d; F[cur].loopno = 1; loop_gen = 1; pl_fn(pl_data); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, unsigned fl) { GOMP_parallel_loop_dynamic(fn, d, nt, a, b, i, 1, fl); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned nt, long a, long b, long i, unsigned fl) { GOMP_parallel_loop_dynamic(fn, d, nt, a, b, i, 1, fl); }
int GOMP_single_start(void)
{
    if (nested || !region) return 1;
    int g = ++F[cur].single;
    if (g > single_gen) { single_gen = g; return 1; }
    return 0;
}
static int sect_next, sect_n;
unsigned GOMP_sections_start(unsigned n)
{
    int g = nested ? 0 : ++F[cur].single;
    if (nested || g > single_gen) { single_gen = g; sect_next = 0; sect_n = n; }
    return sect_next < sect_n ? ++sect_next : 0;
}
unsigned GOMP_sections_next(void) { return sect_next < sect_n ? ++sect_next : 0; }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) { }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, char ifc, unsigned fl, void **dep, int pr)
{
    char buf[sz + al + 1];
    char *p = (char *) (((uintptr_t) buf + al - 1) & ~(uintptr_t) (al - 1));
    if (cpy) cpy(p, data); else memcpy(p, data, sz);
    fn(p);
}
void GOMP_taskwait(void) { }

/* ---- instrumentation */
void __tsan_init(void) { }
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) { }
void __tsan_vptr_update(void **a, void *b) { (void) a; (void) b; }
void __tsan_vptr_read(void **a) { (void) a; }
#define RW(n) \
    void __tsan_read##n(void *p) { access_(p, n, 0, 0); } \
    void __tsan_write##n(void *p) { access_(p, n, 1, 0); } \
    void __tsan_unaligned_read##n(void *p) { access_(p, n, 0, 0); } \
    void __tsan_unaligned_write##n(void *p) { access_(p, n, 1, 0); } \
    void __tsan_volatile_read##n(void *p) { access_(p, n, 0, 0); } \
    void __tsan_volatile_write##n(void *p) { access_(p, n, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { access_(p, n, 0, 0); }
void __tsan_write_range(void *p, long n) { access_(p, n, 1, 0); }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *p, int m) { access_((void *) p, sizeof(T), 0, 1); return *p; } \
    void __tsan_atomic##b##_store(volatile T *p, T v, int m) { access_((void *) p, sizeof(T), 1, 1); *p = v; } \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int m) { access_((void *) p, sizeof(T), 1, 1); T o = *p; *p = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int m) { access_((void *) p, sizeof(T), 1, 1); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int m) { access_((void *) p, sizeof(T), 1, 1); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int m) { access_((void *) p, sizeof(T), 1, 1); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int m) { access_((void *) p, sizeof(T), 1, 1); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int m) { access_((void *) p, sizeof(T), 1, 1); T o = *p; *p = o ^ v; return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int m, int n) { access_((void *) p, sizeof(T), 1, 1); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int m, int n) { access_((void *) p, sizeof(T), 1, 1); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T e, T v, int m, int n) { access_((void *) p, sizeof(T), 1, 1); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void) m; }
void __tsan_atomic_signal_fence(int m) { (void) m; }

/* ---- bulk memory functions called by the library (its objects are linked with these names) */
void *omps_memcpy(void *d, const void *s, size_t n) { access_(s, n, 0, 0); access_(d, n, 1, 0); return memcpy(d, s, n); }
void *omps_memmove(void *d, const void *s, size_t n) { access_(s, n, 0, 0); access_(d, n, 1, 0); return memmove(d, s, n); }
void *omps_memset(void *d, int c, size_t n) { access_(d, n, 1, 0); return memset(d, c, n); }
