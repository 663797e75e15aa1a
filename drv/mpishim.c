/* A message layer under control of a scheduler. Every rank is a process; a coordinator process owns all messages and
 * decides, from a seed, which enabled step happens next. A send completes only when its message is received (no buffering),
 * or any time (buffering), as the schedule says; data of a non-blocking send may be read as late as its completion;
 * data of a non-blocking receive is written at its completion; collective calls leave only when everyone arrived.
 * What cannot go on is reported as a deadlock, what the standard forbids as erroneous use. */
#define _GNU_SOURCE
#include <mpi.h>
#include <complex.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <poll.h>
#include "mpishim.h"
#undef I
void *__real_malloc(size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
static void *xm(size_t n) { void *p = __real_malloc(n ? n : 1); memset(p, 0, n ? n : 1); return p; }

enum { SEND = 1, RECV, ISEND, IRECV, PAYLOAD, WAIT, COLL, FIN };
typedef struct
{
    int op, comm, peer, tag, rid, len, cap, call, nreq, late;
    char sig[112];              /* type signature; for collectives: kind, root, operation, signature */
    int nmem, mem[36];
} req_t;

/* ------------------------------------------------------------------ rank side */
typedef struct cm { int id, size, rank, mem[36], dims[2], cart; } cm;
typedef struct ty { int n, cnt[8]; MPI_Aint disp[8]; char c[8]; int size[8]; } ty;
typedef struct rq { int rid, recv; void *buf; int late, count; MPI_Datatype dt; } rq;
static int fd = -1, myr, nr, late_, nlive, nextrid = 1;
static cm world;
static char *stage;

int mpi_live(void) { return nlive; }
void mpi_live_reset(void) { nlive = 0; }
static void die(const char *m)
{
    (void) !write(fd, "", 0);
    fprintf(stderr, "mpishim: %s\n", m);
    _exit(77);
}
static void wr(int f, const void *p, size_t n)
{
    while (n)
    {
        ssize_t k = write(f, p, n);
        if (k <= 0) { if (k < 0 && errno == EINTR) continue; if (fd < 0) return; _exit(78); }
        p = (const char *) p + k;
        n -= k;
    }
}
static int rd(int f, void *p, size_t n)
{
    while (n)
    {
        ssize_t k = read(f, p, n);
        if (k <= 0) { if (k < 0 && errno == EINTR) continue; return 0; }
        p = (char *) p + k;
        n -= k;
    }
    return 1;
}
static void get(void *p, size_t n) { if (!rd(fd, p, n)) _exit(79); }

static char tchar(MPI_Datatype t)
{
    return t == MPI_INT ? 'I' : t == MPI_FLOAT ? 'F' : t == MPI_DOUBLE ? 'D' : t == MPI_C_FLOAT_COMPLEX ? 'C' : t == MPI_C_DOUBLE_COMPLEX ? 'Z' : t == MPI_CHAR || t == MPI_BYTE ? 'B' : 0;
}
static int tsize(char c) { return c == 'I' || c == 'F' ? 4 : c == 'D' || c == 'C' ? 8 : c == 'Z' ? 16 : 1; }
static int bytes(MPI_Datatype t, int count)
{
    char c = tchar(t);
    if (c) return tsize(c) * count;
    ty *s = (ty *) t;
    int n = 0;
    for (int k = 0; k < s->n; k++) n += s->cnt[k] * s->size[k];
    return n * count;
}
static void sig(char *out, MPI_Datatype t, int count)
{
    char c = tchar(t);
    *out = 0;
    if (c) { if (count) sprintf(out, "%c%d", c, count); return; }
    ty *s = (ty *) t;
    char last = 0;
    int run = 0;
    for (int q = 0; q < count; q++)
        for (int k = 0; k < s->n; k++)
        {
            if (!s->cnt[k]) continue;
            if (s->c[k] == last) { run += s->cnt[k]; continue; }
            if (last) out += sprintf(out, "%c%d", last, run);
            last = s->c[k];
            run = s->cnt[k];
        }
    if (last) sprintf(out, "%c%d", last, run);
}
static void pack(char *o, const void *b, MPI_Datatype t, int count)
{
    if (tchar(t)) { memcpy(o, b, bytes(t, count)); return; }
    ty *s = (ty *) t;
    for (int q = 0; q < count; q++)
        for (int k = 0; k < s->n; k++) { memcpy(o, (const char *) b + s->disp[k], s->cnt[k] * s->size[k]); o += s->cnt[k] * s->size[k]; }
}
static void unpack(const char *o, void *b, MPI_Datatype t, int count, int len)
{
    if (tchar(t)) { memcpy(b, o, len); return; }
    ty *s = (ty *) t;
    for (int q = 0; q < count; q++)
        for (int k = 0; k < s->n && len > 0; k++)
        {
            int z = s->cnt[k] * s->size[k];
            if (z > len) z = len;
            memcpy((char *) b + s->disp[k], o, z);
            o += z;
            len -= z;
        }
}
static cm *C(MPI_Comm c)
{
    if (c == MPI_COMM_WORLD) return &world;
    if (c == MPI_COMM_NULL || !c) die("null communicator");
    cm *x = (cm *) c;
    if (x->id <= 0) die("released communicator");
    return x;
}
static int glob(cm *c, int r) { if (r < 0 || r >= c->size) die("rank outside the communicator"); return c->mem[r]; }

static int solo_;
void mpi_rank_start(int rank, int nranks, int f, int late, int solo)
{
    solo_ = solo;
    fd = f; myr = rank; nr = nranks; late_ = late;
    world.id = 1; world.size = nranks; world.rank = rank;
    for (int k = 0; k < nranks; k++) world.mem[k] = k;
}
static void newreq(req_t *r, int op) { memset(r, 0, sizeof *r); r->op = op; r->call = drv_line; }
void mpi_rank_done(void) { req_t r; newreq(&r, FIN); wr(fd, &r, sizeof r); }

static void post(int op, const void *b, int count, MPI_Datatype t, int peer, int tag, MPI_Comm c, int rid, int withdata)
{
    req_t r;
    newreq(&r, op);
    cm *x = C(c);
    r.comm = x->id;
    r.peer = peer == MPI_ANY_SOURCE ? -1 : glob(x, peer);
    r.tag = tag;
    r.rid = rid;
    r.cap = bytes(t, count);
    r.len = withdata ? r.cap : 0;
    r.late = !withdata;
    if (count < 0) die("negative count");
    sig(r.sig, t, count);
    wr(fd, &r, sizeof r);
    if (withdata)
    {
        char *p = xm(r.len);
        pack(p, b, t, count);
        wr(fd, p, r.len);
        __real_free(p);
    }
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
    if (dst == MPI_PROC_NULL) return MPI_SUCCESS;
    post(SEND, b, n, t, dst, tag, c, 0, 1);
    int k;
    get(&k, 4);
    return MPI_SUCCESS;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *st)
{
    if (src == MPI_PROC_NULL) return MPI_SUCCESS;
    post(RECV, NULL, n, t, src, tag, c, 0, 0);
    int h[3];
    get(h, 12);
    char *p = xm(h[0]);
    get(p, h[0]);
    unpack(p, b, t, n, h[0]);
    __real_free(p);
    if (st != MPI_STATUS_IGNORE) { st->MPI_SOURCE = h[1]; st->MPI_TAG = h[2]; st->MPI_ERROR = MPI_SUCCESS; }
    return MPI_SUCCESS;
}
static MPI_Datatype keep(MPI_Datatype t)        /* a type may be released while a request uses it */
{
    if (tchar(t)) return t;
    ty *s = xm(sizeof(ty));
    *s = *(ty *) t;
    return (MPI_Datatype) s;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *q)
{
    rq *r = xm(sizeof *r);
    r->rid = nextrid++; r->buf = (void *) b; r->late = late_; r->dt = keep(t); r->count = n;
    nlive++;
    *q = (MPI_Request) r;
    post(ISEND, b, n, t, dst, tag, c, r->rid, !late_);
    return MPI_SUCCESS;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *q)
{
    rq *r = xm(sizeof *r);
    r->rid = nextrid++; r->buf = b; r->recv = 1; r->dt = keep(t); r->count = n;
    nlive++;
    *q = (MPI_Request) r;
    post(IRECV, NULL, n, t, src, tag, c, r->rid, 0);
    return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *st)
{
    req_t r;
    newreq(&r, WAIT);
    for (int k = 0; k < n; k++)
    {
        if (q[k] == MPI_REQUEST_NULL) continue;
        rq *x = (rq *) q[k];
        if (r.nmem >= 36) die("too many requests");
        r.mem[r.nmem++] = x->rid;
        if (!x->recv && x->late)
        {
            req_t p;
            newreq(&p, PAYLOAD);
            p.rid = x->rid;
            p.len = bytes(x->dt, x->count);
            wr(fd, &p, sizeof p);
            char *d = xm(p.len);
            pack(d, x->buf, x->dt, x->count);
            wr(fd, d, p.len);
            __real_free(d);
        }
    }
    wr(fd, &r, sizeof r);
    for (int k = 0; k < n; k++)
    {
        if (q[k] == MPI_REQUEST_NULL) continue;
        rq *x = (rq *) q[k];
        int h[3];
        get(h, 12);
        if (x->recv)
        {
            char *p = xm(h[0]);
            get(p, h[0]);
            unpack(p, x->buf, x->dt, x->count, h[0]);
            __real_free(p);
        }
        if (st != MPI_STATUSES_IGNORE) { st[k].MPI_SOURCE = h[1]; st[k].MPI_TAG = h[2]; st[k].MPI_ERROR = MPI_SUCCESS; }
        q[k] = MPI_REQUEST_NULL;
        nlive--;
    }
    return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request *q, MPI_Status *st) { return MPI_Waitall(1, q, st); }

/* every member gives a block of bytes and gets everybody's */
static char *exchange(cm *c, const char *what, const void *b, int len, int *lens, int *newid)
{
    req_t r;
    if (solo_)
    {
        char *p = xm((size_t) len * c->size);
        for (int k = 0; k < c->size; k++) { lens[k] = len; memcpy(p + (size_t) k * len, b, len); }
        if (newid) *newid = nextrid += 100;
        return p;
    }
    newreq(&r, COLL);
    r.comm = c->id;
    r.nmem = c->size;
    memcpy(r.mem, c->mem, sizeof r.mem);
    r.len = len;
    snprintf(r.sig, sizeof r.sig, "%s", what);
    wr(fd, &r, sizeof r);
    wr(fd, b, len);
    int id, tot = 0;
    get(&id, 4);
    if (newid) *newid = id;
    get(lens, 4 * c->size);
    for (int k = 0; k < c->size; k++) tot += lens[k];
    char *p = xm(tot);
    get(p, tot);
    return p;
}
int MPI_Init(int *a, char ***b) { (void) a; (void) b; return MPI_SUCCESS; }
int MPI_Finalize(void) { return MPI_SUCCESS; }
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = C(c)->rank; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int *r) { *r = C(c)->size; return MPI_SUCCESS; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { (void) f; return MPI_COMM_WORLD; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { (void) c; return 0; }
int MPI_Barrier(MPI_Comm c)
{
    int l[36];
    __real_free(exchange(C(c), "barrier", "", 0, l, NULL));
    return MPI_SUCCESS;
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c)
{
    cm *x = C(c);
    int l[36], z = bytes(t, n), me = x->rank == root;
    char w[100], s[90];
    sig(s, t, n);
    snprintf(w, sizeof w, "bcast %d %s", root, s);
    glob(x, root);
    char *d = xm(z);
    if (me) pack(d, b, t, n);
    char *p = exchange(x, w, d, me ? z : 0, l, NULL);
    if (!me) unpack(p, b, t, n, z);
    __real_free(p);
    __real_free(d);
    return MPI_SUCCESS;
}
int MPI_Allreduce(const void *b, void *o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
    cm *x = C(c);
    int l[36], z = bytes(t, n);
    char w[100], s[90], ch = tchar(t);
    sig(s, t, n);
    char on = op == MPI_SUM ? '+' : op == MPI_MIN ? '<' : op == MPI_MAX ? '>' : '?';
    snprintf(w, sizeof w, "allreduce %c %s", on, s);
    if (b == MPI_IN_PLACE) b = o;
    char *p = exchange(x, w, b, z, l, NULL);
    memcpy(o, p, z);
    for (int k = 1; k < x->size; k++)
        for (int i = 0; i < n; i++)
        {
#define RED(T) { T *u = (T *) o + i, v = ((T *) (p + (size_t) k * z))[i]; if (on == '+') *u += v; else if (on == '<') { if (v < *u) *u = v; } else if (on == '>') { if (v > *u) *u = v; } else die("reduction"); }
#define REDC(T) { T *u = (T *) o + i, v = ((T *) (p + (size_t) k * z))[i]; if (on == '+') *u += v; else die("reduction of complex numbers"); }
            switch (ch)
            {
                case 'I': RED(int) break;
                case 'F': RED(float) break;
                case 'D': RED(double) break;
                case 'C': REDC(float complex) break;
                case 'Z': REDC(double complex) break;
                default: die("type in reduction");
            }
        }
    __real_free(p);
    return MPI_SUCCESS;
}
int MPI_Allgatherv(const void *b, int n, MPI_Datatype t, void *o, const int *cnt, const int *disp, MPI_Datatype u, MPI_Comm c)
{
    cm *x = C(c);
    int l[36];
    char w[100];
    snprintf(w, sizeof w, "allgatherv %c", tchar(u));
    int z = bytes(u, 1);
    if (b == MPI_IN_PLACE) { b = (char *) o + (size_t) disp[x->rank] * z; n = cnt[x->rank]; t = u; }
    char *d = xm(bytes(t, n));
    if (n) pack(d, b, t, n);
    char *p = exchange(x, w, d, bytes(t, n), l, NULL), *q = p;
    for (int k = 0; k < x->size; k++)
    {
        if (l[k] != cnt[k] * z) die("allgatherv: counts do not match");
        memcpy((char *) o + (size_t) disp[k] * z, q, l[k]);
        q += l[k];
    }
    __real_free(p);
    __real_free(d);
    return MPI_SUCCESS;
}
int MPI_Allgather(const void *b, int n, MPI_Datatype t, void *o, int cnt, MPI_Datatype u, MPI_Comm c)
{
    int k[36], d[36];
    for (int i = 0; i < 36; i++) { k[i] = cnt; d[i] = i * cnt; }
    return MPI_Allgatherv(b, n, t, o, k, d, u, c);
}
static MPI_Comm newcomm(int id, int size, int rank, int *mem)
{
    cm *y = xm(sizeof *y);
    y->id = id; y->size = size; y->rank = rank;
    memcpy(y->mem, mem, size * sizeof(int));
    nlive++;
    return (MPI_Comm) y;
}
int MPI_Cart_create(MPI_Comm c, int nd, const int *dims, const int *per, int reorder, MPI_Comm *o)
{
    (void) per; (void) reorder;
    cm *x = C(c);
    int l[36], id;
    if (nd != 2 || dims[0] * dims[1] != x->size) die("cart");
    __real_free(exchange(x, "cart", dims, 8, l, &id));
    *o = newcomm(id, x->size, x->rank, x->mem);
    ((cm *) *o)->cart = 1;
    memcpy(((cm *) *o)->dims, dims, 8);
    return MPI_SUCCESS;
}
int MPI_Cart_coords(MPI_Comm c, int r, int nd, int *co)
{
    cm *x = C(c);
    if (!x->cart || nd != 2) die("not a grid");
    glob(x, r);
    co[0] = r / x->dims[1];
    co[1] = r % x->dims[1];
    return MPI_SUCCESS;
}
int MPI_Cart_shift(MPI_Comm c, int dir, int disp, int *src, int *dst)
{
    cm *x = C(c);
    if (!x->cart) die("not a grid");
    int co[2], d = x->dims[dir];
    MPI_Cart_coords(c, x->rank, 2, co);
    int k = co[dir];
    co[dir] = ((k + disp) % d + d) % d;
    *dst = co[0] * x->dims[1] + co[1];
    co[dir] = ((k - disp) % d + d) % d;
    *src = co[0] * x->dims[1] + co[1];
    return MPI_SUCCESS;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o)
{
    cm *x = C(c);
    int l[36], ck[2] = { color, key }, id, mem[36], n = 0, me = 0, keys[36];
    int *p = (int *) exchange(x, "split", ck, 8, l, &id);
    for (int k = 0; k < x->size; k++)
    {
        if (p[2 * k] != color) continue;
        int pos = n;
        while (pos > 0 && keys[pos - 1] > p[2 * k + 1]) { keys[pos] = keys[pos - 1]; mem[pos] = mem[pos - 1]; pos--; }
        keys[pos] = p[2 * k + 1];
        mem[pos] = x->mem[k];
        n++;
    }
    for (int k = 0; k < n; k++) if (mem[k] == myr) me = k;
    int ci = 0;                 /* colors in order of appearance */
    for (int k = 0; k < x->size && p[2 * k] != color; k++) ci++;
    __real_free(p);
    *o = newcomm(id + ci, n, me, mem);
    return MPI_SUCCESS;
}
int MPI_Comm_free(MPI_Comm *c)
{
    cm *x = C(*c);
    if (x == &world) die("world released");
    x->id = -x->id;             /* the record is kept: use after release is noticed */
    nlive--;
    *c = MPI_COMM_NULL;
    return MPI_SUCCESS;
}
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint) p; return MPI_SUCCESS; }
int MPI_Type_create_struct(int n, const int *bl, const MPI_Aint *d, const MPI_Datatype *t, MPI_Datatype *o)
{
    ty *s = xm(sizeof *s);
    if (n > 8) die("struct");
    s->n = n;
    for (int k = 0; k < n; k++) { s->cnt[k] = bl[k]; s->disp[k] = d[k]; s->c[k] = tchar(t[k]); if (!s->c[k]) die("struct"); s->size[k] = tsize(s->c[k]); }
    nlive++;
    *o = (MPI_Datatype) s;
    return MPI_SUCCESS;
}
int MPI_Type_commit(MPI_Datatype *t) { (void) t; return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype *t) { __real_free(*t); *t = MPI_DATATYPE_NULL; nlive--; return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm c, int code) { (void) c; _exit(code ? code : 1); }

/* ------------------------------------------------------------------ ScaLAPACK's contract, computed on every rank */
static cm *grid;
static int gp, gq;
int Csys2blacs_handle(MPI_Comm c) { grid = C(c); return 5; }
void Cblacs_gridinit(int *h, char *order, int p, int q) { if (*order != 'R' && *order != 'r') die("grid order"); (void) h; gp = p; gq = q; }
void Cblacs_gridinfo(int h, int *p, int *q, int *r, int *c) { (void) h; *p = gp; *q = gq; *r = grid->rank / gq; *c = grid->rank % gq; }
void Cblacs_gridexit(int h) { (void) h; }
int numroc_(int *n, int *nb, int *ip, int *src, int *np)
{
    int d = (*np + *ip - *src) % *np, blk = *n / *nb, r = (blk / *np) * *nb, x = blk % *np;
    return r + (d < x ? *nb : d == x ? *n % *nb : 0);
}
#define DIAG(NAME, T, RT, LAPACK, CPLX) \
void LAPACK(); \
static void NAME##_(const char *jobz, const char *uplo, int n, T *a, int *desc, RT *w, T *z, int *info) \
{ \
    int p = gp, mb = desc[4], l[36]; \
    if (desc[2] != n || desc[3] != n || desc[5] != mb || mb * p != n || desc[8] < mb) die("descriptor"); \
    T *loc = xm(sizeof(T) * mb * mb), *g = xm(sizeof(T) * n * n); \
    for (int j = 0; j < mb; j++) for (int i = 0; i < mb; i++) loc[j * mb + i] = a[j * desc[8] + i]; \
    T *all = (T *) exchange(grid, "syevd", loc, sizeof(T) * mb * mb, l, NULL); \
    for (int r = 0; r < p * p; r++) for (int j = 0; j < mb; j++) for (int i = 0; i < mb; i++) \
        g[(size_t) ((r % p) * mb + j) * n + (r / p) * mb + i] = all[(size_t) r * mb * mb + j * mb + i]; \
    int lwork = 1 + 6 * n + 4 * n * n, lrwork = 1 + 5 * n + 4 * n * n, liwork = 3 + 5 * n; \
    T *work = xm(sizeof(T) * lwork); RT *rwork = xm(sizeof(RT) * lrwork); int *iwork = xm(4 * liwork); \
    if (CPLX) LAPACK(jobz, uplo, &n, g, &n, w, work, &lwork, rwork, &lrwork, iwork, &liwork, info); \
    else LAPACK(jobz, uplo, &n, g, &n, w, work, &lwork, iwork, &liwork, info); \
    int ip = grid->rank / p, jp = grid->rank % p; \
    for (int j = 0; j < mb; j++) for (int i = 0; i < mb; i++) { \
        z[j * desc[8] + i] = g[(size_t) (jp * mb + j) * n + ip * mb + i]; \
        a[j * desc[8] + i] = (T) NAN; }           /* the input is destroyed */ \
    __real_free(loc); __real_free(g); __real_free(all); __real_free(work); __real_free(rwork); __real_free(iwork); \
}
DIAG(ss, float, float, ssyevd_, 0)
DIAG(ds, double, double, dsyevd_, 0)
DIAG(ch, float complex, float, cheevd_, 1)
DIAG(zh, double complex, double, zheevd_, 1)
#define REAL_ARGS(T) const char *jz, const char *ul, int *n, T *a, int *ia, int *ja, int *da, T *w, T *z, int *iz, int *jz_, int *dz, T *wk, int *lw, int *iw, int *li, int *info
#define CPLX_ARGS(T, R) const char *jz, const char *ul, int *n, T *a, int *ia, int *ja, int *da, R *w, T *z, int *iz, int *jz_, int *dz, T *wk, int *lw, R *rw, int *lr, int *iw, int *li, int *info
#define USE (void) ia; (void) ja; (void) iz; (void) jz_; (void) dz; (void) wk; (void) lw; (void) iw; (void) li
void pssyevd_(REAL_ARGS(float)) { USE; ss_(jz, ul, *n, a, da, w, z, info); }
void pdsyevd_(REAL_ARGS(double)) { USE; ds_(jz, ul, *n, a, da, w, z, info); }
void pcheevd_(CPLX_ARGS(float complex, float)) { USE; (void) rw; (void) lr; ch_(jz, ul, *n, a, da, w, z, info); }
void pzheevd_(CPLX_ARGS(double complex, double)) { USE; (void) rw; (void) lr; zh_(jz, ul, *n, a, da, w, z, info); }

/* ------------------------------------------------------------------ coordinator */
typedef struct { int src, comm, tag, len, rid, ready, blocking, used, done, acked; char sig[112]; char *data; int dst; } snd;
typedef struct { int dst, src, comm, tag, rid, cap, blocking, match; char sig[112]; } rcv;
static snd *S; static int ns, cs;
static rcv *R; static int nrv, cr;
typedef struct { int state; req_t q; char *data; } rk;    /* state: 0 running, 1 blocked, 2 done, 3 gone */
static rk K[36];
static unsigned long long rs;
static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned) (rs >> 33) % n; }
static int nexti(const char **p, char *c) { if (!**p) return 0; *c = *(*p)++; return (int) strtol(*p, (char **) p, 10); }
static int sig_ok(const char *s, const char *r)     /* the message is a prefix of what the receiver offers, type by type */
{
    char a = 0, b = 0;
    int n = 0, m = 0;
    for (;;)
    {
        if (!n) n = nexti(&s, &a);
        if (!n) return 1;
        if (!m) m = nexti(&r, &b);
        if (!m || a != b) return 0;
        int k = n < m ? n : m;
        n -= k;
        m -= k;
    }
}
static int fits_rs(rcv *r, snd *s) { return s->dst == r->dst && (r->src == -1 || r->src == s->src) && r->comm == s->comm && (r->tag == MPI_ANY_TAG || r->tag == s->tag); }
static int waitdone(int k)
{
    for (int i = 0; i < K[k].q.nmem; i++)
    {
        int rid = K[k].q.mem[i], ok = 0;
        for (int j = 0; j < nrv; j++) if (R[j].dst == k && R[j].rid == rid) ok = R[j].match >= 0 && S[R[j].match].ready;
        for (int j = 0; j < ns; j++) if (S[j].src == k && S[j].rid == rid) ok = S[j].ready && (S[j].used || S[j].acked);
        if (!ok) return 0;
    }
    return 1;
}
static void logev(FILE *log, int *first, int k, req_t *q)
{
    static const char *nm[] = { "", "send", "recv", "isend", "irecv", "", "wait", "coll", "" };
    if (!log || q->op == PAYLOAD || q->op == FIN) return;
    fprintf(log, "%s{\"r\":%d,\"c\":%d,\"k\":\"%s\",\"cm\":%d,\"p\":%d,\"g\":%d,\"q\":%d,\"s\":\"%s\",\"m\":[", *first ? "" : ",", k, q->call, nm[q->op], q->comm,
            q->peer, q->tag, q->rid, q->sig);
    for (int i = 0; i < q->nmem; i++) fprintf(log, i ? ",%d" : "%d", q->mem[i]);
    fprintf(log, "]}");
    *first = 0;
}
int mpi_coordinate(int nranks, int *f, unsigned seed, FILE *log, int trace, const char **why)
{
    int nextcomm = 100, result = 0, first = 1, gone = 0;
    static char msg[300];
    *why = msg;
    msg[0] = 0;
    ns = nrv = 0;
    memset(K, 0, sizeof K);
    rs = seed * 2654435761u + 12345;
    int mode = rnd(3);          /* 0: no buffering, 1: buffering, 2: either */
    if (log) fprintf(log, "{\"t\":%d,\"n\":%d,\"ev\":[", trace, nranks);
    for (;;)
    {
        /* let every running rank go on until it blocks */
        for (int k = 0; k < nranks; k++)
            while (K[k].state == 0)
            {
                req_t q;
                if (!rd(f[k], &q, sizeof q)) { K[k].state = 3; gone = 1; break; }
                if (q.len < 0 || q.len > 1 << 28 || q.cap < 0 || q.cap > 1 << 28 || q.nmem < 0 || q.nmem > 36)
                {
                    result = 3;
                    sprintf(msg, "a message of absurd size");
                    K[k].state = 3;
                    gone = 1;
                    break;
                }
                char *d = q.len ? xm(q.len) : NULL;
                if (q.len && !rd(f[k], d, q.len)) { K[k].state = 3; gone = 1; break; }
                logev(log, &first, k, &q);
                if (q.op == FIN) { K[k].state = 2; break; }
                if (q.op == SEND || q.op == ISEND)
                {
                    if (ns == cs) S = __real_realloc(S, (cs = cs * 2 + 64) * sizeof *S);
                    S[ns] = (snd) { .src = k, .dst = q.peer, .comm = q.comm, .tag = q.tag, .len = q.cap, .rid = q.rid, .ready = !q.late, .blocking = q.op == SEND, .data = d };
                    memcpy(S[ns++].sig, q.sig, sizeof q.sig);
                }
                else if (q.op == PAYLOAD)
                {
                    for (int j = 0; j < ns; j++) if (S[j].src == k && S[j].rid == q.rid) { S[j].data = d; S[j].len = q.len; S[j].ready = 1; }
                }
                else if (q.op == RECV || q.op == IRECV)
                {
                    if (nrv == cr) R = __real_realloc(R, (cr = cr * 2 + 64) * sizeof *R);
                    R[nrv] = (rcv) { .dst = k, .src = q.peer, .comm = q.comm, .tag = q.tag, .rid = q.rid, .cap = q.cap, .blocking = q.op == RECV, .match = -1 };
                    memcpy(R[nrv++].sig, q.sig, sizeof q.sig);
                }
                if (q.op == SEND || q.op == RECV || q.op == WAIT || q.op == COLL)
                {
                    if (q.op == COLL) { __real_free(K[k].data); K[k].data = d; }
                    K[k].q = q;
                    K[k].state = 1;
                }
            }
        if (result) break;
        int alive = 0;
        for (int k = 0; k < nranks; k++) alive += K[k].state == 1;
        if (!alive) break;
        /* enabled steps */
        int kind[400], x[400], y[400], n = 0;
        for (int j = 0; j < nrv && n < 300; j++)
        {
            if (R[j].match >= 0) continue;
            for (int i = 0; i < ns && n < 300; i++)
            {
                if (S[i].used || !fits_rs(&R[j], &S[i])) continue;
                int ok = 1;
                for (int h = 0; h < i; h++) if (!S[h].used && S[h].src == S[i].src && fits_rs(&R[j], &S[h])) ok = 0;
                for (int h = 0; h < j; h++) if (R[h].match < 0 && fits_rs(&R[h], &S[i])) ok = 0;
                if (ok) { kind[n] = 1; x[n] = j; y[n++] = i; }
            }
        }
        for (int k = 0; k < nranks; k++)
        {
            if (K[k].state != 1) continue;
            if (K[k].q.op == WAIT && waitdone(k)) { kind[n] = 2; x[n++] = k; }
            if (K[k].q.op == COLL)
            {
                int all = 1;
                for (int i = 0; i < K[k].q.nmem; i++)
                {
                    rk *o = &K[K[k].q.mem[i]];
                    if (!(o->state == 1 && o->q.op == COLL && o->q.comm == K[k].q.comm)) all = 0;
                }
                if (all && K[k].q.mem[0] == k) { kind[n] = 3; x[n++] = k; }
            }
        }
        if (mode)
            for (int i = 0; i < ns && n < 390; i++)
                if (!S[i].acked && (S[i].blocking || S[i].ready) && !S[i].done) { kind[n] = 4; x[n++] = i; }
        if (!n && gone) break;
        if (!n)
        {
            result = 2;
            int w = sprintf(msg, "no rank can go on:");
            for (int k = 0; k < nranks && w < 220; k++)
                if (K[k].state == 1) w += snprintf(msg + w, 60, " rank %d call %d op %d peer %d tag %d;", k, K[k].q.call, K[k].q.op, K[k].q.peer, K[k].q.tag);
            break;
        }
        int c = rnd(n);
        int one = 1;
        if (kind[c] == 1)
        {
            rcv *r = &R[x[c]];
            snd *s = &S[y[c]];
            if (s->len > r->cap || !sig_ok(s->sig, r->sig))
            {
                result = 3;
                sprintf(msg, "message %.80s does not fit the receive %.80s", s->sig, r->sig);
                break;
            }
            s->used = 1;
            r->match = y[c];
            if (s->blocking && !s->acked) { s->acked = 1; wr(f[s->src], &one, 4); K[s->src].state = 0; }
            if (r->blocking && s->ready)
            {
                int h[3] = { s->len, s->src, s->tag };
                wr(f[r->dst], h, 12);
                wr(f[r->dst], s->data, s->len);
                K[r->dst].state = 0;
                s->done = 1;
            }
        }
        else if (kind[c] == 4)
        {
            snd *s = &S[x[c]];
            s->acked = 1;
            if (s->blocking) { wr(f[s->src], &one, 4); K[s->src].state = 0; }
        }
        else if (kind[c] == 2)
        {
            int k = x[c];
            for (int i = 0; i < K[k].q.nmem; i++)
            {
                int rid = K[k].q.mem[i], h[3] = { 0, k, 0 };
                rcv *r = NULL;
                for (int j = 0; j < nrv; j++) if (R[j].dst == k && R[j].rid == rid) r = &R[j];
                if (r)
                {
                    snd *s = &S[r->match];
                    h[0] = s->len; h[1] = s->src; h[2] = s->tag;
                    wr(f[k], h, 12);
                    wr(f[k], s->data, s->len);
                    s->done = 1;
                }
                else wr(f[k], h, 12);
            }
            K[k].state = 0;
        }
        else
        {
            int k = x[c], id = nextcomm, m = K[k].q.nmem, lens[36];
            nextcomm += 40;
            for (int i = 0; i < m; i++)
            {
                int o = K[k].q.mem[i];
                if (strcmp(K[o].q.sig, K[k].q.sig))
                {
                    result = 3;
                    sprintf(msg, "collective calls differ: %.80s / %.80s", K[k].q.sig, K[o].q.sig);
                }
                lens[i] = K[o].q.len;
            }
            if (result) break;
            for (int i = 0; i < m; i++)
            {
                int o = K[k].q.mem[i];
                wr(f[o], &id, 4);
                wr(f[o], lens, 4 * m);
                for (int j = 0; j < m; j++) wr(f[o], K[K[k].q.mem[j]].data, lens[j]);
            }
            for (int i = 0; i < m; i++) K[K[k].q.mem[i]].state = 0;
        }
        /* a blocking receive whose late data has arrived */
        for (int j = 0; j < nrv; j++)
            if (R[j].blocking && R[j].match >= 0 && !S[R[j].match].done && S[R[j].match].ready)
            {
                snd *s = &S[R[j].match];
                int h[3] = { s->len, s->src, s->tag };
                wr(f[R[j].dst], h, 12);
                wr(f[R[j].dst], s->data, s->len);
                K[R[j].dst].state = 0;
                s->done = 1;
            }
    }
    if (!result && gone) result = 1;
    if (!result)
        for (int i = 0; i < ns; i++)
            if (!S[i].used) { result = 3; sprintf(msg, "a message was never received (from %d to %d, tag %d)", S[i].src, S[i].dst, S[i].tag); }
    if (!result)
        for (int j = 0; j < nrv; j++)
            if (R[j].match < 0) { result = 3; sprintf(msg, "a receive was never completed (at %d from %d, tag %d)", R[j].dst, R[j].src, R[j].tag); }
    if (log) fprintf(log, "],\"x\":%d}\n", result);
    for (int i = 0; i < ns; i++) __real_free(S[i].data);
    for (int k = 0; k < nranks; k++) { __real_free(K[k].data); K[k].data = NULL; }
    return result;
}
