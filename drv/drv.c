/* Conformance driver: executes programs of public bml calls and logs, after every call, the call, its
 * arguments, its returned scalars and the projected state of every live matrix (one JSON object per line).
 * Only the public interface is used; what is logged is judged by the TLA+ specification, never here. */
#define _GNU_SOURCE
#include <complex.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/wait.h>
#ifdef _OPENMP
#include <omp.h>
#endif
#include "bml.h"
#include "bml_adjungate_triangle.h"
#include "bml_transpose_triangle.h"
#include "memwrap.h"
#ifdef DRV_SHIM
#include "mpishim.h"
#endif

#define NH 16
#define BAD 2000000011
#undef I
typedef double complex dc;

static bml_matrix_t *H[NH];
static dc *last[NH];            /* last logged export */
static int lastmeta[NH][5], lastrows[NH][2];
static int lastlive[NH];
static FILE *out;
/* public, but only the Fortran interface declares it */
bml_matrix_t *bml_block_matrix(bml_matrix_type_t, bml_matrix_precision_t, int, int, int, int *, bml_distribution_mode_t);
static char *tok[200000];
static int nt, tp;
static int trace_id;
static int myrank = 0, nranks = 1;
int drv_line;                   /* number of the call being executed */
static int tolmode = 0;         /* 0: exact integers, 1: nearest integer within tolerance */
static const char *cur_op = "none";
static char argbuf[4000000];
static int in_op = 0;
static int rets[400000];
static int nret;
static int viewcheck = 0;
static int libleak0 = 0;

int drv_trace_id(void) { return trace_id; }
const char *drv_cur_op(void) { return cur_op; }
extern void omp_seed(unsigned) __attribute__((weak));

static int isc(int pr) { return pr == single_complex || pr == double_complex; }
static size_t esz(int pr)
{
    return pr == single_real ? 4 : pr == double_real ? 8 : pr == single_complex ? 8 : 16;
}
static dc ld(void *p, size_t i, int pr)
{
    switch (pr)
    {
        case single_real: return ((float *) p)[i];
        case double_real: return ((double *) p)[i];
        case single_complex: return ((float complex *) p)[i];
        default: return ((double complex *) p)[i];
    }
}
static void st(void *p, size_t i, int pr, dc v)
{
    switch (pr)
    {
        case single_real: ((float *) p)[i] = creal(v); break;
        case double_real: ((double *) p)[i] = creal(v); break;
        case single_complex: ((float complex *) p)[i] = v; break;
        default: ((double complex *) p)[i] = v; break;
    }
}
static int toint(double x)
{
    if (!(fabs(x) < 1e9)) return BAD;
    double r = rint(x);
    if (tolmode == 0) { if (r != x) return BAD; }
    else { if (fabs(r - x) > 2e-3 * (1 + fabs(x) * 1e-3)) return BAD; }
    return (int) r;
}
static void ret(int x) { rets[nret++] = x; }
/* scalar results may carry rounding error, matrix elements may not */
#ifdef DRV_SHIM
static int redmode = 0;         /* the operation returns the share of this rank: 1 a sum, 2 a minimum and a maximum */
static void reduced(double *x)
{
    if (!redmode) return;
    mw_in();
    if (redmode == 1) bml_sumRealReduce(x);
    else if (redmode++ == 2) bml_minRealReduce(x);
    else bml_maxRealReduce(x);
    mw_out();
}
#else
static void reduced(double *x) { (void) x; }
#endif
static void retd(double x) { reduced(&x); int t = tolmode; tolmode = 1; ret(toint(x)); tolmode = t; }
static void rete(double x) { ret(toint(x)); }

static int I(void) { return atoi(tok[tp++]); }
static double HF(void) { return I() / 2.0; }    /* scalars are given in halves */
static const char *S(void) { return tok[tp++]; }
static void *vals(int n, int pr)
{
    mw_out();
    void *p = malloc((n ? n : 1) * esz(pr));
    for (int k = 0; k < n; k++)
    {
        dc v = I();
        if (isc(pr)) v += _Complex_I * (double) I();
        st(p, k, pr, v);
    }
    return p;
}
static int *ints(int n)
{
    int *p = malloc((n + 1) * sizeof(int));
    for (int k = 0; k < n; k++) p[k] = I();
    return p;
}
/* bml result pointers are released by the library's own routine */
static void bfree(void *p) { bml_free_memory(p); }

static void put_vec(FILE *f, dc *v, int n, int cx)
{
    for (int k = 0; k < n; k++)
    {
        if (k) fputc(',', f);
        fprintf(f, "%d", toint(creal(v[k])));
    }
    if (cx)
        for (int k = 0; k < n; k++)
            fprintf(f, ",%d", toint(cimag(v[k])));
}

#include "dense/bml_types_dense.h"
#include "ellpack/bml_types_ellpack.h"
static bml_domain_t *dom_of(int h)
{
    switch (bml_get_type(H[h]))
    {
        case dense: return ((bml_matrix_dense_t *) H[h])->domain;
        case ellpack: return ((bml_matrix_ellpack_t *) H[h])->domain;
        default: return NULL;
    }
}

static FILE *logf_;
static int in_emit = 0;
static void emit_(const char *x, int state);
static void emit(const char *x, int state)
{
    char *b = NULL;
    size_t n = 0;
    in_emit = 1;
    logf_ = out;
    out = open_memstream(&b, &n);
    emit_(x, state);
    fclose(out);
    out = logf_;
    in_emit = 0;
    fwrite(b, 1, n, out);
    fflush(out);
    free(b);
}
static void emit_(const char *x, int state)
{
    int d[5];
    fprintf(out, "{\"t\":%d,", trace_id);
#ifdef DRV_SHIM
    fprintf(out, "\"k\":%d,", drv_line);
#endif
    fprintf(out, "\"op\":\"%s\",\"x\":\"%s\",\"a\":[%s],\"r\":[", cur_op, x, argbuf);
    for (int k = 0; k < nret; k++) fprintf(out, k ? ",%d" : "%d", rets[k]);
    fprintf(out, "],\"z\":%d", state ? mw_check() : 0);
    int first = 1;
    fprintf(out, ",\"live\":[");
    for (int h = 0; h < NH; h++)
        if (H[h])
        {
            fprintf(out, first ? "%d" : ",%d", h);
            first = 0;
        }
    fprintf(out, "],\"d\":[");
    first = 1;
    for (int h = 0; state && h < NH; h++)
    {
        if (!H[h])
        {
            if (lastlive[h]) { free(last[h]); last[h] = NULL; lastlive[h] = 0; }
            continue;
        }
        bml_matrix_t *X = H[h];
        int blk = 0;
#ifdef DRV_SHIM
        /* a distributed matrix is observed block by block, without any communication */
        if (bml_get_type(X) == distributed2d) { blk = 1; X = bml_get_local_matrix(X); }
#endif
        d[0] = bml_get_type(X); d[1] = bml_get_precision(H[h]);
        d[2] = bml_get_N(H[h]); d[3] = bml_get_M(H[h]); d[4] = bml_get_distribution_mode(H[h]);
        int n = blk ? bml_get_N(X) : d[2];
        mw_in();
        void *e = bml_export_to_dense(X, dense_row_major);
        mw_out();
        dc *v = NULL;
        int changed = 0, w0 = 0, w1 = n;
#ifdef DRV_SHIM
        if (!blk && d[0] <= 2 && dom_of(h)) { w0 = dom_of(h)->localRowMin[myrank]; w1 = dom_of(h)->localRowMax[myrank]; }
#endif
        if (e)
        {
            v = malloc(sizeof(dc) * n * n);
            for (int k = 0; k < n * n; k++) v[k] = ld(e, k, d[1]);
            mw_in(); bfree(e); mw_out();
        }
        else { changed = 1; v = calloc(n * n, sizeof(dc)); }
        if (!lastlive[h] || memcmp(lastmeta[h], d, sizeof d) || lastrows[h][0] != w0 || lastrows[h][1] != w1) changed = 1;
        else
            for (int k = 0; k < n * n && !changed; k++)
                if (!(v[k] == last[h][k])) changed = 1;
        if (changed)
        {
            if (!first) fputc(',', out);
            first = 0;
            fprintf(out, "{\"h\":%d,", h);
            if (blk) fprintf(out, "\"b\":%d,", n);
#ifdef DRV_SHIM
            fprintf(out, "\"w\":[%d,%d],", w0, w1);      /* the rows of this rank */
#endif
            fprintf(out, "\"m\":[%d,%d,%d,%d,%d],\"v\":[", d[0], d[1], d[2], d[3], d[4]);
            put_vec(out, v, n * n, isc(d[1]));
            fprintf(out, "]}");
        }
        free(last[h]);
        last[h] = v;
        lastlive[h] = 1;
        lastrows[h][0] = w0;
        lastrows[h][1] = w1;
        memcpy(lastmeta[h], d, sizeof d);
    }
    fprintf(out, "]}\n");
    fflush(out);
}

static int errfd = -1;
static off_t msg0;
/* the library's backtrace printer would run addr2line for every frame */
int __wrap_backtrace(void **b, int n) { (void) b; (void) n; return 0; }

static void on_exit_hook(int status, void *arg)
{
    (void) arg;
    fflush(stdout);
    if (in_emit)
    {
        out = logf_;
        in_emit = 0;
        fprintf(out, "{\"t\":%d,\"op\":\"crash\",\"x\":\"obs\",\"a\":[0],\"r\":[],\"z\":0,\"live\":[],\"d\":[]}\n", trace_id);
        fflush(out);
    }
    else if (in_op && out)
    {
        in_op = 0;
        nret = 0;
        fflush(stderr);
        fflush(stdout);
        int said = errfd < 0 || lseek(errfd, 0, SEEK_END) > msg0;
        emit(status == 0 ? "exit0" : said ? "exit" : "silent", 0);
        fflush(out);
    }
    if (out) _exit(0);          /* do not run destructors while other threads may still be inside the library */
}

/* several threads may refuse at the same time: the first one reports, the others wait for the end of the process */
static pthread_mutex_t exit_lock = PTHREAD_MUTEX_INITIALIZER;
void __real_exit(int);
void __wrap_exit(int status)
{
    pthread_mutex_lock(&exit_lock);
    on_exit_hook(status, NULL);
    __real_exit(status);
    for (;;) ;
}

/* Views: every way of reading matrix h, for the specification to compare */
static void views(int h)
{
    bml_matrix_t *A = H[h];
    int n = bml_get_N(A), pr = bml_get_precision(A), cx = isc(pr);
    void *e = bml_export_to_dense(A, dense_column_major);
#define PUT(v) do { dc w_ = (v); retd(creal(w_)); if (cx) retd(cimag(w_)); } while (0)
    for (int k = 0; k < n * n; k++) PUT(ld(e, k, pr));
    bfree(e);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
            PUT(ld(bml_get_element(A, i, j), 0, pr));
    for (int i = 0; i < n; i++)
    {
        void *r = bml_get_row(A, i);
        for (int j = 0; j < n; j++) PUT(ld(r, j, pr));
        bfree(r);
    }
    void *dg = bml_get_diagonal(A);
    for (int j = 0; j < n; j++) PUT(ld(dg, j, pr));
    bfree(dg);
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++)
        {
            dc w = 0;
            switch (pr)
            {
                case single_real: w = bml_get_element_single_real(A, i, j); break;
                case double_real: w = bml_get_element_double_real(A, i, j); break;
                case single_complex: w = bml_get_element_single_complex(A, i, j); break;
                default: w = bml_get_element_double_complex(A, i, j);
            }
            PUT(w);
        }
}

static dc scal(int pr, void *buf)
{
    dc v = I() / 2.0;
    v += _Complex_I * (I() / 2.0);
    st(buf, 0, pr, v);
    return v;
}


/* the multiply kernels (declared here: the built-in one has no public header) */
#define GEMM_DECL(P) void bml_gemm_internal_##P(); void bml_gemm_##P(); void bml_xsmm_gemm_##P();
GEMM_DECL(single_real) GEMM_DECL(double_real) GEMM_DECL(single_complex) GEMM_DECL(double_complex)

#include "ops.h"

static void run(char *line)
{
    nt = tp = 0;
    for (char *t = strtok(line, " \n"); t; t = strtok(NULL, " \n")) tok[nt++] = t;
    if (!nt) return;
    if (!strcmp(tok[0], "P")) trace_id = atoi(tok[1]);
    cur_op = tok[0];
    char *w = argbuf;
    *w = 0;
    for (int k = 1; k < nt; k++)
    {
        char *end;
        strtol(tok[k], &end, 10);
        if (*end) w += sprintf(w, "%s\"%s\"", k > 1 ? "," : "", tok[k]);
        else w += sprintf(w, "%s%s", k > 1 ? "," : "", tok[k]);
    }
    nret = 0;
    tp = 1;
    tolmode = 0;
    if (errfd >= 0) { fflush(stdout); msg0 = lseek(errfd, 0, SEEK_END); }
    in_op = 1;
    int r = do_op(cur_op);
    mw_out();
    in_op = 0;
    if (r < 0) { fprintf(stderr, "unknown op %s\n", cur_op); out = NULL; exit(66); }
    emit("ok", 1);
}

static char **lines;
static int nlines;

static void crashed(int t, int a, const char *x, const char *why)
{
    fseek(out, 0, SEEK_END);
    fprintf(out, "{\"t\":%d,\"op\":\"crash\",\"x\":\"%s\",\"a\":[%d],\"r\":[],\"z\":0,\"live\":[],\"d\":[]", t, x, a);
    if (why) fprintf(out, ",\"why\":\"%s\"", why);
    fprintf(out, "}\n");
    fflush(out);
}
static int hung;       /* programs that ran out of time: the next ones get less, and in the end none is started any more */
static int limit(void)
{
    int t = getenv("DRV_TIMEOUT") ? atoi(getenv("DRV_TIMEOUT")) : 60;
    return hung && t > 15 ? 15 : t;
}
static int skipped(int t)
{
    if (hung < 6) return 0;
    fprintf(out, "{\"t\":%d,\"op\":\"skip\"}\n", t);
    fflush(out);
    return 1;
}
static void quiet(void)
{
    FILE *ef = tmpfile();
    errfd = fileno(ef);
    if (!getenv("DRV_STDERR")) { dup2(errfd, 2); dup2(errfd, 1); }
}

#ifdef DRV_SHIM
#include <sys/socket.h>
/* P id R seed: R rank processes run the lines (a line `@r ...` only on rank r), this process schedules their messages */
static int world(int k, int e, const char *outname)
{
    int id = 0, R = 1, seed = 1, solo = 0;      /* solo: one process that is told of R ranks and never exchanges data */
    sscanf(lines[k], "P %d %d %d %d", &id, &R, &seed, &solo);
    int fd[36];
    pid_t pid[36];
    char name[36][4200];
    int RR = R;
    if (solo) R = 1;
    for (int r = 0; r < R; r++)
    {
        int sv[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return 67;
        snprintf(name[r], 4200, "%s.r%d", outname, r);
        unlink(name[r]);
        pid[r] = fork();
        if (pid[r] == 0)
        {
            signal(SIGPIPE, SIG_DFL);
            close(sv[0]);
            for (int q = 0; q < r; q++) close(fd[q]);
            out = fopen(name[r], "a");
            quiet();
            alarm(limit());
            myrank = r; nranks = RR;
            mpi_rank_start(r, RR, sv[1], seed & 1, solo);
            on_exit(on_exit_hook, NULL);
            for (; k < e; k++)
            {
                drv_line++;
                char *l = lines[k];
                if (*l == '+') l++;
                if (*l == '@')
                {
                    int w = strtol(l + 1, &l, 10);
                    if (w != r) continue;
                }
                redmode = 0;
                if (*l == '*') redmode = strncmp(++l, "gersh", 5) ? 1 : 2;
                run(l);
            }
            fflush(out);
            mpi_rank_done();
            _exit(0);
        }
        close(sv[1]);
        fd[r] = sv[0];
    }
    char ln[4200];
    snprintf(ln, sizeof ln, "%s.mpi", outname);
    FILE *log = fopen(ln, "a");
    const char *why = "";
    int res = mpi_coordinate(R, fd, seed, log, id, &why);
    fclose(log);
    int bad = 0, late = 0;
    for (int r = 0; r < R; r++) close(fd[r]);
    if (res == 1) usleep(20000);        /* the rank that ended writes its record */
    for (int r = 0; r < R; r++)
    {
        int st = 0;
        if (res)
        {
            if (waitpid(pid[r], &st, WNOHANG) == 0) { kill(pid[r], SIGKILL); waitpid(pid[r], &st, 0); st = 0; }
        }
        else waitpid(pid[r], &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 66) bad = 66;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) late = 1;
        FILE *f = fopen(name[r], "r");
        char *line = NULL;
        size_t cap = 0;
        ssize_t z;
        while (f && (z = getline(&line, &cap, f)) > 0)
            if (line[z - 1] == '\n') fprintf(out, "{\"rk\":%d,%s", r, line + 1);
        if (f) fclose(f);
        free(line);
        unlink(name[r]);
        if (WIFSIGNALED(st) && WTERMSIG(st) != SIGPIPE) crashed(id, WTERMSIG(st), "crash", NULL);
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) crashed(id, r, "mpi", "erroneous use of the message layer");
    }
    hung += late;
    if (res >= 2) crashed(id, 0, res == 2 ? "deadlock" : "mpi", why);
    else if (res == 1) crashed(id, 0, "early", NULL);
    return bad;
}
#endif

int main(int argc, char **argv)
{
    if (argc < 3) return 64;
    FILE *in = fopen(argv[1], "r");
    out = fopen(argv[2], "a");
    if (!in || !out) return 65;
    char *line = NULL;
    size_t cap = 0;
    while (getline(&line, &cap, in) > 0)
    {
        lines = realloc(lines, (nlines + 1) * sizeof(char *));
        lines[nlines++] = strdup(line);
    }
    fclose(in);
#ifdef DRV_SHIM
    signal(SIGPIPE, SIG_IGN);
#endif
    /* every program runs in a process of its own: fresh library state, isolated exits and crashes */
    for (int k = 0; k < nlines;)
    {
        int e = k + 1;
        while (e < nlines && !(lines[e][0] == 'P' && lines[e][1] == ' ')) e++;
        fflush(out);
        if (skipped(atoi(lines[k] + 2))) { k = e; continue; }
#ifdef DRV_SHIM
        int b = world(k, e, argv[2]);
        if (b) return b;
        k = e;
        continue;
#endif
        pid_t pid = fork();
        if (pid == 0)
        {
            quiet();
            alarm(limit());
            on_exit(on_exit_hook, NULL);
            for (; k < e; k++) run(lines[k]);
            fflush(out);
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st))
        {
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) hung++;
            crashed(atoi(lines[k] + 2), WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st), "crash", NULL);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 66) return 66;
        }
        k = e;
    }
    return 0;
}
