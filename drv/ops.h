/* One branch per public operation. Arguments are integers; scalar factors and thresholds are in halves. */
#define OP(n) else if (!strcmp(op, n))
#define NEWH(h, e) do { mw_in(); H[h] = (e); } while (0)
static int pr_of(int h) { return bml_get_precision(H[h]); }
static void ret_dc(dc v, int cx) { rete(creal(v)); if (cx) rete(cimag(v)); }
static char *slurp(const char *fn)
{
    static char buf[1 << 20];
    FILE *f = fopen(fn, "r");
    if (!f) { buf[0] = 0; return buf; }
    size_t k = fread(buf, 1, sizeof buf - 1, f);
    buf[k] = 0;
    fclose(f);
    return buf;
}
static int cmpint(const void *a, const void *b) { return *(int *) a - *(int *) b; }
static const char *fname(int k)
{
    static char b[2][1200];
    static int w;
    w = !w;
    snprintf(b[w], 1200, "%s/m%d.mtx", getenv("DRV_TMP") ? getenv("DRV_TMP") : "/tmp", k);
    return b[w];
}
/* quantities that are not integers are logged times 1000, rounded */
static void ret_milli(double x) { double r = rint(x * 1000); ret(fabs(r) < 2e9 ? (int) r : BAD); }

/* standard output of a call, in a file */
static int capfd = -1, capold = -1;
static void capture(void)
{
    if (capfd < 0) capfd = fileno(tmpfile());
    fflush(stdout);
    if (ftruncate(capfd, 0)) abort();
    lseek(capfd, 0, SEEK_SET);
    capold = dup(1);
    dup2(capfd, 1);
}
static void captured(int pr, int w, int tag)
{
    static char buf[1 << 18];
    fflush(stdout);
    dup2(capold, 1);
    close(capold);
    capold = -1;
    ssize_t z = pread(capfd, buf, sizeof buf - 1, 0);
    buf[z > 0 ? z : 0] = 0;
    int lines = 0, cx = isc(pr), pos = nret;
    ret(0);
    char *start = buf;
    if (tag) { if (strncmp(buf, "tag\n", 4)) ret(BAD - 2); else start += 4; }
    for (char *l = start; *l; l = strchr(l, '\n') ? strchr(l, '\n') + 1 : l + strlen(l))
    {
        char *end = strchr(l, '\n'), *q = l;
        int n = 0;
        if (end) *end = 0;
        for (;; n++)
        {
            char *s = q;
            double re = strtod(s, &q), im = 0;
            if (q == s) break;
            if (cx) { s = q; im = strtod(s, &q); if (q == s || *q++ != 'i') break; }
            rete(re); if (cx) rete(im);
        }
        while (*q == ' ') q++;
        if (*q || n != w || !end) ret(BAD - 1);
        if (end) *end = '\n';
        lines++;
    }
    rets[pos] = lines;
}

static void dom_ret(bml_domain_t *d, int ext)
{
    ret(d->totalProcs); ret(d->totalRows); ret(d->totalCols); ret(d->globalRowMin); ret(d->globalRowMax); ret(d->globalRowExtent);
    for (int r = 0; r < nranks; r++) { ret(d->localRowMin[r]); ret(d->localRowMax[r]); ret(d->localRowExtent[r]); ret(d->localElements[r]); ret(d->localDispl[r]); }
    if (ext) { ret(d->minLocalExtent); ret(d->maxLocalExtent); }
}
static void put_domain(int h) { mw_out(); if (dom_of(h)) dom_ret(dom_of(h), 0); }

#ifdef DRV_FORTRAN
#include "ops_f.h"
#endif
static int do_op(const char *op)
{
    int written = 0;
#ifdef DRV_FORTRAN
    int f = f_op(op);
    if (f == 1) return 0;
    written = f == 2;
#endif
    if (0) ;
    OP("P")
    {
        for (int k = 0; k < 4; k++) unlink(fname(k));
#ifdef DRV_SHIM
        mw_in();
        bml_init(MPI_COMM_WORLD);
        mw_out();
        mpi_live_reset();
#endif
        for (int h = 0; h < NH; h++)
            if (H[h]) { mw_in(); bml_deallocate(&H[h]); mw_out(); }
        for (int h = 0; h < NH; h++) { free(last[h]); last[h] = NULL; lastlive[h] = 0; }
        libleak0 = mw_live();
        if (omp_seed && getenv("DRV_SCHED")) omp_seed(atoi(getenv("DRV_SCHED")) * 7919u + trace_id);
    }
    OP("E")                     /* release everything and report what the library still holds */
    {
        for (int h = 0; h < NH; h++)
            if (H[h]) { mw_in(); bml_deallocate(&H[h]); mw_out(); }
        ret(mw_live() - libleak0);
#ifdef DRV_SHIM
        ret(mpi_live());
        bml_shutdown();
#endif
    }
    OP("omp")
    {
        int n = I();
#ifdef _OPENMP
        omp_set_num_threads(n);
#endif
    }
    /* ---- constructors */
    OP("imp")
    {
        int h = I(), ty = I(), pr = I(), n = I(), m = I(), md = I(), ord = I();
        double t = HF();
        void *d = vals(n * n, pr);
#ifdef DRV_SHIM
        if (md == distributed && myrank) { free(d); NEWH(h, bml_import_from_dense(ty, pr, ord, n, m, NULL, t, md)); ret(1); return 0; }
#endif
        void *keep = malloc(n * n * esz(pr));
        memcpy(keep, d, n * n * esz(pr));
        NEWH(h, bml_import_from_dense(ty, pr, ord, n, m, d, t, md));
        mw_out();
        ret(memcmp(keep, d, n * n * esz(pr)) == 0);     /* the source array is untouched */
        memset(d, 0x5d, n * n * esz(pr));
        free(d); free(keep);
    }
    OP("zero") { int h = I(), ty = I(), pr = I(), n = I(), m = I(), md = I(); NEWH(h, bml_zero_matrix(ty, pr, n, m, md)); }
    OP("blockm")                /* blockm h pr mb m md sizes... */
    {
        int h = I(), pr = I(), mb = I(), m = I(), md = I(), k = 0, s[64];
        while (k < 64 && tp < nt) s[k++] = I();
        NEWH(h, bml_block_matrix(ellblock, pr, k, mb, m, s, md));
    }
    OP("ident") { int h = I(), ty = I(), pr = I(), n = I(), m = I(), md = I(); NEWH(h, bml_identity_matrix(ty, pr, n, m, md)); }
    OP("noinit")                /* attributes only; contents are not defined for sparse formats until written */
    {
        int h = I(), ty = I(), pr = I(), n = I(), m = I(), md = I();
        NEWH(h, bml_noinit_matrix(ty, pr, n, m, md));
        bml_clear(H[h]);
    }
    OP("dom")                   /* dom h fields...: the decomposition of matrix h */
    {
        int h = I();
        mw_in();
        put_domain(h);
    }
    OP("setdom")                /* setdom h np min.. max.. nn..: new decomposition from parts (1-based, one range of parts per rank) */
    {
        int h = I(), np = I();
        int *mn = ints(nranks), *mx = ints(nranks), *nn = ints(np);
        mw_in();
        bml_update_domain(H[h], mn, mx, nn);
        mw_out();
        free(mn); free(mx); free(nn);
        put_domain(h);
    }
    OP("savedom") { int h = I(); mw_in(); bml_save_domain(H[h]); put_domain(h); }
    OP("restdom") { int h = I(); mw_in(); bml_restore_domain(H[h]); put_domain(h); }
    OP("rand")                  /* random/banded matrices are observed, then replaced by their 0/1 pattern */
    {
        int kind = I(), h = I(), ty = I(), pr = I(), n = I(), m = I(), md = I();
        mw_in();
#ifdef DRV_FORTRAN
        bml_matrix_t *R = NULL;
        f_new(3 + kind, &R, ty, pr, n, m, md, n % 2);
#else
        bml_matrix_t *R = kind ? bml_banded_matrix(ty, pr, n, m, md) : bml_random_matrix(ty, pr, n, m, md);
#endif
        ret(bml_get_type(R)); ret(bml_get_precision(R)); ret(bml_get_N(R)); ret(bml_get_M(R)); ret(bml_get_distribution_mode(R));
        void *e = bml_export_to_dense(R, dense_row_major);
        mw_out();
        int inr = 1, distinct = 0;
        dc *v = malloc(sizeof(dc) * n * n);
        for (int k = 0; k < n * n; k++)
        {
            v[k] = ld(e, k, pr);
            if (!(creal(v[k]) >= 0 && creal(v[k]) <= 1)) inr = 0;
            if (!(cimag(v[k]) >= 0 && cimag(v[k]) <= 1)) inr = 0;
            ret(cabs(v[k]) > 0);
            for (int q = 0; q < k; q++) if (v[k] != v[q]) distinct = 1;
        }
        ret(inr); ret(distinct || n == 1 );
        mw_in();
        bml_deallocate(&R);
        void *z = NULL;
        mw_out();
        z = malloc(n * n * esz(pr));
        for (int k = 0; k < n * n; k++) st(z, k, pr, cabs(v[k]) > 0 ? 1 : 0);
        NEWH(h, bml_import_from_dense(ty, pr, dense_row_major, n, m, z, 0, md));
        mw_out();
        free(z); free(v);
        mw_in(); bfree(e); mw_out();
    }
    OP("conv") { int h = I(), a = I(), ty = I(), pr = I(), m = I(), md = I(); NEWH(h, bml_convert(H[a], ty, pr, m, md)); }
    OP("copynew") { int h = I(), a = I(); NEWH(h, bml_copy_new(H[a])); }
    OP("copy") { int a = I(), b = I(); mw_in(); bml_copy(H[a], H[b]); }
    OP("free") { int h = I(); mw_in(); bml_deallocate(&H[h]); mw_out(); ret(H[h] == NULL); }
    OP("clear") { int h = I(); mw_in(); bml_clear(H[h]); }
    OP("null")
    {
        ret(bml_get_type(NULL)); ret(bml_get_precision(NULL)); ret(bml_get_N(NULL)); ret(bml_get_M(NULL));
        ret(bml_get_NB(NULL)); ret(bml_allocated(NULL));
        bml_matrix_t *z = NULL;
        mw_in(); bml_deallocate(&z); bml_deallocate(NULL); mw_out();
    }
    OP("meta")
    {
        int h = I();
        ret(bml_get_type(H[h])); ret(bml_get_deep_type(H[h])); ret(bml_get_precision(H[h])); ret(bml_get_N(H[h]));
        ret(bml_get_M(H[h])); ret(bml_get_distribution_mode(H[h])); ret(bml_allocated(H[h]));
    }
    /* ---- linear combinations */
    OP("add") { int a = I(), b = I(); double x = HF(), y = HF(), t = HF(); mw_in(); bml_add(H[a], H[b], x, y, t); }
    OP("addnorm") { int a = I(), b = I(); double x = HF(), y = HF(), t = HF(); mw_in(); double r = bml_add_norm(H[a], H[b], x, y, t); retd(r); }
    OP("addid") { int a = I(); double y = HF(), t = HF(); mw_in(); bml_add_identity(H[a], y, t); }
    OP("sai") { int a = I(); double x = HF(), y = HF(), t = HF(); mw_in(); bml_scale_add_identity(H[a], x, y, t); }
    /* ---- copies */
    OP("scalenew") { int h = I(), a = I(); char s[16]; scal(pr_of(a), s); NEWH(h, bml_scale_new(s, H[a])); }
    OP("scale") { int a = I(), b = I(); char s[16]; scal(pr_of(a), s); mw_in(); bml_scale(s, H[a], H[b]); }
    OP("scalein") { int a = I(); char s[16]; scal(pr_of(a), s); mw_in(); bml_scale_inplace(s, H[a]); }
    OP("trnew") { int h = I(), a = I(); NEWH(h, bml_transpose_new(H[a])); }
    OP("tr") { int a = I(); mw_in(); bml_transpose(H[a]); }
    OP("thrnew") { int h = I(), a = I(); double t = HF(); NEWH(h, bml_threshold_new(H[a], t)); }
    OP("thr") { int a = I(); double t = HF(); mw_in(); bml_threshold(H[a], t); }
    /* ---- products */
    OP("mul") { int a = I(), b = I(), c = I(); double x = HF(), y = HF(), t = HF(); mw_in(); bml_multiply(H[a], H[b], H[c], x, y, t); }
    OP("x2")
    {
        int a = I(), c = I(); double t = HF();
        mw_in();
        double *r = bml_multiply_x2(H[a], H[c], t);
        mw_out();
        if (r) { retd(r[0]); retd(r[1]); mw_in(); bfree(r); }
    }
    OP("mulab") { int a = I(), b = I(), c = I(); double t = HF(); mw_in(); bml_multiply_AB(H[a], H[b], H[c], t); }
    OP("muladj") { int a = I(), b = I(), c = I(); double t = HF(); mw_in(); bml_multiply_adjust_AB(H[a], H[b], H[c], t); }
    OP("emul") { int a = I(), b = I(), c = I(); double t = HF(); mw_in(); bml_element_multiply_AB(H[a], H[b], H[c], t); }
    /* ---- setters */
    OP("setel") { int a = I(), i = I(), j = I(); void *v = vals(1, pr_of(a)); mw_in(); bml_set_element(H[a], i, j, v); mw_out(); free(v); }
    OP("setnew") { int a = I(), i = I(), j = I(); void *v = vals(1, pr_of(a)); mw_in(); bml_set_element_new(H[a], i, j, v); mw_out(); free(v); }
    OP("setrow") { int a = I(), i = I(); double t = HF(); void *v = vals(bml_get_N(H[a]), pr_of(a)); mw_in(); bml_set_row(H[a], i, v, t); mw_out(); free(v); }
    OP("setdiag") { int a = I(); double t = HF(); void *v = vals(bml_get_N(H[a]), pr_of(a)); mw_in(); bml_set_diagonal(H[a], v, t); mw_out(); free(v); }
    OP("views") { int a = I(); mw_in(); views(a); }
    OP("getel")
    {
        int a = I(), i = I(), j = I(), cx = isc(pr_of(a));
        mw_in();
        void *e = bml_get_element(H[a], i, j);
        mw_out();
        ret_dc(ld(e, 0, pr_of(a)), cx);
    }
    OP("getrow")
    {
        int a = I(), i = I(), cx = isc(pr_of(a)), n = bml_get_N(H[a]);
        mw_in();
        void *e = bml_get_row(H[a], i);
        for (int j = 0; j < n; j++) ret_dc(ld(e, j, pr_of(a)), cx);
        bfree(e);
    }
    OP("getdiag")
    {
        int a = I(), cx = isc(pr_of(a)), n = bml_get_N(H[a]);
        mw_in();
        void *e = bml_get_diagonal(H[a]);
        for (int j = 0; j < n; j++) ret_dc(ld(e, j, pr_of(a)), cx);
        bfree(e);
    }
    OP("exp")
    {
        int a = I(), ord = I(), cx = isc(pr_of(a)), n = bml_get_N(H[a]);
        mw_in();
        void *e = bml_export_to_dense(H[a], ord);
        for (int j = 0; e && j < n * n; j++) ret_dc(ld(e, j, pr_of(a)), cx);
        if (e) bfree(e);
    }
    OP("print")                 /* what is printed: the number of lines, then the numbers, unless a line has another length */
    {
        int a = I(), il = I(), iu = I(), jl = I(), ju = I();
        capture();
        mw_in(); bml_print_bml_matrix(H[a], il, iu, jl, ju); mw_out();
        captured(pr_of(a), ju - jl, 0);
    }
    OP("printd")                /* the exported array, in either order */
    {
        int a = I(), ord = I(), il = I(), iu = I(), jl = I(), ju = I();
        mw_in();
        void *e = bml_export_to_dense(H[a], ord);
        capture();
        if (e) bml_print_dense_matrix(bml_get_N(H[a]), pr_of(a), ord, e, il, iu, jl, ju);
        captured(pr_of(a), ju - jl, 0);
        if (e) bfree(e);
    }
    OP("printv")
    {
        int a = I(), i = I(), il = I(), iu = I();
        mw_in();
        void *e = bml_get_row(H[a], i);
        capture();
        if (e) bml_print_dense_vector(bml_get_N(H[a]), pr_of(a), e, il, iu);
        captured(pr_of(a), iu - il, 0);
        if (e) bfree(e);
    }
    /* ---- reductions */
    OP("trace") { int a = I(); mw_in(); retd(bml_trace(H[a])); }
    OP("tracemult") { int a = I(), b = I(); mw_in(); retd(bml_trace_mult(H[a], H[b])); }
    OP("sumsq") { int a = I(); mw_in(); retd(bml_sum_squares(H[a])); }
    OP("sumsq2") { int a = I(), b = I(); double x = HF(), y = HF(), t = HF(); mw_in(); retd(bml_sum_squares2(H[a], H[b], x, y, t)); }
    OP("sumab") { int a = I(), b = I(); double x = HF(), t = HF(); mw_in(); retd(bml_sum_AB(H[a], H[b], x, t)); }
    OP("sumsqsub") { int a = I(), k = I(); mw_in(); retd(bml_sum_squares_submatrix(H[a], k)); }
    OP("fnorm") { int a = I(); mw_in(); double f = bml_fnorm(H[a]); tolmode = 1; retd(f * f); ret(f >= 0); }
    OP("fnorm2") { int a = I(), b = I(); mw_in(); double f = bml_fnorm2(H[a], H[b]); tolmode = 1; retd(f * f); ret(f >= 0); }
    OP("spars") { int a = I(); double t = HF(); int n = bml_get_N(H[a]); mw_in(); double s = bml_get_sparsity(H[a], t); tolmode = 1; retd((1 - s) * n * n); }
    OP("bw") { int a = I(), n = bml_get_N(H[a]); mw_in(); ret(bml_get_bandwidth(H[a])); for (int i = 0; i < n; i++) ret(bml_get_row_bandwidth(H[a], i)); }
    /* ---- spectra */
    OP("gersh") { int a = I(); mw_in(); double *g = bml_gershgorin(H[a]); mw_out(); tolmode = 1; retd(g[0]); retd(g[1]); mw_in(); bfree(g); }
    OP("gershp") { int a = I(), k = I(); mw_in(); double *g = bml_gershgorin_partial(H[a], k); mw_out(); tolmode = 1; retd(g[0]); retd(g[1]); mw_in(); bfree(g); }
    OP("offdiag")
    {
        int a = I(), flag = I(), n = bml_get_N(H[a]), pr = pr_of(a);
        mw_in();
        void *g = bml_accumulate_offdiag(H[a], flag);
        mw_out(); tolmode = 1;
        for (int i = 0; i < n; i++) retd(creal(ld(g, i, pr)));
        mw_in(); bfree(g);
    }
    OP("normalize") { int a = I(); double lo = HF(), hi = HF(); mw_in(); bml_normalize(H[a], lo, hi); }
    OP("diag")                  /* diag a m: eigenvalues and eigenvectors, in thousandths; columns of V as exported */
    {
        int a = I(), ty = bml_get_deep_type(H[a]), pr = pr_of(a), n = bml_get_N(H[a]), m = I();
        void *ev = malloc(n * esz(pr));
        memset(ev, 0x5d, n * esz(pr));
        mw_in();
        bml_matrix_t *V = bml_zero_matrix(ty, pr, n, m, bml_get_distribution_mode(H[a]));
        bml_diagonalize(H[a], ev, V);
        void *e = bml_export_to_dense(V, dense_row_major);
        mw_out();
        for (int i = 0; i < n; i++) ret_milli(creal(ld(ev, i, pr)));
        if (e)
        {
            for (int k = 0; k < n * n; k++) ret_milli(creal(ld(e, k, pr)));
            for (int k = 0; isc(pr) && k < n * n; k++) ret_milli(cimag(ld(e, k, pr)));
        }
        mw_in();
        if (e) bfree(e);
        bml_deallocate(&V);
        mw_out();
        free(ev);
    }
    OP("inv")                   /* the inverse is observed in thousandths and released */
    {
        int a = I(), n = bml_get_N(H[a]), pr = pr_of(a);
        mw_in();
        bml_matrix_t *V = bml_inverse(H[a]);
        ret(bml_get_type(V)); ret(bml_get_precision(V)); ret(bml_get_N(V));
        void *e = bml_export_to_dense(V, dense_row_major);
        mw_out();
        for (int k = 0; k < n * n; k++) ret_milli(creal(ld(e, k, pr)));
        for (int k = 0; isc(pr) && k < n * n; k++) ret_milli(cimag(ld(e, k, pr)));
        mw_in();
        bfree(e);
        bml_deallocate(&V);
    }
    /* ---- blocks */
    OP("extract") { int h = I(), a = I(), i = I(), j = I(), n = I(), m = I(); NEWH(h, bml_extract_submatrix(H[a], i, j, n, m)); }
    OP("assign") { int a = I(), b = I(), i = I(), j = I(); mw_in(); bml_assign_submatrix(H[a], H[b], i, j); }
    OP("m2s")                   /* m2s a b cnt idx...: gather rows/columns idx of a into b (size cnt) */
    { int a = I(), b = I(), n = I(); int *x = ints(n); mw_in(); bml_matrix2submatrix(H[a], H[b], x, n); mw_out(); free(x); }
    OP("s2m")                   /* s2m a b lsize llsize t idx...: scatter the first llsize rows of a into b */
    { int a = I(), b = I(), l = I(), ll = I(); double t = HF(); int *x = ints(l); mw_in(); bml_submatrix2matrix(H[a], H[b], x, l, ll, t); mw_out(); free(x); }
    OP("halo")                  /* halo a g jump n nodes...: core+halo index list of a (and graph g) */
    {
        int a = I(), g = I(), jump = I(), n = I();
        int *nodes = ints(n), vs[2] = { -7, -7 };
        int N = bml_get_N(H[a]);
        int *ch = malloc((N + 1) * sizeof(int));
        for (int k = 0; k <= N; k++) ch[k] = -7;
        mw_in();
        if (g >= 0) bml_matrix2submatrix_index(H[a], H[g], nodes, n, ch, vs, jump);
        else bml_matrix2submatrix_index_graph(H[a], nodes, n, ch, vs, jump);
        mw_out();
        ret(vs[0]); ret(vs[1]);
        for (int k = 0; k < vs[0] && k < N; k++) ret(ch[k]);
        ret(ch[N] == -7);
        free(nodes); free(ch);
    }
    OP("adj")
    {
        int a = I(), base = I(), cap = I();
        int N = bml_get_N(H[a]);
        int *x = malloc((N + 2) * sizeof(int)), *y = malloc((cap + 1) * sizeof(int));
        for (int k = 0; k < N + 2; k++) x[k] = -7;
        for (int k = 0; k <= cap; k++) y[k] = -7;
        mw_in();
        bml_adjacency(H[a], x, y, base);
        mw_out();
        for (int k = 0; k < N + 2; k++) ret(x[k]);
        for (int i = 0; i < N; i++)     /* neighbour order within a row is unspecified */
            if (x[i] - base >= 0 && x[i + 1] >= x[i] && x[i + 1] - base <= cap) qsort(y + x[i] - base, x[i + 1] - x[i], sizeof(int), cmpint);
        for (int k = 0; k <= cap; k++) ret(y[k]);
        free(x); free(y);
    }
    OP("adjg")
    {
        int a = I(), nn = I(), base = I(), cap = I();
        int *hi = ints(nn + 1);
        int *x = malloc((nn + 2) * sizeof(int)), *y = malloc((cap + 1) * sizeof(int));
        for (int k = 0; k < nn + 2; k++) x[k] = -7;
        for (int k = 0; k <= cap; k++) y[k] = -7;
        mw_in();
        bml_adjacency_group(H[a], hi, nn, x, y, base);
        mw_out();
        for (int k = 0; k < nn + 2; k++) ret(x[k]);
        for (int i = 0; i < nn; i++)
            if (x[i] - base >= 0 && x[i + 1] >= x[i] && x[i + 1] - base <= cap) qsort(y + x[i] - base, x[i + 1] - x[i], sizeof(int), cmpint);
        for (int k = 0; k <= cap; k++) ret(y[k]);
        free(hi); free(x); free(y);
    }
    OP("group")                 /* group h a t ng hindex...(1-based first node of each group) */
    { int h = I(), a = I(); double t = HF(); int ng = I(); int *x = ints(ng + 1); NEWH(h, bml_group_matrix(H[a], x, ng, t)); mw_out(); free(x); }
    /* ---- triangles and permutations */
    OP("reorder") { int a = I(); int *p = ints(bml_get_N(H[a])); mw_in(); bml_reorder(H[a], p); mw_out(); free(p); }
    OP("breorder")              /* permutation of blocks */
    { int a = I(), n = I(); int *p = ints(n); mw_in(); bml_reorder(H[a], p); mw_out(); free(p); }
    OP("adjung") { int a = I(); char t[2] = { I() ? 'l' : 'u', 0 }; mw_in(); bml_adjungate_triangle(H[a], t); }
    OP("trtri") { int a = I(); char t = I() ? 'l' : 'u'; mw_in(); bml_transpose_triangle(H[a], t); }
    /* ---- files */
    OP("write")
    {
        int a = I(), k = I();
        if (!written) { mw_in(); bml_write_bml_matrix(H[a], (char *) fname(k)); mw_out(); }
#ifdef DRV_SHIM
        if (myrank && bml_get_type(H[a]) == distributed2d) return 0;
#endif
        /* parse the file independently: header ok?, dims, count, entries */
        char *b = slurp(fname(k));
        int cx = isc(pr_of(a));
        char *nl = strchr(b, '\n');
        const char *want = cx ? "%%MatrixMarket matrix coordinate complex general" : "%%MatrixMarket matrix coordinate real general";
        ret(nl && (size_t) (nl - b) == strlen(want) && !strncmp(b, want, strlen(want)));
        if (nl)
        {
            char *q = nl + 1;
            for (int z = 0; z < 3; z++) ret(strtol(q, &q, 10));
            for (;;)
            {
                char *s = q;
                long i = strtol(q, &q, 10);
                if (q == s) break;
                long j = strtol(q, &q, 10);
                double re = strtod(q, &q), im = cx ? strtod(q, &q) : 0;
                ret(i); ret(j); retd(re); if (cx) retd(im);
            }
            while (*q == ' ' || *q == '\n') q++;
            ret(*q == 0);
        }
    }
    OP("read") { int a = I(), k = I(); mw_in(); bml_read_bml_matrix(H[a], (char *) fname(k)); }
    OP("mkfile")                /* mkfile k cx n nnz (i j re im)...: a file made independently of the library */
    {
        int k = I(), cx = I(), n = I(), nnz = I();
        FILE *f = fopen(fname(k), "w");
        fprintf(f, "%%%%MatrixMarket matrix coordinate %s general\n%d %d %d\n", cx ? "complex" : "real", n, n, nnz);
        for (int q = 0; q < nnz; q++)
        {
            int i = I(), j = I(), re = I(), im = I();
            if (cx) fprintf(f, "%d %d %d %d\n", i, j, re, im);
            else fprintf(f, "%d %d %d\n", i, j, re);
        }
        fclose(f);
    }
    OP("badfile") { int k = I(), kind = I(); FILE *f = fopen(fname(k), "w"); fputs(kind == 0 ? "" : kind == 1 ? "%%MatrixMarket matrix coordinate real general\n" : "%%MatrixMarket matrix coordinate real general\n3 3 2\n1 1 5\n", f); fclose(f); }
    OP("gemm")                  /* gemm kind pr ta tb m n k lda ldb ldc ar ai br bi nan A.. B.. C.. (kind 0: built-in, 1: default, 2: small) */
    {
        int kind = I(), pr = I(), ta = I(), tb = I(), m = I(), n = I(), k = I(), lda = I(), ldb = I(), ldc = I();
        double complex al = HF(), be;
        al += _Complex_I * HF();
        be = HF();
        be += _Complex_I * HF();
        int nan_ = I();
        int na = lda * (ta ? m : k), nb = ldb * (tb ? k : n), nc = ldc * n, G = 32;
        void *src[3] = { vals(na, pr), vals(nb, pr), vals(nc, pr) }, *buf[3], *ref[3];
        int cnt[3] = { na, nb, nc };
        size_t z = esz(pr);
        for (int q = 0; q < 3; q++)             /* every array sits between guards */
        {
            buf[q] = malloc((cnt[q] + 2 * G) * z);
            memset(buf[q], 0x7b, (cnt[q] + 2 * G) * z);
            memcpy((char *) buf[q] + G * z, src[q], cnt[q] * z);
            if (q == 2 && nan_)
                for (int j = 0; j < n; j++)
                    for (int i = 0; i < m; i++) st((char *) buf[q] + G * z, j * ldc + i, pr, NAN);
            ref[q] = malloc((cnt[q] + 2 * G) * z);
            memcpy(ref[q], buf[q], (cnt[q] + 2 * G) * z);
        }
        char cta[2] = { "NTC"[ta], 0 }, ctb[2] = { "NTC"[tb], 0 };
        char sa[16], sb[16];
        st(sa, 0, pr, al); st(sb, 0, pr, be);
        void *A = (char *) buf[0] + G * z, *B = (char *) buf[1] + G * z, *C = (char *) buf[2] + G * z;
#define GEMM_(P) { if (kind == 0) bml_gemm_internal_##P(cta, ctb, &m, &n, &k, (void *) sa, A, &lda, B, &ldb, (void *) sb, C, &ldc); \
                   else if (kind == 1) bml_gemm_##P(cta, ctb, &m, &n, &k, (void *) sa, A, &lda, B, &ldb, (void *) sb, C, &ldc); \
                   else bml_xsmm_gemm_##P(cta, ctb, &m, &n, &k, (void *) sa, A, &lda, B, &ldb, (void *) sb, C, &ldc); }
        mw_in();
        if (pr == single_real) GEMM_(single_real)
        else if (pr == double_real) GEMM_(double_real)
        else if (pr == single_complex) GEMM_(single_complex)
        else GEMM_(double_complex)
        mw_out();
        int ok = !memcmp(buf[0], ref[0], (na + 2 * G) * z) && !memcmp(buf[1], ref[1], (nb + 2 * G) * z)
            && !memcmp(buf[2], ref[2], G * z) && !memcmp((char *) C + nc * z, (char *) ref[2] + (G + nc) * z, G * z);
        ret(ok);
        for (int q = 0; q < nc; q++)            /* in halves */
        {
            dc v = ld(C, q, pr);
            rete(2 * creal(v));
            if (isc(pr)) rete(2 * cimag(v));
        }
        for (int q = 0; q < 3; q++) { free(src[q]); free(buf[q]); free(ref[q]); }
    }
#ifdef DRV_SHIM
#include "ops_mpi.h"
#endif
    else return -1;
    return 0;
}
