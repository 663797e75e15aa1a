/* The same operations through the Fortran interface (fshim.f90.in). Indices are handed over one-based and arrays in
 * column-major order; optional arguments are left out when they have their default value and the hash of the call says so. */
#define FTYPED(R, name, ...) R f_##name##_s(__VA_ARGS__); R f_##name##_d(__VA_ARGS__); R f_##name##_c(__VA_ARGS__); R f_##name##_z(__VA_ARGS__);
FTYPED(void, imp, bml_matrix_t **, int, int, int, int, double, int, int, void *)
FTYPED(void, exp, bml_matrix_t *, int, int, void *)
FTYPED(void, setel, int, bml_matrix_t *, int, int, void *)
FTYPED(void, setrow, bml_matrix_t *, int, int, void *, double, int, int)
FTYPED(void, getel, bml_matrix_t *, int, int, void *)
FTYPED(void, getrow, bml_matrix_t *, int, int, int, void *)
FTYPED(void, scale, bml_matrix_t *, bml_matrix_t *, void *)
FTYPED(void, printd, int, void *, int, int, int, int, int)
#define FCALL(pr, name, ...) do { switch (pr) { case single_real: f_##name##_s(__VA_ARGS__); break; case double_real: f_##name##_d(__VA_ARGS__); break; \
    case single_complex: f_##name##_c(__VA_ARGS__); break; default: f_##name##_z(__VA_ARGS__); } } while (0)
void f_domain(int, bml_matrix_t *, int *, int *, int *);
void f_print(bml_matrix_t *, int, int, int, int);
void f_new(int, bml_matrix_t **, int, int, int, int, int, int), f_free(bml_matrix_t **), f_clear(bml_matrix_t *), f_meta(bml_matrix_t *, int *);
void f_block(bml_matrix_t **, int, int, int, int, int, int *, int);
int f_none(void), f_bw(bml_matrix_t *, int);
void f_add(bml_matrix_t *, bml_matrix_t *, double, double, double, int), f_addid(bml_matrix_t *, double, double);
double f_addnorm(bml_matrix_t *, bml_matrix_t *, double, double, double, int);
void f_sai(bml_matrix_t *, double, double, double), f_copynew(bml_matrix_t **, bml_matrix_t *), f_copy(bml_matrix_t *, bml_matrix_t *);
void f_transpose(bml_matrix_t **, bml_matrix_t *), f_inverse(bml_matrix_t **, bml_matrix_t *), f_thr(bml_matrix_t *, double);
void f_mul(bml_matrix_t *, bml_matrix_t *, bml_matrix_t *, double, double, double, int), f_emul(bml_matrix_t *, bml_matrix_t *, bml_matrix_t *, double, int);
void f_x2(bml_matrix_t *, bml_matrix_t *, double, int, double *), f_reals(int, bml_matrix_t *, bml_matrix_t *, int, double, double, double, double *);
void f_gersh(bml_matrix_t *, int, double *, int), f_normalize(bml_matrix_t *, double, double), f_diag(bml_matrix_t *, int, double *, bml_matrix_t *);
void f_m2s(bml_matrix_t *, bml_matrix_t *, int *, int), f_s2m(bml_matrix_t *, bml_matrix_t *, int *, int, int, double, int);
void f_halo(bml_matrix_t *, bml_matrix_t *, int *, int, int *, int *, int), f_adj(bml_matrix_t *, int *, int *, int);
void f_adjg(bml_matrix_t *, int *, int, int *, int *, int), f_group(bml_matrix_t **, bml_matrix_t *, int *, int, double);
void f_reorder(bml_matrix_t *, int *), f_triangle(int, bml_matrix_t *, int), f_file(int, bml_matrix_t *, const char *, int, int);

static unsigned fbits;
static int fbit(int n) { int r = fbits % n; fbits = fbits / n * 2654435761u + 12345u; return r; }
static double freal(int what, int a, int b, int k, double x, double y, double t)
{
    double r = 0.123456789;
    f_reals(what, H[a], b < 0 ? NULL : H[b], k, x, y, t, &r);
    return r;
}
/* the result of a call may replace an existing matrix, which must be released */
static void pre(int h) { mw_in(); if (!H[h] && fbit(2)) H[h] = bml_zero_matrix(fbit(2) ? dense : ellpack, single_real, 3, 2, sequential); }
#define TH(t) ((t) != 0 || fbit(2))
#define OP_F(n) else if (!strcmp(op, n))

static int f_op(const char *op)
{
    fbits = 2166136261u;
    for (const char *s = op; *s; s++) fbits = (fbits ^ *s) * 16777619u;
    for (const char *s = argbuf; *s; s++) fbits = (fbits ^ *s) * 16777619u;
    fbits ^= fbits >> 15;
    if (0) ;
    OP_F("imp")
    {
        int h = I(), ty = I(), pr = I(), n = I(), m = I(), md = I(), ord = I();
        double t = HF();
        void *d = vals(n * n, pr), *v = malloc(n * n * esz(pr));
        if (ty > csr) { tp = 1; return 0; }
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++)
                st(v, j * n + i, pr, ld(d, ord == dense_row_major ? i * n + j : j * n + i, pr));
        int full = ty == dense && t == 0 && md == 0 && fbit(3) == 0;
        int opt = full ? 3 : md == 0 && fbit(2) ? 2 : TH(t);
        pre(h);
        FCALL(pr, imp, &H[h], ty, n, m, md, t, opt, fbit(5), v);
        mw_out();
        ret(1);
        free(d); free(v);
    }
    OP_F("zero") { int h = I(), ty = I(), pr = I(), n = I(), m = I(), md = I(); pre(h); f_new(0, &H[h], ty, pr, n, m, md, fbit(2)); }
    OP_F("blockm")
    {
        int h = I(), pr = I(), mb = I(), m = I(), md = I(), k = 0, s[64];
        while (k < 64 && tp < nt) s[k++] = I();
        pre(h);
        f_block(&H[h], pr, k, mb, m, md, s, fbit(2));
    }
    OP_F("ident") { int h = I(), ty = I(), pr = I(), n = I(), m = I(), md = I(); pre(h); f_new(1, &H[h], ty, pr, n, m, md, fbit(2)); }
    OP_F("noinit") { int h = I(), ty = I(), pr = I(), n = I(), m = I(), md = I(); pre(h); f_new(2, &H[h], ty, pr, n, m, md, fbit(2)); f_clear(H[h]); }
    OP_F("copynew") { int h = I(), a = I(); pre(h); f_copynew(&H[h], H[a]); }
    OP_F("copy") { int a = I(), b = I(); mw_in(); f_copy(H[a], H[b]); }
    OP_F("free") { int h = I(); mw_in(); f_free(&H[h]); mw_out(); ret(H[h] == NULL); }
    OP_F("clear") { int h = I(); mw_in(); f_clear(H[h]); }
    OP_F("meta")
    {
        int h = I(), r[7];
        mw_in(); f_meta(H[h], r); mw_out();
        if (f_none()) r[6] = -1;
        for (int k = 0; k < 7; k++) ret(r[k]);
    }
    OP_F("add") { int a = I(), b = I(); double x = HF(), y = HF(), t = HF(); mw_in(); f_add(H[a], H[b], x, y, t, fbit(2) * 2 + TH(t)); }
    OP_F("addnorm") { int a = I(), b = I(); double x = HF(), y = HF(), t = HF(); mw_in(); retd(f_addnorm(H[a], H[b], x, y, t, TH(t))); }
    OP_F("addid") { int a = I(); double y = HF(), t = HF(); mw_in(); f_addid(H[a], y, t); }
    OP_F("sai") { int a = I(); double x = HF(), y = HF(), t = HF(); mw_in(); f_sai(H[a], x, y, t); }
    OP_F("scale") { int a = I(), b = I(); char s[16]; scal(pr_of(a), s); mw_in(); FCALL(pr_of(a), scale, H[a], H[b], s); }
    OP_F("scalein") { int a = I(); char s[16]; scal(pr_of(a), s); mw_in(); FCALL(pr_of(a), scale, NULL, H[a], s); }
    OP_F("trnew") { int h = I(), a = I(); pre(h); f_transpose(&H[h], H[a]); }
    OP_F("thr") { int a = I(); double t = HF(); mw_in(); f_thr(H[a], t); }
    OP_F("mul")
    {
        int a = I(), b = I(), c = I(); double x = HF(), y = HF(), t = HF();
        mw_in();
        f_mul(H[a], H[b], H[c], x, y, t, (x != 1 || fbit(2)) + 2 * (y != 0 || fbit(2)) + 4 * TH(t));
    }
    OP_F("x2")
    {
        int a = I(), c = I(); double t = HF(), r[2];
        mw_in();
        f_x2(H[a], H[c], t, TH(t) + 2 * fbit(3), r);
        mw_out();
        retd(r[0]); retd(r[1]);
    }
    OP_F("emul") { int a = I(), b = I(), c = I(); double t = HF(); mw_in(); f_emul(H[a], H[b], H[c], t, TH(t)); }
    OP_F("setel") { int a = I(), i = I(), j = I(); void *v = vals(1, pr_of(a)); mw_in(); FCALL(pr_of(a), setel, 0, H[a], i + 1, j + 1, v); mw_out(); free(v); }
    OP_F("setnew") { int a = I(), i = I(), j = I(); void *v = vals(1, pr_of(a)); mw_in(); FCALL(pr_of(a), setel, 1, H[a], i + 1, j + 1, v); mw_out(); free(v); }
    OP_F("setrow")
    {
        int a = I(), i = I(), n = bml_get_N(H[a]); double t = HF(); void *v = vals(n, pr_of(a));
        mw_in(); FCALL(pr_of(a), setrow, H[a], i + 1, n, v, t, TH(t), 1 + fbit(2)); mw_out(); free(v);
    }
    OP_F("setdiag")
    {
        int a = I(), n = bml_get_N(H[a]); double t = HF(); void *v = vals(n, pr_of(a));
        mw_in(); FCALL(pr_of(a), setrow, H[a], 0, n, v, t, TH(t), 1 + fbit(2)); mw_out(); free(v);
    }
    OP_F("getel")
    {
        int a = I(), i = I(), j = I(), pr = pr_of(a); char v[16];
        mw_in(); FCALL(pr, getel, H[a], i + 1, j + 1, v); mw_out();
        ret_dc(ld(v, 0, pr), isc(pr));
    }
    OP_F("getrow")
    {
        int a = I(), i = I(), pr = pr_of(a), n = bml_get_N(H[a]);
        void *v = malloc(n * esz(pr));
        mw_in(); FCALL(pr, getrow, H[a], i + 1, n, fbit(3) * n / 2, v); mw_out();
        for (int j = 0; j < n; j++) ret_dc(ld(v, j, pr), isc(pr));
        free(v);
    }
    OP_F("getdiag")
    {
        int a = I(), pr = pr_of(a), n = bml_get_N(H[a]);
        void *v = malloc(n * esz(pr));
        mw_in(); FCALL(pr, getrow, H[a], 0, n, fbit(3) * n / 2, v); mw_out();
        for (int j = 0; j < n; j++) ret_dc(ld(v, j, pr), isc(pr));
        free(v);
    }
    OP_F("exp")
    {
        int a = I(), ord = I(), pr = pr_of(a), n = bml_get_N(H[a]);
        void *v = malloc(n * n * esz(pr));
        mw_in(); FCALL(pr, exp, H[a], n, fbit(3), v); mw_out();
        for (int k = 0; k < n * n; k++) ret_dc(ld(v, ord == dense_row_major ? k % n * n + k / n : k, pr), isc(pr));
        free(v);
    }
    OP_F("views")               /* every way of reading the matrix */
    {
        int a = I(), n = bml_get_N(H[a]), pr = pr_of(a), cx = isc(pr);
        void *v = malloc(n * n * esz(pr));
        mw_in();
        FCALL(pr, exp, H[a], n, fbit(3), v);
        for (int k = 0; k < n * n; k++) { dc w = ld(v, k, pr); retd(creal(w)); if (cx) retd(cimag(w)); }
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { FCALL(pr, getel, H[a], i + 1, j + 1, v); ret_dc(ld(v, 0, pr), cx); }
        for (int i = 0; i <= n; i++)
        {
            FCALL(pr, getrow, H[a], i == n ? 0 : i + 1, n, fbit(3) * n / 2, v);
            for (int j = 0; j < n; j++) ret_dc(ld(v, j, pr), cx);
        }
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { FCALL(pr, getel, H[a], i + 1, j + 1, v); ret_dc(ld(v, 0, pr), cx); }
        mw_out();
        free(v);
    }
    OP_F("setdom")
    {
        int h = I(), np = I(), *mn = ints(1), *mx = ints(1), *nn = ints(np);
        mw_in(); f_domain(0, H[h], mn, mx, nn); mw_out();
        free(mn); free(mx); free(nn);
        put_domain(h);
    }
    OP_F("savedom") { int h = I(); mw_in(); f_domain(1, H[h], NULL, NULL, NULL); put_domain(h); }
    OP_F("restdom") { int h = I(); mw_in(); f_domain(2, H[h], NULL, NULL, NULL); put_domain(h); }
    OP_F("print")
    {
        int a = I(), il = I(), iu = I(), jl = I(), ju = I();
        capture();
        mw_in(); f_print(H[a], il + 1, iu, jl + 1, ju); mw_out();
        captured(pr_of(a), ju - jl, 1);
    }
    OP_F("printd")
    {
        int a = I(), ord = I(), il = I(), iu = I(), jl = I(), ju = I(), pr = pr_of(a);
        (void) ord;
        mw_in();
        void *e = bml_export_to_dense(H[a], dense_column_major);
        capture();
        FCALL(pr, printd, bml_get_N(H[a]), e, il + 1, iu, jl + 1, ju, fbit(2));
        captured(pr, ju - jl, 1);
        bfree(e);
    }
    OP_F("trace") { int a = I(); mw_in(); retd(freal(0, a, -1, 0, 0, 0, 0)); }
    OP_F("tracemult") { int a = I(), b = I(); mw_in(); retd(freal(1, a, b, 0, 0, 0, 0)); }
    OP_F("sumsq") { int a = I(); mw_in(); retd(freal(2, a, -1, 0, 0, 0, 0)); }
    OP_F("sumsq2") { int a = I(), b = I(); double x = HF(), y = HF(), t = HF(); mw_in(); retd(freal(3, a, b, 0, x, y, t)); }
    OP_F("sumab") { int a = I(), b = I(); double x = HF(), t = HF(); mw_in(); retd(freal(4, a, b, 0, x, 0, t)); }
    OP_F("sumsqsub") { int a = I(), k = I(); mw_in(); retd(freal(5, a, -1, k, 0, 0, 0)); }
    OP_F("fnorm") { int a = I(); mw_in(); double f = freal(6, a, -1, 0, 0, 0, 0); tolmode = 1; retd(f * f); ret(f >= 0); }
    OP_F("fnorm2") { int a = I(), b = I(); mw_in(); double f = freal(7, a, b, 0, 0, 0, 0); tolmode = 1; retd(f * f); ret(f >= 0); }
    OP_F("spars") { int a = I(); double t = HF(); int n = bml_get_N(H[a]); mw_in(); double s = freal(8, a, -1, 0, 0, 0, t); tolmode = 1; retd((1 - s) * n * n); }
    OP_F("bw") { int a = I(), n = bml_get_N(H[a]); mw_in(); for (int i = 0; i <= n; i++) ret(f_bw(H[a], i)); }
    OP_F("gersh") { int a = I(); double g[2]; mw_in(); f_gersh(H[a], 0, g, fbit(4)); tolmode = 1; retd(g[0]); retd(g[1]); }
    OP_F("gershp") { int a = I(), k = I(); double g[2]; mw_in(); f_gersh(H[a], k, g, fbit(4)); tolmode = 1; retd(g[0]); retd(g[1]); }
    OP_F("normalize") { int a = I(); double lo = HF(), hi = HF(); mw_in(); f_normalize(H[a], lo, hi); }
    OP_F("diag")
    {
        int a = I(), ty = bml_get_deep_type(H[a]), pr = pr_of(a), n = bml_get_N(H[a]), m = I(), ok = 1;
        double *ev = malloc((n + 4) * sizeof(double));
        for (int k = 0; k < n + 4; k++) ev[k] = -12345;
        mw_in();
        bml_matrix_t *V = bml_zero_matrix(ty, pr, n, m, bml_get_distribution_mode(H[a]));
        f_diag(H[a], n, ev, V);
        void *e = bml_export_to_dense(V, dense_row_major);
        mw_out();
        for (int k = n; k < n + 4; k++) if (ev[k] != -12345) ok = 0;
        for (int i = 0; i < n; i++) ret_milli(ok ? ev[i] : BAD);
        for (int k = 0; k < n * n; k++) ret_milli(creal(ld(e, k, pr)));
        for (int k = 0; isc(pr) && k < n * n; k++) ret_milli(cimag(ld(e, k, pr)));
        mw_in();
        bfree(e);
        bml_deallocate(&V);
        mw_out();
        free(ev);
    }
    OP_F("inv")
    {
        int a = I(), n = bml_get_N(H[a]), pr = pr_of(a);
        mw_in();
        bml_matrix_t *V = fbit(2) ? bml_zero_matrix(dense, single_real, 3, 3, sequential) : NULL;
        f_inverse(&V, H[a]);
        ret(bml_get_type(V)); ret(bml_get_precision(V)); ret(bml_get_N(V));
        void *e = bml_export_to_dense(V, dense_row_major);
        mw_out();
        for (int k = 0; k < n * n; k++) ret_milli(creal(ld(e, k, pr)));
        for (int k = 0; isc(pr) && k < n * n; k++) ret_milli(cimag(ld(e, k, pr)));
        mw_in();
        bfree(e);
        f_free(&V);
    }
    OP_F("m2s") { int a = I(), b = I(), n = I(); int *x = ints(n); mw_in(); f_m2s(H[a], H[b], x, n); mw_out(); free(x); }
    OP_F("s2m") { int a = I(), b = I(), l = I(), ll = I(); double t = HF(); int *x = ints(l); mw_in(); f_s2m(H[a], H[b], x, l, ll, t, TH(t)); mw_out(); free(x); }
    OP_F("halo")
    {
        int a = I(), g = I(), jump = I(), n = I();
        int *nodes = ints(n), vs[2] = { -7, -7 };
        int N = bml_get_N(H[a]);
        int *ch = malloc((N + 1) * sizeof(int));
        for (int k = 0; k <= N; k++) ch[k] = -7;
        mw_in();
        f_halo(H[a], g >= 0 ? H[g] : NULL, nodes, n, ch, vs, jump);
        mw_out();
        ret(vs[0]); ret(vs[1]);
        for (int k = 0; k < vs[0] && k < N; k++) ret(ch[k]);
        ret(ch[N] == -7);
        free(nodes); free(ch);
    }
    OP_F("adj")
    {
        int a = I(), base = I(), cap = I();
        int N = bml_get_N(H[a]);
        int *x = malloc((N + 2) * sizeof(int)), *y = malloc((cap + 1) * sizeof(int));
        for (int k = 0; k < N + 2; k++) x[k] = -7;
        for (int k = 0; k <= cap; k++) y[k] = -7;
        mw_in();
        f_adj(H[a], x, y, base);
        mw_out();
        for (int k = 0; k < N + 2; k++) ret(x[k]);
        for (int i = 0; i < N; i++)
            if (x[i] - base >= 0 && x[i + 1] >= x[i] && x[i + 1] - base <= cap) qsort(y + x[i] - base, x[i + 1] - x[i], sizeof(int), cmpint);
        for (int k = 0; k <= cap; k++) ret(y[k]);
        free(x); free(y);
    }
    OP_F("adjg")
    {
        int a = I(), nn = I(), base = I(), cap = I();
        int *hi = ints(nn + 1);
        int *x = malloc((nn + 2) * sizeof(int)), *y = malloc((cap + 1) * sizeof(int));
        for (int k = 0; k < nn + 2; k++) x[k] = -7;
        for (int k = 0; k <= cap; k++) y[k] = -7;
        mw_in();
        f_adjg(H[a], hi, nn, x, y, base);
        mw_out();
        for (int k = 0; k < nn + 2; k++) ret(x[k]);
        for (int i = 0; i < nn; i++)
            if (x[i] - base >= 0 && x[i + 1] >= x[i] && x[i + 1] - base <= cap) qsort(y + x[i] - base, x[i + 1] - x[i], sizeof(int), cmpint);
        for (int k = 0; k <= cap; k++) ret(y[k]);
        free(hi); free(x); free(y);
    }
    OP_F("group") { int h = I(), a = I(); double t = HF(); int ng = I(); int *x = ints(ng + 1); pre(h); f_group(&H[h], H[a], x, ng, t); mw_out(); free(x); }
    OP_F("reorder") { int a = I(); int *p = ints(bml_get_N(H[a])); mw_in(); f_reorder(H[a], p); mw_out(); free(p); }
    OP_F("adjung") { int a = I(), lo = I(); mw_in(); f_triangle(0, H[a], lo); }
    OP_F("trtri") { int a = I(), lo = I(); mw_in(); f_triangle(1, H[a], lo); }
    OP_F("write")               /* written through Fortran, read back from the file by the C branch */
    {
        int a = I(), k = I();
        mw_in(); f_file(0, H[a], fname(k), strlen(fname(k)), fbit(3)); mw_out();
        tp = 1;
        return 2;
    }
    OP_F("read") { int a = I(), k = I(); mw_in(); f_file(1, H[a], fname(k), strlen(fname(k)), fbit(3)); }
    else return 0;
    return 1;
}
