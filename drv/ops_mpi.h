/* Operations of several ranks. Every rank runs every line, unless the line names one rank; matrices of the transfer
 * operations belong to one rank each. */
    OP("send")                  /* send kind src a dst b [ty pr n m]: kind 0 send/recv, 1 irecv first, 2 recv_matrix makes b */
    {
        int kind = I(), src = I(), a = I(), dst = I(), b = I();
        MPI_Comm c = MPI_COMM_WORLD;
        if (kind == 2)
        {
            int ty = I(), pr = I(), n = I(), m = I();
            if (myrank == src) { mw_in(); bml_mpi_send(H[a], dst, c); }
            if (myrank == dst) NEWH(b, bml_mpi_recv_matrix(ty, pr, n, m, src, c));
        }
        else
        {
            if (myrank == src) { mw_in(); bml_mpi_send(H[a], dst, c); }
            if (myrank == dst)
            {
                mw_in();
                if (kind == 0) bml_mpi_recv(H[b], src, c);
                else { bml_mpi_irecv(H[b], src, c); bml_mpi_irecv_complete(H[b]); }
            }
        }
    }
    OP("swap")                  /* swap r1 a1 b1 r2 a2 b2: both ranks receive into b while sending a */
    {
        int r1 = I(), a1 = I(), b1 = I(), r2 = I(), a2 = I(), b2 = I();
        int a = myrank == r1 ? a1 : a2, b = myrank == r1 ? b1 : b2, o = myrank == r1 ? r2 : r1;
        if (myrank == r1 || myrank == r2)
        {
            mw_in();
            bml_mpi_irecv(H[b], o, MPI_COMM_WORLD);
            bml_mpi_send(H[a], o, MPI_COMM_WORLD);
            bml_mpi_irecv_complete(H[b]);
        }
    }
    OP("bcast")                 /* bcast root rev h0 .. hR-1: ranks with h >= 0 form the communicator (in reverse order if rev) */
    {
        int root = I(), rev = I(), h[36], all = 1, pos = 0, cnt = 0;
        for (int r = 0; r < nranks; r++) { h[r] = I(); if (h[r] < 0) all = 0; }
        for (int r = 0; r < nranks; r++) { if (h[r] >= 0) cnt++; if (r < root && h[r] >= 0) pos++; }
        MPI_Comm c = MPI_COMM_WORLD;
        if (!all || rev) MPI_Comm_split(MPI_COMM_WORLD, h[myrank] >= 0, rev ? -myrank : myrank, &c);
        if (rev) pos = cnt - 1 - pos;
        if (h[myrank] >= 0) { mw_in(); bml_mpi_bcast_matrix(H[h[myrank]], pos, c); mw_out(); }
        if (c != MPI_COMM_WORLD) MPI_Comm_free(&c);
    }
    OP("drand")                 /* a random distributed matrix: attributes and pattern, then replaced by zero */
    {
        int h = I(), ty = I(), pr = I(), n = I(), m = I();
        NEWH(h, bml_random_matrix(ty, pr, n, m, distributed));
        bml_matrix_t *X = bml_get_local_matrix(H[h]);
        int k = bml_get_N(X), inr = 1, cnt = 0;
        void *e = bml_export_to_dense(X, dense_row_major);
        for (int q = 0; q < k * k; q++)
        {
            dc v = ld(e, q, pr);
            if (!(creal(v) >= 0 && creal(v) <= 1 && cimag(v) >= 0 && cimag(v) <= 1)) inr = 0;
            cnt += cabs(v) > 0;
        }
        bfree(e);
        ret(inr); ret(cnt <= k * bml_get_M(X)); ret(cnt > 0);
        bml_clear(H[h]);
    }
    /* ---- row-distributed matrices */
    OP("ddom")                  /* ddom n m mode: the default decomposition, a copy of it */
    {
        int n = I(), m = I(), md = I();
        mw_in();
        bml_domain_t *d = bml_default_domain(n, m, md), *c = bml_default_domain(n + 1, m, sequential);
        mw_out();
        dom_ret(d, md == distributed);
        mw_in();
        bml_copy_domain(d, c);
        mw_out();
        for (int r = 0; r < nranks; r++) { ret(c->localRowMin[r]); ret(c->localRowMax[r]); ret(c->localRowExtent[r]); ret(c->localElements[r]); ret(c->localDispl[r]); }
        mw_in();
        bml_deallocate_domain(d);
        bml_deallocate_domain(c);
    }
    OP("gath") { int h = I(); mw_in(); bml_allGatherVParallel(H[h]); }
    OP("red")                   /* red kind x step R: reduction of the rank's own number x + rank * step */
    {
        int kind = I();
        double x = I() / 2.0;
        x += myrank * (I() / 2.0);
        mw_in();
        if (kind == 0) bml_sumRealReduce(&x);
        else if (kind == 1) bml_minRealReduce(&x);
        else bml_maxRealReduce(&x);
        mw_out();
        retd(2 * x);
    }
    OP("barrier") { mw_in(); bml_barrierParallel(); }
    OP("who") { I(); ret(bml_getNRanks()); ret(bml_getMyRank() == myrank); ret(bml_printRank() == (myrank == 0)); }
