-------------------------------- MODULE BML --------------------------------
(* The heap machine behind bml's public interface.

   State: `heap` maps handles to matrices (format, precision, size, row capacity, distribution mode, value),
   `files` maps file numbers to the coordinate files written so far, `ret` is what the last call returned and
   `out` how it ended ("ok", or "exit" when the library stopped the program with an error).

   One action per public call. Scalar factors and thresholds are given in halves. The parameter w of an action
   is the resulting matrix value: where a drop threshold leaves a choice, any allowed w may be taken; everywhere
   else w is determined. The exhaustive models (MCBML) choose w, the trace specification (Trace) reads it from
   the observed run.                                                                                          *)
EXTENDS Mat

CONSTANTS Handles, Files

VARIABLES heap, files, ret, out,
          blk,       \* 1 once an ellblock matrix existed: the library then keeps its table of block sizes
          bs         \* block sizes of ellblock matrices chosen by the first block matrix of a program
vars == <<heap, files, ret, out, blk, bs>>

Dense == 1  Ellpack == 2  Ellblock == 3  Csr == 4
Types == {Dense, Ellpack, Ellblock, Csr}
Precs == 1 .. 4
CxPrec(pr) == pr >= 3
NIL == [ty |-> 0, pr |-> 0, n |-> 0, m |-> 0, md |-> 0, v |-> <<>>]

Live(h) == heap[h].ty # 0
V(h) == heap[h].v
N(h) == heap[h].n
Ty(h) == heap[h].ty
Pr(h) == heap[h].pr
Cx(h) == CxPrec(Pr(h))
DefaultBlocks == [mb |-> 0, s |-> <<>>, beg |-> <<>>, of |-> <<>>]
NoFiles == [ex |-> FALSE, cx |-> FALSE, n |-> 0, e |-> <<>>]

Init == /\ heap = [h \in Handles |-> NIL]
        /\ files = [f \in Files |-> NoFiles]
        /\ ret = <<>>
        /\ out = "ok"
        /\ blk = 0
        /\ bs = DefaultBlocks
Book == blk' = IF \E h \in Handles : heap'[h].ty = Ellblock THEN 1 ELSE blk

(* ---------------------------------------------------------------- capacity *)
(* Only ellpack rows (and ellblock block rows) have a fixed capacity. *)
(* Blocks have dimension 4 (the last one may be smaller) unless a program chose block sizes of its own. *)
BlockDim == 4
UserBlocks == bs.s # <<>>
NBlocks(n) == IF UserBlocks THEN Len(bs.s) ELSE (n + BlockDim - 1) \div BlockDim
BlockOf(i) == IF UserBlocks THEN bs.of[i + 1] ELSE i \div BlockDim
InBlock(n, ib) == IF UserBlocks THEN bs.beg[ib + 1] .. bs.beg[ib + 1] + bs.s[ib + 1] - 1
                  ELSE ib * BlockDim .. Min2(n - 1, ib * BlockDim + BlockDim - 1)
BlockCap(n, m) == IF UserBlocks THEN Min2(NBlocks(n), bs.mb)
                  ELSE Min2(NBlocks(n), Max2(4, (m + BlockDim - 1) \div BlockDim))
BlockNZ(v, n, ib, jb) == \E i \in InBlock(n, ib) : \E j \in InBlock(n, jb) : NZ(v, n, Pos(n, i, j))
BlockCount(v, n, ib) == Cardinality({jb \in 0 .. NBlocks(n) - 1 : BlockNZ(v, n, ib, jb)})
FitsIn(ty, n, m, v) == TRUE =
    (CASE ty = Ellpack -> m >= n \/ \A i \in 0 .. n - 1 : RowCount(v, n, i) <= m
       [] ty = Ellblock -> BlockCap(n, m) >= NBlocks(n) \/ \A ib \in 0 .. NBlocks(n) - 1 : BlockCount(v, n, ib) <= BlockCap(n, m)
       [] OTHER -> TRUE)
Fits(h, v) == FitsIn(Ty(h), N(h), heap[h].m, v)

(* stored patterns as 0/1 matrices *)
Pat(v, n) == TLCEval([p \in 1 .. n * n |-> IF NZ(v, n, p) THEN 1 ELSE 0])
PatH(h) == Pat(V(h), N(h))
Or(u, v) == LET x == TLCEval(u)  y == TLCEval(v) IN TLCEval([p \in 1 .. Len(x) |-> IF x[p] # 0 \/ y[p] # 0 THEN 1 ELSE 0])
(* block storage multiplies whole blocks *)
Widen(ty, n, x) == IF ty # Ellblock THEN x ELSE
    LET B == TLCEval([q \in 0 .. NBlocks(n) * NBlocks(n) - 1 |-> BlockNZ(x, n, q \div NBlocks(n), q % NBlocks(n))])
    IN  TLCEval([p \in 1 .. n * n |-> IF B[BlockOf(Row(n, p)) * NBlocks(n) + BlockOf(Col(n, p))] THEN 1 ELSE 0])
PatMul(a, b) == LET x == TLCEval(Widen(Ty(a), N(a), PatH(a)))  y == TLCEval(Widen(Ty(a), N(a), PatH(b))) IN Or(RMul(N(a), x, y), Ident(N(a), FALSE))

(* ---------------------------------------------------------------- generic steps *)
Return(r) == ret' = r /\ out' = "ok"
Put(h, w) == heap' = [heap EXCEPT ![h].v = w] /\ UNCHANGED files
New(h, ty, pr, n, m, md, w) ==
    /\ heap' = [heap EXCEPT ![h] = [ty |-> ty, pr |-> pr, n |-> n, m |-> IF ty = Csr THEN 0 ELSE IF ty = Dense THEN n ELSE m, md |-> md, v |-> w]]
    /\ UNCHANGED files
NewLike(h, a, w) == New(h, Ty(a), Pr(a), N(a), heap[a].m, heap[a].md, w)
Same == UNCHANGED <<heap, files>>
Compatible(a, b) == Live(a) /\ Live(b) /\ N(a) = N(b) /\ Ty(a) = Ty(b) /\ Pr(a) = Pr(b)

(* ---------------------------------------------------------------- construction *)
Import(h, ty, pr, n, m, md, colmajor, t, vals, w) ==
    LET raw == Vals(CxPrec(pr), vals, n * n)
        e == IF colmajor THEN Transp(n, raw) ELSE raw
    IN  /\ DropOK(e, w, n, t, IF ty = Dense THEN {} ELSE All(n))
        /\ FitsIn(ty, n, m, w)
        /\ New(h, ty, pr, n, m, md, w) /\ Return(<<1>>)
Zero(h, ty, pr, n, m, md) ==
    New(h, ty, pr, n, m, md, Zeros(IF CxPrec(pr) THEN 2 * n * n ELSE n * n)) /\ Return(<<>>)
(* a block matrix with block sizes of the caller: the first one also settles those of later ellblock matrices *)
OwnBlocks(mb, sizes) ==
    LET nb == Len(sizes)
        beg == TLCEval([k \in 1 .. nb |-> Sum(SubSeq(sizes, 1, k - 1))])
    IN  [mb |-> mb, s |-> sizes, beg |-> beg,
         of |-> TLCEval([i \in 1 .. Sum(sizes) |-> (CHOOSE k \in 1 .. nb : beg[k] < i /\ i <= beg[k] + sizes[k]) - 1])]
BlockMatrix(h, pr, mb, m, md, sizes) ==
    /\ TRUE = (blk = 0 \/ (bs.mb = mb /\ bs.s = sizes))
    /\ Zero(h, Ellblock, pr, Sum(sizes), m, md)
Identity(h, ty, pr, n, m, md) == New(h, ty, pr, n, m, md, Ident(n, CxPrec(pr))) /\ Return(<<>>)
(* a random or banded matrix is observed through its non-zero pattern; r = <<ty,pr,n,m,md, pattern.., inrange, distinct>> *)
Random(kind, h, ty, pr, n, m, md, r) ==
    LET pat == SubSeq(r, 6, 5 + n * n)
        w == IF CxPrec(pr) THEN pat \o Zeros(n * n) ELSE pat
        row(i) == Cardinality({j \in 0 .. n - 1 : pat[Pos(n, i, j)] = 1})
    IN  /\ Len(r) = 5 + n * n + 2
        /\ r[1] = ty /\ r[2] = pr /\ r[3] = n /\ TRUE = (ty = Csr \/ r[4] = (IF ty = Dense THEN n ELSE m)) /\ r[5] = md
        /\ \A p \in 1 .. n * n : pat[p] \in {0, 1}
        /\ FitsIn(ty, n, m, w)
        /\ r[6 + n * n] = 1                                     \* all entries in [0,1] (each component)
        /\ IF kind = 1              \* m columns around the diagonal, as far as they exist
           THEN \A p \in 1 .. n * n : LET lo == Row(n, p) - (m \div 2) IN pat[p] = (IF Col(n, p) >= lo /\ Col(n, p) < lo + m THEN 1 ELSE 0)
           ELSE \A i \in 0 .. n - 1 :  \* full rows or blocks, or the diagonal and up to m - 1 other columns
                   CASE ty = Dense -> row(i) = n
                     [] ty = Ellblock -> \A j \in 0 .. n - 1 : pat[Pos(n, i, j)] =
                            (IF BlockOf(i) = BlockOf(j) \/ BlockNZ(w, n, BlockOf(i), BlockOf(j)) THEN 1 ELSE 0)
                     [] OTHER -> pat[Pos(n, i, i)] = 1 /\ row(i) <= m
        /\ New(h, ty, pr, n, m, md, w) /\ Return(r)
Convert(h, a, ty, pr, m, md) ==
    /\ Live(a) /\ pr = Pr(a)
    /\ FitsIn(ty, N(a), m, V(a))
    /\ New(h, ty, pr, N(a), m, md, V(a)) /\ Return(<<>>)
CopyNew(h, a) == Live(a) /\ NewLike(h, a, V(a)) /\ Return(<<>>)
Copy(a, b) == Compatible(a, b) /\ Fits(b, V(a)) /\ Put(b, V(a)) /\ Return(<<>>)
Free(h) == Live(h) /\ heap' = [heap EXCEPT ![h] = NIL] /\ UNCHANGED files /\ Return(<<1>>)
Clear(h) == Live(h) /\ Put(h, Zeros(Len(V(h)))) /\ Return(<<>>)
Meta(h, m, dist) ==     \* m: observed row capacity (free for csr); a sequential matrix is "allocated"
    Live(h) /\ Same /\ Return(<<Ty(h), Ty(h), Pr(h), N(h), m, heap[h].md, dist>>)
        /\ TRUE = (Ty(h) = Csr \/ m = heap[h].m) /\ dist > 0
(* queries on an absent matrix: type and precision "uninitialised", everything else negative/absent *)
End(leaks) ==           \* one number per rank
    /\ heap' = [h \in Handles |-> NIL] /\ UNCHANGED files
    /\ \A k \in 1 .. Len(leaks) : leaks[k] = blk \/ (leaks[k] = 0 /\ Len(leaks) > 1)
    /\ Return(leaks)

(* ---------------------------------------------------------------- linear combinations *)
Drop(ty, n) == IF ty = Dense THEN {} ELSE All(n)
Add(a, b, x, y, t, w) ==
    /\ Compatible(a, b)
    /\ DropOK(Lin(x, V(a), y, V(b)), w, N(a), t, Drop(Ty(a), N(a)))
    /\ Fits(a, w) /\ Put(a, w) /\ Return(<<>>)
DiffSq(u, v) == Sum([p \in 1 .. Len(u) |-> (u[p] - v[p]) * (u[p] - v[p])])
AddNorm(a, b, x, y, t, w) ==
    /\ Compatible(a, b) /\ Ty(a) # Csr
    /\ DropOK(Lin(x, V(a), y, V(b)), w, N(a), t, Drop(Ty(a), N(a)))
    /\ Fits(a, w) /\ Put(a, w) /\ Return(<<DiffSq(V(a), V(b))>>)
AddIdentity(a, y, t, w) ==
    /\ Live(a)
    /\ DropOK(Lin(2, V(a), y, Ident(N(a), Cx(a))), w, N(a), t, Drop(Ty(a), N(a)))
    /\ Fits(a, w) /\ Put(a, w) /\ Return(<<>>)
ScaleAddIdentity(a, x, y, t, w) ==
    /\ Live(a)
    /\ DropOK(Lin(x, V(a), y, Ident(N(a), Cx(a))), w, N(a), t, Drop(Ty(a), N(a)))
    /\ Fits(a, w) /\ Put(a, w) /\ Return(<<>>)

(* ---------------------------------------------------------------- copies, transposes, thresholds *)
ScaleNew(h, sr, si, a) == Live(a) /\ NewLike(h, a, Scaled(N(a), sr, si, V(a))) /\ Return(<<>>)
Scale(sr, si, a, b) ==
    LET w == Scaled(N(a), sr, si, V(a)) IN Compatible(a, b) /\ Fits(b, w) /\ Put(b, w) /\ Return(<<>>)
ScaleInplace(sr, si, a) == Live(a) /\ Put(a, Scaled(N(a), sr, si, V(a))) /\ Return(<<>>)
TransposeNew(h, a) ==
    LET w == Transp(N(a), V(a)) IN Live(a) /\ Fits(a, w) /\ NewLike(h, a, w) /\ Return(<<>>)
Transpose(a) == LET w == Transp(N(a), V(a)) IN Live(a) /\ Fits(a, w) /\ Put(a, w) /\ Return(<<>>)
ThresholdNew(h, a, t) == Live(a) /\ NewLike(h, a, Thresh(N(a), V(a), t)) /\ Return(<<>>)
Threshold(a, t) == Live(a) /\ Put(a, Thresh(N(a), V(a), t)) /\ Return(<<>>)

(* ---------------------------------------------------------------- products *)
(* C <- x A B + y C: the product may lose off-diagonal elements at the threshold, the sum any element. *)
MulOK(P, C, x, y, t, n, w) ==
    LET S == TLCEval(Lin(x, P, y, C))
        R == TLCEval(Lin(0, P, y, C))
    IN  TRUE = (\/ S = w
                \/ /\ t > 0 /\ Len(S) = Len(w)
                   /\ \A p \in All(n) :
                         \/ SameAt(S, w, n, p) \/ DroppedAt(S, w, n, p, t)
                         \/ /\ SmallAt(P, n, p, t) /\ p \in OffDiag(n)
                            /\ (SameAt(R, w, n, p) \/ DroppedAt(R, w, n, p, t)))
(* a distributed product is summed block by block, each partial sum with the threshold: every step may move an element by
   what it drops from the block product and from the sum (at most three steps on the grids that are run) *)
NearOK(S, w, x, t, n) ==
    /\ Len(S) = Len(w)
    /\ \A p \in 1 .. Len(w) : 4 * Abs(w[p] - S[p]) <= 3 * t * (2 + Abs(x))
Multiply(a, b, c, x, y, t, w) ==
    /\ Compatible(a, b) /\ Compatible(a, c)
    /\ IF heap[a].md = 1 /\ t > 0 /\ Ty(a) # Dense
       THEN LET S == TLCEval(Lin(x, Mul(N(a), V(a), V(b)), y, V(c))) IN NearOK(S, w, x, t, N(a))
       ELSE MulOK(IF x = 0 THEN Zeros(Len(V(c))) ELSE Mul(N(a), V(a), V(b)), V(c), x, y, IF Ty(a) = Dense THEN 0 ELSE t, N(a), w)
    /\ Fits(c, w) /\ Put(c, w) /\ Return(<<>>)
ProdOK(a, b, c, t, w) ==
    /\ Compatible(a, b) /\ Compatible(a, c)
    /\ IF heap[a].md = 1 /\ t > 0 /\ Ty(a) # Dense
       THEN NearOK(TLCEval(Mul(N(a), V(a), V(b))), w, 2, t, N(a))
       ELSE DropOK(Mul(N(a), V(a), V(b)), w, N(a), IF Ty(a) = Dense THEN 0 ELSE t, OffDiag(N(a)))
    /\ Fits(c, w) /\ Put(c, w)
MultiplyX2(a, c, t, w, r) ==      \* a distributed product may return nothing
    /\ ProdOK(a, a, c, t, w) /\ Return(r)
    /\ (r # <<>> \/ heap[a].md = 0) => r = <<Trace(N(a), V(a)), Trace(N(a), Mul(N(a), V(a), V(a)))>>
MultiplyAB(a, b, c, t, w) == ProdOK(a, b, c, t, w) /\ Return(<<>>)
(* the threshold-adjusting product may raise the threshold until the rows fit *)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
KeepDiag(P, n, t) == [p \in 1 .. n * n |-> IF Row(n, p) = Col(n, p) \/ ~SmallAt(P, n, p, t) THEN 1 ELSE 0]
MultiplyAdjustAB(a, b, c, t, w) ==
    LET P == TLCEval(Mul(N(a), V(a), V(b)))
    IN  /\ Compatible(a, b) /\ Compatible(a, c)
        /\ TRUE = (\E k \in 0 .. 15 :       \* elements are below 2^13 here
              /\ k > 0 => t * Pow2(k) <= 32768
              /\ k > 0 => t > 0 /\ ~Fits(c, IF Ty(a) = Ellblock THEN PatMul(a, b) ELSE KeepDiag(P, N(a), t * Pow2(k - 1)))
              /\ DropOK(P, w, N(a), IF Ty(a) = Dense THEN 0 ELSE t * Pow2(k), OffDiag(N(a))))
        /\ Fits(c, w) /\ Put(c, w) /\ Return(<<>>)
ElementMultiply(a, b, c, t, w) ==
    /\ Compatible(a, b) /\ Compatible(a, c)
    /\ DropOK(Hadamard(N(a), V(a), V(b)), w, N(a), IF Ty(a) = Dense THEN 0 ELSE t, All(N(a)))
    /\ Fits(c, w) /\ Put(c, w) /\ Return(<<>>)

(* ---------------------------------------------------------------- element access *)
InRange(a, i) == i \in 0 .. N(a) - 1
WithAt(v, n, p, re, im) == IF IsCx(v, n) THEN [v EXCEPT ![p] = re, ![n * n + p] = im] ELSE [v EXCEPT ![p] = re]
SetElement(a, i, j, re, im) ==
    LET w == WithAt(V(a), N(a), Pos(N(a), i, j), re, im)
    IN  /\ Live(a) /\ InRange(a, i) /\ InRange(a, j)
        /\ Fits(a, w) /\ Put(a, w) /\ Return(<<>>)
(* a row (diagonal): elements not above the threshold are dropped; dense rows keep everything *)
ThreshAt(n, v, t, S(_)) == [p \in 1 .. Len(v) |-> LET q == IF p <= n * n THEN p ELSE p - n * n
                                                   IN  IF S(q) /\ SmallAt(v, n, q, t) THEN 0 ELSE v[p]]
(* block storage drops the diagonal of a block only as a whole *)
BlockDiagSmall(n, v, t, q) == LET ib == BlockOf(Row(n, q)) IN
    \A i \in InBlock(n, ib) : SmallAt(v, n, Pos(n, i, i), t)
SetRow(a, i, t, vals, w) ==
    LET n == N(a)
        r == Vals(Cx(a), vals, n)
        e == [p \in 1 .. Len(V(a)) |->
                 LET q == IF p <= n * n THEN p ELSE p - n * n
                 IN  IF Row(n, q) # i THEN V(a)[p]
                     ELSE IF p <= n * n THEN r[Col(n, q) + 1] ELSE r[n + Col(n, q) + 1]]
    IN  /\ Live(a) /\ InRange(a, i)
        /\ w = ThreshAt(n, e, t, LAMBDA q : Ty(a) # Dense /\ Row(n, q) = i)
        /\ Fits(a, w) /\ Put(a, w) /\ Return(<<>>)
SetDiagonal(a, t, vals, w) ==
    LET n == N(a)
        r == Vals(Cx(a), vals, n)
        e == [p \in 1 .. Len(V(a)) |->
                 LET q == IF p <= n * n THEN p ELSE p - n * n
                 IN  IF Row(n, q) # Col(n, q) THEN V(a)[p]
                     ELSE IF p <= n * n THEN r[Row(n, q) + 1] ELSE r[n + Row(n, q) + 1]]
    IN  /\ Live(a)
        /\ IF heap[a].md = 1 /\ Ty(a) = Ellblock      \* the blocks are those of the local matrices
           THEN DropOK(e, w, n, t, {Pos(n, i, i) : i \in 0 .. n - 1})
           ELSE w = ThreshAt(n, e, t, LAMBDA q : /\ Row(n, q) = Col(n, q)
                                               /\ TRUE = (CASE Ty(a) = Dense -> FALSE
                                                       [] Ty(a) = Ellblock -> BlockDiagSmall(n, e, t, q)
                                                       [] OTHER -> TRUE))
        /\ Fits(a, w) /\ Put(a, w) /\ Return(<<>>)

Flat(v, n, ps) == IF IsCx(v, n) THEN [k \in 1 .. 2 * Len(ps) |-> IF k % 2 = 1 THEN v[ps[(k + 1) \div 2]] ELSE v[n * n + ps[k \div 2]]]
                  ELSE [k \in 1 .. Len(ps) |-> v[ps[k]]]
Rows(n) == [p \in 1 .. n * n |-> p]
Cols(n) == [p \in 1 .. n * n |-> Pos(n, Col(n, p), Row(n, p))]
RowP(n, i) == [j \in 1 .. n |-> Pos(n, i, j - 1)]
DiagP(n) == [i \in 1 .. n |-> Pos(n, i - 1, i - 1)]
(* every way to read a matrix: column-major export, elements, rows, diagonal, typed elements *)
Views(a) ==
    LET n == N(a)
    IN  Live(a) /\ Same /\ Return(Flat(V(a), n, Cols(n) \o Rows(n) \o Rows(n) \o DiagP(n) \o Rows(n)))
GetElement(a, i, j) == Live(a) /\ InRange(a, i) /\ InRange(a, j) /\ Same /\ Return(Flat(V(a), N(a), <<Pos(N(a), i, j)>>))
GetRow(a, i) == Live(a) /\ InRange(a, i) /\ Same /\ Return(Flat(V(a), N(a), RowP(N(a), i)))
GetDiagonal(a) == Live(a) /\ Same /\ Return(Flat(V(a), N(a), DiagP(N(a))))
Export(a, colmajor) == Live(a) /\ Same /\ Return(Flat(V(a), N(a), IF colmajor THEN Cols(N(a)) ELSE Rows(N(a))))

(* Printing rows il .. iu-1 and columns jl .. ju-1: the number of lines, then the elements line by line. *)
PosBlock(n, il, iu, jl, ju) == [k \in 1 .. (iu - il) * (ju - jl) |-> Pos(n, il + ((k - 1) \div (ju - jl)), jl + ((k - 1) % (ju - jl)))]
PrintBlock(a, il, iu, jl, ju) == Live(a) /\ Same /\ Return(<<iu - il>> \o Flat(V(a), N(a), PosBlock(N(a), il, iu, jl, ju)))
PrintRow(a, i, il, iu) == Live(a) /\ Same /\ Return(<<1>> \o Flat(V(a), N(a), PosBlock(N(a), i, i + 1, il, iu)))

(* ---------------------------------------------------------------- reductions *)
SelfSq(v, n) == SumSq(v)        \* the sum of the squared moduli
TraceOf(a) == Live(a) /\ Same /\ Return(<<Trace(N(a), V(a))>>)
TraceMult(a, b) == Compatible(a, b) /\ Same /\ Return(<<TraceProd(N(a), V(a), V(b))>>)
(* the sums are sums of products of elements (no conjugate), of which the real part is returned *)
SumSquares(a) == Live(a) /\ Same /\ Return(<<SelfSq(V(a), N(a))>>)
SumSquares2(a, b, x, y, t, r) ==
    LET n == N(a)
        re(p) == Half(x * V(a)[p] + y * V(b)[p])
        im(p) == Half(x * ImAt(V(a), n, p) + y * ImAt(V(b), n, p))
        sq(c, d) == IF Small(c, d, t) THEN 0 ELSE c * c + d * d
    IN  /\ Compatible(a, b) /\ Same /\ Return(<<r>>)
        /\ r = Sum([p \in 1 .. n * n |-> sq(re(p), im(p))])
SumAB(a, b, x, t, r) ==
    LET n == N(a)
        re(p) == Half(x * (V(a)[p] * V(b)[p] - ImAt(V(a), n, p) * ImAt(V(b), n, p)))
        im(p) == Half(x * (V(a)[p] * ImAt(V(b), n, p) + ImAt(V(a), n, p) * V(b)[p]))
    IN  /\ Compatible(a, b) /\ Same /\ Return(<<r>>)
        /\ r = Sum([p \in 1 .. n * n |-> IF Small(re(p), im(p), t) THEN 0 ELSE re(p)])
SumSquaresSub(a, k) ==
    LET n == N(a)
        S == [p \in 1 .. Len(V(a)) |-> LET q == IF p <= n * n THEN p ELSE p - n * n
                                        IN IF Row(n, q) < k /\ Col(n, q) < k THEN V(a)[p] ELSE 0]
    IN  Live(a) /\ Same /\ Return(<<SelfSq(S, n)>>)
FNorm(a) == Live(a) /\ Same /\ Return(<<SumSq(V(a)), 1>>)
FNorm2(a, b) == Compatible(a, b) /\ Same /\ Return(<<DiffSq(V(a), V(b)), 1>>)
(* sparsity = 1 - (elements above the threshold)/n^2, logged as the number of elements *)
Sparsity(a, t) == Live(a) /\ Same /\ Return(<<Cardinality({p \in All(N(a)) : ~SmallAt(V(a), N(a), p, t)})>>)
RowBand(n, v, i) == RowCount(v, n, i)
Bandwidth(a) ==
    LET b == [i \in 1 .. N(a) |-> RowCount(V(a), N(a), i - 1)]
    IN  Live(a) /\ Ty(a) # Ellblock /\ Same /\ Return(<<MaxOf(b)>> \o b)

(* ---------------------------------------------------------------- spectra *)
Radius(v, n, i) == Sum([j \in 1 .. n |-> IF j - 1 = i THEN 0 ELSE ModAt(v, n, Pos(n, i, j - 1))])
GershLo(v, n, k) == MinOf([i \in 1 .. k |-> v[Pos(n, i - 1, i - 1)] - Radius(v, n, i - 1)])
GershHi(v, n, k) == MaxOf([i \in 1 .. k |-> v[Pos(n, i - 1, i - 1)] + Radius(v, n, i - 1)])
Gershgorin(a, k) == Live(a) /\ Same /\ Return(<<GershLo(V(a), N(a), k), GershHi(V(a), N(a), k)>>)
OffDiagSums(a, flag) ==
    Live(a) /\ Same /\
    Return([i \in 1 .. N(a) |-> Radius(V(a), N(a), i - 1)
                + (IF flag # 0 THEN ModAt(V(a), N(a), Pos(N(a), i - 1, i - 1)) ELSE 0)])
(* A <- (hi I - A)/(hi - lo), bounds in halves *)
Exact(num, den) == IF num % den = 0 THEN num \div den ELSE NoValue
NormalizeV(n, v, lo, hi) ==
    [p \in 1 .. Len(v) |-> Exact((IF p <= n * n /\ Row(n, p) = Col(n, p) THEN hi ELSE 0) - 2 * v[p], hi - lo)]
Normalize(a, lo, hi) == LET w == NormalizeV(N(a), V(a), lo, hi) IN Live(a) /\ Fits(a, w) /\ Put(a, w) /\ Return(<<>>)

(* eigenvalues and eigenvectors are logged in thousandths: r = evals, then V row-major (re, then im) *)
Eps(n) == 12 * n
VRe(r, n, i, j) == r[n + i * n + j + 1]
VIm(r, n, i, j, cx) == IF cx THEN r[n + n * n + i * n + j + 1] ELSE 0
Hermitian(v, n) == \A p \in All(n) : LET q == Pos(n, Col(n, p), Row(n, p)) IN v[p] = v[q] /\ ImAt(v, n, p) = -ImAt(v, n, q)
Diagonalize(a, r) ==
    LET n == N(a)  cx == Cx(a)  A == V(a)
        VR(i, j) == VRe(r, n, i, j)  VI(i, j) == VIm(r, n, i, j, cx)
    IN  /\ Live(a) /\ Hermitian(A, n) /\ Same /\ Return(r)
        /\ Len(r) = n + (IF cx THEN 2 * n * n ELSE n * n)
        /\ \A i \in 1 .. n - 1 : r[i] <= r[i + 1]
        /\ \A k \in n + 1 .. Len(r) : Abs(r[k]) <= 1001
        /\ \A i \in 1 .. n : Abs(r[i]) <= 2000000
        \* orthonormal columns (10^-6 units)
        /\ \A j, k \in 0 .. n - 1 : j <= k =>
              LET re == Sum([i \in 1 .. n |-> VR(i - 1, j) * VR(i - 1, k) + VI(i - 1, j) * VI(i - 1, k)])
                  im == Sum([i \in 1 .. n |-> VR(i - 1, j) * VI(i - 1, k) - VI(i - 1, j) * VR(i - 1, k)])
              IN  Abs(re - (IF j = k THEN 1000000 ELSE 0)) <= 2000 * n /\ Abs(im) <= 2000 * n
        \* A v = lambda v (thousandths); lambda v is computed as (lambda/1000)*v with a bounded rounding error
        /\ \A i, j \in 0 .. n - 1 :
              LET ar == Sum([k \in 1 .. n |-> A[Pos(n, i, k - 1)] * VR(k - 1, j) - ImAt(A, n, Pos(n, i, k - 1)) * VI(k - 1, j)])
                  ai == Sum([k \in 1 .. n |-> A[Pos(n, i, k - 1)] * VI(k - 1, j) + ImAt(A, n, Pos(n, i, k - 1)) * VR(k - 1, j)])
                  tol == 4 + Sum([k \in 1 .. n |-> ModAt1(A, n, Pos(n, i, k - 1))]) + (Abs(r[j + 1]) \div 1000)
              IN  Abs(ar - ((r[j + 1] * VR(i, j)) \div 1000)) <= tol /\ Abs(ai - ((r[j + 1] * VI(i, j)) \div 1000)) <= tol

(* the inverse is logged in thousandths: r = <<type, precision, n>> \o X *)
Invert(a, r) ==
    LET n == N(a)  cx == Cx(a)  A == V(a)
        X(i, j) == r[3 + i * n + j + 1]
        XI(i, j) == IF cx THEN r[3 + n * n + i * n + j + 1] ELSE 0
        AR(i, j) == A[Pos(n, i, j)]
        AI(i, j) == ImAt(A, n, Pos(n, i, j))
    IN  /\ Live(a) /\ Same /\ Return(r)
        /\ Len(r) = 3 + (IF cx THEN 2 * n * n ELSE n * n)
        /\ r[1] = Ty(a) /\ r[2] = Pr(a) /\ r[3] = n
        /\ \A k \in 4 .. Len(r) : Abs(r[k]) <= 10000000
        /\ \A i, j \in 0 .. n - 1 :
              LET d == IF i = j THEN 1000 ELSE 0
                  t1 == 2 + Sum([k \in 1 .. n |-> ModAt1(A, n, Pos(n, i, k - 1))])
                  t2 == 2 + Sum([k \in 1 .. n |-> ModAt1(A, n, Pos(n, k - 1, j))])
              IN  /\ Abs(Sum([k \in 1 .. n |-> AR(i, k - 1) * X(k - 1, j) - AI(i, k - 1) * XI(k - 1, j)]) - d) <= t1
                  /\ Abs(Sum([k \in 1 .. n |-> AR(i, k - 1) * XI(k - 1, j) + AI(i, k - 1) * X(k - 1, j)])) <= t1
                  /\ Abs(Sum([k \in 1 .. n |-> X(i, k - 1) * AR(k - 1, j) - XI(i, k - 1) * AI(k - 1, j)]) - d) <= t2
                  /\ Abs(Sum([k \in 1 .. n |-> X(i, k - 1) * AI(k - 1, j) + XI(i, k - 1) * AR(k - 1, j)])) <= t2

(* ---------------------------------------------------------------- blocks and graphs *)
ExtractV(n, v, i, j, k) ==
    LET f(p) == Pos(n, i + Row(k, p), j + Col(k, p))
    IN  [p \in 1 .. (IF IsCx(v, n) THEN 2 * k * k ELSE k * k) |-> IF p <= k * k THEN v[f(p)] ELSE v[n * n + f(p - k * k)]]
Extract(h, a, i, j, k, m) ==
    LET w == ExtractV(N(a), V(a), i, j, k)
    IN  /\ Live(a) /\ i >= 0 /\ j >= 0 /\ i + k <= N(a) /\ j + k <= N(a)
        /\ FitsIn(Ty(a), k, m, w)
        /\ New(h, Ty(a), Pr(a), k, IF Ty(a) = Dense THEN k ELSE m, heap[a].md, w) /\ Return(<<>>)
AssignV(n, v, k, b, i, j) ==
    [p \in 1 .. Len(v) |->
        LET q == IF p <= n * n THEN p ELSE p - n * n
            r == Row(n, q) - i  c == Col(n, q) - j
        IN  IF r \in 0 .. k - 1 /\ c \in 0 .. k - 1
            THEN b[(IF p <= n * n THEN 0 ELSE k * k) + Pos(k, r, c)] ELSE v[p]]
Assign(a, b, i, j) ==
    LET w == AssignV(N(a), V(a), N(b), V(b), i, j)
    IN  /\ Live(a) /\ Live(b) /\ Ty(a) = Ty(b) /\ Pr(a) = Pr(b)
        /\ i >= 0 /\ j >= 0 /\ i + N(b) <= N(a) /\ j + N(b) <= N(a)
        /\ Fits(a, w) /\ Put(a, w) /\ Return(<<>>)
(* gather: B[r,c] = A[x[r],x[c]] for the first Len(x) rows and columns of the dense B *)
Gather(a, b, x) ==
    LET n == N(a)  k == N(b)  s == Len(x)
        w == [p \in 1 .. Len(V(b)) |->
                LET q == IF p <= k * k THEN p ELSE p - k * k
                IN  IF Row(k, q) < s /\ Col(k, q) < s
                    THEN V(a)[(IF p <= k * k THEN 0 ELSE n * n) + Pos(n, x[Row(k, q) + 1], x[Col(k, q) + 1])]
                    ELSE V(b)[p]]
    IN  /\ Live(a) /\ Live(b) /\ Ty(a) = Ellpack /\ Ty(b) = Dense /\ Pr(a) = Pr(b) /\ s <= k
        /\ Put(b, w) /\ Return(<<>>)
(* scatter: the rows x[1..ll] of B become the rows of A, spread over the columns x[1..Len(x)] *)
Index(x, i) == IF \E q \in 1 .. Len(x) : x[q] = i THEN CHOOSE q \in 1 .. Len(x) : x[q] = i ELSE 0
ScatterV(a, b, x, ll) ==
    LET n == N(b)  k == N(a)
        core == SubSeq(x, 1, ll)
        ri == TLCEval([i \in 0 .. n - 1 |-> Index(core, i)])
        ci == TLCEval([i \in 0 .. n - 1 |-> Index(x, i)])
    IN  TLCEval([p \in 1 .. Len(V(b)) |->
            LET q == IF p <= n * n THEN p ELSE p - n * n
                r == ri[Row(n, q)]  c == ci[Col(n, q)]
            IN  IF r = 0 THEN V(b)[p]
                ELSE IF c = 0 THEN 0
                ELSE V(a)[(IF p <= n * n THEN 0 ELSE k * k) + Pos(k, r - 1, c - 1)]])
Scatter(a, b, x, ll, t, w) ==
    LET n == N(b)
        core == SubSeq(x, 1, ll)
        e == TLCEval(ScatterV(a, b, x, ll))
        f == TLCEval(Thresh(n, e, t))
    IN  /\ Live(a) /\ Live(b) /\ Ty(a) = Dense /\ Ty(b) = Ellpack /\ Pr(a) = Pr(b)
        /\ w = [p \in 1 .. Len(e) |-> LET q == IF p <= n * n THEN p ELSE p - n * n
                                       IN IF Index(core, Row(n, q)) # 0 THEN f[p] ELSE e[p]]
        /\ Fits(b, w) /\ Put(b, w) /\ Return(<<>>)

Nbrs(v, n, i) == {j \in 0 .. n - 1 : NZ(v, n, Pos(n, i, j))}
SetOf(s) == {s[q] : q \in 1 .. Len(s)}
RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN <<>> ELSE LET f == Distinct(SubSeq(s, 1, Len(s) - 1)) IN
               IF s[Len(s)] \in SetOf(f) THEN f ELSE Append(f, s[Len(s)])
(* r = <<size, core size>> \o list \o <<1>>: cores in order, then every neighbour exactly once *)
Halo(a, g, nodes, jump, r) ==
    LET n == N(a)
        core == Distinct(nodes)
        one == UNION {Nbrs(V(a), n, i) : i \in SetOf(core)}
               \union (IF g >= 0 THEN UNION {Nbrs(V(g), n, i) : i \in SetOf(core)} ELSE {})
        base == SetOf(core) \union one
        graph == IF g >= 0 THEN g ELSE a
        all == IF jump = 1 THEN base \union UNION {Nbrs(V(graph), n, i) : i \in base} ELSE base
        list == SubSeq(r, 3, Len(r) - 1)
    IN  /\ Live(a) /\ Ty(a) = Ellpack /\ (g >= 0 => Live(g) /\ Ty(g) = Ellpack /\ N(g) = n)
        /\ Same /\ Return(r)
        /\ Len(r) >= 3 /\ r[1] = Cardinality(all) /\ r[2] = Len(core) /\ r[Len(r)] = 1
        /\ Len(list) = r[1] /\ SetOf(list) = all
        /\ SubSeq(list, 1, Len(core)) = core
(* adjacency arrays: offsets (n+2 slots) and neighbours (cap+1 slots); untouched slots hold -7 *)
AdjOf(rows, base, slots, cap) ==
    LET cnt == [i \in 1 .. Len(rows) |-> Len(rows[i])]
        off == [i \in 1 .. slots |-> IF i = slots THEN -7 ELSE base + Sum(SubSeq(cnt, 1, i - 1))]
        flat == FoldLeft(LAMBDA x, y : x \o y, <<>>, rows)
    IN  off \o [k \in 1 .. cap + 1 |-> IF k <= Len(flat) THEN flat[k] + base ELSE -7]
Sorted(S) == SetToSortSeq(S, <)
Adjacency(a, base, cap) ==
    LET n == N(a) IN
    /\ Live(a) /\ Ty(a) = Ellpack /\ Same
    /\ Return(AdjOf([i \in 1 .. n |-> Sorted(Nbrs(V(a), n, i - 1) \ {i - 1})], base, n + 2, cap))
AdjacencyGroup(a, nodes, nn, base, cap) ==    \* nodes are 1-based element numbers; positions in the list are the graph nodes
    LET n == N(a)
        row(i) == {q \in 0 .. nn - 1 : (nodes[q + 1] - 1) \in Nbrs(V(a), n, nodes[i] - 1)}
    IN  /\ Live(a) /\ Ty(a) = Ellpack /\ Same
        /\ Return(AdjOf([i \in 1 .. nn |-> Sorted(row(i))], base, nn + 2, cap))
(* groups start at the 1-based nodes x[1..ng]; they are connected when some element between them is above t *)
(* for patterns that are not symmetric the library may look at one direction only *)
Group(h, a, x, ng, t, w) ==
    LET n == N(a)
        grp == TLCEval([j \in 1 .. n |-> CHOOSE q \in 1 .. ng : j >= x[q] /\ (q = ng \/ j < x[q + 1])])
        big == TLCEval({<<grp[Row(n, p) + 1], grp[Col(n, p) + 1]>> : p \in {p \in All(n) : ~SmallAt(V(a), n, p, t)}})
        \* an element that is present is followed to its mirror image
        back == TLCEval({<<grp[Row(n, p) + 1], grp[Col(n, p) + 1]>> : p \in {p \in All(n) : NZ(V(a), n, p) /\ ~SmallAt(V(a), n, Pos(n, Col(n, p), Row(n, p)), t)}})
        need(i, j) == i = j \/ <<i, j>> \in big \/ <<i, j>> \in back
        may(i, j) == need(i, j) \/ <<j, i>> \in big
    IN  /\ Live(a) /\ Ty(a) = Ellpack
        /\ Len(w) = (IF Cx(a) THEN 2 * ng * ng ELSE ng * ng)
        /\ \A p \in 1 .. ng * ng : LET i == Row(ng, p) + 1  j == Col(ng, p) + 1 IN
              TRUE = ((w[p] = 1 /\ may(i, j)) \/ (w[p] = 0 /\ ~need(i, j)))
        /\ \A p \in ng * ng + 1 .. Len(w) : w[p] = 0
        /\ New(h, Ellpack, Pr(a), ng, ng, heap[a].md, w) /\ Return(<<>>)

(* ---------------------------------------------------------------- permutations and triangles *)
ReorderV(n, v, x) ==         \* element (i,j) moves to (x[i],x[j]); x is 0-based
    LET inv == [i \in 1 .. n |-> (CHOOSE q \in 1 .. n : x[q] = i - 1) - 1]
    IN  Perm1(n, LAMBDA p : Pos(n, inv[Row(n, p) + 1], inv[Col(n, p) + 1]), v)
Reorder(a, x) == Live(a) /\ Ty(a) \in {Dense, Ellpack} /\ Put(a, ReorderV(N(a), V(a), x)) /\ Return(<<>>)
BlockPerm(n, x) ==           \* permutation of equally sized blocks as a permutation of indices
    [i \in 1 .. n |-> x[((i - 1) \div BlockDim) + 1] * BlockDim + ((i - 1) % BlockDim)]
ReorderBlocks(a, x) ==
    Live(a) /\ Ty(a) = Ellblock /\ ~UserBlocks /\ N(a) % BlockDim = 0 /\ Put(a, ReorderV(N(a), V(a), BlockPerm(N(a), x))) /\ Return(<<>>)
(* lower = 1: the lower triangle is the source *)
Mirror(n, v, lower, conj) ==
    [p \in 1 .. Len(v) |->
        LET q == IF p <= n * n THEN p ELSE p - n * n
            dst == IF lower = 1 THEN Row(n, q) < Col(n, q) ELSE Row(n, q) > Col(n, q)
            s == Pos(n, Col(n, q), Row(n, q))
        IN  IF ~dst THEN v[p]
            ELSE IF p <= n * n THEN v[s] ELSE (IF conj THEN -1 ELSE 1) * v[n * n + s]]
Adjungate(a, lower) == LET w == Mirror(N(a), V(a), lower, TRUE) IN
    Live(a) /\ Ty(a) \in {Dense, Ellpack} /\ Fits(a, w) /\ Put(a, w) /\ Return(<<>>)
TransposeTriangle(a, lower) ==
    Live(a) /\ Ty(a) = Dense /\ Put(a, Mirror(N(a), V(a), lower, FALSE)) /\ Return(<<>>)

(* ---------------------------------------------------------------- files *)
(* r = <<header ok, rows, cols, count>> \o entries (i j re [im]) \o <<nothing trails>>; coordinates are 1-based *)
EntW(cx) == IF cx THEN 4 ELSE 3
Entries(r, cx) == [k \in 1 .. (Len(r) - 5) \div EntW(cx) |->
                     LET b == 4 + (k - 1) * EntW(cx) IN <<r[b + 1], r[b + 2], r[b + 3], IF cx THEN r[b + 4] ELSE 0>>]
FromEntries(n, cx, es) ==    \* the matrix a coordinate file denotes (no duplicate coordinates)
    LET at(p) == {k \in 1 .. Len(es) : es[k][1] = Row(n, p) + 1 /\ es[k][2] = Col(n, p) + 1}
        val(p, c) == IF at(p) = {} THEN 0 ELSE es[CHOOSE k \in at(p) : TRUE][c]
        re == TLCEval([p \in 1 .. n * n |-> val(p, 3)])
    IN  IF cx THEN re \o [p \in 1 .. n * n |-> val(p, 4)] ELSE re
Write(a, f, r) ==
    LET n == N(a)  es == Entries(r, Cx(a)) IN
    /\ Live(a) /\ Len(r) >= 5 /\ (Len(r) - 5) % EntW(Cx(a)) = 0
    /\ r[1] = 1 /\ r[2] = n /\ r[3] = n /\ r[4] = Len(es) /\ r[Len(r)] = 1
    /\ \A k \in 1 .. Len(es) : es[k][1] \in 1 .. n /\ es[k][2] \in 1 .. n
    /\ Cardinality({<<es[k][1], es[k][2]>> : k \in 1 .. Len(es)}) = Len(es)
    /\ FromEntries(n, Cx(a), es) = V(a)
    /\ files' = [files EXCEPT ![f] = [ex |-> TRUE, cx |-> Cx(a), n |-> n, e |-> es]]
    /\ UNCHANGED heap /\ Return(r)
MakeFile(f, cx, n, es) ==
    /\ files' = [files EXCEPT ![f] = [ex |-> TRUE, cx |-> cx, n |-> n, e |-> es]]
    /\ UNCHANGED heap /\ Return(<<>>)
Read(a, f) ==
    LET w == FromEntries(N(a), Cx(a), files[f].e) IN
    /\ Live(a) /\ files[f].ex /\ files[f].n = N(a) /\ files[f].cx = Cx(a)
    /\ Fits(a, w) /\ Put(a, w) /\ Return(<<>>)

(* ---------------------------------------------------------------- the multiply kernels *)
(* C <- alpha op(A) op(B) + beta C on column-major arrays with leading dimensions; flags 0: none, 1: transposed, 2: conjugate
   transposed. Arrays are sequences of elements (complex: re, im interleaved); alpha, beta and the result are in halves.
   With beta = 0 the old contents of C do not matter (they may be no numbers at all: nan = 1). r = <<nothing else changed>> \o C *)
Gemm(pr, ta, tb, m, n, k, lda, ldb, ldc, al, be, nan, x, r) ==
    LET cx == CxPrec(pr)
        z == IF cx THEN 2 ELSE 1
        na == lda * (IF ta = 0 THEN k ELSE m)
        nb == ldb * (IF tb = 0 THEN n ELSE k)
        re(base, q) == x[(base + q) * z + 1]
        im(base, q) == IF cx THEN x[(base + q) * z + 2] ELSE 0
        ai(i, l) == IF ta = 0 THEN i + l * lda ELSE l + i * lda
        bi(l, j) == IF tb = 0 THEN l + j * ldb ELSE j + l * ldb
        sa == IF ta = 2 THEN -1 ELSE 1
        sb == IF tb = 2 THEN -1 ELSE 1
        pre(i, j) == Sum([l \in 1 .. k |-> re(0, ai(i, l - 1)) * re(na, bi(l - 1, j)) - sa * sb * im(0, ai(i, l - 1)) * im(na, bi(l - 1, j))])
        pim(i, j) == Sum([l \in 1 .. k |-> re(0, ai(i, l - 1)) * sb * im(na, bi(l - 1, j)) + sa * im(0, ai(i, l - 1)) * re(na, bi(l - 1, j))])
        b0 == be[1] = 0 /\ be[2] = 0
        cre(q) == IF b0 THEN 0 ELSE re(na + nb, q)
        cim(q) == IF b0 THEN 0 ELSE im(na + nb, q)
        wre(i, j) == al[1] * pre(i, j) - al[2] * pim(i, j) + be[1] * cre(i + j * ldc) - be[2] * cim(i + j * ldc)
        wim(i, j) == al[1] * pim(i, j) + al[2] * pre(i, j) + be[1] * cim(i + j * ldc) + be[2] * cre(i + j * ldc)
    IN  /\ Same /\ Return(r)
        /\ Len(x) = z * (na + nb + ldc * n) /\ Len(r) = 1 + z * ldc * n
        /\ r[1] = 1
        /\ \A j \in 0 .. n - 1 : \A i \in 0 .. ldc - 1 :
              LET q == (i + j * ldc) * z + 2 IN
              IF i < m THEN r[q] = wre(i, j) /\ (cx => r[q + 1] = wim(i, j))
              ELSE r[q] = 2 * re(na + nb, i + j * ldc) /\ (cx => r[q + 1] = 2 * im(na + nb, i + j * ldc))

(* ---------------------------------------------------------------- several ranks *)
(* a distributed matrix is the matrix assembled from its blocks; matrices that only one rank has are private to it *)
SendRecv(a, b) == Compatible(a, b) /\ Fits(b, V(a)) /\ Put(b, V(a)) /\ Return(<<>>)
SendNew(a, b, ty, pr, n, m) ==
    /\ Live(a) /\ ty = Ty(a) /\ pr = Pr(a) /\ n = N(a) /\ FitsIn(ty, n, m, V(a))
    /\ New(b, ty, pr, n, m, 0, V(a)) /\ Return(<<>>)
Swap(a1, b1, a2, b2) ==
    /\ Compatible(a1, b2) /\ Compatible(a2, b1) /\ Fits(b2, V(a1)) /\ Fits(b1, V(a2))
    /\ heap' = [heap EXCEPT ![b1].v = V(a2), ![b2].v = V(a1)] /\ UNCHANGED files /\ Return(<<>>)
Bcast(a, hs) ==              \* hs: the matrices of the ranks taking part
    /\ \A h \in hs : Compatible(a, h) /\ Fits(h, V(a))
    /\ heap' = [h \in Handles |-> IF h \in hs THEN [heap[h] EXCEPT !.v = V(a)] ELSE heap[h]]
    /\ UNCHANGED files /\ Return(<<>>)
RandomBlocks(h, ty, pr, n, m) ==    \* drawn blockwise; the values are checked where they are made, then cleared
    New(h, ty, pr, n, m, 1, Zeros(IF CxPrec(pr) THEN 2 * n * n ELSE n * n)) /\ Return(<<1, 1, 1>>)
Reduce(kind, x, step, R) ==  \* rank k holds x + k * step
    LET all == [k \in 1 .. R |-> x + (k - 1) * step]
        lo == IF step < 0 THEN all[R] ELSE all[1]
        hi == IF step < 0 THEN all[1] ELSE all[R]
    IN  Same /\ Return(<<IF kind = 0 THEN Sum(all) ELSE IF kind = 1 THEN lo ELSE hi>>)

(* ---------------------------------------------------------------- refusals *)
(* The library stops the program: nothing is returned. *)
Refuse == /\ out' = "exit" /\ ret' = <<>> /\ UNCHANGED <<heap, files, blk, bs>>
(* a structurally singular matrix *)
ZeroLine(v, n) == TRUE = (\/ \E i \in 0 .. n - 1 : \A j \in 0 .. n - 1 : ~NZ(v, n, Pos(n, i, j))
                          \/ \E j \in 0 .. n - 1 : \A i \in 0 .. n - 1 : ~NZ(v, n, Pos(n, i, j)))
=============================================================================
