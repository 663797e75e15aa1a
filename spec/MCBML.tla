------------------------------- MODULE MCBML -------------------------------
(* Exhaustive model of the heap machine: two handles, 2 x 2 matrices with entries -1, 0, 1, a format with full rows and one
   whose rows hold a single entry. Checks that every call changes at most the matrix it names as its output, that no call
   makes a row overflow or changes the kind of a matrix - and, for every pair of matrices of the box, the laws which tie the
   operators of the specification to each other. The traces of the
   real library are judged by these same actions and operators (Trace).                                              *)
EXTENDS BML

Size == 2
Box == [1 .. Size * Size -> -1 .. 1]
Kinds == {<<Dense, Size>>, <<Ellpack, 1>>}
Boxed(ty, v) == v \in IF ty = Dense THEN [1 .. Size * Size -> 0 .. 1] ELSE Box
InBox == \A h \in Handles : heap'[h].ty = 0 \/ Boxed(heap'[h].ty, heap'[h].v)
Seqs == {<<x, y>> : x, y \in -1 .. 1}
Drops(e, t) == {[p \in 1 .. 4 |-> IF p \in S THEN 0 ELSE e[p]] : S \in SUBSET {p \in 1 .. 4 : 2 * Abs(e[p]) <= t}}
RowIs(v, i, r) == [p \in 1 .. 4 |-> IF Row(Size, p) = i THEN r[Col(Size, p) + 1] ELSE v[p]]
DiagIs(v, r) == [p \in 1 .. 4 |-> IF p = 1 THEN r[1] ELSE IF p = 4 THEN r[2] ELSE v[p]]

Make(h) == ~Live(h) /\ \E k \in Kinds : Identity(h, k[1], 2, Size, k[2], 0) \/ Zero(h, k[1], 2, Size, k[2], 0)
Fill(h) == ~Live(h) /\ \E k \in Kinds : \E v \in Box : Import(h, k[1], 2, Size, k[2], 0, FALSE, 0, v, v)
Linear(a, b) == Compatible(a, b) /\ \E x \in {2, -2} : \E y \in {0, 2} : \E t \in {0, 2} :
                    \/ \E w \in Drops(Lin(x, V(a), y, V(b)), t) : Add(a, b, x, y, t, w)
                    \/ \E w \in Drops(Lin(x, V(a), y, V(b)), t) : AddNorm(a, b, x, y, t, w)
                    \/ a = b /\ \E w \in Drops(Lin(2, V(a), y, Ident(Size, FALSE)), t) : AddIdentity(a, y, t, w)
Products(a, b) == \E c \in Handles : Compatible(a, b) /\ Compatible(a, c) /\
                    \/ \E w \in Drops(Mul(Size, V(a), V(b)), 2) : MultiplyAB(a, b, c, 2, w) \/ Multiply(a, b, c, 2, 0, 2, w)
                    \/ \E w \in Drops(Mul(Size, V(a), V(b)), 0) : MultiplyAdjustAB(a, b, c, 0, w)
                    \/ \E w \in {Hadamard(Size, V(a), V(b))} : ElementMultiply(a, b, c, 0, w)
Copies(a, b) == Copy(a, b) \/ Scale(-2, 0, a, b) \/ (~Live(b) /\ (CopyNew(b, a) \/ TransposeNew(b, a) \/ ThresholdNew(b, a, 2)
                    \/ \E k \in Kinds : Live(a) /\ Convert(b, a, k[1], 2, k[2], 0)))
Writes(a) == Live(a) /\
    \/ \E i, j \in 0 .. Size - 1 : \E x \in -1 .. 1 : SetElement(a, i, j, x, 0)
    \/ \E i \in 0 .. Size - 1 : \E r \in Seqs : SetRow(a, i, 0, r, RowIs(V(a), i, r))
    \/ \E r \in Seqs : SetDiagonal(a, 0, r, DiagIs(V(a), r))
    \/ Transpose(a) \/ Threshold(a, 2) \/ Clear(a) \/ Free(a) \/ Reorder(a, <<1, 0>>) \/ Adjungate(a, 0) \/ Adjungate(a, 1)
Reads(a, b) == TraceOf(a) \/ TraceMult(a, b) \/ SumSquares(a) \/ FNorm2(a, b) \/ Bandwidth(a) \/ Views(a) \/ (Live(a) /\ Gershgorin(a, Size))

Step == \E a, b \in Handles : \/ Make(a) \/ Fill(a) \/ Linear(a, b) \/ Products(a, b) \/ Copies(a, b) \/ Writes(a) \/ Reads(a, b)
MCNext == Step /\ Book /\ UNCHANGED bs /\ InBox
MCSpec == Init /\ [][MCNext]_vars
Heap == heap                \* what was returned is judged at the step that returns it

TypeOK == \A h \in Handles : heap[h] = NIL \/ (heap[h].ty \in Types /\ heap[h].v \in Box)
Capacity == \A h \in Handles : ~Live(h) \/ Fits(h, V(h))
Frame == [][Cardinality({h \in Handles : heap'[h] # heap[h]}) <= 1]_vars
Typed == [][\A h \in Handles : heap[h].ty # 0 /\ heap'[h].ty # 0 => heap'[h].ty = heap[h].ty /\ heap'[h].m = heap[h].m]_vars

Det(v) == v[1] * v[4] - v[2] * v[3]
Shifted(v, x) == [p \in 1 .. 4 |-> IF p \in {1, 4} THEN v[p] - x ELSE v[p]]
One(v) ==
    LET n == Size  T == Transp(n, v) IN
    /\ Transp(n, T) = v
    /\ SumSq(v) = Trace(n, Mul(n, T, v))                                    \* the square of the Frobenius norm
    /\ Mul(n, v, Ident(n, FALSE)) = v /\ Mul(n, Ident(n, FALSE), v) = v
    /\ \A l \in {0, 1} : LET m == Mirror(n, v, l, TRUE) IN Hermitian(m, n) /\ Mirror(n, m, 1 - l, TRUE) = m /\ (Hermitian(v, n) => m = v)
    /\ ReorderV(n, ReorderV(n, v, <<1, 0>>), <<1, 0>>) = v /\ ReorderV(n, v, <<0, 1>>) = v
    /\ \A i, j \in 0 .. 1 : AssignV(n, v, 1, ExtractV(n, v, i, j, 1), i, j) = v
    /\ AssignV(n, Zeros(4), 2, v, 0, 0) = v /\ ExtractV(n, v, 0, 0, 2) = v
    /\ LET es == SelectSeq([p \in 1 .. 4 |-> <<Row(n, p) + 1, Col(n, p) + 1, v[p], 0>>], LAMBDA x : x[3] # 0) IN FromEntries(n, FALSE, es) = v
    /\ \A t \in 0 .. 3 : LET w == Thresh(n, v, t) IN Thresh(n, w, t) = w /\ DropOK(v, w, n, t, All(n)) /\ (t < 2 => w = v)
    /\ \A m \in 1 .. 2 : FitsIn(Ellpack, n, m, v) => FitsIn(Ellpack, n, m + 1, v) /\ FitsIn(Ellpack, n, m, Thresh(n, v, 2))
    /\ \A x \in -4 .. 4 : x < GershLo(v, n, n) \/ x > GershHi(v, n, n) => Det(Shifted(v, x)) # 0      \* no eigenvalue outside
    /\ \A lo \in {-4, -8} : LET hi == -lo  w == NormalizeV(n, v, lo, hi) IN     \* hi -> 0, lo -> 1
          NoValue \in SetOf(w) \/ \A p \in 1 .. 4 : w[p] * (hi - lo) = (IF p \in {1, 4} THEN hi ELSE 0) - 2 * v[p]
    /\ \A i \in 0 .. 1 : i \in Nbrs(v, n, i) <=> NZ(v, n, Pos(n, i, i))
Two(u, v) ==
    LET n == Size  P == Mul(n, u, v) IN
    /\ Transp(n, P) = Mul(n, Transp(n, v), Transp(n, u))
    /\ Trace(n, P) = TraceProd(n, u, v) /\ TraceProd(n, u, v) = TraceProd(n, v, u)
    /\ SumSq(Lin(2, u, 2, v)) = SumSq(u) + SumSq(v) + 2 * Sum(Hadamard(n, u, v))
    /\ DiffSq(u, v) = SumSq(Lin(2, u, -2, v)) /\ DiffSq(u, v) = DiffSq(v, u)
    /\ Det(P) = Det(u) * Det(v)
    /\ Lin(2, u, 2, v) = Lin(2, v, 2, u) /\ Hadamard(n, u, v) = Hadamard(n, v, u)
    /\ ReorderV(n, P, <<1, 0>>) = Mul(n, ReorderV(n, u, <<1, 0>>), ReorderV(n, v, <<1, 0>>))
    /\ LET q == Or(RMul(n, Pat(u, n), Pat(v, n)), Zeros(4)) IN \A p \in 1 .. 4 : P[p] # 0 => q[p] = 1
    /\ MulOK(P, v, 2, 0, 2, n, Thresh(n, P, 0)) /\ MulOK(P, v, 2, 2, 0, n, Lin(2, P, 2, v))
    \* a pair of real matrices is a complex one: its product and its adjoint
    /\ LET z == u \o v  zz == Mul(n, z, z) IN
          /\ Re(zz, n) = Lin(2, Mul(n, u, u), -2, Mul(n, v, v)) /\ Im(zz, n) = Lin(2, P, 2, Mul(n, v, u))
          /\ \A l \in {0, 1} : LET m == Mirror(n, z, l, TRUE) IN \A p \in {2, 3} : m[p] = m[5 - p] /\ m[4 + p] = -m[9 - p]
          /\ TraceProd(n, z, z) = Trace(n, zz) /\ SumSq(z) = SumSq(u) + SumSq(v)
          /\ \A t \in {2, 3} : DropOK(z, Thresh(n, z, t), n, t, All(n))
          /\ Scaled(n, 0, 2, Scaled(n, 0, 2, z)) = Scaled(n, -2, 0, z)
Laws == (heap = [h \in Handles |-> NIL]) => \A u \in Box : One(u) /\ \A v \in Box : Two(u, v)       \* once
=============================================================================
