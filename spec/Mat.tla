-------------------------------- MODULE Mat --------------------------------
(* Integer matrices as flat row-major sequences. A real n x n matrix has n*n entries; a complex one has
   2*n*n: all real parts, then all imaginary parts. Element numbers p run over 1..n*n.                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Sum(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x >= y THEN x ELSE y
Min2(x, y) == IF x <= y THEN x ELSE y
MaxOf(s) == FoldLeft(Max2, s[1], s)
MinOf(s) == FoldLeft(Min2, s[1], s)

Row(n, p) == (p - 1) \div n              \* 0-based row and column of element p
Col(n, p) == (p - 1) % n
Pos(n, i, j) == i * n + j + 1
IsCx(v, n) == Len(v) = 2 * n * n
Re(v, n) == SubSeq(v, 1, n * n)
Im(v, n) == SubSeq(v, n * n + 1, 2 * n * n)
ImAt(v, n, p) == IF IsCx(v, n) THEN v[n * n + p] ELSE 0
Diag(n) == {Pos(n, i, i) : i \in 0 .. n - 1}

NoValue == -1999999943                   \* not the logged value of anything: the exact result is no integer
Half(x) == IF x % 2 = 0 THEN x \div 2 ELSE NoValue
Zeros(k) == [p \in 1 .. k |-> 0]
Ident(n, cx) == [p \in 1 .. (IF cx THEN 2 * n * n ELSE n * n) |->
                    IF p <= n * n /\ Row(n, p) = Col(n, p) THEN 1 ELSE 0]

(* factors x, y are in halves *)
Lin(x, A, y, B) == [p \in 1 .. Len(A) |-> Half(x * A[p] + y * B[p])]
Scaled(n, sr, si, A) ==                        \* (sr + i si)/2 * A
    IF IsCx(A, n)
    THEN [p \in 1 .. n * n |-> Half(sr * A[p] - si * A[n * n + p])]
         \o [p \in 1 .. n * n |-> Half(sr * A[n * n + p] + si * A[p])]
    ELSE [p \in 1 .. n * n |-> Half(sr * A[p])]

RMul(n, A, B) ==
    TLCEval([p \in 1 .. n * n |->
        LET i == Row(n, p)  j == Col(n, p)
        IN  Sum([k \in 1 .. n |-> A[i * n + k] * B[(k - 1) * n + j + 1]])])
Mul(n, A, B) ==
    IF IsCx(A, n)
    THEN LET ar == Re(A, n) ai == Im(A, n) br == Re(B, n) bi == Im(B, n)
             rr == RMul(n, ar, br) ii == RMul(n, ai, bi) ri == RMul(n, ar, bi) ir == RMul(n, ai, br)
         IN  [p \in 1 .. n * n |-> rr[p] - ii[p]] \o [p \in 1 .. n * n |-> ri[p] + ir[p]]
    ELSE RMul(n, A, B)

Perm1(n, f(_), v) ==                           \* w[p] = v[f(p)] on both planes
    [p \in 1 .. Len(v) |-> IF p <= n * n THEN v[f(p)] ELSE v[n * n + f(p - n * n)]]
Transp(n, v) == Perm1(n, LAMBDA p : Pos(n, Col(n, p), Row(n, p)), v)

Hadamard(n, A, B) ==
    IF IsCx(A, n)
    THEN [p \in 1 .. n * n |-> A[p] * B[p] - A[n * n + p] * B[n * n + p]]
         \o [p \in 1 .. n * n |-> A[p] * B[n * n + p] + A[n * n + p] * B[p]]
    ELSE [p \in 1 .. n * n |-> A[p] * B[p]]

Trace(n, v) == Sum([i \in 1 .. n |-> v[(i - 1) * n + i]])
(* real part of the trace of A B: the sum over p of a_p times the element of B mirrored at the diagonal *)
TraceProd(n, A, B) ==
    Sum([p \in 1 .. n * n |-> LET q == Pos(n, Col(n, p), Row(n, p)) IN A[p] * B[q] - ImAt(A, n, p) * ImAt(B, n, q)])
TraceIm(n, v) == IF IsCx(v, n) THEN Sum([i \in 1 .. n |-> v[n * n + (i - 1) * n + i]]) ELSE 0
SumSq(v) == Sum([p \in 1 .. Len(v) |-> v[p] * v[p]])

(* |a_p| <= t/2, with care for 32-bit arithmetic *)
Small(r, m, t) == 2 * Abs(r) <= t /\ 2 * Abs(m) <= t /\ 4 * (r * r + m * m) <= t * t
SmallAt(v, n, p, t) == Small(v[p], ImAt(v, n, p), t)
Thresh(n, v, t) == [p \in 1 .. Len(v) |-> LET q == IF p <= n * n THEN p ELSE p - n * n
                                           IN  IF SmallAt(v, n, q, t) THEN 0 ELSE v[p]]
(* w is v except that elements of S no larger than t/2 may have been dropped *)
DroppedAt(v, w, n, p, t) == /\ w[p] = 0 /\ ImAt(w, n, p) = 0 /\ SmallAt(v, n, p, t)
SameAt(v, w, n, p) == w[p] = v[p] /\ ImAt(w, n, p) = ImAt(v, n, p)
(* "TRUE = (...)" makes TLC evaluate a predicate as a value instead of splitting an action at its disjunctions *)
DropOK(v, w, n, t, S) ==
    TRUE = (\/ v = w
            \/ /\ Len(v) = Len(w)
               /\ \A p \in 1 .. n * n : SameAt(v, w, n, p) \/ (p \in S /\ DroppedAt(v, w, n, p, t)))
All(n) == 1 .. n * n
OffDiag(n) == {p \in 1 .. n * n : Row(n, p) # Col(n, p)}

NZ(v, n, p) == v[p] # 0 \/ ImAt(v, n, p) # 0
RowCount(v, n, i) == Cardinality({j \in 0 .. n - 1 : NZ(v, n, Pos(n, i, j))})

(* modulus of a Gaussian integer whose modulus is an integer (the generator uses no others here) *)
RECURSIVE SqrtIn(_, _, _)
SqrtIn(x, lo, hi) == IF hi - lo <= 1 THEN lo
                     ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN SqrtIn(x, m, hi) ELSE SqrtIn(x, lo, m)
Sqrt(x) == SqrtIn(x, 0, 46341)
Mod(r, m) == IF m = 0 THEN Abs(r) ELSE IF r = 0 THEN Abs(m) ELSE Sqrt(r * r + m * m)
ModAt(v, n, p) == Mod(v[p], ImAt(v, n, p))
ModAt1(v, n, p) == Abs(v[p]) + Abs(ImAt(v, n, p))      \* an upper bound of the modulus

Deint(s, k) == [q \in 1 .. 2 * k |-> IF q <= k THEN s[2 * q - 1] ELSE s[2 * (q - k)]]
Inter(v, k) == [q \in 1 .. 2 * k |-> IF q % 2 = 1 THEN v[(q + 1) \div 2] ELSE v[k + (q \div 2)]]
Vals(cx, s, k) == IF cx THEN Deint(s, k) ELSE SubSeq(s, 1, k)
=============================================================================
