-------------------------------- MODULE Decomp --------------------------------
(* Decomposition of the rows of a matrix over R ranks.

   A decomposition is given by the number of rows of every rank, in rank order; <<>> stands for the decomposition of a
   sequential matrix, where every rank has all rows. Rank i owns the rows Start(x, i) .. Start(x, i) + x[i] - 1, so the
   ranges are disjoint, ascending, contiguous and cover all rows exactly when the extents sum to N. The module also
   defines what the library's record of a decomposition (its row ranges, extents, element counts and displacements)
   must look like.                                                                                              *)
EXTENDS Integers, Sequences, SequencesExt

Total(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)
Sequential == <<>>
(* as even as possible, larger parts first *)
Even(R, n) == [i \in 1 .. R |-> (n \div R) + (IF i <= n % R THEN 1 ELSE 0)]
Start(x, i) == Total(SubSeq(x, 1, i - 1))
Covers(x, n) == Total(x) = n /\ \A i \in 1 .. Len(x) : x[i] >= 0
(* parts: part j has nodes[j] rows, rank i gets the parts lo[i] .. hi[i] *)
FromParts(R, lo, hi, nodes) == [i \in 1 .. R |-> Total(SubSeq(nodes, lo[i], hi[i]))]

Flatten(s) == FoldLeft(LAMBDA x, y : x \o y, <<>>, s)
Ranges(R, n, m, x) ==
    Flatten([i \in 1 .. R |-> IF x = Sequential THEN <<0, n, n, n * m, 0>>
                              ELSE <<Start(x, i), Start(x, i) + x[i], x[i], x[i] * m, Start(x, i) * m>>])
Record(R, n, m, x) == <<R, n, m, 0, n, n>> \o Ranges(R, n, m, x)
MaxExtent(x) == FoldLeft(LAMBDA p, q : IF p > q THEN p ELSE q, x[1], x)
MinExtent(x) == FoldLeft(LAMBDA p, q : IF p < q THEN p ELSE q, x[1], x)
(* the default decomposition and a copy of it *)
Default(R, n, m, distributed) ==
    LET x == IF distributed THEN Even(R, n) ELSE Sequential
    IN  Record(R, n, m, x) \o (IF distributed THEN <<MinExtent(x), MaxExtent(x)>> ELSE <<>>) \o Ranges(R, n, m, x)
=============================================================================
