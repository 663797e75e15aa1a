------------------------------- MODULE MCDecomp -------------------------------
EXTENDS Decomp

(* the partition laws of the default decomposition, for every small instance *)
LawsFor(R, n) ==
    LET x == Even(R, n) IN
    /\ Covers(x, n)
    /\ \A i \in 1 .. R : x[i] >= 1
    /\ \A r \in 0 .. n - 1 : \E i \in 1 .. R :
         /\ Start(x, i) <= r /\ r < Start(x, i) + x[i]
         /\ \A j \in 1 .. R : (Start(x, j) <= r /\ r < Start(x, j) + x[j]) => j = i
    /\ MaxExtent(x) - MinExtent(x) <= 1

CONSTANTS MaxR, MaxN
VARIABLES R, n
Init == R \in 1 .. MaxR /\ n \in 1 .. MaxN
Next == UNCHANGED <<R, n>>
Laws == n >= R => LawsFor(R, n)
=============================================================================
