-------------------------------- MODULE MCMpi --------------------------------
(* On all small programs: no interleaving gets further, or less far, than Reach says, and messages are matched as Mate says. *)
EXTENDS Mpi

CONSTANTS R, L, Kinds
PeerOps == {[k |-> k, cm |-> 1, p |-> p, g |-> 0, q |-> 0, s |-> <<>>, m |-> <<>>] : k \in Kinds \cap (Sends \union Recvs), p \in 1 .. R}
Other == {[k |-> "wait", cm |-> 1, p |-> 0, g |-> 0, q |-> 0, s |-> <<>>, m |-> <<>>],
          [k |-> "coll", cm |-> 1, p |-> 0, g |-> 0, q |-> 0, s |-> <<>>, m |-> [r \in 1 .. R |-> r]]}
(* request numbers are positions; a wait is for everything before it *)
Number(s) == [i \in 1 .. Len(s) |->
    IF s[i].k = "wait"
    THEN [s[i] EXCEPT !.m = SelectSeq([j \in 1 .. i - 1 |-> IF s[j].k \in {"isend", "irecv"} THEN j ELSE 0], LAMBDA x : x # 0)]
    ELSE [s[i] EXCEPT !.q = i]]
Seqs(r) == {Number(s) : s \in [1 .. L -> {o \in PeerOps \union {x \in Other : x.k \in Kinds} : o.p # r}]}

Init == /\ \E P \in [1 .. R -> UNION {Seqs(r) : r \in 1 .. R}], b \in BOOLEAN :
              (\A r \in 1 .. R : P[r] \in Seqs(r)) /\ Start(P, b)
Next == Step
Stuck == ~ENABLED Step
Faithful == Stuck => pc = Reach([r \in Ranks |-> 1])
Unique == \A x \in mt : Mate(x[1], x[2]) = <<x[3], x[4]>> /\ Mate(x[3], x[4]) = <<x[1], x[2]>>
=============================================================================
