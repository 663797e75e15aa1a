------------------------------- MODULE MpiAll -------------------------------
(* Every interleaving of recorded communication: all ranks get to the end, nothing is left over, the matching is unique. *)
EXTENDS Mpi, SequencesExt, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Init == \E k \in 1 .. Len(Log), b \in BOOLEAN : Start(Log[k].p, b)
Next == Step \/ (Done /\ UNCHANGED vars)
Unique == \A x \in mt : Mate(x[1], x[2]) = <<x[3], x[4]>> /\ Mate(x[3], x[4]) = <<x[1], x[2]>>
Nothing == Done => \A r \in Ranks : sq[r] = <<>> /\ rq[r] = <<>>
=============================================================================
