------------------------------ MODULE OmpTrace ------------------------------
(* Every parallel region the library executed, as recorded by the controlled runtime: for each set of bytes that several
   threads touched and one of them wrote, the list of accesses <<thread, phase, write, atomic, byte mask, locks...>>.
   A recorded run is a behaviour of this module iff every region is race free.                                            *)
EXTENDS Omp, SequencesExt, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Bytes(m) == {k \in 0 .. 7 : (m \div P2(k)) % 2 = 1}
Rec(s) == [t |-> s[1], e |-> s[2], w |-> s[3] = 1, a |-> s[4] = 1, m |-> Bytes(s[5]), k |-> {s[q] : q \in 6 .. Len(s)}]
Accesses(l) == TLCEval({Rec(l[q]) : q \in 1 .. Len(l)})
VARIABLES r, regions, shared
Init == r \in 1 .. Len(Log) /\ regions = 0 /\ shared = 0
(* a region is a step of its team *)
Region == /\ regions = 0
          /\ Log[r].nt >= 2
          /\ \A q \in 1 .. Len(Log[r].loc) : RaceFree(Accesses(Log[r].loc[q]))
          /\ regions' = 1 /\ shared' = Len(Log[r].loc) /\ UNCHANGED r
          /\ PrintT(<<"ACC", r>>)
Spec == Init /\ [][Region]_<<r, regions, shared>>
=============================================================================
