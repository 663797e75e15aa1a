-------------------------------- MODULE Omp --------------------------------
(* A team of threads executing one parallel region.

   An access is [t |-> thread, e |-> number of barriers passed, w |-> write, a |-> atomic, m |-> set of bytes, k |-> set of
   locks held]. Accesses of different threads in the same barrier phase, to a common byte, at least one of them a write, not
   both atomic and without a common lock, are not ordered by anything the program does: some schedule runs them the other way
   round (or interleaves a read-modify-write). A region without such a pair computes the same in every schedule, as far as
   accesses under a common lock commute. MCOmp checks exactly that implication on all small teams; OmpTrace applies the
   criterion to the accesses recorded from the library.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets

Unordered(x, y) ==
    /\ x.t # y.t /\ x.e = y.e
    /\ x.w \/ y.w
    /\ ~(x.a /\ y.a)
    /\ x.m \cap y.m # {}
    /\ x.k \cap y.k = {}
RaceFree(S) == \A x, y \in S : ~Unordered(x, y)
=============================================================================
