------------------------------ MODULE MpiTrace ------------------------------
(* Communication recorded from the library, one record per call: [p |-> programs of the ranks]. A record is accepted if
   every message is received, by a receive that has room for it and that leaves no choice to the message layer, every
   request is completed, the collectives agree, and all ranks get to the end whether or not messages are buffered.

   A call that meets this leaves nothing behind, so calls can be judged one by one: completing one call after the other
   is one of the interleavings of the whole run, and by MCMpi all interleavings have the same outcome.               *)
EXTENDS Mpi, SequencesExt, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE rec
(* a receive from anyone is as good as one from the only rank that sends to it *)
Senders(P, t, o) == {r \in 1 .. Len(P) : \E i \in 1 .. Len(P[r]) : LET x == P[r][i] IN x.k \in Sends /\ x.p = t /\ x.cm = o.cm}
Tags(P, t, o) == UNION {{P[r][i].g : i \in {i \in 1 .. Len(P[r]) : P[r][i].k \in Sends /\ P[r][i].p = t /\ P[r][i].cm = o.cm}} : r \in 1 .. Len(P)}
Resolved(P) == [t \in 1 .. Len(P) |-> [i \in 1 .. Len(P[t]) |->
    LET o == P[t][i]
    IN  IF o.k \notin Recvs \/ (o.p # AnySource /\ o.g # AnyTag) THEN o
        ELSE [o EXCEPT !.p = IF @ = AnySource /\ Cardinality(Senders(P, t, o)) = 1 THEN CHOOSE r \in Senders(P, t, o) : TRUE ELSE @,
                       !.g = IF @ = AnyTag /\ Cardinality(Tags(P, t, o)) = 1 THEN CHOOSE g \in Tags(P, t, o) : TRUE ELSE @]]]

(* signatures are sequences of runs <<type, count>>: the message is a prefix of what the receiver has room for *)
Prefix(s, r) ==
    \/ s = <<>>
    \/ /\ Len(s) <= Len(r)
       /\ \A k \in 1 .. Len(s) - 1 : s[k] = r[k]
       /\ s[Len(s)][1] = r[Len(s)][1] /\ s[Len(s)][2] <= r[Len(s)][2]
Matched == \A r \in Ranks : \A i \in 1 .. Len(prog[r]) :
    IsP2P(r, i) => LET x == Mate(r, i)
                   IN  x[1] # 0 /\ (Op(r, i).k \in Sends => Prefix(Op(r, i).s, Op(x[1], x[2]).s))
Requests == \A r \in Ranks :
    LET N == 1 .. Len(prog[r])
        W == {i \in N : Op(r, i).k = "wait"}
        Q == {i \in N : Op(r, i).k \in {"isend", "irecv"}}
    IN  /\ \A i \in Q : Cardinality({<<w, x>> \in W \X (1 .. 40) : x <= Len(Op(r, w).m) /\ Op(r, w).m[x] = Op(r, i).q /\ w > i}) = 1
        /\ \A w \in W : \A x \in 1 .. Len(Op(r, w).m) : \E i \in Q : i < w /\ Op(r, i).q = Op(r, w).m[x]
Collectives == \A r \in Ranks : \A i \in 1 .. Len(prog[r]) :
    Op(r, i).k = "coll" =>
        /\ r \in Members(Op(r, i))
        /\ \A t \in Members(Op(r, i)) :
              LET x == CollMate(r, i, t) IN x[1] # 0 /\ Op(x[1], x[2]).s = Op(r, i).s /\ Op(x[1], x[2]).m = Op(r, i).m
Ends == Reach([r \in Ranks |-> 1]) = [r \in Ranks |-> Len(prog[r]) + 1]

Good == TRUE = (NoChoice /\ Matched /\ Requests /\ Collectives /\ Ends)
Init == \E k \in 1 .. Len(Log), b \in BOOLEAN : rec = k /\ Start(Resolved(Log[k].p), b)
(* a judged record moves to the state "at[1]" *)
Next == /\ ~at[1] /\ Good /\ PrintT(<<"ACC", 2 * rec - (IF buf THEN 1 ELSE 0)>>)
        /\ at' = [at EXCEPT ![1] = TRUE] /\ UNCHANGED <<rec, prog, buf, pc, sq, rq, mt>>
=============================================================================
