--------------------------------- MODULE Mpi ---------------------------------
(* Ranks that exchange messages, in every order the message layer may choose.

   prog[r] is what rank r does: a sequence of operations
       [k, cm, p, g, q, s, m]   kind, communicator, peer, tag, request number, signature, members
   of kind "send" and "recv" (blocking), "isend" and "irecv" (request q), "wait" (for the requests m) and "coll" (a
   collective of the members m of communicator cm). Ranks are numbered from 1. Without buffering (buf = FALSE) a send
   completes when it is matched with a receive; with buffering it may complete at any time. Messages of one sender that
   fit one receive are matched in the order in which they were sent, receives that fit one message in the order in which
   they were posted; everything else is up to the message layer.

   The first part is this operational model. The second part (Mate, Ready, Reach) describes the outcome of all
   interleavings at once; MCMpi checks on all small programs that both agree, MpiTrace uses the second part on programs
   recorded from the library and MpiAll the first part on the short ones.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES prog,
          buf,        \* the message layer buffers
          pc, at,     \* the operation a rank is at; whether the rank has entered it
          sq, rq,     \* operations of unmatched sends and receives, in the order they were posted, per rank
          mt          \* matched pairs <<sender, operation, receiver, operation>>
vars == <<prog, buf, pc, at, sq, rq, mt>>

Ranks == 1 .. Len(prog)
Op(r, i) == prog[r][i]
Sends == {"send", "isend"}
Recvs == {"recv", "irecv"}
AnySource == 0
AnyTag == -1
(* message i of rank r and receive j of rank t fit *)
Fit(r, i, t, j) ==
    LET x == Op(r, i)  y == Op(t, j)
    IN  x.p = t /\ (y.p = r \/ y.p = AnySource) /\ x.cm = y.cm /\ (x.g = y.g \/ y.g = AnyTag)
AtEnd(r) == pc[r] > Len(prog[r])
Done == \A r \in Ranks : AtEnd(r)
OpOf(r, q) == CHOOSE i \in 1 .. Len(prog[r]) : Op(r, i).q = q /\ Op(r, i).k \in {"isend", "irecv"}
Minus(s, x) == SelectSeq(s, LAMBDA y : y # x)

Start(P, b) ==
    /\ prog = P /\ buf = b
    /\ pc = [r \in 1 .. Len(P) |-> 1]
    /\ at = [r \in 1 .. Len(P) |-> FALSE]
    /\ sq = [r \in 1 .. Len(P) |-> <<>>]
    /\ rq = [r \in 1 .. Len(P) |-> <<>>]
    /\ mt = {}

Enter(r) ==
    /\ ~AtEnd(r) /\ ~at[r]
    /\ LET o == Op(r, pc[r])
       IN  /\ sq' = IF o.k \in Sends THEN [sq EXCEPT ![r] = Append(@, pc[r])] ELSE sq
           /\ rq' = IF o.k \in Recvs THEN [rq EXCEPT ![r] = Append(@, pc[r])] ELSE rq
           /\ IF o.k \in {"isend", "irecv"}
              THEN pc' = [pc EXCEPT ![r] = @ + 1] /\ at' = at
              ELSE pc' = pc /\ at' = [at EXCEPT ![r] = TRUE]
    /\ UNCHANGED <<prog, buf, mt>>
(* ranks that are in one of the operations in S leave them *)
Leave(S) ==
    /\ pc' = [r \in Ranks |-> IF at[r] /\ <<r, pc[r]>> \in S THEN pc[r] + 1 ELSE pc[r]]
    /\ at' = [r \in Ranks |-> at[r] /\ <<r, pc[r]>> \notin S]
CanMatch(r, i, t, j) ==
    /\ Fit(r, i, t, j)
    /\ \A x \in 1 .. Len(sq[r]) : sq[r][x] < i => ~Fit(r, sq[r][x], t, j)
    /\ \A y \in 1 .. Len(rq[t]) : rq[t][y] < j => ~Fit(r, i, t, rq[t][y])
Match(r, i, t, j) ==
    /\ CanMatch(r, i, t, j)
    /\ sq' = [sq EXCEPT ![r] = Minus(@, i)]
    /\ rq' = [rq EXCEPT ![t] = Minus(@, j)]
    /\ mt' = mt \union {<<r, i, t, j>>}
    /\ Leave({x \in {<<r, i>>, <<t, j>>} : Op(x[1], x[2]).k \in {"send", "recv"}})
    /\ UNCHANGED <<prog, buf>>
SomeMatch == \E r, t \in Ranks : \E x \in 1 .. Len(sq[r]) : \E y \in 1 .. Len(rq[t]) : Match(r, sq[r][x], t, rq[t][y])
BufferedLeave(r) ==
    /\ buf /\ at[r] /\ Op(r, pc[r]).k = "send"
    /\ Leave({<<r, pc[r]>>})
    /\ UNCHANGED <<prog, buf, sq, rq, mt>>
Complete(r, i) == \/ \E x \in mt : (x[1] = r /\ x[2] = i) \/ (x[3] = r /\ x[4] = i)
                  \/ buf /\ Op(r, i).k = "isend"
WaitLeave(r) ==
    /\ at[r] /\ Op(r, pc[r]).k = "wait"
    /\ \A q \in 1 .. Len(Op(r, pc[r]).m) : Complete(r, OpOf(r, Op(r, pc[r]).m[q]))
    /\ Leave({<<r, pc[r]>>})
    /\ UNCHANGED <<prog, buf, sq, rq, mt>>
Members(o) == {o.m[x] : x \in 1 .. Len(o.m)}
CollLeave(r) ==
    /\ at[r] /\ Op(r, pc[r]).k = "coll"
    /\ LET o == Op(r, pc[r])
       IN  /\ \A t \in Members(o) : at[t] /\ Op(t, pc[t]).k = "coll" /\ Op(t, pc[t]).cm = o.cm
           /\ Leave({<<t, pc[t]>> : t \in Members(o)})
    /\ UNCHANGED <<prog, buf, sq, rq, mt>>
Step == \/ \E r \in Ranks : Enter(r) \/ BufferedLeave(r) \/ WaitLeave(r) \/ CollLeave(r)
        \/ SomeMatch

(* ---------------------------------------------------------------- the outcome of all interleavings at once
   No receive leaves the choice of its sender or tag to the message layer (NoChoice). Then the k-th message from r to t on
   a communicator with a tag is received by the k-th such receive, whatever happens elsewhere.                        *)
Channel(r, i) ==
    LET o == Op(r, i) IN IF o.k \in Sends THEN <<r, o.p, o.cm, o.g>> ELSE <<o.p, r, o.cm, o.g>>
IsP2P(r, i) == Op(r, i).k \in Sends \union Recvs
NoChoice == \A r \in Ranks : \A i \in 1 .. Len(prog[r]) : Op(r, i).k \in Recvs => Op(r, i).p # AnySource /\ Op(r, i).g # AnyTag
SameSide(r, i, j) == (Op(r, i).k \in Sends) = (Op(r, j).k \in Sends)
Ordinal(r, i) == Cardinality({j \in 1 .. i : IsP2P(r, j) /\ SameSide(r, i, j) /\ Channel(r, j) = Channel(r, i)})
Mate(r, i) ==
    LET c == Channel(r, i)
        t == IF Op(r, i).k \in Sends THEN c[2] ELSE c[1]
        S == IF t \notin Ranks THEN {}
             ELSE {j \in 1 .. Len(prog[t]) : /\ IsP2P(t, j)
                                             /\ (Op(t, j).k \in Sends) # (Op(r, i).k \in Sends)
                                             /\ Channel(t, j) = c /\ Ordinal(t, j) = Ordinal(r, i)}
    IN  IF S = {} THEN <<0, 0>> ELSE <<t, CHOOSE j \in S : TRUE>>
(* the collective of rank t that belongs to collective i of rank r *)
CollOrd(r, i) == Cardinality({j \in 1 .. i : Op(r, j).k = "coll" /\ Op(r, j).cm = Op(r, i).cm})
CollMate(r, i, t) ==
    LET S == {j \in 1 .. Len(prog[t]) : Op(t, j).k = "coll" /\ Op(t, j).cm = Op(r, i).cm /\ CollOrd(t, j) = CollOrd(r, i)}
    IN  IF S = {} THEN <<0, 0>> ELSE <<t, CHOOSE j \in S : TRUE>>
(* what must have been reached before operation i of rank r is over *)
Needs(r, i) ==
    LET o == Op(r, i)
    IN  CASE o.k = "send" -> IF buf THEN {} ELSE {Mate(r, i)}
          [] o.k = "recv" -> {Mate(r, i)}
          [] o.k \in {"isend", "irecv"} -> {}
          [] o.k = "wait" -> {Mate(r, OpOf(r, o.m[x])) : x \in {x \in 1 .. Len(o.m) : ~(buf /\ Op(r, OpOf(r, o.m[x])).k = "isend")}}
          [] OTHER -> {CollMate(r, i, t) : t \in Members(o)}
Reached(at_, x) == x[1] # 0 /\ at_[x[1]] >= x[2]
Ready(at_, r) == at_[r] <= Len(prog[r]) /\ \A x \in Needs(r, at_[r]) : Reached(at_, x)
RECURSIVE Reach(_)
Reach(at_) ==
    LET S == {r \in Ranks : Ready(at_, r)}
    IN  IF S = {} THEN at_ ELSE Reach(TLCEval([r \in Ranks |-> IF r \in S THEN at_[r] + 1 ELSE at_[r]]))
=============================================================================
