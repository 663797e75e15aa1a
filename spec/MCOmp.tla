------------------------------- MODULE MCOmp -------------------------------
(* Every team of two threads running up to Len operations each, in every interleaving: a team whose accesses are RaceFree in
   one run ends with the memory of the sequential run in all of them (Determinate).                                        *)
EXTENDS Omp, TLC
CONSTANT Length
Threads == {1, 2}
Locs == {1, 2}
Locks == {1, 2}
Ops == {<<"add", x, l>> : x \in Locs, l \in {0} \union Locks \union {9}}      \* x += thread, lock 0: none, 9: atomic
       \union {<<"copy", x, 3 - x>> : x \in Locs}                            \* the other location becomes x + 10
       \union {<<"bar">>}
Bars(p) == Cardinality({i \in 1 .. Len(p) : p[i][1] = "bar"})
Teams == {p \in [Threads -> [1 .. Length -> Ops]] : Bars(p[1]) = Bars(p[2])}

VARIABLES prog, pc, ph, mem, reg, held, epoch, acc
vars == <<prog, pc, ph, mem, reg, held, epoch, acc>>
Init == /\ prog \in Teams
        /\ pc = [t \in Threads |-> 1] /\ ph = [t \in Threads |-> "op"]
        /\ mem = [x \in Locs |-> x] /\ reg = [t \in Threads |-> 0]
        /\ held = [l \in Locks |-> 0] /\ epoch = [t \in Threads |-> 0] /\ acc = {}
Op(t) == prog[t][pc[t]]
Live(t) == pc[t] <= Length
Acc(t, x, w, a) == acc' = acc \union {[t |-> t, e |-> epoch[t], w |-> w, a |-> a, m |-> {x}, k |-> {l \in Locks : held[l] = t}]}
Lock(t) == IF Op(t)[1] = "add" /\ Op(t)[3] \in Locks THEN Op(t)[3] ELSE 0
Acquire(t) ==
    /\ Live(t) /\ ph[t] = "op" /\ Lock(t) # 0 /\ held[Lock(t)] = 0
    /\ held' = [held EXCEPT ![Lock(t)] = t] /\ ph' = [ph EXCEPT ![t] = "in"]
    /\ UNCHANGED <<prog, pc, mem, reg, epoch, acc>>
Atomic(t) ==
    /\ Live(t) /\ ph[t] = "op" /\ Op(t)[1] = "add" /\ Op(t)[3] = 9
    /\ mem' = [mem EXCEPT ![Op(t)[2]] = @ + t] /\ Acc(t, Op(t)[2], TRUE, TRUE)
    /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<prog, ph, reg, held, epoch>>
ReadX(t) ==
    /\ Live(t) /\ TRUE = (IF Lock(t) # 0 THEN ph[t] = "in" ELSE ph[t] = "op")
    /\ TRUE = (Op(t)[1] = "copy" \/ (Op(t)[1] = "add" /\ Op(t)[3] # 9))
    /\ reg' = [reg EXCEPT ![t] = mem[Op(t)[2]]] /\ Acc(t, Op(t)[2], FALSE, FALSE)
    /\ ph' = [ph EXCEPT ![t] = "wr"] /\ UNCHANGED <<prog, pc, mem, held, epoch>>
WriteX(t) ==
    /\ Live(t) /\ ph[t] = "wr"
    /\ LET x == IF Op(t)[1] = "add" THEN Op(t)[2] ELSE Op(t)[3]
           v == IF Op(t)[1] = "add" THEN reg[t] + t ELSE reg[t] + 10
       IN  mem' = [mem EXCEPT ![x] = v] /\ Acc(t, x, TRUE, FALSE)
    /\ IF Lock(t) # 0 THEN ph' = [ph EXCEPT ![t] = "rel"] /\ UNCHANGED pc
       ELSE ph' = [ph EXCEPT ![t] = "op"] /\ pc' = [pc EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<prog, reg, held, epoch>>
Release(t) ==
    /\ Live(t) /\ ph[t] = "rel"
    /\ held' = [held EXCEPT ![Lock(t)] = 0] /\ ph' = [ph EXCEPT ![t] = "op"] /\ pc' = [pc EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<prog, mem, reg, epoch, acc>>
Barrier ==
    /\ \A t \in Threads : Live(t) /\ ph[t] = "op" /\ Op(t)[1] = "bar"
    /\ pc' = [t \in Threads |-> pc[t] + 1] /\ epoch' = [t \in Threads |-> epoch[t] + 1]
    /\ UNCHANGED <<prog, ph, mem, reg, held, acc>>
Next == Barrier \/ \E t \in Threads : Acquire(t) \/ Atomic(t) \/ ReadX(t) \/ WriteX(t) \/ Release(t)
Spec == Init /\ [][Next]_vars

(* the sequential run: phase by phase, thread 1 before thread 2 *)
Eff(m, t, o) == CASE o[1] = "add" -> [m EXCEPT ![o[2]] = @ + t] [] o[1] = "copy" -> [m EXCEPT ![o[3]] = m[o[2]] + 10] [] OTHER -> m
Phase(p, i) == Cardinality({j \in 1 .. i - 1 : p[j][1] = "bar"})
RECURSIVE Seqn(_, _, _, _)
Seqn(m, e, t, i) ==
    IF i > Length THEN (IF t = 1 THEN Seqn(m, e, 2, 1) ELSE IF e < Length THEN Seqn(m, e + 1, 1, 1) ELSE m)
    ELSE Seqn(IF Phase(prog[t], i) = e THEN Eff(m, t, prog[t][i]) ELSE m, e, t, i + 1)
Done == \A t \in Threads : pc[t] > Length
Determinate == Done /\ RaceFree(acc) => mem = Seqn([x \in Locs |-> x], 0, 1, 1)
(* not vacuous: racy teams do go wrong, race-free ones with sharing exist *)
NoLostUpdate == Done => mem = Seqn([x \in Locs |-> x], 0, 1, 1)
=============================================================================
