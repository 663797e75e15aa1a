-------------------------------- MODULE Trace --------------------------------
(* Trace validation: recorded runs of the real library are behaviours of BML.
   The log holds many independent runs; each is validated as a branch of its own. An event is accepted only if
   an action of BML with the logged arguments leads to exactly the logged state of every live matrix and the
   logged return values, and no memory guard was damaged. A run is accepted when its last event was consumed. *)
EXTENDS BML, Decomp, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
First == ndJsonDeserialize(IOEnv.INDEX)      \* one record per run: [t, a, b] first and last event

VARIABLES l, last,
          dom      \* number of ranks; current and saved decomposition of the matrices that have one of their own
tvars == <<heap, files, ret, out, blk, bs, l, last, dom>>

TInit == /\ Init
         /\ dom = [r |-> 1, cur |-> <<>>, sav |-> <<>>]
         /\ \E k \in 1 .. Len(First) : l = First[k].a /\ last = First[k].b

e == Log[l]
A(k) == e.a[k]
Rest(k) == SubSeq(e.a, k, Len(e.a))
Changed(h) == \E k \in 1 .. Len(e.d) : e.d[k].h = h
ObsV(h) == IF Changed(h) THEN e.d[CHOOSE k \in 1 .. Len(e.d) : e.d[k].h = h].v ELSE heap[h].v
ObsRec(d) == [ty |-> d.m[1], pr |-> d.m[2], n |-> d.m[3], m |-> IF d.m[1] = Csr THEN 0 ELSE d.m[4], md |-> d.m[5], v |-> d.v]
Agree == TRUE =
   (/\ {h \in Handles : heap'[h].ty # 0} = SetOf(e.live)
    /\ \A k \in 1 .. Len(e.d) : heap'[e.d[k].h] = ObsRec(e.d[k])
    /\ \A h \in Handles : Changed(h) \/ heap'[h].ty = 0 \/ heap'[h] = heap[h])

On(op) == e.op = op
OnAny(S) == e.op \in S
(* decompositions: functions from handles (as sets of pairs) would be costly to carry; matrices with the default
   decomposition are not listed *)
CurDom(h) == IF h \in DOMAIN dom.cur THEN dom.cur[h] ELSE Sequential
SavDom(h) == IF h \in DOMAIN dom.sav THEN dom.sav[h] ELSE Sequential
With(f, h, x) == [k \in DOMAIN f \union {h} |-> IF k = h THEN x ELSE f[k]]
Kept(f) == [k \in {k \in DOMAIN f : heap'[k].ty # 0 /\ heap[k].ty # 0} |-> f[k]]
DomIs(h, x) == e.r = Record(dom.r, N(h), heap[h].m, x)
Given == LET R == dom.r  np == A(2) IN
         FromParts(R, SubSeq(e.a, 3, 2 + R), SubSeq(e.a, 3 + R, 2 + 2 * R), SubSeq(e.a, 3 + 2 * R, 2 + 2 * R + np))
DomStep ==
    dom' = CASE e.op = "P" -> [dom EXCEPT !.r = IF Len(e.a) > 1 THEN A(2) ELSE 1]
             [] e.x # "ok" -> dom
             [] e.op = "setdom" -> [dom EXCEPT !.cur = With(dom.cur, A(1), Given)]
             [] e.op = "savedom" -> [dom EXCEPT !.sav = With(dom.sav, A(1), CurDom(A(1)))]
             [] e.op = "restdom" -> [dom EXCEPT !.cur = With(dom.cur, A(1), SavDom(A(1)))]
             [] DOMAIN dom.cur = {} /\ DOMAIN dom.sav = {} -> dom
             [] e.op = "copynew" -> [dom EXCEPT !.cur = With(Kept(dom.cur), A(1), CurDom(A(2))), !.sav = With(Kept(dom.sav), A(1), SavDom(A(2)))]
             [] e.op = "copy" -> [dom EXCEPT !.cur = With(dom.cur, A(2), CurDom(A(1))), !.sav = With(dom.sav, A(2), SavDom(A(1)))]
             [] OTHER -> [dom EXCEPT !.cur = Kept(dom.cur), !.sav = Kept(dom.sav)]

FileEntries == [k \in 1 .. A(4) |-> <<A(1 + 4 * k), A(2 + 4 * k), A(3 + 4 * k), A(4 + 4 * k)>>]

Call ==
    \/ On("P") /\ Same /\ Return(<<>>)
    \/ On("omp") /\ Same /\ Return(<<>>)
    \/ On("E") /\ End(e.r)
    \/ On("imp") /\ Import(A(1), A(2), A(3), A(4), A(5), A(6), A(7) = 1, A(8), Rest(9), ObsV(A(1)))
    \/ On("zero") /\ Zero(A(1), A(2), A(3), A(4), A(5), A(6))
    \/ On("blockm") /\ BlockMatrix(A(1), A(2), A(3), A(4), A(5), Rest(6))
    \/ On("ident") /\ Identity(A(1), A(2), A(3), A(4), A(5), A(6))
    \/ On("noinit") /\ Zero(A(1), A(2), A(3), A(4), A(5), A(6))
    \/ On("rand") /\ Random(A(1), A(2), A(3), A(4), A(5), A(6), A(7), e.r)
    \/ On("conv") /\ Convert(A(1), A(2), A(3), A(4), A(5), A(6))
    \/ On("copynew") /\ CopyNew(A(1), A(2))
    \/ On("copy") /\ Copy(A(1), A(2))
    \/ On("free") /\ Free(A(1))
    \/ On("clear") /\ Clear(A(1))
    \/ On("meta") /\ Meta(A(1), e.r[5], e.r[7])
    \/ On("null") /\ Same /\ Return(<<0, 0, -1, 0, 0, -1>>)
    \/ On("add") /\ Add(A(1), A(2), A(3), A(4), A(5), ObsV(A(1)))
    \/ On("addnorm") /\ AddNorm(A(1), A(2), A(3), A(4), A(5), ObsV(A(1)))
    \/ On("addid") /\ AddIdentity(A(1), A(2), A(3), ObsV(A(1)))
    \/ On("sai") /\ ScaleAddIdentity(A(1), A(2), A(3), A(4), ObsV(A(1)))
    \/ On("scalenew") /\ ScaleNew(A(1), A(3), A(4), A(2))
    \/ On("scale") /\ Scale(A(3), A(4), A(1), A(2))
    \/ On("scalein") /\ ScaleInplace(A(2), A(3), A(1))
    \/ On("trnew") /\ TransposeNew(A(1), A(2))
    \/ On("tr") /\ Transpose(A(1))
    \/ On("thrnew") /\ ThresholdNew(A(1), A(2), A(3))
    \/ On("thr") /\ Threshold(A(1), A(2))
    \/ On("mul") /\ Multiply(A(1), A(2), A(3), A(4), A(5), A(6), ObsV(A(3)))
    \/ On("x2") /\ MultiplyX2(A(1), A(2), A(3), ObsV(A(2)), e.r)
    \/ On("mulab") /\ MultiplyAB(A(1), A(2), A(3), A(4), ObsV(A(3)))
    \/ On("muladj") /\ MultiplyAdjustAB(A(1), A(2), A(3), A(4), ObsV(A(3)))
    \/ On("emul") /\ ElementMultiply(A(1), A(2), A(3), A(4), ObsV(A(3)))
    \/ On("setel") /\ SetElement(A(1), A(2), A(3), A(4), IF Cx(A(1)) THEN A(5) ELSE 0)
    \/ On("setnew") /\ SetElement(A(1), A(2), A(3), A(4), IF Cx(A(1)) THEN A(5) ELSE 0)
    \/ On("setrow") /\ SetRow(A(1), A(2), A(3), Rest(4), ObsV(A(1)))
    \/ On("setdiag") /\ SetDiagonal(A(1), A(2), Rest(3), ObsV(A(1)))
    \/ On("views") /\ Views(A(1))
    \/ On("getel") /\ GetElement(A(1), A(2), A(3))
    \/ On("getrow") /\ GetRow(A(1), A(2))
    \/ On("getdiag") /\ GetDiagonal(A(1))
    \/ On("exp") /\ Export(A(1), A(2) = 1)
    \/ On("trace") /\ TraceOf(A(1))
    \/ On("tracemult") /\ TraceMult(A(1), A(2))
    \/ On("sumsq") /\ SumSquares(A(1))
    \/ On("sumsq2") /\ SumSquares2(A(1), A(2), A(3), A(4), A(5), e.r[1])
    \/ On("sumab") /\ SumAB(A(1), A(2), A(3), A(4), e.r[1])
    \/ On("sumsqsub") /\ SumSquaresSub(A(1), A(2))
    \/ On("fnorm") /\ FNorm(A(1))
    \/ On("fnorm2") /\ FNorm2(A(1), A(2))
    \/ On("spars") /\ Sparsity(A(1), A(2))
    \/ On("bw") /\ Bandwidth(A(1))
    \/ On("gersh") /\ Gershgorin(A(1), N(A(1)))
    \/ On("gershp") /\ Gershgorin(A(1), A(2))
    \/ On("offdiag") /\ OffDiagSums(A(1), A(2))
    \/ On("normalize") /\ Normalize(A(1), A(2), A(3))
    \/ On("diag") /\ Diagonalize(A(1), e.r)
    \/ On("inv") /\ Invert(A(1), e.r)
    \/ On("extract") /\ Extract(A(1), A(2), A(3), A(4), A(5), A(6))
    \/ On("assign") /\ Assign(A(1), A(2), A(3), A(4))
    \/ On("m2s") /\ Gather(A(1), A(2), Rest(4))
    \/ On("s2m") /\ Scatter(A(1), A(2), Rest(6), A(4), A(5), ObsV(A(2)))
    \/ On("halo") /\ Halo(A(1), A(2), Rest(5), A(3), e.r)
    \/ On("adj") /\ Adjacency(A(1), A(2), A(3))
    \/ On("adjg") /\ AdjacencyGroup(A(1), Rest(5), A(2), A(3), A(4))
    \/ On("group") /\ Group(A(1), A(2), Rest(5), A(4), A(3), ObsV(A(1)))
    \/ On("reorder") /\ Reorder(A(1), Rest(2))
    \/ On("breorder") /\ ReorderBlocks(A(1), Rest(3))
    \/ On("adjung") /\ Adjungate(A(1), A(2))
    \/ On("trtri") /\ TransposeTriangle(A(1), A(2))
    \/ On("write") /\ Write(A(1), A(2), e.r)
    \/ On("read") /\ Read(A(1), A(2))
    \/ On("mkfile") /\ MakeFile(A(1), A(2) = 1, A(3), FileEntries)
    \/ On("badfile") /\ MakeFile(A(1), FALSE, -1, <<>>)
    \/ On("gemm") /\ Gemm(A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), A(10), <<A(11), A(12)>>, <<A(13), A(14)>>, A(15), Rest(16), e.r)
    \/ On("send") /\ A(1) < 2 /\ SendRecv(A(3), A(5))
    \/ On("send") /\ A(1) = 2 /\ SendNew(A(3), A(5), A(6), A(7), A(8), A(9))
    \/ On("swap") /\ Swap(A(2), A(3), A(5), A(6))
    \/ On("bcast") /\ Bcast(A(A(1) + 3), SetOf(Rest(3)) \ {-1})
    \/ On("drand") /\ RandomBlocks(A(1), A(2), A(3), A(4), A(5))
    \/ On("red") /\ Reduce(A(1), A(2), A(3), A(4))
    \/ On("barrier") /\ Same /\ Return(<<>>)
    \/ On("gath") /\ Live(A(1)) /\ Same /\ Return(<<>>)
    \/ On("who") /\ Same /\ Return(<<A(1), 1, 1>>)
    \/ OnAny({"dom", "savedom"}) /\ Live(A(1)) /\ Same /\ DomIs(A(1), CurDom(A(1))) /\ Return(e.r)
    \/ On("restdom") /\ Live(A(1)) /\ Same /\ DomIs(A(1), SavDom(A(1))) /\ Return(e.r)
    \/ On("setdom") /\ Live(A(1)) /\ Same /\ Covers(Given, N(A(1))) /\ DomIs(A(1), Given) /\ Return(e.r)
    \/ On("ddom") /\ Same /\ Return(Default(dom.r, A(1), A(2), A(3) = 1))
    \/ On("print") /\ PrintBlock(A(1), A(2), A(3), A(4), A(5))
    \/ On("printd") /\ PrintBlock(A(1), A(3), A(4), A(5), A(6))
    \/ On("printv") /\ PrintRow(A(1), A(2), A(3), A(4))

(* ---- refusals
   Invalid: requests that cannot be carried out; the library must stop the program.
   Overflow: the pattern computed before small elements are dropped does not fit the rows of the target; the library may
   stop the program. (That it must not continue with a wrong result follows from the actions above: a result that does
   not fit cannot be the value of any matrix.)                                                                      *)
Unary == {"copynew", "clear", "trnew", "tr", "thr", "thrnew", "trace", "sumsq", "fnorm", "gersh", "addid", "sai", "getdiag", "getrow", "getel",
          "write", "inv", "spars", "offdiag", "normalize", "setel", "setrow"}
Obj == IF e.op \in {"copynew", "trnew", "thrnew", "scalenew", "extract"} THEN A(2) ELSE A(1)
Absent == TRUE = (IF OnAny(Unary) THEN ~Live(Obj)
                  ELSE IF On("conv") THEN ~Live(A(2))
                  ELSE IF OnAny({"add", "mul", "mulab", "x2", "tracemult", "sumab", "sumsq2"}) THEN ~Live(A(1)) ELSE FALSE)
GraphOps == {"m2s", "s2m", "halo", "adj", "adjg", "group"}
Lacks ==       \* operations a format does not provide
    TRUE = (\/ On("addnorm") /\ Ty(A(1)) = Csr
            \/ On("fnorm2") /\ Ty(A(1)) \in {Ellblock, Csr}
            \/ OnAny({"bw", "sumsqsub", "gershp"}) /\ Ty(A(1)) = Ellblock
            \/ OnAny({"m2s", "halo", "adj", "adjg"}) /\ Ty(A(1)) # Ellpack
            \/ On("s2m") /\ Ty(A(2)) # Ellpack
            \/ On("group") /\ Ty(A(2)) # Ellpack
            \/ On("reorder") /\ Ty(A(1)) = Csr
            \/ On("adjung") /\ Ty(A(1)) \in {Ellblock, Csr}
            \/ On("trtri") /\ Ty(A(1)) # Dense
            \/ On("setdom") /\ (Ty(A(1)) \in {Ellblock, Csr} \/ heap[A(1)].md = 1)
            \/ OnAny({"savedom", "restdom", "dom"}) /\ (Ty(A(1)) \in {Ellblock, Csr} \/ heap[A(1)].md = 1))
Invalid == TRUE =
   IF Absent THEN TRUE
   ELSE \/ On("getel") /\ ~(InRange(A(1), A(2)) /\ InRange(A(1), A(3)))
        \/ On("getrow") /\ ~InRange(A(1), A(2))
        \/ On("P") /\ Len(e.a) > 1 /\ ~(\E p \in 1 .. A(2) : p * p = A(2))
        \/ On("ddom") /\ A(3) \notin {0, 1}
        \/ On("tracemult") /\ N(A(1)) # N(A(2))
        \/ On("copy") /\ ~(Ty(A(1)) = Ty(A(2)) /\ N(A(1)) = N(A(2)))
        \/ On("read") /\ ~(files[A(2)].ex /\ files[A(2)].n = N(A(1)))
        \/ OnAny({"zero", "ident", "noinit", "imp"}) /\ ~(A(2) \in Types /\ A(3) \in Precs)
        \/ On("inv") /\ ZeroLine(V(A(1)), N(A(1)))
        \/ Lacks
Over(h, pat) == LET x == TLCEval(pat) IN ~FitsIn(Ty(h), N(h), heap[h].m, x)
EyeOf(h) == Ident(N(h), FALSE)
Overflow == TRUE =
    (CASE OnAny({"add", "addnorm"}) -> Over(A(1), Or(PatH(A(1)), PatH(A(2))))
       [] OnAny({"addid", "sai", "normalize"}) -> Over(A(1), Or(PatH(A(1)), EyeOf(A(1))))
       [] On("mul") -> Over(A(3), Or(PatMul(A(1), A(2)), PatH(A(3))))
       [] On("x2") -> Over(A(2), PatMul(A(1), A(1)))
       [] On("mulab") -> Over(A(3), PatMul(A(1), A(2)))
       [] On("muladj") -> A(4) = 0 /\ Over(A(3), PatMul(A(1), A(2)))
       [] On("emul") -> Over(A(3), PatH(A(1)))
       [] OnAny({"copy", "scale"}) -> Over(A(2), PatH(A(1))) \/ heap[A(1)].m > heap[A(2)].m
       [] On("trnew") -> Over(A(2), Transp(N(A(2)), PatH(A(2))))
       [] On("tr") -> Over(A(1), Or(PatH(A(1)), Transp(N(A(1)), PatH(A(1)))))
       [] On("conv") -> ~FitsIn(A(3), N(A(2)), A(5), PatH(A(2)))
       [] On("imp") -> LET raw == Vals(CxPrec(A(3)), Rest(9), A(4) * A(4))
                           v == IF A(7) = 1 THEN Transp(A(4), raw) ELSE raw
                       IN  ~FitsIn(A(2), A(4), A(5), Pat(v, A(4)))
       [] OnAny({"setel", "setnew"}) -> InRange(A(1), A(2)) /\ InRange(A(1), A(3)) /\
                                        Over(A(1), [PatH(A(1)) EXCEPT ![Pos(N(A(1)), A(2), A(3))] = 1])
       [] On("setrow") -> InRange(A(1), A(2)) /\
                          LET r == Vals(Cx(A(1)), Rest(4), N(A(1)))  n == N(A(1)) IN
                          Over(A(1), [p \in 1 .. n * n |-> IF Row(n, p) # A(2) THEN PatH(A(1))[p]
                                                            ELSE IF r[Col(n, p) + 1] # 0 \/ (Cx(A(1)) /\ r[n + Col(n, p) + 1] # 0) THEN 1 ELSE 0])
       [] On("setdiag") -> Over(A(1), Or(PatH(A(1)), EyeOf(A(1))))
       [] On("extract") -> ~FitsIn(Ty(A(2)), A(5), A(6), Pat(ExtractV(N(A(2)), V(A(2)), A(3), A(4), A(5)), A(5)))
       [] On("assign") -> Over(A(1), Or(PatH(A(1)), Pat(AssignV(N(A(1)), V(A(1)), N(A(2)), V(A(2)), A(3), A(4)), N(A(1)))))
       [] On("s2m") -> heap[A(2)].m < A(3) /\ Over(A(2), Pat(ScatterV(A(1), A(2), Rest(6), A(4)), N(A(2))))
       [] On("adjung") -> Over(A(1), Or(PatH(A(1)), Transp(N(A(1)), PatH(A(1)))))
       [] On("read") -> Over(A(1), Pat(FromEntries(N(A(1)), Cx(A(1)), files[A(2)].e), N(A(1))))
       [] On("diag") -> Ty(A(1)) = Ellpack /\ (A(2) < N(A(1)) \/ heap[A(1)].m < N(A(1)))
       [] On("inv") -> Ty(A(1)) = Ellpack /\ heap[A(1)].m < N(A(1))
       [] On("tracemult") -> heap[A(1)].m # heap[A(2)].m
       [] OTHER -> FALSE)
RefuseOK == IF Invalid THEN TRUE ELSE Overflow

TNext ==
    /\ l <= last
    /\ l' = l + 1 /\ UNCHANGED last
    /\ e.z = 0
    /\ \/ e.x = "ok" /\ ~Invalid /\ Call /\ Book /\ e.r = ret' /\ Agree
       \/ e.x = "exit" /\ l = last /\ RefuseOK /\ Refuse
    /\ DomStep
    /\ bs' = IF On("blockm") /\ e.x = "ok" /\ blk = 0 THEN OwnBlocks(A(3), Rest(6)) ELSE bs
    /\ (l = last => PrintT(<<"ACC", e.t>>))
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
