----------------------------- MODULE NetTrace -----------------------------
(* Validation of recorded executions of spl::PhysicalSpace and spl::WeightedPhysicalSpace against NetSys *)
EXTENDS NetSys, Json, IOUtils
CONSTANT Tol
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
tvars == <<nets, sc, l>>
Ev == Trace[sc].ev[l]
Holds(P) == P = TRUE
Is(op) == Ev.op = op
Ok == Ev.res = "ok"
Threw == Ev.res = "throw"
S == nets[Ev.h]
Points(x) == TLCEval([i \in DOMAIN x |-> RSeq(x[i])])
ToNet(r) == [n |-> r.n, dim |-> Len(r.p[1]), p |-> Points(r.p), w |-> RSeq(r.w), rat |-> r.rat]
Recorded == {Ev.chg[i].h : i \in DOMAIN Ev.chg}
Rec(h) == (CHOOSE c \in NRange(Ev.chg) : c.h = h)
SeqEq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i], b[i])
PtsEq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : SeqEq(a[i], b[i])
(* what the getters show: lengths, highest indices, number of points, coordinates, the points of the box, all weights *)
Shows(r, s) == /\ r.n = s.n
               /\ r.top = [d \in DOMAIN s.n |-> s.n[d] - 1]
               /\ r.count = Len(s.p)
               /\ r.dim = s.dim
               /\ PtsEq(r.p, TLCEval([k \in 1..NProd(s.n) |-> s.p[k]]))
               /\ SeqEq(r.bw, TLCEval([k \in 1..NProd(s.n) |-> IF s.rat THEN s.w[k] ELSE R(1)]))
               /\ SeqEq(r.w, s.w)
Agrees(after) == /\ \A h \in Recorded : h \in DOMAIN after /\ Shows(Rec(h), after[h])
                 (* a handle that shows nothing new: the box, the number of points and the weights are as before *)
                 /\ \A h \in DOMAIN after : \/ h \in Recorded
                                            \/ /\ h \in NHandles
                                               /\ after[h].n = nets[h].n /\ Len(after[h].p) = Len(nets[h].p)
                                               /\ \A k \in 1..NProd(nets[h].n) : SeqEq(after[h].p[k], nets[h].p[k])
                                               /\ SeqEq(after[h].w, nets[h].w)
Quiet == Recorded = {} /\ UNCHANGED nets
Does(A) == Ok /\ A /\ \E a \in {nets'} : Agrees(a)
TNew == /\ Is("new")
        /\ \E s \in {ToNet(Ev)} : IF Holds(NetValid(s)) THEN Does(NCreate(Ev.h, s)) ELSE Threw /\ Quiet
TCopy == Is("copy") /\ Does(NCopy(Ev.h, Ev.g))
TSet == Is("set") /\ Does(NSet(Ev.h, Ev.idx, RSeq(Ev.pt), Ev.d, Ev.delta))
TSetW == Is("setw") /\ Does(NSetWeight(Ev.h, Ev.idx, R(Ev.w), Ev.d, Ev.delta))
TSetBoth == Is("setboth") /\ Does(NSetBoth(Ev.h, Ev.idx, RSeq(Ev.pt), R(Ev.w)))
TAdd == Is("add") /\ Does(NAdd(Ev.h, Ev.k))
TRem == Is("rem") /\ Does(NRemove(Ev.h, Ev.k))
TLen == Is("len") /\ Does(NLength(Ev.h, Ev.d, Ev.m))
TStep == (Is("inc") \/ Is("dec")) /\ Does(NLength(Ev.h, Ev.d, S.n[Ev.d] + (IF Is("inc") THEN 1 ELSE -1)))
(* answers about the whole list are asked for when the box fills it *)
TAsk == /\ Is("ask") /\ Quiet /\ Ok
        /\ REq(Ev.expansion, LargestCoordinate(S))
        /\ Holds(RNear(Ev.distance, RSqrt(LargestDistanceSq(S)), Tol))
        /\ (S.rat => REq(Ev.minimum, SmallestWeight(S)))
TGet == /\ Is("get") /\ Quiet /\ Ok
        /\ SeqEq(Ev.pt, PointAt(S, Ev.idx))
        /\ REq(Ev.w, WeightAt(S, Ev.idx))
        /\ (S.rat => Holds(RNearSeq(Ev.homog, HomogeneousAt(S, Ev.idx), Tol)))
TPart == /\ Is("part") /\ Quiet /\ Ok
         /\ Holds(PtsEq(Ev.p, PartPoints(S, Ev.first, Ev.len, Ev.d)))
         /\ (S.rat => Holds(SeqEq(Ev.w, PartWeights(S, Ev.first, Ev.len, Ev.d))))
TEqual == Is("equal") /\ Quiet /\ Ok /\ Holds(NetsEqualAnswer(S, nets[Ev.g], Ev.tol, Ev.ret))
Step == TNew \/ TCopy \/ TSet \/ TSetW \/ TSetBoth \/ TAdd \/ TRem \/ TLen \/ TStep \/ TAsk \/ TGet \/ TPart \/ TEqual

TraceInit == NInit /\ sc \in 1..Len(Trace) /\ l = 1 /\ TLCSet(sc, 1)
TraceNext == /\ l <= Len(Trace[sc].ev)
             /\ ~ Is("Died")
             /\ Step
             /\ l' = l + 1
             /\ UNCHANGED sc
             /\ TLCSet(sc, l')
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET bad == {i \in 1..Len(Trace) : TLCGet(i) <= Len(Trace[i].ev)}
                 IN /\ PrintT(<<"SCENARIOS", Len(Trace)>>)
                    /\ \A i \in bad : PrintT(<<"REJECTED", Trace[i].id, TLCGet(i)>>)
                    /\ bad = {}
=============================================================================
