----------------------------- MODULE KnotTrace -----------------------------
(* Validation of recorded executions of baf::KnotVector against KnotSys *)
EXTENDS KnotSys, Json, IOUtils
CONSTANT Tol
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
tvars == <<kvs, sc, l>>
Ev == Trace[sc].ev[l]
Holds(P) == P = TRUE
Is(op) == Ev.op = op
Ok == Ev.res = "ok"
U == kvs[Ev.h]
(* what the code shows of every handle that changed *)
Recorded == {Ev.chg[i].h : i \in DOMAIN Ev.chg}
Rec(h) == (CHOOSE c \in Range0(Ev.chg) : c.h = h)
SeqEq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i], b[i])
Agrees(after) ==             \* after: the store the specification expects
  /\ \A h \in Recorded : h \in DOMAIN after /\ SeqEq(Rec(h).k, after[h]) /\ SeqEq(Rec(h).it, after[h])
  /\ \A h \in DOMAIN after : \/ h \in Recorded
                             \/ h \in KHandles /\ SeqEq(kvs[h], after[h])
AgreesNear(h, after) == /\ Recorded \subseteq {h}
                        /\ h \in Recorded
                        /\ RNearSeq(Rec(h).k, after[h], Tol)
Same == Recorded = {} /\ UNCHANGED kvs
QNew == Is("new") /\ Ok /\ KCreate(Ev.h, RSeq(Ev.k)) /\ \E a \in {kvs'} : Agrees(a)
QAvg == /\ Is("avg") /\ Ok /\ \E e \in {Averaged(RSeq(Ev.c), Ev.p, Ev.n)} :
             /\ Ev.h \in Recorded /\ RNearSeq(Rec(Ev.h).k, e, Tol) /\ Recorded = {Ev.h}
             /\ KPut(Ev.h, RSeq(Rec(Ev.h).k))
QCopy == Is("copy") /\ Ok /\ KCopy(Ev.h, Ev.g) /\ \E a \in {kvs'} : Agrees(a)
QAssign == Is("assign") /\ Ok /\ KCopy(Ev.h, Ev.g) /\ \E a \in {kvs'} : Agrees(a)
QMove == (Is("move") \/ Is("moveassign")) /\ Ok /\ KMove(Ev.h, Ev.g) /\ \E a \in {kvs'} : Agrees(a)
QRange == Is("range") /\ Ok /\ KPut(Ev.g, SubSeq(U, Ev.i + 1, Ev.j)) /\ \E a \in {kvs'} : Agrees(a)
QInsert == Is("insert") /\ Ok /\ MayInsertK(Ev.h, R(Ev.u)) /\ KInsert(Ev.h, R(Ev.u)) /\ \E a \in {kvs'} : Agrees(a)
QRemove == Is("remove") /\ Ok /\ MayRemoveK(Ev.h, R(Ev.u)) /\ KRemove(Ev.h, R(Ev.u)) /\ \E a \in {kvs'} : Agrees(a)
QSet == Is("set") /\ Ok /\ KSet(Ev.h, Ev.i, R(Ev.u)) /\ \E a \in {kvs'} : Agrees(a)
QDiff == /\ Is("diff") /\ Ok /\ Recorded = {Ev.x}
         /\ RNearSeq(Rec(Ev.x).k, Difference(U, kvs[Ev.g]), "1/1000000000000000")
         /\ KPut(Ev.x, RSeq(Rec(Ev.x).k))
QQuery == /\ Is("query") /\ Ok /\ Same
          /\ Ev.count = Len(U)
          /\ Ev.distinct = Distinctness(U)
          /\ REq(Ev.last, LastKnot(U))
QAt == /\ Is("at") /\ Ok /\ Same
       /\ Ev.mult = Mult(U, R(Ev.u))
       /\ Ev.inrange = InRange(U, R(Ev.u))
       (* within a few units in the last place of the last knot, "last" is open *)
       /\ REq(Ev.u, LastKnot(U)) => Ev.last
       /\ (R("1/1000000000000") \prec RAbs(R(Ev.u) \ominus LastKnot(U))) => ~ Ev.last
       (* the span of a parameter in the range *)
       /\ IF InRange(U, R(Ev.u)) /\ FirstKnot(U) \prec LastKnot(U)
          THEN \/ Ev.span = Span(U, R(Ev.u))
               \/ Ev.last /\ Ev.span = Span(U, LastKnot(U))
          ELSE TRUE
QEq == Is("eq") /\ Ok /\ Same /\ Holds(EqualAnswer(U, kvs[Ev.g], "2.2204460492503131e-15", Ev.ret))
QNear == Is("near") /\ Ok /\ Same /\ Holds(EqualAnswer(U, kvs[Ev.g], Ev.tol, Ev.ret))
Step == QNew \/ QAvg \/ QCopy \/ QAssign \/ QMove \/ QRange \/ QInsert \/ QRemove \/ QSet \/ QDiff \/ QQuery \/ QAt \/ QEq \/ QNear

TraceInit == KInit /\ sc \in 1..Len(Trace) /\ l = 1 /\ TLCSet(sc, 1)
TraceNext == /\ l <= Len(Trace[sc].ev)
             /\ ~ Is("Died")
             /\ Step
             /\ l' = l + 1
             /\ UNCHANGED sc
             /\ TLCSet(sc, l')
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET bad == {i \in 1..Len(Trace) : TLCGet(i) <= Len(Trace[i].ev)}
                 IN /\ PrintT(<<"SCENARIOS", Len(Trace)>>)
                    /\ \A i \in bad : PrintT(<<"REJECTED", Trace[i].id, TLCGet(i)>>)
                    /\ bad = {}
=============================================================================
