----------------------------- MODULE BasisTrace -----------------------------
(* Validation of recorded executions of spl::ParameterSpace and baf::BasisFunction against BasisSys *)
EXTENDS BasisSys, Json, IOUtils
CONSTANT Tol
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
tvars == <<ps, sc, l>>
Ev == Trace[sc].ev[l]
Holds(P) == P = TRUE
Is(op) == Ev.op = op
Ok == Ev.res = "ok"
Threw == Ev.res = "throw"
S == ps[Ev.h]
ToSpace(r) == [deg |-> r.deg, knots |-> TLCEval([d \in DOMAIN r.knots |-> RSeq(r.knots[d])])]
Recorded == {Ev.chg[i].h : i \in DOMAIN Ev.chg}
Rec(h) == (CHOOSE c \in Range0(Ev.chg) : c.h = h)
SeqEq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i], b[i])
SpaceEq(s, t) == s.deg = t.deg /\ Len(s.knots) = Len(t.knots) /\ \A d \in DOMAIN s.knots : SeqEq(s.knots[d], t.knots[d])
Agrees(after) == /\ \A h \in Recorded : h \in DOMAIN after /\ SpaceEq(Rec(h), after[h])
                 /\ \A h \in DOMAIN after : \/ h \in Recorded
                                            \/ h \in PHandles /\ SpaceEq(ps[h], after[h])
Quiet == Recorded = {} /\ UNCHANGED ps
Does(A) == Ok /\ A /\ \E a \in {ps'} : Agrees(a)
TNew == /\ Is("new")
        /\ \E s \in {ToSpace(Ev)} : IF Holds(SpaceValid(s)) THEN Does(PCreate(Ev.h, s)) ELSE Threw /\ Quiet
TCopy == Is("copy") /\ Does(PCopy(Ev.h, Ev.g))
TInsert == Is("insert") /\ Does(PInsert(Ev.h, Ev.d, R(Ev.u)))
TRemove == Is("remove") /\ Does(PRemove(Ev.h, Ev.d, R(Ev.u)))
TElevate == Is("elevate") /\ Does(PElevate(Ev.h, Ev.d))
TReduce == Is("reduce") /\ Does(PReduce(Ev.h, Ev.d))
TThicken == Is("thicken") /\ Does(PThicken(Ev.h, Ev.d))
TThin == Is("thin") /\ Does(PThin(Ev.h, Ev.d))
(* the knots of the own direction pieces; the space itself does not change *)
KnotsAre(r, e) == Len(r) = Len(e) /\ \A d \in DOMAIN e : SeqEq(r[d], e[d])
TDivide == /\ Is("divide") /\ Quiet
           /\ IF Dividable(S, Ev.d, R(Ev.u))
              THEN Ok /\ Holds(KnotsAre(Ev.left, Divided(S, Ev.d, R(Ev.u), TRUE))) /\ Holds(KnotsAre(Ev.right, Divided(S, Ev.d, R(Ev.u), FALSE)))
              ELSE TRUE
(* derivatives grow with the inverse of the knot spans *)
ShortestOf(U) == LET dk == Distinct(U)
                     M == {dk[i + 1] \ominus dk[i] : i \in 1..(Len(dk) - 1)}
                 IN CHOOSE x \in M : \A y \in M : x \preceq y
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN R(1) ELSE x \otimes Pow(x, k - 1)
Noise(U, p, k) == RMul(RMul("1/100", Tol), Pow(R(p) \oslash ShortestOf(U), k))
NearAbs(r, x, abs) == RNear(r, x, RMul(100, Tol)) \/ (IsNum(r) /\ RAbs(r \ominus x) \preceq abs)
ValueOk(r, x, U, p, k) == IF k = 0 THEN RNear(r, x, Tol) ELSE NearAbs(r, x, Noise(U, p, k))
(* all functions of all directions at u, with derivatives of order k[d] *)
TAt == /\ Is("at") /\ Quiet
       /\ IF ~ Usable(S) THEN TRUE
          ELSE /\ Ok
               /\ \A d \in Dirs(S) : Ev.first[d] = FirstFunction(S, d, R(Ev.u[d]))
               /\ \A d \in Dirs(S) : Holds(RNearSeq(Ev.val[d], Basis(S.knots[d], S.deg[d], R(Ev.u[d])), Tol))
               /\ \A d \in Dirs(S) : \E e \in {DBasis(S.knots[d], S.deg[d], R(Ev.u[d]), Ev.k[d])} :
                     Len(Ev.der[d]) = Len(e) /\ \A i \in DOMAIN e : Holds(ValueOk(Ev.der[d][i], e[i], S.knots[d], S.deg[d], Ev.k[d]))
TensorNoise(s, a) == LET f[d \in 0..Len(a)] == IF d = 0 THEN RMul("1/100", Tol)
                              ELSE f[d - 1] \otimes Pow(R(s.deg[d]) \oslash ShortestOf(s.knots[d]), a[d]) IN f[Len(a)]
TTensor == /\ Is("tensor") /\ Quiet
           /\ IF ~ Usable(S) THEN TRUE
              ELSE /\ Ok
                   /\ Holds(RNear(Ev.val, TensorAt(S, Ev.idx, RSeq(Ev.u), [d \in Dirs(S) |-> 0]), Tol))
                   /\ Holds(NearAbs(Ev.der, TensorAt(S, Ev.idx, RSeq(Ev.u), Ev.k), TensorNoise(S, Ev.k)))
TRange == Is("ranges") /\ Quiet /\ Ok /\ Holds(RNearSeq(Ev.ret, [d \in Dirs(S) |-> RangeOf(S, d)], Tol))
TInside == Is("inside") /\ Quiet /\ IF Inside(S, RSeq(Ev.u)) THEN Ok ELSE Threw
TEqual == Is("equal") /\ Quiet /\ Ok /\ Holds(SpacesEqualAnswer(S, ps[Ev.g], Ev.tol, Ev.ret))
(* a single function: values and derivatives at any parameters *)
TSingle == /\ Is("single") /\ Quiet
           /\ IF Ev.p < 0 THEN Threw
              ELSE /\ Ok
                   /\ \E U \in {RSeq(Ev.knots)} :
                           \A j \in DOMAIN Ev.u : \A k \in DOMAIN Ev.ret[j] :
                             \E x \in {Single(U, Ev.i, Ev.p, R(Ev.u[j]), k - 1)} : Holds(ValueOk(Ev.ret[j][k], x, U, Ev.p, k - 1))
Step == TNew \/ TCopy \/ TInsert \/ TRemove \/ TElevate \/ TReduce \/ TThicken \/ TThin \/ TDivide \/ TAt \/ TTensor \/ TRange \/ TInside
        \/ TEqual \/ TSingle

TraceInit == PInit /\ sc \in 1..Len(Trace) /\ l = 1 /\ TLCSet(sc, 1)
TraceNext == /\ l <= Len(Trace[sc].ev)
             /\ ~ Is("Died")
             /\ Step
             /\ l' = l + 1
             /\ UNCHANGED sc
             /\ TLCSet(sc, l')
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET bad == {i \in 1..Len(Trace) : TLCGet(i) <= Len(Trace[i].ev)}
                 IN /\ PrintT(<<"SCENARIOS", Len(Trace)>>)
                    /\ \A i \in bad : PrintT(<<"REJECTED", Trace[i].id, TLCGet(i)>>)
                    /\ bad = {}
=============================================================================
