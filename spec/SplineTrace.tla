---------------------------- MODULE SplineTrace ----------------------------
(* Validation of recorded executions against SplineSys. The trace file has one scenario per line:
   [id |-> .., ev |-> <<events>>]; every event carries the operation, its arguments, how it ended, its return value
   and the state of every handle whose projection changed (chg). *)
EXTENDS Shapes, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
tvars == <<vars, sc, l>>

Ev == Trace[sc].ev[l]
ToSpline(r) ==
  [kind |-> r.kind, deg |-> r.deg, knots |-> TLCEval([d \in DOMAIN r.knots |-> RSeq(r.knots[d])]), n |-> r.n,
   h |-> TLCEval([k \in DOMAIN r.cps |-> Append([i \in DOMAIN r.cps[k] |-> RMul(r.w[k], r.cps[k][i])], R(r.w[k]))])]
Changed == {Ev.chg[i].h : i \in DOMAIN Ev.chg}
After(h) == IF h \in Changed
            THEN ToSpline((CHOOSE c \in Range0(Ev.chg) : c.h = h).s)
            ELSE store[h]
(* the recorded getters agree with each other *)
GettersAgree == \A i \in DOMAIN Ev.chg :
                  LET r == Ev.chg[i].s
                  IN /\ r.count = Len(r.cps)
                     /\ r.count = Product(r.n)
                     /\ \A k \in DOMAIN r.cps : Len(r.cps[k]) = r.pdim
Ok    == Ev.res = "ok"
Threw == Ev.res = "throw"
Quiet == Changed = {} /\ UNCHANGED vars           \* nothing changed
Only(H) == Changed \subseteq H
Is(op) == Ev.op = op

TNew == /\ Is("new")
        /\ IF Holds(ArgsValid(Ev.args)) THEN Ok /\ Only({Ev.h}) /\ Ev.h \in Changed /\ \E x \in {After(Ev.h)} : Create(Ev.h, Ev.args, x)
           ELSE Threw /\ Quiet
TCopy == Is("copy") /\ Ok /\ Only({Ev.g}) /\ Ev.g \in Changed /\ \E x \in {After(Ev.g)} : Copy(Ev.h, Ev.g, x)
TNewPoints == Is("newpoints") /\ Ok /\ Only({Ev.g}) /\ Ev.g \in Changed /\ \E x \in {After(Ev.g)} : CopyWithPoints(Ev.h, Ev.g, Ev.pts, x)
TTouch == Is("touch") /\ Ok /\ Quiet
TDrop == Is("drop") /\ Ok /\ Only({}) /\ Drop(Ev.h)
TInsert == Is("insert") /\ Ok /\ Only({Ev.h}) /\ \E x \in {After(Ev.h)} : InsertKnot(Ev.h, Ev.d, R(Ev.u), Ev.m, x)
TRefine == Is("refine") /\ Ok /\ Only({Ev.h}) /\ \E x \in {After(Ev.h)} : RefineKnots(Ev.h, Ev.d, Ev.us, x)
TRemove == Is("remove") /\ Ok /\ Only({Ev.h}) /\ \E x \in {After(Ev.h)} : RemoveKnot(Ev.h, Ev.d, R(Ev.u), Ev.tol, Ev.m, Ev.ret, x)
TElevate == Is("elevate") /\ Ok /\ Only({Ev.h}) /\ \E x \in {After(Ev.h)} : ElevateDegree(Ev.h, Ev.d, x)
TReduce == Is("reduce") /\ Ok /\ Only({Ev.h}) /\ \E x \in {After(Ev.h)} : ReduceDegree(Ev.h, Ev.d, Ev.tol, Ev.ret, x)
TSubdivide == /\ Is("subdivide") /\ Ok /\ Only({Ev.h, Ev.a, Ev.b}) /\ {Ev.a, Ev.b} \subseteq Changed
              /\ \E x \in {After(Ev.h)}, y \in {After(Ev.a)}, z \in {After(Ev.b)} : SubdivideAt(Ev.h, Ev.d, R(Ev.u), Ev.a, Ev.b, x, y, z)
S == store[Ev.h]
TEval == /\ Is("eval") /\ Quiet
         /\ IF InDomain(S, Ev.u) THEN Ok /\ Holds(RNearSeq(Ev.ret, EvalReply(S, RSeq(Ev.u), Ev.dims), Tol)) ELSE Threw
(* derivatives are scaled by the knot spans: a relative comparison in the largest entry *)
ShortestSpan(U) == LET dk == Distinct(U)
                       M == {dk[i + 1] \ominus dk[i] : i \in 1..(Len(dk) - 1)}
                   IN CHOOSE x \in M : \A y \in M : x \preceq y
(* how large the numbers in the computation of a derivative get, times the unit of rounding *)
DerivNoise(s, a) == RMul(RMul("1/100", Tol), (R(1) \oplus MaxDist(s))
                      \otimes (LET f[d \in 0..Dim(s)] == IF d = 0 THEN R(1)
                                      ELSE f[d - 1] \otimes Power(R(s.deg[d]) \oslash ShortestSpan(s.knots[d]), a[d]) IN f[Dim(s)]))
NearWithin(r, x, t, abs) == /\ Len(r) = Len(x)
                            /\ \A i \in DOMAIN x : RNear(r[i], x[i], t) \/ (IsNum(r[i]) /\ RAbs(r[i] \ominus x[i]) \preceq abs)
TDeriv == /\ Is("deriv") /\ Quiet
          /\ IF InDomain(S, Ev.u)
             THEN Ok /\ Holds(NearWithin(Ev.ret, DerivReply(S, RSeq(Ev.u), Ev.dims, Ev.a), RMul(100, Tol), DerivNoise(S, Ev.a)))
             ELSE Threw
TBasis == /\ Is("basis") /\ Quiet /\ Ok
          /\ Holds(RNearSeq(Ev.ret, Basis(S.knots[Ev.d], S.deg[Ev.d], R(Ev.u)), Tol))
TDBasis == /\ Is("dbasis") /\ Quiet /\ Ok
           /\ Holds(NearWithin(Ev.ret, DBasis(S.knots[Ev.d], S.deg[Ev.d], R(Ev.u), Ev.k), RMul(100, Tol),
                               RMul(RMul("1/100", Tol), Power(R(S.deg[Ev.d]) \oslash ShortestSpan(S.knots[Ev.d]), Ev.k))))
Flat(s, idx) == LET f[d \in 0..Dim(s)] == IF d = 0 THEN 0 ELSE f[d - 1] + ProdTo(s.n, d - 1) * idx[d] IN f[Dim(s)]
THomog == /\ Is("homog") /\ Quiet /\ Ok
          /\ RNearSeq(Ev.ret, S.h[Flat(S, Ev.idx) + 1], Tol)
TInfo == /\ Is("info") /\ Quiet /\ Ok
         /\ RNear(Ev.expansion, Expansion(S), Tol)
         /\ RNearSeq(Ev.ranges, [d \in 1..Dim(S) |-> LastKnot(S.knots[d]) \ominus FirstKnot(S.knots[d])], Tol)
TEqual == Is("equal") /\ Quiet /\ Ok /\ Holds(EqualReplyOk(S, store[Ev.g], Ev.tol, Ev.ret))
(* nothing is promised for splines over different parameter boxes *)
TGeoEqual == Is("geoequal") /\ Quiet /\ IF Holds(SameBox(S, store[Ev.g])) THEN Ok /\ Holds(GeoEqualReplyOk(S, store[Ev.g], Ev.tol, Ev.ret)) ELSE TRUE

TTranslate == Is("translate") /\ Ok /\ Only({Ev.g}) /\ Ev.g \in Changed /\ \E x \in {After(Ev.g)} : Translate(Ev.g, Ev.t, Ev.c, x)
TSweep == Is("sweep") /\ Ok /\ Holds(~ MustRefuse(store[Ev.t], store[Ev.c], Ev.n)) /\ Only({Ev.g}) /\ Ev.g \in Changed /\ \E x \in {After(Ev.g)} : Sweep(Ev.g, Ev.t, Ev.c, Ev.n, Ev.scal, x)
TSweepRefused == Is("sweep") /\ Threw /\ Quiet /\ Holds(SweepRefused(Ev.t, Ev.c, Ev.n))
TSquare == Is("square") /\ Ok /\ Only({Ev.g}) /\ Ev.g \in Changed /\ \E x \in {After(Ev.g)} : Square(Ev.g, Ev.p, Ev.k, x)
TRandom == /\ Is("random") /\ Ok /\ Only({Ev.g}) /\ Ev.g \in Changed
           /\ \E x \in {After(Ev.g)} : Random(Ev.g, Ev.kind, Ev.dim, R(Ev.a), R(Ev.b), Ev.maxdeg, Ev.pdim, x)
TElements == Is("elements") /\ Quiet /\ Ok /\ Holds(SameElements(Ev.ret, ElementsOf(S)))
TProject == /\ Is("project") /\ Quiet /\ Ok
            /\ Holds(InDomainExactly(S, RSeq(Ev.ret)))
            /\ IF Holds(Projectable(S, RSeq(Ev.p), R(Ev.tol), RSeq(Ev.foot), Ev.scat))
               THEN Holds(FootFound(S, R(Ev.tol), RSeq(Ev.foot), RSeq(Ev.ret)))
               ELSE PrintT(<<"SKIPPED", Trace[sc].id, l>>)

Step == \/ TTranslate \/ TSweep \/ TSweepRefused \/ TSquare \/ TRandom \/ TElements \/ TProject \/ TNew \/ TCopy \/ TNewPoints \/ TTouch \/ TDrop \/ TInsert \/ TRefine \/ TRemove \/ TElevate \/ TReduce
        \/ TSubdivide \/ TEval \/ TDeriv \/ TBasis \/ TDBasis \/ THomog \/ TInfo \/ TEqual \/ TGeoEqual
(* the history invariants are part of the step; a step that breaks one is not accepted *)
Kept == \E st \in {store'}, rf \in {ref'}, sl \in {slack'} :
          Holds(\A h \in DOMAIN st : \/ h \in Live /\ h \notin Changed      \* looked at before
                                   \/ /\ Consistent(st[h])
                                      /\ KeepsGeometry(st[h], rf[h], sl[h], CoarseSamples(st[h])))

(* Operations applied outside their precondition: nothing is promised from there on (the rest of the scenario is not
   judged). Generated scenarios avoid this; it can only happen after an operation whose outcome depends on rounding. *)
Unmet == \/ Is("insert") /\ ~ MayInsert(S, Ev.d, R(Ev.u), Ev.m)
         \/ Is("refine") /\ ~ MayInsertAll(S, Ev.d, Ev.us)
         \/ Is("elevate") /\ ~ MayElevate(S, Ev.d)
         \/ Is("reduce") /\ ~ MayReduce(S, Ev.d)
         \/ Is("subdivide") /\ ~ MaySubdivide(S, Ev.d, R(Ev.u))
         \/ Is("sweep") /\ ~ MaySweep(store[Ev.t], store[Ev.c], Ev.n) /\ ~ MustRefuse(store[Ev.t], store[Ev.c], Ev.n)
Skip == /\ Holds(Unmet)
        /\ PrintT(<<"SKIPPED", Trace[sc].id, l>>)
        /\ l' = Len(Trace[sc].ev) + 1
        /\ UNCHANGED <<vars, sc>>
        /\ TLCSet(sc, l')

TraceInit == /\ InitStore
             /\ sc \in 1..Len(Trace)
             /\ l = 1
             /\ TLCSet(sc, 1)
Explain == /\ Holds(GettersAgree)
           /\ Step
           /\ IF vars' = vars THEN TRUE ELSE Kept
           /\ l' = l + 1
           /\ UNCHANGED sc
           /\ TLCSet(sc, l')
TraceNext == /\ l <= Len(Trace[sc].ev)
             /\ ~ Is("Died")                  \* the process crashed or did not come back
             /\ (Skip \/ Explain)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
(* accepted: every scenario was explained to its end; the others are listed with the first event not explained *)
TraceAccepted == LET bad == {i \in 1..Len(Trace) : TLCGet(i) <= Len(Trace[i].ev)}
                 IN /\ PrintT(<<"SCENARIOS", Len(Trace)>>)
                    /\ \A i \in bad : PrintT(<<"REJECTED", Trace[i].id, TLCGet(i)>>)
                    /\ bad = {}
=============================================================================
