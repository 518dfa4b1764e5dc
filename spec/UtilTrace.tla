----------------------------- MODULE UtilTrace -----------------------------
(* Validation of recorded executions of the helpers against UtilSys *)
EXTENDS UtilSys, Json, IOUtils
CONSTANT Tol
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
tvars == <<points, sc, l>>
Ev == Trace[sc].ev[l]
Holds(P) == P = TRUE
Is(op) == Ev.op = op
Ok == Ev.res = "ok"
Threw == Ev.res = "throw"
Recorded == {Ev.chg[i].h : i \in DOMAIN Ev.chg}
Rec(h) == LET k == CHOOSE i \in DOMAIN Ev.chg : Ev.chg[i].h = h IN RSeq(Ev.chg[k].c)
Same == Recorded = {} /\ UNCHANGED points
Exact(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : REq(a[i], b[i])
(* handle h now holds p (up to rounding), nothing else changed; an equal value need not show as a change *)
Holding(h, p) == \E r \in {IF h \in Recorded THEN Rec(h) ELSE points[h]} :
                   Recorded \subseteq {h} /\ RNearSeq(r, p, Tol) /\ PPut(h, r)
HoldingExactly(h, p) == \E r \in {IF h \in Recorded THEN Rec(h) ELSE points[h]} :
                   Recorded \subseteq {h} /\ Exact(r, p) /\ PPut(h, r)

TSplit == Is("split") /\ Same /\ Ok /\ Ev.ret = Split(Ev.s, Ev.d)
TTrim == Is("trim") /\ Same /\ Ok /\ Ev.ret = Trim(Ev.s)
TAffix == Is("affix") /\ Same /\ Ok /\ Ev.starts = StartsWith(Ev.s, Ev.t) /\ Ev.ends = EndsWith(Ev.s, Ev.t)
Open(s) == s # <<>> /\ s[Len(s)] \in Spaces
TNumber == /\ Is("number") /\ Same
           /\ \E t \in {NumberText(Ev.s)} :
                IF Open(t) THEN TRUE
                ELSE IF IsDecimal(t)
                THEN \E x \in {RAbs(Number(t))} :
                       IF REq(x, R(0)) \/ (R("2.2250738585072014e-308") \preceq x /\ x \preceq R("1.7976931348623157e308"))
                       THEN Ok /\ REq(Ev.ret, RDouble(Number(t)))
                       ELSE R("1.7976931348623159e308") \prec x => Threw        \* too large for any double; too small: nothing is promised
                ELSE Threw
AllNumbers(q) == \A i \in DOMAIN q : IsDecimal(q[i])
TList == /\ Is("list") /\ Same
         /\ \E q \in {ListTexts(Ev.s)} :
              IF AllNumbers(q) THEN Ok /\ Exact(Ev.ret, [i \in DOMAIN q |-> RDouble(Number(q[i]))]) ELSE Threw
TNumbers == /\ Is("numbers") /\ Same
            /\ \E q \in {[i \in DOMAIN Ev.s |-> NumberText(Ev.s[i])]} :
                 IF AllNumbers(q) THEN Ok /\ Exact(Ev.ret, [i \in DOMAIN q |-> RDouble(Number(q[i]))]) ELSE Threw
TIntegers == /\ Is("integers") /\ Same
             /\ \E q \in {[i \in DOMAIN Ev.s |-> NumberText(Ev.s[i])]} :
                  IF AllNumbers(q) THEN Ok /\ Ev.ret = [i \in DOMAIN q |-> Truncated(RDouble(Number(q[i])))] ELSE Threw
TVec1 == /\ Is("vec1") /\ Same /\ Ok
         /\ RNear(Ev.norm, VecNorm(Ev.a), Tol)
         /\ RNearSeq(Ev.scaled, VecScale(Ev.a, Ev.f), Tol)
TVec2 == /\ Is("vec2") /\ Same /\ Ok
         /\ RNearSeq(Ev.diff, VecDiff(Ev.a, Ev.b), Tol)
         /\ RNear(Ev.dist, VecNorm(VecDiff(Ev.a, Ev.b)), Tol)
         /\ RNear(Ev.dot, RDot(Ev.a, Ev.b), Tol)
         /\ Len(Ev.a) = 3 => RNearSeq(Ev.cross, VecCross(Ev.a, Ev.b), Tol)
TIVec == /\ Is("ivec") /\ Same /\ Ok
         /\ RNear(Ev.norm, VecNorm(Ev.a), Tol)
         /\ Ev.diff = [i \in DOMAIN Ev.a |-> Ev.a[i] - Ev.b[i]]
         /\ RNear(Ev.dist, VecNorm(VecDiff(Ev.a, Ev.b)), Tol)
         /\ REq(Ev.dot, RDot(Ev.a, Ev.b))
         /\ Ev.scaled = [i \in DOMAIN Ev.a |-> Ev.f * Ev.a[i]]
TFilter == /\ Is("filter") /\ Same
           /\ IF MayFilter(Ev.a, Ev.pos) THEN Ok /\ Exact(Ev.ret, Filtered(Ev.a, Ev.pos)) ELSE Threw
NearAnswer(a, b, t, ret) == \E x \in {RAbs(R(a) \ominus b)} :
                              /\ (x \prec RMul(t, "999999/1000000")) => ret
                              /\ (RMul(t, "1000001/1000000") \prec x) => ~ ret
TAreEqual == /\ Is("areequal") /\ Same /\ Ok
             /\ NearAnswer(Ev.a, Ev.b, R(Ev.tol), Ev.ret)
             /\ NearAnswer(Ev.a, Ev.b, R("2.2204460492503131e-15"), Ev.dflt)
TNamed == /\ Is("named") /\ Same /\ Ok
          /\ RNear(Ev.sum, RAdd(Ev.a, Ev.b), Tol) /\ RNear(Ev.diff, RSub(Ev.a, Ev.b), Tol) /\ RNear(Ev.prod, RMul(Ev.a, Ev.b), Tol)
          /\ Ev.eq = REq(Ev.a, Ev.b) /\ Ev.lt = RLt(Ev.a, Ev.b) /\ Ev.gt = RLt(Ev.b, Ev.a) /\ Ev.le = RLeq(Ev.a, Ev.b) /\ Ev.ge = RLeq(Ev.b, Ev.a)
TUniform == /\ Is("uniform") /\ Same /\ Ok
            /\ \A i \in DOMAIN Ev.ret : RLeq(Ev.a, Ev.ret[i]) /\ RLeq(Ev.ret[i], Ev.b)
TBinomial == /\ Is("binomial") /\ Same /\ Ok
             /\ \A i \in DOMAIN Ev.ret : /\ RLeq(Ev.a, Ev.ret[i])
                                         /\ RLeq(Ev.ret[i], RAdd(Ev.b, RMul(Ev.d, Tol)))
                                         /\ \E q \in {RDiv(RSub(Ev.ret[i], Ev.a), Ev.d)} : RNear(q, RFloor(RAdd(q, "1/2")), "1/1000000")

TPoint == Is("point") /\ Ok /\ HoldingExactly(Ev.h, RSeq(Ev.c))
TOrigin == Is("origin") /\ Ok /\ HoldingExactly(Ev.h, [i \in 1..Ev.n |-> R(0)])
TSet == Is("set") /\ Ok /\ HoldingExactly(Ev.h, [points[Ev.h] EXCEPT ![Ev.i + 1] = R(Ev.x)])
TCopy == Is("copy") /\ Ok /\ HoldingExactly(Ev.g, points[Ev.h])
TAdd == Is("add") /\ Ok /\ Holding(Ev.g, VecSum(points[Ev.a], points[Ev.b]))
TSub == Is("sub") /\ Ok /\ Holding(Ev.g, VecDiff(points[Ev.a], points[Ev.b]))
TTimes == Is("times") /\ Ok /\ Holding(Ev.g, VecScale(points[Ev.a], R(Ev.f)))
TTransform == Is("transform") /\ Ok /\ Holding(Ev.g, Placed4(Ev.m, Ev.s, points[Ev.a]))
TLength == Is("length") /\ Same /\ Ok /\ Ev.dim = Len(points[Ev.a]) /\ RNear(Ev.ret, VecNorm(points[Ev.a]), Tol)
Step == \/ TSplit \/ TTrim \/ TAffix \/ TNumber \/ TList \/ TNumbers \/ TIntegers \/ TVec1 \/ TVec2 \/ TIVec \/ TFilter \/ TAreEqual \/ TNamed
        \/ TUniform \/ TBinomial \/ TPoint \/ TOrigin \/ TSet \/ TCopy \/ TAdd \/ TSub \/ TTimes \/ TTransform \/ TLength

TraceInit == PInit /\ sc \in 1..Len(Trace) /\ l = 1 /\ TLCSet(sc, 1)
TraceNext == /\ l <= Len(Trace[sc].ev)
             /\ ~ Is("Died")
             /\ Step
             /\ l' = l + 1
             /\ UNCHANGED sc
             /\ TLCSet(sc, l')
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET bad == {i \in 1..Len(Trace) : TLCGet(i) <= Len(Trace[i].ev)}
                 IN /\ PrintT(<<"SCENARIOS", Len(Trace)>>)
                    /\ \A i \in bad : PrintT(<<"REJECTED", Trace[i].id, TLCGet(i)>>)
                    /\ bad = {}
=============================================================================
