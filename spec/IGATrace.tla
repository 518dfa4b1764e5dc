------------------------------ MODULE IGATrace ------------------------------
(* Validation of recorded executions of the isogeometric analysis part against IGASys *)
EXTENDS IGASys, Json, IOUtils
CONSTANT Tol
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
tvars == <<ivars, sc, l>>
Ev == Trace[sc].ev[l]
Holds(P) == P = TRUE
Is(op) == Ev.op = op
Ok == Ev.res = "ok"
ToNurbs(r) ==
  [kind |-> r.kind, deg |-> r.deg, knots |-> TLCEval([d \in DOMAIN r.knots |-> RSeq(r.knots[d])]), n |-> r.n,
   h |-> TLCEval([k \in DOMAIN r.cps |-> Append([i \in DOMAIN r.cps[k] |-> RMul(r.w[k], r.cps[k][i])], R(r.w[k]))])]
ChangedG == {Ev.chg[i].h : i \in DOMAIN Ev.chg}
ChangedS == {Ev.chs[i].y : i \in DOMAIN Ev.chs}
NewG(h) == ToNurbs((CHOOSE c \in Range0(Ev.chg) : c.h = h).s)
RawS(y) == (CHOOSE c \in Range0(Ev.chs) : c.y = y).s
NewS(y) == LET r == RawS(y) IN [g |-> r.g, a |-> TLCEval([i \in DOMAIN r.a |-> RSeq(r.a[i])]), b |-> RSeq(r.b)]
Quiet == ChangedG = {} /\ ChangedS = {} /\ UNCHANGED ivars
S == geos[Ev.h]
VNums(q) == \A i \in DOMAIN q : IsNum(q[i])
MNums(m) == \A i \in DOMAIN m : VNums(m[i])
SameKnots(a, b) == Len(a) = Len(b) /\ \A d \in DOMAIN a : Len(a[d]) = Len(b[d]) /\ \A i \in DOMAIN a[d] : REq(a[d][i], b[d][i])
SameNurbs(a, b) == /\ a.deg = b.deg /\ a.n = b.n /\ SameKnots(a.knots, b.knots) /\ Len(a.h) = Len(b.h)
                   /\ \A k \in DOMAIN b.h : VNear(a.h[k], b.h[k], "1/1000000000000")
(* the system Ev.y becomes what is expected, up to rounding, and nothing else changes *)
Becomes(y, x) == /\ ChangedG = {} /\ ChangedS \subseteq {y}
                 /\ \E new \in {IF y \in ChangedS THEN NewS(y) ELSE systems[y]} :
                      /\ Holds(MNums(new.a) /\ VNums(new.b) /\ MClose(new.a, x.a, R(Tol)) /\ VClose(new.b, x.b, R(Tol)))
                      /\ new.g = x.g
                      /\ PutS(y, new)
INew == Is("new") /\ Ok /\ ChangedG = {Ev.h} /\ ChangedS = {} /\ \E x \in {NewG(Ev.h)} : Holds(Consistent([x EXCEPT !.kind = "n"])) /\ NewGeometry(Ev.h, x)
IRefine == /\ Is("refine") /\ Ok /\ ChangedG = {Ev.h} /\ ChangedS = {}
           /\ \E x \in {NewG(Ev.h)} :
                /\ Holds(SameKnots(<<x.knots[Ev.d]>>, <<InsertKnots(S.knots[Ev.d], R(Ev.u), 1)>>) /\ SameGeometryAlong(S, x, Ev.d, R(Tol)))
                /\ NewGeometry(Ev.h, x)
IRule == /\ Is("rule") /\ Ok /\ Quiet /\ Ev.count = Ev.rule /\ Len(Ev.pts) = Ev.rule
         /\ Holds(\A i \in 1..Ev.rule : RNearSeq(Ev.pts[i], Gauss(Ev.rule)[i], "1/100000000000000") /\ REq(Ev.coords[i], Ev.pts[i][1]))
IElements == /\ Is("elements") /\ Ok /\ Quiet
             /\ Ev.per = PerDir(S) /\ Ev.total = NElements(S)
             /\ Holds(\A d \in 1..Dim(S) : \E b \in {Breaks(S, d)} :
                        Len(Ev.lists[d]) = Len(b) - 1 /\ \A i \in 1..(Len(b) - 1) : REq(Ev.lists[d][i][1], b[i]) /\ REq(Ev.lists[d][i][2], b[i + 1]))
IElement == /\ Is("element") /\ Ok /\ Quiet
            /\ Ev.idx = ElementIdx(S, Ev.e) /\ Ev.back = Ev.e /\ Ev.glob = Globals(S, Ev.e)
ILocate == Is("locate") /\ Ok /\ Quiet /\ Ev.e = ElementAt(S, RSeq(Ev.u))
IMap == /\ Is("map") /\ Ok /\ Quiet
        /\ Holds(RNearSeq(Ev.u, RefToParam(S, Ev.e, RSeq(Ev.x)), "1/100000000000000"))
        /\ \E f \in {Functions(S, Ev.e, RSeq(Ev.u))} : \E J \in {Jacobian(S, f)} :
             /\ Holds(\E m \in {Measure(S, Ev.e, J)} : Within(Ev.jac, m, R(Tol) \otimes m))
             /\ Ev.square => Holds(MNums(Ev.inv) /\ MClose(Ev.inv, DuDx(S, J), R(Tol)))
(* the values of one integration point *)
PointIs(r, q, val) == /\ RNear(r.w, q.w, "1/10000000000000")
                      /\ Within(r.jac, q.m, R(Tol) \otimes q.m)
                      /\ val
Points(P(_, _)) == \E Q \in {QPoints(S, Ev.e, Ev.rule)} :
                     /\ Len(Ev.ret) = Len(Q)
                     /\ Holds(\A i \in DOMAIN Q : PointIs(Ev.ret[i], Q[i], P(Ev.ret[i], Q[i])))
IBafs == Is("bafs") /\ Ok /\ Quiet /\ Points(LAMBDA r, q : VClose(r.v, q.f.v, R(Tol)))
IDers == Is("ders") /\ Ok /\ Quiet /\ Points(LAMBDA r, q : MClose(r.d, q.f.d, R(Tol)))
IPhys == Is("phys") /\ Ok /\ Quiet /\ Points(LAMBDA r, q : MClose(r.d, Physical(S, q.f, q.J), R(Tol)))
ISystem == Is("system") /\ Ok /\ ChangedG = {} /\ NewSystem(Ev.y, Ev.g) /\ ChangedS = {Ev.y} /\ Len(RawS(Ev.y).b) = NPoints(geos[Ev.g])
ILeft == Is("left") /\ Ok /\ \E x \in {WithStiffness(Ev.y, S, Ev.rule, R(Ev.kappa))} : Becomes(Ev.y, x)
IRight == Is("right") /\ Ok /\ \E x \in {WithLoad(Ev.y, S, Ev.rule, RSeq(Ev.src))} : Becomes(Ev.y, x)
INeumann == Is("neumann") /\ Ok
            /\ \E x \in {WithFlux(Ev.y, S, Ev.rule, [d \in 1..Dim(S) |-> <<RSeq(Ev.cps[2 * d - 1]), RSeq(Ev.cps[2 * d])>>])} : Becomes(Ev.y, x)
IZero == Is("zerobc") /\ Ok /\ \E x \in {WithFixed(Ev.y, S, <<>>)} : Becomes(Ev.y, x)
IDirichlet == Is("dirichlet") /\ Ok /\ \E x \in {WithFixed(Ev.y, S, RSeq(Ev.vals))} : Becomes(Ev.y, x)
IBdf == Is("bdf") /\ Ok /\ Ev.t # Ev.y /\ \E x \in {TimeStep(Ev.y, S, Ev.rule, R(Ev.dt), RSeq(Ev.prev))} :
          /\ Ev.t \in ChangedS \/ Ev.t \in DOMAIN systems
          /\ Becomes(Ev.t, x)
ISolve == Is("solve") /\ Ok /\ Quiet /\ \E y \in {systems[Ev.y]} : Holds(Solves(y.a, RSeq(Ev.x), y.b, R(Tol)))
IBoundary == /\ Is("boundary") /\ Ok /\ Quiet
             /\ Len(Ev.splines) = 2 * Dim(S)
             /\ \A m \in 1..(2 * Dim(S)) :
                  \E d \in {((m - 1) \div 2) + 1}, side \in {(m - 1) % 2} :
                     /\ Ev.conn[m] = [i \in DOMAIN SideIdx(S, d, side) |-> SideIdx(S, d, side)[i] - 1]
                     /\ Holds(SameNurbs(ToNurbs(Ev.splines[m]), SideSpline(S, d, side)))
ISolution == Is("solution") /\ Ok /\ ChangedG = {Ev.r} /\ ChangedS = {}
             /\ \E x \in {NewG(Ev.r)} : Holds(SameNurbs(x, Lifted(S, RSeq(Ev.x)))) /\ NewGeometry(Ev.r, x)
IProblem == Is("problem") /\ Ok /\ ChangedG = {} /\ ChangedS = {} /\ NewProblem(Ev.p, Ev.h, Ev.rule)
ISteady == Is("steady") /\ Ok /\ Quiet /\ Holds(IsSteady(S, probs[Ev.p].rule, RSeq(Ev.x), R(Tol)))
IUnsteady == Is("unsteady") /\ Ok /\ Quiet
             /\ \E xs \in {TLCEval([k \in DOMAIN Ev.xs |-> RSeq(Ev.xs[k])])} :
                  Holds(IsUnsteady(S, probs[Ev.p].rule, R(Ev.dt), R(Ev.tend), RSeq(Ev.vals), xs, R(Tol)))
IVtk == /\ Is("vtk") /\ Ok /\ Quiet /\ Ev.file.fmt = "vtk"
        /\ CShowsAll(Ev.file.shown, <<AsEntry(S)>>, <<Ev.scat>>)
        /\ Holds(ShowsSolution(Ev.file.data, S, RSeq(Ev.x), Ev.scat))
Step == \/ INew \/ IRefine \/ IRule \/ IElements \/ IElement \/ ILocate \/ IMap \/ IBafs \/ IDers \/ IPhys \/ ISystem \/ ILeft \/ IRight
        \/ INeumann \/ IZero \/ IDirichlet \/ IBdf \/ ISolve \/ IBoundary \/ ISolution \/ IProblem \/ ISteady \/ IUnsteady \/ IVtk

TraceInit == IInit /\ sc \in 1..Len(Trace) /\ l = 1 /\ TLCSet(sc, 1)
TraceNext == /\ l <= Len(Trace[sc].ev)
             /\ ~ Is("Died")
             /\ Step
             /\ l' = l + 1
             /\ UNCHANGED sc
             /\ TLCSet(sc, l')
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == LET bad == {i \in 1..Len(Trace) : TLCGet(i) <= Len(Trace[i].ev)}
                 IN /\ PrintT(<<"SCENARIOS", Len(Trace)>>)
                    /\ \A i \in bad : PrintT(<<"REJECTED", Trace[i].id, TLCGet(i)>>)
                    /\ bad = {}
=============================================================================
