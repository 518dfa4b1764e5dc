---------------------------- MODULE MCSplineSys ----------------------------
(* The design model: SplineSys with exact results, checked exhaustively on small splines up to MaxSteps operations.
   It shows that the operations as specified do keep the geometry, undo each other, and never leave the consistent
   states, in exact arithmetic (Tol = 0). *)
EXTENDS SplineSys

CONSTANTS MaxSteps, MaxHandlesMC, MCOps, Families
VARIABLES steps, seen       \* seen[h]: all representations which h had so far
mvars == <<vars, steps, seen>>

Names == <<"p", "q", "r", "s", "t">>
FreshName == Names[CHOOSE k \in 1..Len(Names) : Names[k] \notin Live /\ \A j \in 1..(k - 1) : Names[j] \in Live]
SecondFresh == LET S == {k \in 1..Len(Names) : Names[k] \notin Live /\ Names[k] # FreshName} IN Names[MinOf(S)]

Curve(kind, p, U, pts, w) == [kind |-> kind, deg |-> <<p>>, knots |-> <<U>>, cps |-> pts, w |-> w]
ArgsOf(f) ==
  CASE f = "line"    -> Curve("b", 1, <<0, 0, 1, 1>>, <<<<0, 1>>, <<2, -1>>>>, <<>>)
    [] f = "quad"    -> Curve("b", 2, <<0, 0, 0, 1, 2, 2, 2>>, <<<<0>>, <<3>>, <<-1>>, <<2>>>>, <<>>)
    [] f = "arc"     -> Curve("n", 2, <<0, 0, 0, 2, 2, 2>>, <<<<1, 0>>, <<1, 1>>, <<0, 1>>>>, <<1, "1/2", 1>>)
    [] f = "kink"    -> Curve("n", 2, <<0, 0, 0, 1, 1, 2, 2, 2>>, <<<<1>>, <<1>>, <<0>>, <<4>>, <<2>>>>, <<1, 2, 1, 2, 1>>)
    [] f = "shifted" -> Curve("b", 3, <<-3, -3, -3, -3, 1, 5, 5, 5, 5>>, <<<<0>>, <<1>>, <<5>>, <<-2>>, <<2>>>>, <<>>)
    [] f = "surface" -> [kind |-> "n", deg |-> <<1, 2>>, knots |-> <<<<0, 0, 1, 2, 2>>, <<0, 0, 0, 2, 2, 2>>>>,
                         cps |-> <<<<0>>, <<1>>, <<2>>, <<5>>, <<1>>, <<3>>, <<0>>, <<-2>>, <<4>>>>,
                         w |-> <<1, 2, 1, 1, 1, 2, 1, "1/2", 1>>]
    [] f = "solid"   -> [kind |-> "b", deg |-> <<1, 1, 1>>, knots |-> <<<<0, 0, 2, 2>>, <<0, 0, 1, 1>>, <<0, 0, 1, 2, 2>>>>,
                         cps |-> <<<<0>>, <<1>>, <<2>>, <<5>>, <<1>>, <<3>>, <<0>>, <<-2>>, <<4>>, <<6>>, <<1>>, <<7>>>>, w |-> <<>>]
    (* a straight line drawn as a cubic: its degree is reducible, its knots are removable *)
    [] f = "straight" -> Curve("b", 2, <<0, 0, 0, 1, 2, 2, 2>>, <<<<0>>, <<"1/2">>, <<"3/2">>, <<2>>>>, <<>>)

MInit == InitStore /\ steps = 0 /\ seen = <<>>
Params(s, d) == LET dk == Distinct(s.knots[d])          \* where operations happen: interior knots and middles of spans
                IN {dk[i] : i \in 2..(Len(dk) - 1)} \cup {(dk[i] \oplus dk[i + 1]) \oslash 2 : i \in 1..(Len(dk) - 1)}
Saw(h) == \E x \in {store'[h]} : seen' = Put(seen, h, (IF h \in DOMAIN seen THEN seen[h] ELSE {}) \cup {x})
On(op) == op \in MCOps /\ steps < MaxSteps
MCreate == /\ Live = {}
           /\ \E f \in Families : \E s \in {FromArgs(ArgsOf(f))} : Create("p", ArgsOf(f), s) /\ seen' = Put(seen, "p", {s})
MInsert == /\ On("insert")
           /\ \E h \in Live : \E d \in 1..Dim(store[h]) : \E u \in Params(store[h], d) : \E m \in 1..2 :
                /\ Holds(MayInsert(store[h], d, u, m))
                /\ \E s \in {Insert(store[h], d, u, m)} : InsertKnot(h, d, u, m, s)
                /\ Saw(h)
MRemove == /\ On("remove")
           /\ \E h \in Live : \E d \in 1..Dim(store[h]) : \E u \in Params(store[h], d) :
                /\ Holds(MayRemove(store[h], d, u))
                /\ \E r \in {Removed(store[h], d, u)} :
                     IF REq(r.devSq, 0) THEN RemoveKnot(h, d, u, R(0), 1, 1, r.spline)
                     ELSE RemoveKnot(h, d, u, "1/1000000", 1, 0, store[h])
                /\ Saw(h)
MElevate == /\ On("elevate")
            /\ \E h \in Live : \E d \in 1..Dim(store[h]) :
                 /\ Holds(MayElevate(store[h], d))
                 /\ store[h].deg[d] < 4
                 /\ \E s \in {Elevate(store[h], d)} : ElevateDegree(h, d, s)
                 /\ Saw(h)
(* reduction: to a representation of lower degree which the spline had before, or else no reduction *)
MReduce == /\ On("reduce")
           /\ \E h \in Live : \E d \in 1..Dim(store[h]) :
                /\ Holds(MayReduce(store[h], d))
                /\ \/ \E s \in seen[h] : /\ s.deg[d] = store[h].deg[d] - 1
                                         /\ Holds(ReduceOk(store[h], d, R(0), TRUE, s))
                                         /\ Set(h, s)
                                         /\ UNCHANGED <<ref, slack>>
                   \/ /\ ~ Holds(Reducible(store[h], d, "1/1000000"))
                      /\ ReduceDegree(h, d, "1/1000000", FALSE, store[h])
                /\ Saw(h)
MSubdivide == /\ On("subdivide")
              /\ Cardinality(Live) < MaxHandlesMC
              /\ \E h \in Live : \E d \in 1..Dim(store[h]) : \E u \in Params(store[h], d) :
                   \E r \in {Subdivide(store[h], d, u)} :
                     /\ SubdivideAt(h, d, u, FreshName, SecondFresh, r.orig, r.left, r.right)
                     /\ seen' = (FreshName :> {r.left}) @@ (SecondFresh :> {r.right}) @@ Put(seen, h, seen[h] \cup {r.orig})
MCopy == /\ On("copy")
         /\ Cardinality(Live) < MaxHandlesMC
         /\ \E h \in Live : Copy(h, FreshName, store[h]) /\ seen' = Put(seen, FreshName, seen[h])
MDrop == /\ On("drop")
         /\ Cardinality(Live) > 1
         /\ \E h \in Live : Drop(h) /\ seen' = [x \in Live \ {h} |-> seen[x]]
MNext == /\ MCreate \/ MInsert \/ MRemove \/ MElevate \/ MReduce \/ MSubdivide \/ MCopy \/ MDrop
         /\ steps' = steps + 1
MSpec == MInit /\ [][MNext]_mvars
----------------------------------------------------------------------------
(* laws of the operators themselves, in every reachable state *)
MidPoints(s) == TensorPoints([d \in 1..Dim(s) |-> SpanSamples(Distinct(s.knots[d]), 0)], Dim(s))
PartitionOfUnity == \A h \in Live : \A d \in 1..Dim(store[h]) :
  LET s == store[h]
      us == SpanSamples(Distinct(s.knots[d]), 1) \o Distinct(s.knots[d])
  IN \A k \in DOMAIN us : LET B == Basis(s.knots[d], s.deg[d], us[k])
                              D == DBasis(s.knots[d], s.deg[d], us[k], 1)
                          IN /\ REq(RSum(B), 1)
                             /\ \A i \in DOMAIN B : R(0) \preceq B[i]
                             /\ REq(RSum(D), 0)
InsertThenRemove == \A h \in Live : \A d \in 1..Dim(store[h]) : \A u \in Params(store[h], d) :
  MayInsert(store[h], d, u, 1) =>
    LET r == Removed(Insert(store[h], d, u, 1), d, u)
    IN REq(r.devSq, 0) /\ SplineEq(r.spline, store[h])
ElevatedIsReducible == \A h \in Live : \A d \in 1..Dim(store[h]) :
  (MayElevate(store[h], d) /\ store[h].deg[d] < 4) =>
    LET e == Elevate(store[h], d)
    IN /\ SameGeometryAlong(store[h], e, d, R(0))
       /\ Reducible(e, d, "1/1000000000000")
       /\ ReduceOk(e, d, R(0), TRUE, store[h])
(* Taylor's formula is exact on a polynomial piece; and w*S = A differentiated once *)
TaylorExact == \A h \in Live : Dim(store[h]) = 1 =>
  LET s  == store[h]
      p  == s.deg[1]
      dk == Distinct(s.knots[1])
  IN \A i \in 1..(Len(dk) - 1) :
       LET a == dk[i]
           b == (dk[i] \oplus RMul(2, dk[i + 1])) \oslash 3
           H == TLCEval([k \in 0..p |-> EvalHD(s, <<a>>, <<k>>)])
           c == [k \in 1..(p + 1) |-> Power(b \ominus a, k - 1) \oslash Fact(k - 1)]
           D == Deriv(s, <<a>>, <<1>>)
           S == Eval(s, <<a>>)
           n == PDim(s)
       IN /\ VNear(VComb(c, [k \in 1..(p + 1) |-> H[k - 1]]), EvalH(s, <<b>>), R(0))
          /\ \A x \in 1..n : REq((H[0][n + 1] \otimes D[x]) \oplus (H[1][n + 1] \otimes S[x]), H[1][x])
EndPointsInterpolated == \A h \in Live :
  LET s == store[h]
      lo == [d \in 1..Dim(s) |-> FirstKnot(s.knots[d])]
      hi == [d \in 1..Dim(s) |-> LastKnot(s.knots[d])]
  IN VNear(Eval(s, lo), Project(s.h[1]), R(0)) /\ VNear(Eval(s, hi), Project(s.h[Len(s.h)]), R(0))
PiecesCover == \A h \in Live : \A d \in 1..Dim(store[h]) : \A u \in Params(store[h], d) :
  LET r == Subdivide(store[h], d, u)
  IN /\ Consistent(r.left) /\ Consistent(r.right)
     /\ REq(LastKnot(r.left.knots[d]), u) /\ REq(FirstKnot(r.right.knots[d]), u)
     /\ SameGeometryAt(r.left, store[h], MidPoints(r.left), R(0))
     /\ SameGeometryAt(r.right, store[h], MidPoints(r.right), R(0))
=============================================================================
