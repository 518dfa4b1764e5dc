----------------------------- MODULE SplineSys -----------------------------
(* The state machine of the spline library: a store of spline objects (handles), changed by the public operations.
   Every action names the state the object has afterwards (post). In the design model (MCSplineSys) post is the exact
   result; against the code (SplineTrace) it is the recorded state, which has to be the exact result up to rounding.
   ref and slack are history variables: ref[h] is the function that handle h must still represent, slack[h] the
   deviation which tolerance-driven operations were allowed to introduce. *)
EXTENDS Splines

CONSTANT Tol                  \* rounding tolerance, relative to max(1, |x|, |y|)
VARIABLES store, ref, slack
vars == <<store, ref, slack>>

Live == DOMAIN store
InitStore == store = <<>> /\ ref = <<>> /\ slack = <<>>
Put(f, h, x) == (h :> x) @@ f
Set(h, s) == store' = [store EXCEPT ![h] = s]
(* the same as P; makes TLC evaluate P as a state predicate, where it computes every argument only once *)
Holds(P) == P = TRUE

(* ---- construction ---- *)
(* what constructors accept: knots [list per direction], cps [list of coordinate lists], w [list] *)
Product(n) == ProdTo(n, Len(n))
ArgsValid(a) ==
  /\ \A d \in DOMAIN a.deg : Clamped(a.knots[d], a.deg[d])
  /\ Len(a.cps) = Product([d \in DOMAIN a.deg |-> Len(a.knots[d]) - a.deg[d] - 1])
  /\ \A k \in DOMAIN a.cps : Len(a.cps[k]) = Len(a.cps[1])
  /\ a.kind = "n" => Len(a.w) = Len(a.cps)
FromArgs(a) ==
  [kind |-> a.kind, deg |-> a.deg, knots |-> TLCEval([d \in DOMAIN a.knots |-> RSeq(a.knots[d])]),
   n |-> [d \in DOMAIN a.deg |-> Len(a.knots[d]) - a.deg[d] - 1],
   h |-> TLCEval([k \in DOMAIN a.cps |->
           LET w == IF a.kind = "n" THEN R(a.w[k]) ELSE R(1)
           IN Append([i \in DOMAIN a.cps[k] |-> w \otimes a.cps[k][i]], w)])]
Create(h, a, post) ==
  /\ Holds(ArgsValid(a))
  /\ Holds(Close(post, FromArgs(a), R(0)))
  /\ store' = Put(store, h, post)
  /\ ref' = Put(ref, h, post)
  /\ slack' = Put(slack, h, R(0))

Copy(h, g, post) ==
  /\ h \in Live
  /\ Holds(SplineEq(post, store[h]))
  /\ store' = Put(store, g, post)
  /\ ref' = Put(ref, g, ref[h])
  /\ slack' = Put(slack, g, slack[h])

(* a NURBS with the parameter space and weights of h and other control points *)
WithPoints(s, pts) == [s EXCEPT !.h = TLCEval([k \in DOMAIN s.h |->
                         Append([i \in DOMAIN pts[k] |-> Weight(s, k) \otimes pts[k][i]], Weight(s, k))])]
CopyWithPoints(h, g, pts, post) ==
  /\ h \in Live
  /\ Len(pts) = Len(store[h].h)
  /\ Holds(Close(post, WithPoints(store[h], pts), Tol))
  /\ store' = Put(store, g, post)
  /\ ref' = Put(ref, g, post)
  /\ slack' = Put(slack, g, R(0))

Drop(h) == /\ h \in Live
           /\ store' = [x \in Live \ {h} |-> store[x]]
           /\ ref' = [x \in Live \ {h} |-> ref[x]]
           /\ slack' = [x \in Live \ {h} |-> slack[x]]

(* ---- knot insertion ---- *)
InsertKnot(h, d, u, m, post) ==
  /\ Holds(MayInsert(store[h], d, u, m))
  /\ Holds(Close(post, Insert(store[h], d, u, m), Tol))
  /\ Set(h, post)
  /\ UNCHANGED <<ref, slack>>

RECURSIVE InsertAll(_, _, _)
InsertAll(s, d, us) == IF us = <<>> THEN s ELSE InsertAll(Insert(s, d, R(Head(us)), 1), d, Tail(us))
RECURSIVE MayInsertAll(_, _, _)
MayInsertAll(s, d, us) == IF us = <<>> THEN TRUE
                          ELSE /\ MayInsert(s, d, R(Head(us)), 1)
                               /\ MayInsertAll(Insert(s, d, R(Head(us)), 1), d, Tail(us))
RefineKnots(h, d, us, post) ==
  /\ Holds(MayInsertAll(store[h], d, us))
  /\ Holds(Close(post, InsertAll(store[h], d, us), Tol))
  /\ Set(h, post)
  /\ UNCHANGED <<ref, slack>>

(* ---- knot removal: c copies of u removed ---- *)
MaxDist(s) == RSqrt(LET D == {DistSq(Project(s.h[k]), [i \in 1..PDim(s) |-> R(0)]) : k \in DOMAIN s.h}
                    IN CHOOSE x \in D : \A y \in D : y \preceq x)
MinWeight(s) == LET W == {Weight(s, k) : k \in DOMAIN s.h} IN CHOOSE x \in W : \A y \in W : x \preceq y
(* a bound in homogeneous coordinates that guarantees tol in Cartesian ones *)
HomogTol(s, tol) == IF s.kind = "b" THEN R(tol) ELSE (R(tol) \otimes MinWeight(s)) \oslash (R(1) \oplus MaxDist(s))
HomogScale(s, tol) == IF s.kind = "b" THEN R(tol) ELSE (R(tol) \otimes (R(1) \oplus MaxDist(s))) \oslash MinWeight(s)
Sq(x) == x \otimes x
RoundSlack(s) == Tol \otimes (R(1) \oplus MaxDist(s))
MaxRemovable(s, d, u) == IF /\ FirstKnot(s.knots[d]) \prec u
                            /\ u \prec LastKnot(s.knots[d])
                         THEN Mult(s.knots[d], u) ELSE 0
(* how far the removal of c knots may move a point; tolerances are in Cartesian distance, NURBS test them in homogeneous
   coordinates, where the weights may change within the tolerance as well *)
MoveBound(s, c, tol) == IF s.kind = "b" THEN RMul(c, tol) ELSE RMul("5/4", RMul(c, tol))
TolFits(s, tol) == s.kind = "b" \/ RMul(10, tol) \preceq (R(1) \oplus MaxDist(s))
RemoveOk(s, d, u, tol, m, c, post) ==
     /\ c <= m
     /\ c <= MaxRemovable(s, d, u)
     /\ c = 0 => SplineEq(post, s)
     /\ c > 0 => /\ SameExceptDirection(s, post, d)
                 /\ post.deg = s.deg
                 /\ CloseKnots(post.knots[d], RemoveKnots(s.knots[d], u, c), R(0))
                 /\ Consistent(post)
                 /\ TolFits(s, tol) =>
                      MovedAtMost(s, post, DomainSamples(s, post), Sq(RAdd(MoveBound(s, c, tol), RoundSlack(s))))
     (* it stops early only when the next removal would move the spline noticeably *)
     /\ (c < m /\ c < MaxRemovable(s, d, u)) =>
          LET room == (HomogTol(post, tol) \oslash 2) \ominus RoundSlack(post)
          IN ~ (R(0) \prec room /\ Removed(post, d, u).devSq \prec Sq(room))
RemoveKnot(h, d, u, tol, m, c, post) ==
     /\ Holds(RemoveOk(store[h], d, u, tol, m, c, post))
     /\ Set(h, post)
     /\ slack' = [slack EXCEPT ![h] = slack[h] \oplus
                   (IF TolFits(store[h], tol) THEN MoveBound(store[h], c, tol) ELSE RMul(1000000, R(1) \oplus MaxDist(store[h])))]
     /\ UNCHANGED ref

(* ---- degree elevation ---- *)
ElevateOk(s, d, post) ==
     /\ MayElevate(s, d)
     /\ post.deg = [s.deg EXCEPT ![d] = s.deg[d] + 1]
     /\ IsElevatedKnots(s, d, post.knots[d])
     /\ Close(post, Rebase(s, d, s.deg[d] + 1, post.knots[d]), Tol)
ElevateDegree(h, d, post) ==
     /\ Holds(ElevateOk(store[h], d, post))
     /\ Set(h, post)
     /\ UNCHANGED <<ref, slack>>

(* ---- degree reduction ---- *)
(* p-th forward difference of the Bezier points of a span = (length of the span)^p * p-th derivative / p! *)
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN R(1) ELSE x \otimes Power(x, k - 1)
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
TopDifference(s, d, a, b) ==       \* on the span (a, b), for all fibres
  LET U == s.knots[d]
      p == s.deg[d]
      t == (a \oplus b) \oslash 2
      B == DBasis(U, p, t, p)
      i0 == Span(U, t) - p
      f0 == Power(b \ominus a, p) \oslash Fact(p)
  IN [f \in 1..Fibres(s, d) |-> VComb([k \in 1..(p + 1) |-> f0 \otimes B[k]],
                                       [k \in 1..(p + 1) |-> PointOn(s, d, f, i0 + k - 1)])]
Reducible(s, d, tol) ==
  LET dk == Distinct(s.knots[d])
  IN \A i \in 1..(Len(dk) - 1) :
       LET T == TopDifference(s, d, dk[i], dk[i + 1])
       IN \A f \in DOMAIN T : DistSq(T[f], [k \in DOMAIN T[f] |-> R(0)]) \prec Sq(R(tol) \oslash 2)
IsReducedKnots(s, d, V) ==
  LET U == s.knots[d]
      q == s.deg[d] - 1
  IN /\ ProperKnots(V, q)
     /\ REq(FirstKnot(V), FirstKnot(U))
     /\ REq(LastKnot(V), LastKnot(U))
     /\ \A i \in DOMAIN V : Mult(U, V[i]) > 0
HomogMovedAtMost(s, t, d, tolSq) ==
  LET us == SamplesAlong(s, t, d)
  IN \A k \in DOMAIN us : LET a == Contract(s, d, us[k])
                              b == Contract(t, d, us[k])
                          IN \A f \in DOMAIN a : DistSq(a[f], b[f]) \preceq tolSq
MayReduce(s, d) == s.deg[d] >= 2 /\ MayElevate(s, d)
ReduceOk(s, d, tol, ok, post) ==
     /\ MayReduce(s, d)
     /\ SameExceptDirection(s, post, d)
     /\ IF ok THEN /\ post.deg[d] = s.deg[d] - 1
                   /\ IsReducedKnots(s, d, post.knots[d])
                   /\ Consistent(post)
                   /\ HomogMovedAtMost(s, post, d, Sq(RAdd(tol, RoundSlack(s))))
        ELSE /\ ~ Reducible(s, d, tol)
             /\ post.deg = s.deg
             /\ Consistent(post)
             /\ SameGeometryAlong(s, post, d, Tol)
ReduceDegree(h, d, tol, ok, post) ==
     /\ Holds(ReduceOk(store[h], d, tol, ok, post))
     /\ Set(h, post)
     /\ slack' = [slack EXCEPT ![h] = IF ok THEN slack[h] \oplus HomogScale(store[h], tol) ELSE slack[h]]
     /\ UNCHANGED ref

(* ---- subdivision: h is saturated, a and b are new objects ---- *)
MaySubdivide(s, d, u) == FirstKnot(s.knots[d]) \prec u /\ u \prec LastKnot(s.knots[d])
SubdivideAt(h, d, u, a, b, post, posta, postb) ==
  /\ MaySubdivide(store[h], d, u)
  /\ Holds(LET r == Subdivide(store[h], d, u)
           IN /\ Close(post, r.orig, Tol)
              /\ Close(posta, r.left, Tol)
              /\ Close(postb, r.right, Tol))
  /\ store' = (a :> posta) @@ (b :> postb) @@ [store EXCEPT ![h] = post]
  /\ ref' = (a :> ref[h]) @@ (b :> ref[h]) @@ ref
  /\ slack' = (a :> slack[h]) @@ (b :> slack[h]) @@ slack

(* ---- queries: the value returned, the store is not changed ---- *)
Select(v, dims) == [i \in DOMAIN dims |-> v[dims[i] + 1]]
(* asked for the dimension after the last coordinate, a NURBS answers with its weight function *)
EvalReply(s, u, dims)     == LET H == EvalH(s, u) IN Select(Append(Project(H), H[Len(H)]), dims)
DerivReply(s, u, dims, a) == Select(Deriv(s, u, a), dims)
Differences(s, t) ==       \* all pairs of numbers that AreEqual compares
  UNION {{<<s.knots[d][i], t.knots[d][i]>> : i \in DOMAIN s.knots[d]} : d \in 1..Dim(s)}
  \cup UNION {{<<Project(s.h[k])[i], Project(t.h[k])[i]>> : i \in 1..PDim(s)} : k \in DOMAIN s.h}
  \cup {<<Weight(s, k), Weight(t, k)>> : k \in DOMAIN s.h}
SameShape(s, t) == /\ s.deg = t.deg
                   /\ s.n = t.n
                   /\ PDim(s) = PDim(t)
                   /\ \A d \in 1..Dim(s) : Len(s.knots[d]) = Len(t.knots[d])
EqualReplyOk(s, t, tol, ret) ==
  IF ~ SameShape(s, t) THEN ret = FALSE
  ELSE LET far(f)  == \E x \in Differences(s, t) : RMul(tol, f) \prec RAbs(x[1] \ominus x[2])
       IN /\ far("1000001/1000000") => ret = FALSE
          /\ ~ far("999999/1000000") => ret = TRUE
(* AreGeometricallyEqual: the same map from the same parameter box, whatever the representation *)
SameBox(s, t) == /\ Dim(s) = Dim(t)
                 /\ \A d \in 1..Dim(s) : /\ REq(FirstKnot(s.knots[d]), FirstKnot(t.knots[d]))
                                         /\ REq(LastKnot(s.knots[d]), LastKnot(t.knots[d]))
GeoEqualReplyOk(s, t, tol, ret) ==
  IF SplineEq(s, t) THEN ret = TRUE ELSE
  LET pts  == DomainSamples(s, t)
      dist == TLCEval([k \in DOMAIN pts |-> DistSq(Eval(s, pts[k]), Eval(t, pts[k]))])
      far  == {k \in DOMAIN pts : Sq(RMul(2, tol) \oplus RoundSlack(s)) \prec dist[k]}
      near == (R(tol) \oslash 2) \ominus RoundSlack(s)
  IN /\ (R(0) \prec near /\ \A k \in DOMAIN pts : dist[k] \preceq Sq(near)) => ret = TRUE
     /\ 2 * Cardinality(far) > Len(pts) => ret = FALSE
Expansion(s) == LET C == {R(0)} \cup UNION {{Project(s.h[k])[i] : i \in 1..PDim(s)} : k \in DOMAIN s.h}
                IN CHOOSE x \in C : \A y \in C : y \preceq x

----------------------------------------------------------------------------
(* invariants over every history *)
AllConsistent == \A h \in Live : Consistent(store[h])
(* every handle still is the function it was created as (on its own part of the domain) *)
CoarseSamples(s) == TensorPoints([d \in 1..Dim(s) |-> SpanSamples(Distinct(s.knots[d]), 1)], Dim(s))
FullSamples(s, t) == TensorPoints([d \in 1..Dim(s) |-> SpanSamples(Distinct(s.knots[d]), MaxDeg(s, t, d))], Dim(s))
KeepsGeometry(s, r, sl, pts) ==
  LET bound == Sq(sl \oplus RMul(10, RoundSlack(r)))
  IN \A k \in DOMAIN pts : DistSq(Eval(s, pts[k]), Eval(r, pts[k])) \preceq bound
GeometryKept == \A h \in Live : KeepsGeometry(store[h], ref[h], slack[h], CoarseSamples(store[h]))
GeometryKeptEverywhere == \A h \in Live : KeepsGeometry(store[h], ref[h], slack[h], FullSamples(store[h], ref[h]))
=============================================================================
