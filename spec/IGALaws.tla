------------------------------ MODULE IGALaws ------------------------------
(* Laws of the discretisation as specified in IGASys, on all small shapes: they justify the oracle and state what an analysis
   relies on. Geometry: the box [0, 1] x [0, 2] .. mapped with unequal weights. *)
EXTENDS IGASys
CONSTANTS LDims, LDegs, LEls
VARIABLES shape, go
KnotsOf(p, n, m) == TLCEval([i \in 1..(2 * (p + 1) + (n - 1) * m) |->
                     IF i <= p + 1 THEN R(0) ELSE IF i > p + 1 + (n - 1) * m THEN R(n) ELSE R(1 + ((i - p - 2) \div m))])
Geometry(c) ==
  LET D == Len(c)
      kn == TLCEval([d \in 1..D |-> KnotsOf(c[d].p, c[d].n, c[d].m)])
      nn == TLCEval([d \in 1..D |-> Len(kn[d]) - c[d].p - 1])
      gr(d, i) == LET f[k \in 0..c[d].p] == IF k = 0 THEN R(0) ELSE f[k - 1] \oplus kn[d][i + 1 + k] IN (f[c[d].p] \oslash R(c[d].p)) \otimes R(d)
      w(k) == IF c[1].w THEN RDiv(2 + (k % 3), 3) ELSE R(1)
  IN [kind |-> "n", deg |-> TLCEval([d \in 1..D |-> c[d].p]), knots |-> kn, n |-> nn,
      h |-> TLCEval([k \in 1..NAll(nn) |-> LET x == Digits(nn, k - 1)
                                           IN [d \in 1..D |-> w(k) \otimes gr(d, x[d])] \o <<w(k)>>])]
LInit == IInit /\ go = FALSE /\ shape \in UNION {[1..D -> [p : LDegs, n : LEls, m : 1..2, w : BOOLEAN]] : D \in LDims}
Fits(c) == \A d \in DOMAIN c : c[d].m <= c[d].p /\ c[d].w = c[1].w
LNext == ~ go /\ Fits(shape) /\ go' = TRUE /\ UNCHANGED <<ivars, shape>>
LSpec == LInit /\ [][LNext]_<<ivars, shape, go>>
Tiny == R("1/1000000000000000000000000000000")
Rules == 1..5
GaussLaw == \A n \in Rules : IsGauss(Gauss(n), n, Tiny)
(* every function is on some element, elements cover the domain without overlap, locating is the inverse *)
ElementLaw(s) == /\ UNION {Range0(Globals(s, e)) : e \in 0..(NElements(s) - 1)} = 1..NPoints(s)
                 /\ \A e \in 0..(NElements(s) - 1) :
                      /\ ElementAt(s, LowEnd(s, e)) = e
                      /\ ElementAt(s, RefToParam(s, e, [d \in 1..Dim(s) |-> R(0)])) = e
                      /\ FlatIx(PerDir(s), ElementIdx(s, e)) = e
                      /\ Cardinality(Range0(Globals(s, e))) = NAll(NLocal(s))
(* the functions sum up to one, their derivatives to zero *)
UnityLaw(s) == \A e \in 0..(NElements(s) - 1) : \A x \in {R(-1), R(0), R("1/2")} :
                 \E f \in {Functions(s, e, RefToParam(s, e, [d \in 1..Dim(s) |-> x]))} :
                   /\ RNear(RSum(f.v), R(1), Tiny)
                   /\ \A a \in 1..Dim(s) : RNear(RSum(f.d[a]), R(0), Tiny)
(* stiffness: symmetric, constants in its kernel, not negative on the diagonal; mass: symmetric, entries sum up to the size of the
   geometry; the unit load is the row sums of the mass matrix, unit flux sums up to the size of the boundary (not checked) *)
MatrixLaw(s) == \E A \in {Stiffness(s, 2)}, M \in {Mass(s, 2)}, F \in {UnitLoad(s, 2)} :
                  \A i \in 1..NPoints(s) :
                    /\ RNear(RSum(A[i]), R(0), Tiny) /\ R(0) \preceq A[i][i] /\ RNear(RSum(M[i]), F[i], Tiny)
                    /\ \A j \in 1..NPoints(s) : RNear(A[i][j], A[j][i], Tiny) /\ RNear(M[i][j], M[j][i], Tiny)
(* with equal weights the geometry is the box, whose size the rule gives exactly *)
BoxSize(c) == LET f[d \in 0..Len(c)] == IF d = 0 THEN R(1) ELSE f[d - 1] \otimes R(d * c[d].n) IN f[Len(c)]
SizeLaw(s, c) == ~ c[1].w => RNear(RSum(UnitLoad(s, 2)), BoxSize(c), Tiny)
(* boundary: the sides are consistent splines over the same control points; fixing rows fixes exactly the boundary points *)
SideLaw(s) == Dim(s) > 1 => \A d \in 1..Dim(s), side \in 0..1 :
                /\ Consistent(SideSpline(s, d, side))
                /\ Range0(SideIdx(s, d, side)) \subseteq Range0(BoundaryIdx(s))
                /\ Len(SideIdx(s, d, side)) * s.n[d] = NPoints(s)
FixLaw(s) == \E B \in {FixRows(s, MZero(NPoints(s)))} : \A i \in 1..NPoints(s) : REq(B[i][i], IF i \in Range0(BoundaryIdx(s)) THEN R(1) ELSE R(0))
Laws == go => \E s \in {Geometry(shape)} :
          (Consistent(s) /\ ElementLaw(s) /\ UnityLaw(s) /\ SideLaw(s) /\ FixLaw(s) /\ SizeLaw(s, shape) /\ MatrixLaw(s)) = TRUE
GLaw == (Len(shape) = 1 /\ shape[1].p = 1 /\ shape[1].n = 1 /\ shape[1].m = 1) => GaussLaw
=============================================================================
