------------------------------ MODULE BasisSys ------------------------------
(* Parameter spaces (degrees and knot vectors of all directions) as mutable objects, and single B-spline basis functions
   over any knots. Every answer is defined from the present degrees and knots. *)
EXTENDS Knots
VARIABLE ps                                    \* handle -> [deg |-> sequence, knots |-> sequence of knot vectors]
PInit == ps = <<>>
PHandles == DOMAIN ps
PPut(h, s) == ps' = (h :> s) @@ ps
Dirs(s) == 1..Len(s.deg)
SpaceValid(s) == \A d \in Dirs(s) : Clamped(s.knots[d], s.deg[d])
(* spaces that can be asked for function values *)
Usable(s) == SpaceValid(s) /\ \A d \in Dirs(s) : FirstKnot(s.knots[d]) \prec LastKnot(s.knots[d])
(* there is at least one function in every direction *)
HasFunctions(s) == \A d \in Dirs(s) : s.deg[d] >= 0 /\ Len(s.knots[d]) >= s.deg[d] + 2

PCreate(h, s)    == PPut(h, s)
PCopy(h, g)      == PPut(g, ps[h])
WithKnots(s, d, U) == [s EXCEPT !.knots[d] = TLCEval(U)]
WithDegree(s, d, p) == [s EXCEPT !.deg[d] = p]
PInsert(h, d, u) == PPut(h, WithKnots(ps[h], d, InsertKnots(ps[h].knots[d], u, 1)))
PRemove(h, d, u) == PPut(h, WithKnots(ps[h], d, RemoveKnots(ps[h].knots[d], u, 1)))
PElevate(h, d)   == PPut(h, WithDegree(ps[h], d, ps[h].deg[d] + 1))
PReduce(h, d)    == PPut(h, WithDegree(ps[h], d, ps[h].deg[d] - 1))
AllMults(U, k)   == FromMults(Distinct(U), [i \in DOMAIN Mults(U) |-> Mults(U)[i] + k])
PThicken(h, d)   == PPut(h, WithKnots(ps[h], d, AllMults(ps[h].knots[d], 1)))
PThin(h, d)      == PPut(h, WithKnots(ps[h], d, AllMults(ps[h].knots[d], -1)))

(* ---- answers ---- *)
FirstFunction(s, d, u) == Span(s.knots[d], u) - s.deg[d]
AllFunctions(s, d) == Len(s.knots[d]) - s.deg[d] - 1
(* value of the i-th function of direction d (from 0), k-th derivative *)
FunctionAt(s, d, i, u, k) ==
  LET m == i - FirstFunction(s, d, u) + 1
  IN IF m \in 1..(s.deg[d] + 1) THEN DBasis(s.knots[d], s.deg[d], u, k)[m] ELSE R(0)
TensorAt(s, idx, u, a) == LET f[d \in 0..Len(idx)] == IF d = 0 THEN R(1) ELSE f[d - 1] \otimes FunctionAt(s, d, idx[d], u[d], a[d]) IN f[Len(idx)]
RangeOf(s, d) == LastKnot(s.knots[d]) \ominus FirstKnot(s.knots[d])
Inside(s, u) == \A d \in Dirs(s) : InRange(s.knots[d], u[d])
(* the knots left and right of a knot with p + 1 copies *)
LeftKnots(U, u)  == SubSeq(U, 1, Cardinality({i \in DOMAIN U : U[i] \preceq u}))
RightKnots(U, u) == SubSeq(U, Cardinality({i \in DOMAIN U : U[i] \prec u}) + 1, Len(U))
Dividable(s, d, u) == Mult(s.knots[d], u) = s.deg[d] + 1 /\ FirstKnot(s.knots[d]) \prec u /\ u \prec LastKnot(s.knots[d])
Divided(s, d, u, left) == [e \in Dirs(s) |-> IF e # d THEN s.knots[e] ELSE IF left THEN LeftKnots(s.knots[d], u) ELSE RightKnots(s.knots[d], u)]

(* the largest difference of corresponding knots *)
Same(s, t) == /\ s.deg = t.deg
              /\ \A d \in Dirs(s) : Len(s.knots[d]) = Len(t.knots[d])
KnotDistances(s, t) == UNION {{RAbs(s.knots[d][i] \ominus t.knots[d][i]) : i \in DOMAIN s.knots[d]} : d \in Dirs(s)}
SpacesEqualAnswer(s, t, tol, ret) ==
  IF ~ Same(s, t) THEN ret = FALSE
  ELSE \E D \in {KnotDistances(s, t)} : \E x \in {CHOOSE x \in D : \A y \in D : y \preceq x} :
         /\ (x \preceq (R(tol) \otimes R("999999/1000000"))) => ret = TRUE
         /\ ((R(tol) \otimes R("1000001/1000000")) \prec x) => ret = FALSE

----------------------------------------------------------------------------
(* one function N(i, p) over any knots, also not clamped ones: the Cox-de Boor recursion; zero outside its support *)
RECURSIVE Single(_, _, _, _, _)
Single(U, i, p, u, k) ==
  IF ~ InRange(U, u) THEN R(0)
  ELSE IF p = 0 THEN (IF k = 0 /\ Span(U, u) = i THEN R(1) ELSE R(0))
  ELSE IF u \prec K(U, i) \/ K(U, i + p + 1) \prec u THEN R(0)
  ELSE LET a == Single(U, i, p - 1, u, IF k = 0 THEN 0 ELSE k - 1)
           b == Single(U, i + 1, p - 1, u, IF k = 0 THEN 0 ELSE k - 1)
       IN TLCEval(IF k = 0
          THEN (Quot(u \ominus K(U, i), K(U, i + p) \ominus K(U, i)) \otimes a)
               \oplus (Quot(K(U, i + p + 1) \ominus u, K(U, i + p + 1) \ominus K(U, i + 1)) \otimes b)
          ELSE R(p) \otimes (Quot(a, K(U, i + p) \ominus K(U, i)) \ominus Quot(b, K(U, i + p + 1) \ominus K(U, i + 1))))

(* ---- laws, checked on the model for all histories ---- *)
UnitySums(s, d, u) == /\ REq(RSum(Basis(s.knots[d], s.deg[d], u)), 1)
                      /\ \A k \in 1..2 : REq(RSum(DBasis(s.knots[d], s.deg[d], u, k)), 0)
                      /\ \A x \in Range0(Basis(s.knots[d], s.deg[d], u)) : R(0) \preceq x
SingleAgrees(s, d, u) == \A i \in 0..(AllFunctions(s, d) - 1) : \A k \in 0..2 :
                           REq(Single(s.knots[d], i, s.deg[d], u, k), FunctionAt(s, d, i, u, k))
DividedFit(s, d, u) == \E L \in {LeftKnots(s.knots[d], u)}, Q \in {RightKnots(s.knots[d], u)} :
                         /\ Clamped(L, s.deg[d]) /\ Clamped(Q, s.deg[d])
                         /\ Len(L) + Len(Q) = Len(s.knots[d]) + s.deg[d] + 1
=============================================================================
