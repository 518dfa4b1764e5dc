------------------------------ MODULE Splines ------------------------------
(* B-splines and NURBS of any parametric dimension as values:
     [kind |-> "b" or "n", deg |-> <<p_1, ..>>, knots |-> <<U_1, ..>>, n |-> <<points per direction>>,
      h |-> sequence of homogeneous control points <<w*x_1, .., w*x_k, w>>, first direction running fastest] *)
EXTENDS Knots

ProdTo(n, d) == LET f[i \in 0..d] == IF i = 0 THEN 1 ELSE n[i] * f[i - 1] IN f[d]
Dim(s)    == Len(s.deg)
NPoints(s) == ProdTo(s.n, Dim(s))
PDim(s)   == Len(s.h[1]) - 1
Weight(s, k) == s.h[k][Len(s.h[k])]
Project(v) == [i \in 1..(Len(v) - 1) |-> v[i] \oslash v[Len(v)]]

(* structural consistency: what every constructor checks and every operation keeps *)
Consistent(s) ==
  /\ \A d \in 1..Dim(s) : /\ ProperKnots(s.knots[d], s.deg[d])
                          /\ s.n[d] = Len(s.knots[d]) - s.deg[d] - 1
  /\ Len(s.h) = NPoints(s)
  /\ \A k \in DOMAIN s.h : /\ Len(s.h[k]) = Len(s.h[1])
                           /\ \A i \in DOMAIN s.h[k] : IsNum(s.h[k][i])
  /\ s.kind = "b" => \A k \in DOMAIN s.h : REq(Weight(s, k), 1)

InDomain(s, u) == \A d \in 1..Dim(s) : InRange(s.knots[d], u[d])

----------------------------------------------------------------------------
(* evaluation; B[d] are the values (or derivatives) of the p_d + 1 functions of direction d, f[d] the index of the first *)
RECURSIVE Block(_, _, _, _, _)
Block(s, B, f, d, off) ==
  IF d = 0 THEN s.h[off + 1]
  ELSE VComb(B[d], [k \in 1..(s.deg[d] + 1) |-> Block(s, B, f, d - 1, off + ProdTo(s.n, d - 1) * (f[d] + k - 1))])
FirstNonZero(s, u) == [d \in 1..Dim(s) |-> Span(s.knots[d], u[d]) - s.deg[d]]
EvalH(s, u)     == Block(s, [d \in 1..Dim(s) |-> Basis(s.knots[d], s.deg[d], u[d])], FirstNonZero(s, u), Dim(s), 0)
EvalHD(s, u, a) == Block(s, [d \in 1..Dim(s) |-> DBasis(s.knots[d], s.deg[d], u[d], a[d])],
                         FirstNonZero(s, u), Dim(s), 0)
Eval(s, u) == Project(EvalH(s, u))

(* derivatives of the quotient A/w by Leibniz' rule: w^(0) S^(a) = A^(a) - sum over 0 < b <= a of C(a,b) w^(b) S^(a-b) *)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
BinomV(a, b) == LET f[d \in 0..Len(a)] == IF d = 0 THEN 1 ELSE Binom(a[d], b[d]) * f[d - 1] IN f[Len(a)]
BelowV(a) == {b \in [1..Len(a) -> 0..MaxOf({a[d] : d \in 1..Len(a)})] : \A d \in 1..Len(a) : b[d] <= a[d]}
RECURSIVE SeqOfSet(_)
SeqOfSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOfSet(S \ {x})
SumV(b) == LET f[d \in 0..Len(b)] == IF d = 0 THEN 0 ELSE b[d] + f[d - 1] IN f[Len(b)]
RECURSIVE ByOrder(_)            \* the orders below a, lower ones first
ByOrder(B) == IF B = {} THEN <<>> ELSE LET x == CHOOSE x \in B : \A y \in B : SumV(x) <= SumV(y) IN <<x>> \o ByOrder(B \ {x})
MinusV(a, b) == [d \in 1..Len(a) |-> a[d] - b[d]]
RECURSIVE Quotients(_, _, _, _)  \* todo: orders in rising order; H[b]: derivatives of the homogeneous form; S: results so far
Quotients(todo, H, S, k) ==
  IF todo = <<>> THEN S
  ELSE LET a   == Head(todo)
           bs  == SeqOfSet({b \in DOMAIN S : b # a /\ \A d \in 1..Len(a) : b[d] <= a[d]})     \* b = a - (order of w)
           w0  == H[[d \in 1..Len(a) |-> 0]][k + 1]
           cs  == TLCEval([m \in 1..Len(bs) |-> RMul(BinomV(a, bs[m]), H[MinusV(a, bs[m])][k + 1])])
           val == TLCEval([i \in 1..k |->
                     (H[a][i] \ominus RSum([m \in 1..Len(bs) |-> cs[m] \otimes S[bs[m]][i]])) \oslash w0])
       IN Quotients(Tail(todo), H, (a :> val) @@ S, k)
Deriv(s, u, a) ==
  IF s.kind = "b" THEN SubSeq(EvalHD(s, u, a), 1, PDim(s))
  ELSE LET B == BelowV(a)
           H == TLCEval([b \in B |-> EvalHD(s, u, b)])
       IN TLCEval(Quotients(ByOrder(B), H, <<>>, PDim(s))[a])

----------------------------------------------------------------------------
(* Contract direction d at parameter t: the homogeneous control net of the remaining directions. Index of a control
   point with direction-d index i: lo + stride*(i + n_d*hi) *)
Stride(s, d) == ProdTo(s.n, d - 1)
Fibres(s, d) == NPoints(s) \div s.n[d]
Lo(s, d, f)  == (f - 1) % Stride(s, d)
Hi(s, d, f)  == (f - 1) \div Stride(s, d)
PointOn(s, d, f, i) == s.h[Lo(s, d, f) + Stride(s, d) * (i + s.n[d] * Hi(s, d, f)) + 1]    \* fibre f, index i from 0
Contract(s, d, t) ==
  LET U == s.knots[d]
      p == s.deg[d]
      B == Basis(U, p, t)
      i0 == Span(U, t) - p
  IN TLCEval([f \in 1..Fibres(s, d) |-> VComb(B, [k \in 1..(p + 1) |-> PointOn(s, d, f, i0 + k - 1)])])

SameExceptDirection(s, t, d) ==
  /\ s.kind = t.kind
  /\ Len(s.deg) = Len(t.deg)
  /\ \A e \in 1..Dim(s) \ {d} : /\ s.deg[e] = t.deg[e]
                               /\ s.n[e] = t.n[e]
                               /\ Len(s.knots[e]) = Len(t.knots[e])
                               /\ \A i \in DOMAIN s.knots[e] : REq(s.knots[e][i], t.knots[e][i])

(* union of the distinct knots of two knot vectors *)
RECURSIVE MergeDistinct(_, _)
MergeDistinct(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
                       ELSE IF REq(Head(a), Head(b)) THEN <<Head(a)>> \o MergeDistinct(Tail(a), Tail(b))
                       ELSE IF Head(a) \prec Head(b) THEN <<Head(a)>> \o MergeDistinct(Tail(a), b)
                       ELSE <<Head(b)>> \o MergeDistinct(a, Tail(b))
MaxDeg(s, t, d) == IF s.deg[d] < t.deg[d] THEN t.deg[d] ELSE s.deg[d]
SamplesAlong(s, t, d) ==
  LET dd == MergeDistinct(Distinct(s.knots[d]), Distinct(t.knots[d]))
  IN TLCEval(SpanSamples(dd, MaxDeg(s, t, d)) \o dd)

(* s and t, which differ in direction d only, are the same function of the parameters (homogeneous form): their control
   nets agree after contracting direction d at p+1 points per span, hence at every parameter *)
SameGeometryAlong(s, t, d, tol) ==
  /\ SameExceptDirection(s, t, d)
  /\ REq(FirstKnot(s.knots[d]), FirstKnot(t.knots[d]))
  /\ REq(LastKnot(s.knots[d]), LastKnot(t.knots[d]))
  /\ LET us == SamplesAlong(s, t, d)
     IN \A k \in DOMAIN us :
          LET a == Contract(s, d, us[k])
              b == Contract(t, d, us[k])
          IN \A f \in DOMAIN a : VNear(a[f], b[f], tol)

(* largest coordinate-wise distance between the two nets of Cartesian points, over all samples, is at most tol:
   a necessary condition for "moved by at most tol" *)
DistSq(a, b) == RSum([i \in DOMAIN a |-> (a[i] \ominus b[i]) \otimes (a[i] \ominus b[i])])

(* whole-domain comparison at tensor sample points (any two splines over the same domain) *)
RECURSIVE TensorPoints(_, _)
TensorPoints(lists, d) == IF d = 0 THEN <<<<>>>>
  ELSE LET low == TensorPoints(lists, d - 1)
       IN TLCEval([k \in 1..(Len(low) * Len(lists[d])) |->
             Append(low[((k - 1) % Len(low)) + 1], lists[d][((k - 1) \div Len(low)) + 1])])
MovedAtMost(s, t, pts, tolSq) == \A k \in DOMAIN pts : DistSq(Eval(s, pts[k]), Eval(t, pts[k])) \preceq tolSq
SameGeometryAt(s, t, pts, tol) == \A k \in DOMAIN pts : VNear(Eval(s, pts[k]), Eval(t, pts[k]), tol)
DomainSamples(s, t) == TensorPoints([d \in 1..Dim(s) |-> SamplesAlong(s, t, d)], Dim(s))

----------------------------------------------------------------------------
(* Change of representation. The control point Q_i of a piecewise polynomial over knots V in degree q is the blossom
   of any of its pieces in the support of the i-th function, taken at V_{i+1}, .., V_{i+q}. BlossomRow gives the
   coefficients of that value in the old control points j-p, .., j of the piece on span j (de Boor's triangle). *)
UnitV(p, k) == [m \in 1..(p + 1) |-> IF m = k THEN R(1) ELSE R(0)]
RECURSIVE BlossomTri(_, _, _, _, _)
BlossomTri(U, p, j, args, r) ==      \* entries k = r .. p (1-based position k+1) of the r-th column
  IF r = 0 THEN TLCEval([k \in 1..(p + 1) |-> TLCEval(UnitV(p, k))])
  ELSE LET prev == BlossomTri(U, p, j, args, r - 1)
       IN TLCEval([m \in 1..(p + 1 - r) |->
            LET i == j - p + r + m - 1
                a == (args[r] \ominus K(U, i)) \oslash (K(U, i + p - r + 1) \ominus K(U, i))
            IN VComb(<<R(1) \ominus a, a>>, <<prev[m], prev[m + 1]>>)])
BlossomRow(U, p, j, args) == BlossomTri(U, p, j, args, p)[1]

(* the span of U in which the first non-empty span of V from index i on lies *)
SpanAbove(U, V, i) == LET j == CHOOSE j \in i..(Len(V) - 2) : /\ K(V, j) \prec K(V, j + 1)
                                                             /\ \A k \in i..(j - 1) : ~ (K(V, k) \prec K(V, k + 1))
                      IN Span(U, K(V, j))
Omit(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
(* row i (from 0) of the matrix that takes control points over (U, p) to those over (V, q), q = p or p + 1, U within V *)
RebaseRow(U, p, V, q, i) ==
  LET j    == SpanAbove(U, V, i)
      args == [k \in 1..q |-> K(V, i + k)]
  IN [j |-> j,
      c |-> IF q = p THEN BlossomRow(U, p, j, args)
            ELSE VComb([k \in 1..q |-> RDiv(1, q)], [k \in 1..q |-> BlossomRow(U, p, j, Omit(args, k))])]
Rebase(s, d, q, V) ==
  LET U  == s.knots[d]
      p  == s.deg[d]
      nn == Len(V) - q - 1
      rows == TLCEval([i \in 1..nn |-> RebaseRow(U, p, V, q, i - 1)])
      n2 == [s.n EXCEPT ![d] = nn]
      st == Stride(s, d)
  IN [s EXCEPT !.deg[d] = q, !.knots[d] = V, !.n = n2,
               !.h = TLCEval([k \in 1..ProdTo(n2, Dim(s)) |->
                        LET lo == (k - 1) % st
                            i  == ((k - 1) \div st) % nn
                            hi == ((k - 1) \div st) \div nn
                            row == rows[i + 1]
                        IN VComb(row.c, [m \in 1..(p + 1) |-> s.h[lo + st * ((row.j - p + m - 1) + s.n[d] * hi) + 1]])])]

Insert(s, d, u, m) == Rebase(s, d, s.deg[d], InsertKnots(s.knots[d], u, m))
MayInsert(s, d, u, m) == /\ FirstKnot(s.knots[d]) \prec u
                         /\ u \prec LastKnot(s.knots[d])
                         /\ Mult(s.knots[d], u) + m <= s.deg[d] + 1

(* degree elevation keeps the continuity: every multiplicity grows by one. An implementation that goes through Bezier
   segments may leave an interior knot with a higher multiplicity; all of these represent the same function. *)
ElevatedKnots(s, d) ==
  LET dk == Distinct(s.knots[d])
      m0 == Mults(s.knots[d])
  IN FromMults(dk, [i \in 1..Len(dk) |-> m0[i] + 1])
IsElevatedKnots(s, d, V) ==
  LET U == s.knots[d]
      dk == Distinct(U)
      m0 == Mults(U)
      m1 == Mults(V)
      q  == s.deg[d] + 1
  IN /\ NonDecreasing(V)
     /\ Len(Distinct(V)) = Len(dk)
     /\ \A i \in DOMAIN dk : REq(Distinct(V)[i], dk[i])
     /\ m1[1] = q + 1
     /\ m1[Len(dk)] = q + 1
     /\ \A i \in 2..(Len(dk) - 1) : m0[i] + 1 <= m1[i] /\ m1[i] <= MaxOf({q, m0[i] + 1})
Elevate(s, d) == Rebase(s, d, s.deg[d] + 1, ElevatedKnots(s, d))
MayElevate(s, d) == \A i \in 2..(Len(Distinct(s.knots[d])) - 1) : Mults(s.knots[d])[i] <= s.deg[d]

(* Knot removal. With V = U minus one u, solve the insertion equations P_i = a_i Q_i + (1 - a_i) Q_{i-1} from the left
   and from the right and meet in the middle; what remains is the deviation of one control point. *)
Removed(s, d, u) ==
  LET U   == s.knots[d]
      p   == s.deg[d]
      r   == Span(U, u)                  \* last index of u
      m   == Mult(U, u)
      fst == r - p
      lst == r - m
      off == fst - 1
      a(i) == (u \ominus K(U, i)) \oslash (K(U, i + p + 1) \ominus K(U, i))
      P(f, i) == PointOn(s, d, f, i)
      mid == (fst + lst + 1) \div 2      \* the equation left over
      L[f \in 1..Fibres(s, d), i \in off..lst] ==           \* from the left
         IF i = off THEN P(f, i)
         ELSE VComb(<<R(1) \oslash a(i), (a(i) \ominus 1) \oslash a(i)>>, <<P(f, i), L[f, i - 1]>>)
      Rt[f \in 1..Fibres(s, d), i \in (fst - 1)..lst] ==    \* Rt[i] = Q_i as seen from the right (old index i+1)
         IF i = lst THEN P(f, i + 1)
         ELSE VComb(<<R(1) \oslash (R(1) \ominus a(i + 1)), R(0) \ominus (a(i + 1) \oslash (R(1) \ominus a(i + 1)))>>,
                    <<P(f, i + 1), Rt[f, i + 1]>>)
      Q(f, i) == IF i < fst THEN P(f, i) ELSE IF i < mid THEN L[f, i] ELSE IF i <= lst THEN Rt[f, i] ELSE P(f, i + 1)
      n2 == [s.n EXCEPT ![d] = s.n[d] - 1]
      st == Stride(s, d)
      (* multiplicity p + 1: the two pieces touch in P(fst - 1) and P(fst), one of which is left out *)
      dev(f) == IF m > p THEN DistSq(P(f, fst - 1), P(f, fst)) ELSE
                LET e == VComb(<<R(1), R(0) \ominus a(mid), a(mid) \ominus 1>>,
                               <<P(f, mid), Q(f, mid), Q(f, mid - 1)>>)
                IN DistSq(e, [i \in DOMAIN e |-> R(0)])
  IN [spline |-> [s EXCEPT !.knots[d] = RemoveKnots(U, u, 1), !.n = n2,
                           !.h = TLCEval([k \in 1..ProdTo(n2, Dim(s)) |->
                                    LET lo == (k - 1) % st
                                        i  == ((k - 1) \div st) % n2[d]
                                        hi == ((k - 1) \div st) \div n2[d]
                                    IN Q(lo + st * hi + 1, i)])],
      devSq  |-> LET D == TLCEval([f \in 1..Fibres(s, d) |-> dev(f)])
                 IN CHOOSE x \in {D[f] : f \in DOMAIN D} : \A f \in DOMAIN D : D[f] \preceq x]
MayRemove(s, d, u) == /\ FirstKnot(s.knots[d]) \prec u
                      /\ u \prec LastKnot(s.knots[d])
                      /\ Mult(s.knots[d], u) >= 1

(* Subdivision at an interior parameter: saturate the knot to multiplicity p + 1 and cut the control net *)
Saturate(s, d, u) == Insert(s, d, u, s.deg[d] + 1 - Mult(s.knots[d], u))
CutPoints(s, d, from, cnt) ==
  LET n2 == [s.n EXCEPT ![d] = cnt]
      st == Stride(s, d)
  IN TLCEval([k \in 1..ProdTo(n2, Dim(s)) |->
       s.h[((k - 1) % st) + st * ((from + (((k - 1) \div st) % cnt)) + s.n[d] * (((k - 1) \div st) \div cnt)) + 1]])
Subdivide(s, d, u) ==
  LET t == Saturate(s, d, u)
      p == s.deg[d]
      r == Span(t.knots[d], u)
      n1 == r - p
  IN [orig  |-> t,
      left  |-> [t EXCEPT !.knots[d] = SubSeq(t.knots[d], 1, r + 1), !.n[d] = n1, !.h = CutPoints(t, d, 0, n1)],
      right |-> [t EXCEPT !.knots[d] = SubSeq(t.knots[d], r - p + 1, Len(t.knots[d])), !.n[d] = t.n[d] - n1,
                          !.h = CutPoints(t, d, n1, t.n[d] - n1)]]

----------------------------------------------------------------------------
(* comparison of a machine representation with an exact value: structure exactly, numbers within tol *)
CloseKnots(U, V, tol) == /\ Len(U) = Len(V)
                         /\ \A i \in DOMAIN U : RNear(U[i], V[i], tol)
(* rounding errors grow with the largest number that takes part *)
LargestH(t) == LET M == {RAbs(t.h[k][i]) : k \in DOMAIN t.h, i \in DOMAIN t.h[1]} IN CHOOSE x \in M : \A y \in M : y \preceq x
ScaledTol(t, tol) == IF REq(tol, 0) THEN tol ELSE RMul(tol, RMax(1, RMul("1/100", LargestH(t))))
Close(s, t, tol) ==
  /\ s.kind = t.kind
  /\ s.deg = t.deg
  /\ s.n = t.n
  /\ \A d \in 1..Dim(s) : CloseKnots(s.knots[d], t.knots[d], tol)
  /\ Len(s.h) = Len(t.h)
  /\ \E st \in {ScaledTol(t, tol)} : \A k \in DOMAIN s.h : VNear(s.h[k], t.h[k], st)
SplineEq(s, t) == Close(s, t, R(0))
=============================================================================
