------------------------------- MODULE Knots -------------------------------
(* Knot vectors: non-decreasing sequences of rationals, indexed from 0 as in the code (K(U, i)). *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC

Range0(s)    == {s[i] : i \in DOMAIN s}
MaxOf(S)     == CHOOSE m \in S : \A x \in S : x <= m
MinOf(S)     == CHOOSE m \in S : \A x \in S : m <= x
K(U, i)      == U[i + 1]
FirstKnot(U) == U[1]
LastKnot(U)  == U[Len(U)]

NonDecreasing(U) == \A i \in 1..(Len(U) - 1) : U[i] \preceq U[i + 1]
InRange(U, u)    == /\ FirstKnot(U) \preceq u
                    /\ u \preceq LastKnot(U)
Mult(U, u)       == Cardinality({i \in DOMAIN U : REq(U[i], u)})

(* The knot span of u: the last index whose knot is <= u, except that the last knot belongs to the last non-empty span *)
Span(U, u) == IF REq(u, LastKnot(U))
              THEN MaxOf({i \in 0..(Len(U) - 1) : K(U, i) \prec u} \cup {-1})
              ELSE MaxOf({i \in 0..(Len(U) - 1) : K(U, i) \preceq u} \cup {-1})

(* the distinct knots in order *)
RECURSIVE DistinctFrom(_, _)
DistinctFrom(U, i) == IF i > Len(U) THEN <<>>
                      ELSE IF i > 1 /\ REq(U[i], U[i - 1]) THEN DistinctFrom(U, i + 1)
                      ELSE <<U[i]>> \o DistinctFrom(U, i + 1)
Distinct(U) == TLCEval(DistinctFrom(U, 1))
Interior(U) == LET d == Distinct(U) IN SubSeq(d, 2, Len(d) - 1)

RECURSIVE Repeat(_, _)
Repeat(x, m) == IF m <= 0 THEN <<>> ELSE <<x>> \o Repeat(x, m - 1)

(* insert m copies of u after the last knot <= u ; remove m copies of u *)
InsertKnots(U, u, m) == LET k == Cardinality({i \in DOMAIN U : U[i] \preceq u})
                        IN  SubSeq(U, 1, k) \o Repeat(u, m) \o SubSeq(U, k + 1, Len(U))
RemoveKnots(U, u, m) == LET k == Cardinality({i \in DOMAIN U : U[i] \preceq u})
                        IN  SubSeq(U, 1, k - m) \o SubSeq(U, k + 1, Len(U))

(* clamped: first and last knot with multiplicity at least p + 1; this is what the constructors accept *)
Clamped(U, p) == /\ Len(U) >= 2 * p + 2
                 /\ \A i \in 1..(p + 1) : REq(U[i], FirstKnot(U)) /\ REq(U[Len(U) + 1 - i], LastKnot(U))
(* a knot vector of a well-formed spline of degree p *)
ProperKnots(U, p) == /\ NonDecreasing(U)
                     /\ Clamped(U, p)
                     /\ FirstKnot(U) \prec LastKnot(U)
                     /\ Mult(U, FirstKnot(U)) = p + 1
                     /\ Mult(U, LastKnot(U)) = p + 1
                     /\ \A i \in DOMAIN U : Mult(U, U[i]) <= p + 1

RECURSIVE WithMults(_, _, _)
WithMults(d, m, i) == IF i > Len(d) THEN <<>> ELSE Repeat(d[i], m[i]) \o WithMults(d, m, i + 1)
Mults(U) == LET d == Distinct(U) IN TLCEval([i \in 1..Len(d) |-> Mult(U, d[i])])
FromMults(d, m) == WithMults(d, m, 1)      \* the knot vector with distinct knots d and multiplicities m
----------------------------------------------------------------------------
(* B-spline basis functions, by the Cox-de Boor recursion, 0/0 = 0. *)
Quot(a, b) == IF REq(b, 0) THEN R(0) ELSE a \oslash b

(* Level(U, j, u, r): the values at u of the r+1 functions of degree r that can be non-zero on span j, i.e. of
   N_{j-r,r}, ..., N_{j,r} *)
RECURSIVE Level(_, _, _, _)
Level(U, j, u, r) ==
  IF r = 0 THEN <<R(1)>>
  ELSE LET low == Level(U, j, u, r - 1)
           low0(k) == IF k \in 1..r THEN low[k] ELSE R(0)
       IN TLCEval([k \in 1..(r + 1) |->
            LET i == j - r + k - 1
            IN (Quot(u \ominus K(U, i), K(U, i + r) \ominus K(U, i)) \otimes low0(k - 1))
               \oplus
               (Quot(K(U, i + r + 1) \ominus u, K(U, i + r + 1) \ominus K(U, i + 1)) \otimes low0(k))])
Basis(U, p, u) == Level(U, Span(U, u), u, p)

(* the k-th derivatives of the same functions *)
RECURSIVE DLevel(_, _, _, _, _)
DLevel(U, j, u, r, k) ==
  IF k = 0 THEN Level(U, j, u, r)
  ELSE IF r = 0 THEN <<R(0)>>
  ELSE LET low == DLevel(U, j, u, r - 1, k - 1)
           low0(m) == IF m \in 1..r THEN low[m] ELSE R(0)
       IN TLCEval([m \in 1..(r + 1) |->
            LET i == j - r + m - 1
            IN R(r) \otimes (Quot(low0(m - 1), K(U, i + r) \ominus K(U, i))
                             \ominus Quot(low0(m), K(U, i + r + 1) \ominus K(U, i + 1)))])
DBasis(U, p, u, k) == DLevel(U, Span(U, u), u, p, k)

(* p + 1 points in every non-empty span: two piecewise polynomials of degree <= p on these spans that agree there
   agree everywhere *)
SpanSamples(d, p) ==
  [k \in 1..((Len(d) - 1) * (p + 1)) |->
     LET s == ((k - 1) \div (p + 1)) + 1
         f == RDiv(2 * ((k - 1) % (p + 1)) + 1, 2 * p + 3)
     IN d[s] \oplus (f \otimes (d[s + 1] \ominus d[s]))]
=============================================================================
