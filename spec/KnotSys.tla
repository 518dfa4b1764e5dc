------------------------------ MODULE KnotSys ------------------------------
(* Knot vectors as an abstract data type: handles to non-decreasing sequences of numbers; insertion, removal, copies,
   moves, assignment, element access, the averaging constructor and all queries. *)
EXTENDS Knots
VARIABLE kvs                                   \* handle -> sequence of rationals
KInit == kvs = <<>>
KHandles == DOMAIN kvs
KPut(h, U) == kvs' = (h :> U) @@ kvs

(* knots by averaging the parameters of interpolated points (The NURBS Book, equation 9.8) *)
Averaged(c, p, n) == Repeat(c[1], p + 1)
                     \o [i \in 1..(n - 1 - p) |-> RSum([j \in 1..p |-> c[i + j]]) \oslash R(p)]
                     \o Repeat(c[Len(c)], p + 1)
KCreate(h, U)    == KPut(h, U)
KCopy(h, g)      == KPut(g, kvs[h])
KMove(h, g)      == kvs' = (g :> kvs[h]) @@ [x \in KHandles \ {h} |-> kvs[x]]
KInsert(h, u)    == KPut(h, InsertKnots(kvs[h], u, 1))
KRemove(h, u)    == KPut(h, RemoveKnots(kvs[h], u, 1))
KSet(h, i, u)    == KPut(h, [kvs[h] EXCEPT ![i + 1] = u])
KDrop(h)         == kvs' = [x \in KHandles \ {h} |-> kvs[x]]
Difference(U, V) == [i \in DOMAIN U |-> U[i] \ominus V[i]]
MayInsertK(h, u) == InRange(kvs[h], u)
MayRemoveK(h, u) == Mult(kvs[h], u) > 0
MaySet(h, i, u)  == NonDecreasing([kvs[h] EXCEPT ![i + 1] = u])

(* answers *)
MaxDiff(U, V) == LET D == {RAbs(U[i] \ominus V[i]) : i \in DOMAIN U} IN CHOOSE x \in D : \A y \in D : y \preceq x
(* at the tolerance itself and for the last digits of a double the answer is open *)
EqualAnswer(U, V, tol, ret) ==
  IF Len(U) # Len(V) THEN ret = FALSE
  ELSE IF Len(U) = 0 THEN ret = TRUE
  ELSE \E x \in {MaxDiff(U, V)} :
         /\ (x \preceq (R(tol) \otimes R("999999/1000000"))) => ret = TRUE
         /\ ((R(tol) \otimes R("1000001/1000000")) \prec x) => ret = FALSE
Distinctness(U) == Len(Distinct(U))

(* ---- laws, checked on the model for all histories ---- *)
Sorted == \A h \in KHandles : NonDecreasing(kvs[h])
SpanIsRight(U, u) == \E j \in {Span(U, u)} :
                       /\ j \in 0..(Len(U) - 2)
                       /\ K(U, j) \prec K(U, j + 1)
                       /\ K(U, j) \preceq u
                       /\ u \preceq K(U, j + 1)
                       /\ (u \prec LastKnot(U)) => u \prec K(U, j + 1)
=============================================================================
