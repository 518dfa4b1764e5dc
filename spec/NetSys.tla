------------------------------ MODULE NetSys ------------------------------
(* Control nets (PhysicalSpace, WeightedPhysicalSpace) as mutable objects: a list of points, in the order of a box of
   lengths n with the first direction fastest, that can grow and shrink at its end and whose lengths can be set, with
   weights for the weighted ones. Every answer is defined from the present list and the present lengths. *)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC
VARIABLE nets       \* handle -> [n |-> lengths, dim |-> number of coordinates, p |-> points, w |-> weights or <<>>, rat |-> weighted?]
NInit == nets = <<>>
NHandles == DOMAIN nets
NPut(h, s) == nets' = (h :> s) @@ nets
NRange(s) == {s[i] : i \in DOMAIN s}
RECURSIVE NProd(_)
NProd(n) == IF n = <<>> THEN 1 ELSE Head(n) * NProd(Tail(n))
(* position of a multi-index in the list, from 0 *)
At0(n, idx) == LET f[d \in 0..Len(n)] == IF d = 0 THEN 0 ELSE f[d - 1] + NProd(SubSeq(n, 1, d - 1)) * idx[d] IN f[Len(n)]
NetValid(s) == /\ NProd(s.n) = Len(s.p)
               /\ \A i \in DOMAIN s.p : Len(s.p[i]) = Len(s.p[1])
               /\ s.rat => Len(s.w) = Len(s.p)
InBox(n, idx) == Len(idx) = Len(n) /\ \A d \in DOMAIN n : idx[d] \in 0..(n[d] - 1)
Fits(s) == NProd(s.n) <= Len(s.p)               \* every position of the box is in the list
ZeroPoint(s) == [i \in 1..s.dim |-> R(0)]

NCreate(h, s) == NPut(h, s)
NCopy(h, g) == NPut(g, nets[h])
(* lengths that count while writing: those before (or after) a change of direction d by delta *)
Lengths(s, d, delta) == IF d = 0 THEN s.n ELSE [s.n EXCEPT ![d] = @ + delta]
NSet(h, idx, pt, d, delta) == NPut(h, [nets[h] EXCEPT !.p[At0(Lengths(nets[h], d, delta), idx) + 1] = pt])
NSetWeight(h, idx, w, d, delta) == NPut(h, [nets[h] EXCEPT !.w[At0(Lengths(nets[h], d, delta), idx) + 1] = w])
NSetBoth(h, idx, pt, w) == NPut(h, [nets[h] EXCEPT !.p[At0(nets[h].n, idx) + 1] = pt, !.w[At0(nets[h].n, idx) + 1] = w])
NAdd(h, k) == NPut(h, [nets[h] EXCEPT !.p = @ \o [i \in 1..k |-> ZeroPoint(nets[h])],
                                      !.w = IF nets[h].rat THEN @ \o [i \in 1..k |-> R(0)] ELSE @])
NRemove(h, k) == NPut(h, [nets[h] EXCEPT !.p = SubSeq(@, 1, Len(@) - k), !.w = IF nets[h].rat THEN SubSeq(@, 1, Len(@) - k) ELSE @])
NLength(h, d, m) == NPut(h, [nets[h] EXCEPT !.n[d] = m])

(* ---- answers ---- *)
PointAt(s, idx) == s.p[At0(s.n, idx) + 1]
WeightAt(s, idx) == IF s.rat THEN s.w[At0(s.n, idx) + 1] ELSE R(1)
HomogeneousAt(s, idx) == LET w == WeightAt(s, idx) IN Append([i \in 1..s.dim |-> w \otimes PointAt(s, idx)[i]], w)
RECURSIVE AllIdx(_)            \* all multi-indices, first direction fastest
AllIdx(n) == IF n = <<>> THEN <<<<>>>>
             ELSE LET t == AllIdx(SubSeq(n, 1, Len(n) - 1))
                  IN TLCEval([k \in 1..(Len(t) * n[Len(n)]) |-> Append(t[((k - 1) % Len(t)) + 1], (k - 1) \div Len(t))])
Part(s, first, len, d) == LET is == AllIdx([s.n EXCEPT ![d] = len])
                          IN TLCEval([k \in DOMAIN is |-> [is[k] EXCEPT ![d] = @ + first]])
PartPoints(s, first, len, d)  == LET is == Part(s, first, len, d) IN [k \in DOMAIN is |-> PointAt(s, is[k])]
PartWeights(s, first, len, d) == LET is == Part(s, first, len, d) IN [k \in DOMAIN is |-> WeightAt(s, is[k])]
Largest(S) == CHOOSE x \in S : \A y \in S : y \preceq x
(* the largest coordinate, at least zero *)
LargestCoordinate(s) == Largest({R(0)} \cup UNION {NRange(s.p[i]) : i \in DOMAIN s.p})
LargestDistanceSq(s) == Largest({R(0)} \cup {RSum([i \in DOMAIN s.p[k] |-> s.p[k][i] \otimes s.p[k][i]]) : k \in DOMAIN s.p})
SmallestWeight(s) == CHOOSE x \in NRange(s.w) : \A y \in NRange(s.w) : x \preceq y

Flat(s) == LET f[i \in 0..Len(s.p)] == IF i = 0 THEN <<>> ELSE f[i - 1] \o s.p[i] IN f[Len(s.p)]
NetDistances(s, t) == {RAbs(Flat(s)[i] \ominus Flat(t)[i]) : i \in DOMAIN Flat(s)} \cup {RAbs(s.w[i] \ominus t.w[i]) : i \in DOMAIN s.w} \cup {R(0)}
NetsEqualAnswer(s, t, tol, ret) ==
  IF ~ (s.n = t.n /\ s.dim = t.dim /\ Len(s.p) = Len(t.p) /\ Len(s.w) = Len(t.w)) THEN ret = FALSE
  ELSE \E x \in {Largest(NetDistances(s, t))} :
         /\ (x \preceq (R(tol) \otimes R("999999/1000000"))) => ret = TRUE
         /\ ((R(tol) \otimes R("1000001/1000000")) \prec x) => ret = FALSE

(* ---- laws, checked on the model for all histories ---- *)
OrderLaw(s) == LET is == AllIdx(s.n) IN \A k \in DOMAIN is : At0(s.n, is[k]) = k - 1
PartsLaw(s) == \A d \in DOMAIN s.n : \A c \in 1..(s.n[d] - 1) :
                 Len(PartPoints(s, 0, c, d)) + Len(PartPoints(s, c, s.n[d] - c, d)) = NProd(s.n)
=============================================================================
