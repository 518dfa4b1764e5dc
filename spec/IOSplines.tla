----------------------------- MODULE IOSplines -----------------------------
(* What the entries of the file formats say, number by number. A spline is
   [kind, dim, deg, knots, n, pts, w] (Cartesian points and weights, first direction fastest); numbers of entries are texts. *)
EXTENDS Splines
CloseTo(t, x, abs, rel) == IsNum(t) /\ IsNum(x) /\ RLeq(RAbs(RSub(t, x)), RAdd(abs, RMul(rel, RAbs(x))))
CloseToSeq(t, x, abs, rel) == Len(t) = Len(x) /\ \A i \in DOMAIN x : CloseTo(t[i], x[i], abs, rel)
(* six decimals; seventeen digits; six digits *)
Half6 == R("500001/1000000000000")
Num(fmt, t, x) == CASE fmt = "iges" -> CloseTo(t, x, 0, "1/1000000000000000")
                    [] fmt = "xml"  -> CloseTo(t, x, Half6, "1/1000000000000000")
                    [] fmt = "irit" -> CloseTo(t, x, Half6, "1/100000000000000")
NumSeq(fmt, t, x) == Len(t) = Len(x) /\ \A i \in DOMAIN x : Num(fmt, t[i], x[i])
Pad3(p) == [i \in 1..3 |-> IF i <= Len(p) THEN p[i] ELSE R(0)]
Homog(w, p) == <<w>> \o [i \in DOMAIN p |-> w \otimes p[i]]
(* (P = TRUE has TLC evaluate P as a value; a quantifier in an action is taken apart step by step) *)
RepresentsIt(fmt, e, s) ==
  /\ e.dim = s.dim /\ e.kind = s.kind /\ e.deg = s.deg
  /\ Len(e.knots) = s.dim
  /\ \A d \in 1..s.dim : NumSeq(fmt, e.knots[d], s.knots[d])
  /\ Len(e.pts) = Len(s.pts)
  /\ CASE fmt = "xml"  -> /\ \A k \in DOMAIN s.pts : NumSeq(fmt, e.pts[k], s.pts[k])
                          /\ s.kind = "n" => NumSeq(fmt, e.w, s.w)
       [] fmt = "irit" -> /\ e.n = s.n
                          /\ \A k \in DOMAIN s.pts : NumSeq(fmt, e.pts[k], IF s.kind = "n" THEN Homog(R(s.w[k]), s.pts[k]) ELSE s.pts[k])
       [] fmt = "iges" -> /\ \A k \in DOMAIN s.pts : NumSeq(fmt, e.pts[k], Pad3(s.pts[k]))
                          /\ NumSeq(fmt, e.w, s.w)
CRepresents(fmt, e, s) == RepresentsIt(fmt, e, s) = TRUE
RDoubles(q) == TLCEval([i \in DOMAIN q |-> RDouble(q[i])])
Ones(k) == [i \in 1..k |-> R(1)]
CReadOf(fmt, e) ==
  LET raw == TLCEval([k \in DOMAIN e.pts |-> RDoubles(e.pts[k])])
      rat == e.kind = "n"
      hom == fmt = "irit" /\ rat
  IN [kind |-> e.kind, dim |-> e.dim, deg |-> e.deg,
      knots |-> TLCEval([d \in DOMAIN e.knots |-> RDoubles(e.knots[d])]),
      n |-> TLCEval([d \in DOMAIN e.knots |-> Len(e.knots[d]) - e.deg[d] - 1]),
      pts |-> IF hom THEN TLCEval([k \in DOMAIN raw |-> [i \in 1..(Len(raw[k]) - 1) |-> raw[k][i + 1] \oslash raw[k][1]]]) ELSE raw,
      w |-> IF hom THEN TLCEval([k \in DOMAIN raw |-> raw[k][1]]) ELSE IF rat THEN RDoubles(e.w) ELSE Ones(Len(raw))]
SameNumbers(s, t) ==
  /\ s.kind = t.kind /\ s.dim = t.dim /\ s.deg = t.deg /\ s.n = t.n
  /\ \A d \in DOMAIN t.knots : CloseToSeq(s.knots[d], t.knots[d], 0, 0)
  /\ Len(s.pts) = Len(t.pts)
  /\ \A k \in DOMAIN t.pts : CloseToSeq(s.pts[k], t.pts[k], 0, "1/100000000000000")
  /\ CloseToSeq(s.w, t.w, 0, 0)
CSameSpline(s, t) == SameNumbers(s, t) = TRUE
CDimOf(s) == s.dim

(* VTK: every spline is shown by the cells of a regular lattice in its parameter domain *)
AsSpline(s) == [kind |-> s.kind, deg |-> s.deg, knots |-> TLCEval([d \in DOMAIN s.knots |-> RSeq(s.knots[d])]), n |-> s.n,
                h |-> TLCEval([k \in DOMAIN s.pts |-> Append([i \in DOMAIN s.pts[k] |-> RMul(s.w[k], s.pts[k][i])], R(s.w[k]))])]
Digits(n, k) == [d \in 1..Len(n) |-> (k \div ProdTo(n, d - 1)) % n[d]]              \* k from 0, first direction fastest
FlatIx(n, c) == LET f[d \in 0..Len(n)] == IF d = 0 THEN 0 ELSE f[d - 1] + ProdTo(n, d - 1) * c[d] IN f[Len(n)]
More(scat) == [d \in DOMAIN scat |-> scat[d] + 1]
NAll(n) == ProdTo(n, Len(n))
Param(s, scat, c) == [d \in DOMAIN scat |->
  FirstKnot(s.knots[d]) \oplus (RDiv(c[d], scat[d]) \otimes (LastKnot(s.knots[d]) \ominus FirstKnot(s.knots[d])))]
Corners(scat, dim, c) ==
  LET at(a, b, z) == FlatIx(More(scat), [d \in 1..dim |-> c[d] + (CASE d = 1 -> a [] d = 2 -> b [] d = 3 -> z)])
  IN CASE dim = 1 -> <<at(0, 0, 0), at(1, 0, 0)>>
       [] dim = 2 -> <<at(0, 0, 0), at(1, 0, 0), at(1, 1, 0), at(0, 1, 0)>>
       [] dim = 3 -> <<at(0, 0, 0), at(1, 0, 0), at(1, 1, 0), at(0, 1, 0), at(0, 0, 1), at(1, 0, 1), at(1, 1, 1), at(0, 1, 1)>>
CellType(dim) == CASE dim = 1 -> 3 [] dim = 2 -> 9 [] dim = 3 -> 12
SumTo(q, k) == LET f[i \in 0..k] == IF i = 0 THEN 0 ELSE q[i] + f[i - 1] IN f[k]
ShowsThem(v, ss, scat) ==
  \E np \in {TLCEval([i \in DOMAIN ss |-> NAll(More(scat[i]))])}, nc \in {TLCEval([i \in DOMAIN ss |-> NAll(scat[i])])} :
    /\ Len(v.points) = SumTo(np, Len(np)) /\ Len(v.cells) = SumTo(nc, Len(nc)) /\ Len(v.types) = Len(v.cells)
    /\ \A i \in DOMAIN ss : \E s \in {AsSpline(ss[i])} :
         LET off == SumTo(np, i - 1)
             coff == SumTo(nc, i - 1)
         IN /\ \A k \in 0..(np[i] - 1) :
                 \E p \in {Pad3(Eval(s, Param(s, scat[i], Digits(More(scat[i]), k))))} :
                    CloseToSeq(v.points[off + k + 1], p, "1/100000000", "51/10000000")
            /\ \A k \in 0..(nc[i] - 1) :
                 /\ v.cells[coff + k + 1] = [j \in 1..(2 ^ ss[i].dim) |-> off + Corners(scat[i], ss[i].dim, Digits(scat[i], k))[j]]
                 /\ v.types[coff + k + 1] = CellType(ss[i].dim)
CShowsAll(v, ss, scat) == ShowsThem(v, ss, scat) = TRUE
=============================================================================
