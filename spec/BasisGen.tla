------------------------------ MODULE BasisGen ------------------------------
(* All histories of operations on parameter spaces over a small lattice of knots; model checked and replayed. *)
EXTENDS BasisSys, Json
CONSTANTS BSteps, BTop, BDim, BHandlesMax, BMaxDeg
VARIABLES bhist, bn
bg == <<ps, bhist, bn>>
BName(k) == "p" \o ToString(k)
BDo(r) == bhist' = Append(bhist, r)
BMore == Len(bhist) < BSteps
RQ(U) == TLCEval([i \in DOMAIN U |-> R(U[i])])
ClampedStarts == {[p |-> 0, U |-> <<0, BTop>>], [p |-> 1, U |-> <<0, 0, BTop, BTop>>], [p |-> 1, U |-> <<0, 0, 1, BTop, BTop>>],
                  [p |-> 2, U |-> <<0, 0, 0, 1, 1, BTop, BTop, BTop>>]}
GBInit == ps = <<>> /\ bhist = <<>> /\ bn = 1
GBNew == /\ BMore /\ Cardinality(PHandles) < BHandlesMax /\ (PHandles = {} \/ bn <= 2)
         /\ \E s \in [1..BDim -> ClampedStarts] :
              /\ PCreate(BName(bn), [deg |-> TLCEval([d \in 1..BDim |-> s[d].p]), knots |-> TLCEval([d \in 1..BDim |-> RQ(s[d].U)])])
              /\ BDo([op |-> "new", h |-> BName(bn), deg |-> [d \in 1..BDim |-> s[d].p], knots |-> [d \in 1..BDim |-> s[d].U]])
         /\ bn' = bn + 1
BSmall(s, d) == Len(s.knots[d]) <= 2 * BMaxDeg + 6
GBInsert == BMore /\ \E h \in PHandles : \E d \in Dirs(ps[h]), u \in 0..BTop :
              BSmall(ps[h], d) /\ InRange(ps[h].knots[d], R(u)) /\ PInsert(h, d, R(u)) /\ BDo([op |-> "insert", h |-> h, d |-> d, u |-> u]) /\ UNCHANGED bn
GBRemove == BMore /\ \E h \in PHandles : \E d \in Dirs(ps[h]), u \in 0..BTop :
              /\ Mult(ps[h].knots[d], R(u)) > 0 /\ Len(ps[h].knots[d]) > ps[h].deg[d] + 2
              /\ PRemove(h, d, R(u)) /\ BDo([op |-> "remove", h |-> h, d |-> d, u |-> u]) /\ UNCHANGED bn
GBDegree == BMore /\ \E h \in PHandles : \E d \in Dirs(ps[h]) : \E up \in BOOLEAN :
              /\ IF up THEN ps[h].deg[d] < BMaxDeg /\ Len(ps[h].knots[d]) > ps[h].deg[d] + 2 /\ PElevate(h, d)
                       ELSE ps[h].deg[d] > 0 /\ PReduce(h, d)
              /\ BDo([op |-> IF up THEN "elevate" ELSE "reduce", h |-> h, d |-> d]) /\ UNCHANGED bn
GBMults == BMore /\ \E h \in PHandles : \E d \in Dirs(ps[h]) : \E up \in BOOLEAN :
              /\ IF up THEN BSmall(ps[h], d) /\ PThicken(h, d)
                       ELSE \E U \in {AllMults(ps[h].knots[d], -1)} : Len(U) >= ps[h].deg[d] + 2 /\ PThin(h, d)
              /\ BDo([op |-> IF up THEN "thicken" ELSE "thin", h |-> h, d |-> d]) /\ UNCHANGED bn
(* degree and multiplicities together: the space stays clamped *)
GBBoth == BMore /\ \E h \in PHandles : \E d \in Dirs(ps[h]) : \E up \in BOOLEAN :
            /\ Usable(ps[h])
            /\ IF up THEN /\ ps[h].deg[d] < BMaxDeg
                          /\ PPut(h, [ps[h] EXCEPT !.deg[d] = @ + 1, !.knots[d] = AllMults(@, 1)])
                     ELSE /\ ps[h].deg[d] > 0
                          /\ PPut(h, [ps[h] EXCEPT !.deg[d] = @ - 1, !.knots[d] = AllMults(@, -1)])
            /\ BDo([op |-> IF up THEN "up" ELSE "down", h |-> h, d |-> d]) /\ UNCHANGED bn
GBCopy == BMore /\ \E h \in PHandles : /\ Cardinality(PHandles) < BHandlesMax
                                       /\ PCopy(h, BName(bn)) /\ BDo([op |-> "copy", h |-> h, g |-> BName(bn)])
            /\ bn' = bn + 1
GBDone == /\ Len(bhist) = BSteps
          /\ PrintT(ToJson(bhist))
          /\ bhist' = Append(bhist, [op |-> "done"])
          /\ UNCHANGED <<ps, bn>>
GBNext == GBNew \/ GBInsert \/ GBRemove \/ GBDegree \/ GBMults \/ GBBoth \/ GBCopy \/ GBDone
GBSpec == GBInit /\ [][GBNext]_bg
Params == {R(x) : x \in 0..BTop} \cup {RDiv(2 * x + 1, 2) : x \in 0..(BTop - 1)}
AlwaysFunctions == \A h \in PHandles : HasFunctions(ps[h])
UnityLaw  == \A h \in PHandles : Usable(ps[h]) => \A d \in Dirs(ps[h]), u \in Params : InRange(ps[h].knots[d], u) => UnitySums(ps[h], d, u)
SingleLaw == \A h \in PHandles : Usable(ps[h]) => \A d \in Dirs(ps[h]), u \in Params : InRange(ps[h].knots[d], u) => SingleAgrees(ps[h], d, u)
DivideLaw == \A h \in PHandles : Usable(ps[h]) => \A d \in Dirs(ps[h]), u \in Params : Dividable(ps[h], d, u) => DividedFit(ps[h], d, u)
=============================================================================
