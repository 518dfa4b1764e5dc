----------------------------- MODULE SplineGen -----------------------------
(* Behaviours of the spline store with the numbers left out: degrees and knot multiplicities on a lattice of knot
   positions. It decides which operations may come next (the preconditions of SplineSys) and produces histories which
   are replayed on the real code; the numbers for lattice positions, points and weights are filled in by the driver.
   Multiplicities are upper bounds: operations which remove knots within a tolerance may remove fewer. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Dims, Kinds, MinDeg, MaxDeg, Lattice, MaxMult, Ops, Steps, MaxHandles
(* Shapes: <<>> for random shapes, else a sequence of [kind, deg, mult] from which the first spline is taken *)
CONSTANT Shapes
VARIABLES hs, hist, fresh
gvars == <<hs, hist, fresh>>

Positions == 0..Lattice                    \* knot positions; 0 and Lattice are the ends at creation
Interiors == 1..(Lattice - 1)
HandlesIn == DOMAIN hs
Put(f, h, x) == (h :> x) @@ f
Name(k) == "h" \o ToString(k)
Do(rec) == hist' = Append(hist, rec)
More == Len(hist) < Steps
On(op) == More /\ op \in Ops

(* ---- shapes ---- *)
NewShape(kind, deg, mult) ==      \* mult[d][i]: multiplicity of interior position i
  [kind |-> kind, dim |-> Len(deg), deg |-> deg,
   mult |-> [d \in DOMAIN deg |-> [i \in Positions |-> IF i \in Interiors THEN mult[d][i] ELSE deg[d] + 1]],
   lo |-> [d \in DOMAIN deg |-> 0], hi |-> [d \in DOMAIN deg |-> Lattice],
   ex |-> [d \in DOMAIN deg |-> 0], frozen |-> FALSE]
Least(a, b) == IF a < b THEN a ELSE b
Pick(S) == RandomElement(IF fresh > 0 THEN S ELSE {})          \* a new choice in every state
DegBound(dim) == IF dim = 4 THEN Least(2, MaxDeg) ELSE IF dim = 3 THEN Least(2, MaxDeg) ELSE IF dim = 2 THEN Least(3, MaxDeg) ELSE MaxDeg
KnotBound(dim) == IF dim = 4 THEN Pick({0, 0, 1}) ELSE IF dim = 3 THEN 1 ELSE IF dim = 2 /\ Lattice < 6 THEN 2 ELSE Lattice
GInit == hs = <<>> /\ hist = <<>> /\ fresh = 1
CreateAs(s) ==
  /\ hs' = Put(hs, Name(fresh), s)
  /\ fresh' = fresh + 1
  /\ \E how \in {"direct", "gen"} :
       Do([op |-> "create", h |-> Name(fresh), how |-> how, kind |-> s.kind, dim |-> s.dim, deg |-> s.deg,
           mult |-> [d \in 1..s.dim |-> [i \in 1..(Lattice - 1) |-> s.mult[d][i]]]])
CreateRandom ==
  \E dim \in {Pick(Dims)} : \E kind \in {Pick(Kinds)} :
  \E deg \in {TLCEval([d \in 1..dim |-> Pick(MinDeg..DegBound(dim))])} :
  \E used \in {TLCEval([d \in 1..dim |-> Pick({x \in SUBSET Interiors : Cardinality(x) <= KnotBound(dim)})])} :
  \E mult \in {TLCEval([d \in 1..dim |-> TLCEval([i \in Interiors |->
                            IF i \in used[d] THEN Pick(1..Least(deg[d], MaxMult)) ELSE 0])])} :
    CreateAs(NewShape(kind, deg, mult))
GCreate == /\ More /\ HandlesIn = {}
           /\ IF Shapes = <<>> THEN CreateRandom
              ELSE \E k \in DOMAIN Shapes : CreateAs(NewShape(Shapes[k].kind, Shapes[k].deg, Shapes[k].mult))
GCreateMore == /\ On("create") /\ HandlesIn # {} /\ Cardinality(HandlesIn) < MaxHandles
               /\ CreateRandom
(* a second spline from the same constructor arguments as h (which is looked up by the driver) *)
GAgain == /\ On("again") /\ HandlesIn # {} /\ Cardinality(HandlesIn) < MaxHandles
          /\ \E h \in HandlesIn : /\ h \in {hist[i].h : i \in {j \in DOMAIN hist : hist[j].op = "create" /\ hist[j].how = "direct"}}
                                  /\ \A j \in DOMAIN hist : ~ (hist[j].op = "touch" /\ hist[j].h = h)
                                  /\ LET c == CHOOSE i \in DOMAIN hist : hist[i].op = "create" /\ hist[i].h = h
                                         s == NewShape(hist[c].kind, hist[c].deg, hist[c].mult)
                                     IN hs' = Put(hs, Name(fresh), s)
                                  /\ Do([op |-> "again", h |-> Name(fresh), of |-> h])
                                  /\ fresh' = fresh + 1
GTouch == /\ On("touch")
          /\ \E h \in HandlesIn : \E d \in 1..hs[h].dim :
               /\ h \in {hist[i].h : i \in {j \in DOMAIN hist : hist[j].op = "create"}}
               /\ Do([op |-> "touch", h |-> h, d |-> d])
               /\ UNCHANGED <<hs, fresh>>

Inside(s, d) == {i \in Positions : s.lo[d] < i /\ i < s.hi[d]}
GInsert == /\ On("insert")
           /\ \E h \in HandlesIn : \E d \in 1..hs[h].dim : \E i \in Inside(hs[h], d) : \E m \in 0..(hs[h].deg[d] + 1 - hs[h].mult[d][i]) :
                /\ ~ hs[h].frozen
                /\ hs' = [hs EXCEPT ![h].mult[d][i] = @ + m]
                /\ Do([op |-> "insert", h |-> h, d |-> d, i |-> i, m |-> m])
                /\ UNCHANGED fresh
RefineLists(s, d) ==
  LET I == Inside(s, d)
  IN IF Shapes # <<>> \/ I = {} THEN {<<>>} \cup {<<i, j>> : i \in I, j \in I} \cup {<<i, j, k>> : i \in I, j \in I, k \in I}
     ELSE {<<>>, TLCEval([k \in 1..Pick(1..3) |-> Pick(I)]), TLCEval([k \in 1..Pick(2..5) |-> Pick(I)]), TLCEval([k \in 1..Pick(4..9) |-> Pick(I)])}
CountIn(q, i) == Cardinality({k \in DOMAIN q : q[k] = i})
GRefine == /\ On("refine")
           /\ \E h \in HandlesIn : \E d \in 1..hs[h].dim : \E q \in RefineLists(hs[h], d) :
                /\ ~ hs[h].frozen
                /\ \A i \in Inside(hs[h], d) : hs[h].mult[d][i] + CountIn(q, i) <= hs[h].deg[d] + 1
                /\ hs' = [hs EXCEPT ![h].mult[d] = [i \in Positions |-> @[i] + CountIn(q, i)]]
                /\ Do([op |-> "refine", h |-> h, d |-> d, q |-> q])
                /\ UNCHANGED fresh
(* removal: also of absent and of end knots. tight = only what can be removed without moving the curve *)
GRemove == /\ On("remove")
           /\ \E h \in HandlesIn : \E d \in 1..hs[h].dim : \E i \in hs[h].lo[d]..hs[h].hi[d] :
              \E m \in 1..3, tol \in {"tight", "loose", "huge"} :
                /\ \/ hs[h].mult[d][i] > 0 /\ i \in Inside(hs[h], d)
                   \/ m = 1 /\ tol = "huge"
                /\ hs' = [hs EXCEPT ![h].ex[d] = IF tol = "tight" THEN @ ELSE 0]
                /\ Do([op |-> "remove", h |-> h, d |-> d, i |-> i, m |-> m, tol |-> tol])
                /\ UNCHANGED fresh
Bezierable(s, d) == \A i \in Inside(s, d) : s.mult[d][i] <= s.deg[d]
Present(s, d, i) == s.mult[d][i] > 0
GElevate == /\ On("elevate")
            /\ \E h \in HandlesIn : \E d \in 1..hs[h].dim :
                 /\ ~ hs[h].frozen
                 /\ Bezierable(hs[h], d)
                 /\ hs[h].deg[d] <= MaxDeg
                 /\ hs' = [hs EXCEPT ![h].deg[d] = @ + 1, ![h].ex[d] = @ + 1,
                                     ![h].mult[d] = [i \in Positions |-> IF i \in {hs[h].lo[d], hs[h].hi[d]} THEN hs[h].deg[d] + 2
                                                                         ELSE IF @[i] > 0 THEN hs[h].deg[d] + 1 ELSE 0]]
                 /\ Do([op |-> "elevate", h |-> h, d |-> d])
                 /\ UNCHANGED fresh
GReduce == /\ On("reduce")
           /\ \E h \in HandlesIn : \E d \in 1..hs[h].dim : \E tol \in {"tight", "loose"} :
                /\ ~ hs[h].frozen
                /\ Bezierable(hs[h], d)
                /\ hs[h].deg[d] >= 2
                /\ LET sure == hs[h].ex[d] > 0
                   IN hs' = [hs EXCEPT ![h].deg[d] = IF sure THEN @ - 1 ELSE @, ![h].ex[d] = IF sure THEN @ - 1 ELSE 0,
                                       ![h].frozen = ~ sure,
                                       ![h].mult[d] = [i \in Positions |-> IF @[i] = 0 THEN 0
                                                          ELSE IF sure THEN hs[h].deg[d] - (IF i \in Inside(hs[h], d) THEN 1 ELSE 0) ELSE hs[h].deg[d]]]
                /\ Do([op |-> "reduce", h |-> h, d |-> d, tol |-> tol, sure |-> hs[h].ex[d] > 0])
                /\ UNCHANGED fresh
GSubdivide == /\ On("subdivide")
              /\ \E h \in HandlesIn : \E d \in 1..hs[h].dim : \E i \in Inside(hs[h], d) :
                   /\ ~ hs[h].frozen
                   /\ Cardinality(HandlesIn) < MaxHandles
                   /\ LET s == hs[h]
                          a == Name(fresh)
                          b == Name(fresh + 1)
                          full == [s EXCEPT !.mult[d][i] = s.deg[d] + 1]
                      IN /\ hs' = (a :> [full EXCEPT !.hi[d] = i]) @@ (b :> [full EXCEPT !.lo[d] = i]) @@ [hs EXCEPT ![h] = full]
                         /\ Do([op |-> "subdivide", h |-> h, d |-> d, i |-> i, a |-> a, b |-> b])
                   /\ fresh' = fresh + 2
GCopy == /\ On("copy")
         /\ Cardinality(HandlesIn) < MaxHandles
         /\ \E h \in HandlesIn : /\ hs' = Put(hs, Name(fresh), hs[h])
                                 /\ Do([op |-> "copy", h |-> h, g |-> Name(fresh)])
                                 /\ fresh' = fresh + 1
GDrop == /\ On("drop")
         /\ Cardinality(HandlesIn) > 1
         /\ \E h \in HandlesIn : /\ hs' = [x \in HandlesIn \ {h} |-> hs[x]]
                                 /\ Do([op |-> "drop", h |-> h])
                                 /\ UNCHANGED fresh
GNewPoints == /\ On("newpoints")
              /\ Cardinality(HandlesIn) < MaxHandles
              /\ \E h \in HandlesIn : /\ hs[h].kind = "n"
                                      /\ h \in {hist[i].h : i \in {j \in DOMAIN hist : hist[j].op = "create"}}
                                      /\ \A j \in DOMAIN hist : hist[j].op \in {"insert", "refine", "remove", "elevate", "reduce", "subdivide"} => hist[j].h # h
                                      /\ hs' = Put(hs, Name(fresh), hs[h])
                                      /\ Do([op |-> "newpoints", h |-> h, g |-> Name(fresh)])
                                      /\ fresh' = fresh + 1
(* a surface from two curves *)
GTranslate == /\ On("translate")
              /\ Cardinality(HandlesIn) < MaxHandles
              /\ \E t, c \in HandlesIn :
                   /\ hs[t].kind = "n" /\ hs[c].kind = "n" /\ hs[t].dim = 1 /\ hs[c].dim = 1
                   /\ hs' = Put(hs, Name(fresh), [kind |-> "n", dim |-> 2, deg |-> hs[t].deg \o hs[c].deg, mult |-> hs[t].mult \o hs[c].mult,
                                                 lo |-> hs[t].lo \o hs[c].lo, hi |-> hs[t].hi \o hs[c].hi,
                                                 ex |-> hs[t].ex \o hs[c].ex, frozen |-> hs[t].frozen \/ hs[c].frozen])
                   /\ Do([op |-> "translate", h |-> Name(fresh), t |-> t, c |-> c])
                   /\ fresh' = fresh + 1
GCompare == /\ On("equal")
            /\ \E h, g \in HandlesIn : \E op \in {"equal", "geoequal"} :
                 /\ hs[h].dim = hs[g].dim /\ hs[h].kind = hs[g].kind
                 /\ Do([op |-> op, h |-> h, g |-> g])
                 /\ UNCHANGED <<hs, fresh>>

(* every history of full length is written out *)
GDone == /\ Len(hist) = Steps
         /\ PrintT(ToJson(hist))
         /\ hist' = Append(hist, [op |-> "done"])
         /\ UNCHANGED <<hs, fresh>>
GNext == \/ GDone
         \/ GCreate \/ GCreateMore \/ GAgain \/ GTouch \/ GInsert \/ GRefine \/ GRemove \/ GElevate \/ GReduce
         \/ GSubdivide \/ GCopy \/ GDrop \/ GNewPoints \/ GCompare \/ GTranslate
GSpec == GInit /\ [][GNext]_gvars
----------------------------------------------------------------------------
(* structure that every history keeps *)
Sound == \A h \in HandlesIn : \A d \in 1..hs[h].dim :
           /\ hs[h].deg[d] >= 1
           /\ hs[h].lo[d] < hs[h].hi[d]
           /\ \A i \in Inside(hs[h], d) : hs[h].mult[d][i] \in 0..(hs[h].deg[d] + 1)
           /\ hs[h].ex[d] >= 0

(* shapes for exhaustive enumeration (Lattice = 2: one interior position) *)
Small(kind, p, m) == [kind |-> kind, deg |-> <<p>>, mult |-> <<<<m>>>>]
CurveShapes == <<Small("b", 1, 0), Small("n", 1, 1), Small("b", 2, 1), Small("n", 2, 2), Small("b", 3, 1)>>
NoShapes == <<>>
TinyShapes == <<Small("b", 1, 0), Small("n", 2, 1)>>
SurfaceShapes == <<[kind |-> "b", deg |-> <<1, 2>>, mult |-> <<<<0>>, <<1>>>>], [kind |-> "n", deg |-> <<2, 1>>, mult |-> <<<<2>>, <<1>>>>]>>
=============================================================================
