------------------------------- MODULE IGASys -------------------------------
(* Isogeometric analysis on NURBS geometries (example/iga): the elements of a geometry and the functions on them, Gauss
   integration, the linear systems of the Poisson and heat equation and their boundary conditions, time steps, solutions.
   The state: geometries, linear systems A x = b under assembly, and problems (a geometry with an integration rule). *)
EXTENDS IOSplines
VARIABLES geos,      \* handle -> NURBS
          systems,   \* handle -> [g |-> geometry, a |-> matrix, b |-> vector]
          probs      \* handle -> [g |-> geometry, rule |-> number of points]
ivars == <<geos, systems, probs>>
IInit == geos = <<>> /\ systems = <<>> /\ probs = <<>>
Q40(x) == RDecimals(x, 40)
Half(x) == x \oslash R(2)

(* ---- Gauss-Legendre rules with 1 to 5 points: <<<<coordinate, weight>>, ..>>, ascending ---- *)
Neg(x) == R(0) \ominus x
Symmetric(pos, mid) ==   \* pos: the positive points, ascending
  LET k == Len(pos)
      neg == [i \in 1..k |-> <<Neg(pos[k + 1 - i][1]), pos[k + 1 - i][2]>>]
  IN neg \o mid \o pos
Root(x) == Q40(RSqrt(x))
Gauss(n) == TLCEval(
  CASE n = 1 -> <<<<R(0), R(2)>>>>
    [] n = 2 -> Symmetric(<<<<Root(R("1/3")), R(1)>>>>, <<>>)
    [] n = 3 -> Symmetric(<<<<Root(R("3/5")), R("5/9")>>>>, <<<<R(0), R("8/9")>>>>)
    [] n = 4 -> LET r == Root(R("6/5")) \otimes R("2/7")
                    q == Root(R(30)) \oslash R(36)
                IN Symmetric(<<<<Root(R("3/7") \ominus r), R("1/2") \oplus q>>, <<Root(R("3/7") \oplus r), R("1/2") \ominus q>>>>, <<>>)
    [] n = 5 -> LET r == Root(R("10/7")) \otimes R(2)
                    q == (Root(R(70)) \otimes R(13)) \oslash R(900)
                IN Symmetric(<<<<Root(R(5) \ominus r) \oslash R(3), R("322/900") \oplus q>>, <<Root(R(5) \oplus r) \oslash R(3), R("322/900") \ominus q>>>>,
                             <<<<R(0), R("128/225")>>>>))
RECURSIVE PowR(_, _)
PowR(x, k) == IF k = 0 THEN R(1) ELSE x \otimes PowR(x, k - 1)
(* what makes it the Gauss rule: polynomials up to degree 2 n - 1 are integrated exactly *)
IsGauss(pts, n, tol) == /\ Len(pts) = n
                        /\ \A k \in 0..(2 * n - 1) :
                             RNear(RSum([i \in 1..n |-> pts[i][2] \otimes PowR(pts[i][1], k)]), IF k % 2 = 0 THEN RDiv(2, k + 1) ELSE R(0), tol)
                        /\ \A i \in 1..(n - 1) : pts[i][1] \prec pts[i + 1][1]

(* ---- elements: products of the non-empty knot spans, numbered from 0, first direction fastest ---- *)
Breaks(s, d) == Distinct(s.knots[d])
PerDir(s) == TLCEval([d \in 1..Dim(s) |-> Len(Breaks(s, d)) - 1])
NElements(s) == NAll(PerDir(s))
ElementIdx(s, e) == TLCEval(Digits(PerDir(s), e))
LowEnd(s, e) == LET c == ElementIdx(s, e) IN TLCEval([d \in 1..Dim(s) |-> Breaks(s, d)[c[d] + 1]])
HighEnd(s, e) == LET c == ElementIdx(s, e) IN TLCEval([d \in 1..Dim(s) |-> Breaks(s, d)[c[d] + 2]])
ElementAt(s, u) == FlatIx(PerDir(s), TLCEval([d \in 1..Dim(s) |-> Span(Breaks(s, d), u[d])]))
(* the functions that do not vanish on an element: control points, numbered from 1 *)
NLocal(s) == TLCEval([d \in 1..Dim(s) |-> s.deg[d] + 1])
Globals(s, e) ==
  LET lo == LowEnd(s, e)
      f  == TLCEval([d \in 1..Dim(s) |-> Span(s.knots[d], lo[d]) - s.deg[d]])
      nl == NLocal(s)
  IN TLCEval([k \in 1..NAll(nl) |-> 1 + FlatIx(s.n, [d \in 1..Dim(s) |-> f[d] + Digits(nl, k - 1)[d]])])
(* from the reference element [-1, 1]^D to the parameters *)
RefToParam(s, e, x) == LET lo == LowEnd(s, e)
                           hi == HighEnd(s, e)
                       IN TLCEval([d \in 1..Dim(s) |-> Half((lo[d] \oplus hi[d]) \oplus ((hi[d] \ominus lo[d]) \otimes x[d]))])

(* ---- the rational functions of an element and their derivatives at a parameter ---- *)
Functions(s, e, u) ==
  LET D   == Dim(s)
      g   == Globals(s, e)
      nl  == NLocal(s)
      lo  == LowEnd(s, e)
      j   == TLCEval([d \in 1..D |-> Span(s.knots[d], lo[d])])
      B   == TLCEval([d \in 1..D |-> TLCEval([i \in 1..nl[d] |-> Q40(Level(s.knots[d], j[d], u[d], s.deg[d])[i])])])
      DB  == TLCEval([d \in 1..D |-> TLCEval([i \in 1..nl[d] |-> Q40(DLevel(s.knots[d], j[d], u[d], s.deg[d], 1)[i])])])
      at  == TLCEval([k \in DOMAIN g |-> Digits(nl, k - 1)])
      prod(k, a) == LET f[d \in 0..D] == IF d = 0 THEN Weight(s, g[k]) ELSE f[d - 1] \otimes (IF d = a THEN DB[d][at[k][d] + 1] ELSE B[d][at[k][d] + 1])
                    IN f[D]
      N   == TLCEval([k \in DOMAIN g |-> prod(k, 0)])
      DN  == TLCEval([a \in 1..D |-> TLCEval([k \in DOMAIN g |-> prod(k, a)])])
      W   == RSum(N)
      WD  == TLCEval([a \in 1..D |-> RSum(DN[a])])
      WW  == W \otimes W
  IN [v |-> TLCEval([k \in DOMAIN g |-> Q40(N[k] \oslash W)]),
      d |-> TLCEval([a \in 1..D |-> TLCEval([k \in DOMAIN g |-> Q40(((DN[a][k] \otimes W) \ominus (N[k] \otimes WD[a])) \oslash WW)])]),
      g |-> g]
(* derivatives of the geometry: J[i][a] = d x_i / d u_a *)
Jacobian(s, f) ==
  LET p == TLCEval([k \in DOMAIN f.g |-> Project(s.h[f.g[k]])])
  IN TLCEval([i \in 1..PDim(s) |-> TLCEval([a \in 1..Dim(s) |-> Q40(RDot(f.d[a], [k \in DOMAIN p |-> p[k][i]]))])])
Det(m) == CASE Len(m) = 1 -> m[1][1]
            [] Len(m) = 2 -> (m[1][1] \otimes m[2][2]) \ominus (m[1][2] \otimes m[2][1])
            [] Len(m) = 3 -> ((m[1][1] \otimes ((m[2][2] \otimes m[3][3]) \ominus (m[2][3] \otimes m[3][2])))
                              \ominus (m[1][2] \otimes ((m[2][1] \otimes m[3][3]) \ominus (m[2][3] \otimes m[3][1]))))
                             \oplus (m[1][3] \otimes ((m[2][1] \otimes m[3][2]) \ominus (m[2][2] \otimes m[3][1])))
Gram(J, D) == TLCEval([a \in 1..D |-> TLCEval([b \in 1..D |-> RSum([i \in DOMAIN J |-> J[i][a] \otimes J[i][b]])])])
(* the size of the image of an infinitesimal reference cell *)
Measure(s, e, J) ==
  LET lo == LowEnd(s, e)
      hi == HighEnd(s, e)
      scale == LET f[d \in 0..Dim(s)] == IF d = 0 THEN R(1) ELSE f[d - 1] \otimes Half(hi[d] \ominus lo[d]) IN f[Dim(s)]
  IN Q40(RSqrt(Det(Gram(J, Dim(s))))) \otimes scale
Minor(m, i, j) == LET sel == TLCEval([k \in 1..(Len(m) - 1) |-> IF k < i THEN k ELSE k + 1])
                      cel == TLCEval([k \in 1..(Len(m) - 1) |-> IF k < j THEN k ELSE k + 1])
                  IN TLCEval([a \in 1..(Len(m) - 1) |-> TLCEval([b \in 1..(Len(m) - 1) |-> m[sel[a]][cel[b]]])])
Inverse(m) == LET det == Det(m)
                  cof(i, j) == IF Len(m) = 1 THEN R(1) ELSE (IF (i + j) % 2 = 0 THEN Det(Minor(m, i, j)) ELSE Neg(Det(Minor(m, i, j))))
              IN TLCEval([i \in DOMAIN m |-> TLCEval([j \in DOMAIN m |-> Q40(cof(j, i) \oslash det)])])
(* parameters by coordinates, for geometries that lie in their first D coordinates *)
Flat(s) == \A k \in DOMAIN s.h : \A i \in (Dim(s) + 1)..PDim(s) : REq(Project(s.h[k])[i], Project(s.h[1])[i])
DuDx(s, J) == Inverse(SubSeq(J, 1, Dim(s)))
(* derivatives by the coordinates: X[i][k] = sum over a of dR_k/du_a du_a/dx_i *)
Physical(s, f, J) == LET inv == DuDx(s, J)
                     IN TLCEval([i \in 1..Dim(s) |-> TLCEval([k \in DOMAIN f.g |-> Q40(RSum([a \in 1..Dim(s) |-> f.d[a][k] \otimes inv[a][i]]))])])

(* ---- integration points of an element, first direction fastest ---- *)
QCount(s, n) == n ^ Dim(s)
QAt(s, n, q) == Digits([d \in 1..Dim(s) |-> n], q - 1)
QParam(s, e, n, q) == LET c == QAt(s, n, q) IN RefToParam(s, e, [d \in 1..Dim(s) |-> Gauss(n)[c[d] + 1][1]])
QWeight(s, n, q) == LET c == QAt(s, n, q)
                        f[d \in 0..Dim(s)] == IF d = 0 THEN R(1) ELSE f[d - 1] \otimes Gauss(n)[c[d] + 1][2]
                    IN Q40(f[Dim(s)])
QPoint(s, e, n, q) ==
  LET f == Functions(s, e, QParam(s, e, n, q))
      J == Jacobian(s, f)
  IN [f |-> f, J |-> J, w |-> QWeight(s, n, q), m |-> Measure(s, e, J)]
QPoints(s, e, n) == TLCEval([q \in 1..QCount(s, n) |-> QPoint(s, e, n, q)])

(* ---- integrals over the geometry, assembled from the elements ---- *)
LocalOf(g, k) == IF \E i \in DOMAIN g : g[i] = k THEN CHOOSE i \in DOMAIN g : g[i] = k ELSE 0
(* E: per element [g, k] with the local matrix k *)
AssembleM(E, N) ==
  LET pos == TLCEval([e \in DOMAIN E |-> TLCEval([k \in 1..N |-> LocalOf(E[e].g, k)])])
  IN TLCEval([i \in 1..N |-> TLCEval([j \in 1..N |->
       RSum([e \in DOMAIN E |-> IF pos[e][i] > 0 /\ pos[e][j] > 0 THEN E[e].k[pos[e][i]][pos[e][j]] ELSE R(0)])])])
AssembleV(E, N) ==
  LET pos == TLCEval([e \in DOMAIN E |-> TLCEval([k \in 1..N |-> LocalOf(E[e].g, k)])])
  IN TLCEval([i \in 1..N |-> RSum([e \in DOMAIN E |-> IF pos[e][i] > 0 THEN E[e].k[pos[e][i]] ELSE R(0)])])
(* stiffness: integral of kappa grad R_i . grad R_j *)
LocalStiffness(s, e, n) ==
  LET Q == QPoints(s, e, n)
      X == TLCEval([q \in DOMAIN Q |-> Physical(s, Q[q].f, Q[q].J)])
      c == TLCEval([q \in DOMAIN Q |-> Q40(Q[q].w \otimes Q[q].m)])
      nf == Len(Q[1].f.g)
  IN [g |-> Q[1].f.g, k |-> TLCEval([i \in 1..nf |-> TLCEval([j \in 1..nf |->
        Q40(RSum([q \in DOMAIN Q |-> c[q] \otimes RSum([d \in 1..Dim(s) |-> X[q][d][i] \otimes X[q][d][j]])]))])])]
Stiffness(s, n) == AssembleM(TLCEval([e \in 1..NElements(s) |-> LocalStiffness(s, e - 1, n)]), NPoints(s))
(* mass: integral of R_i R_j *)
LocalMass(s, e, n) ==
  LET Q == QPoints(s, e, n)
      c == TLCEval([q \in DOMAIN Q |-> Q40(Q[q].w \otimes Q[q].m)])
      nf == Len(Q[1].f.g)
  IN [g |-> Q[1].f.g, k |-> TLCEval([i \in 1..nf |-> TLCEval([j \in 1..nf |->
        Q40(RSum([q \in DOMAIN Q |-> c[q] \otimes (Q[q].f.v[i] \otimes Q[q].f.v[j])]))])])]
Mass(s, n) == AssembleM(TLCEval([e \in 1..NElements(s) |-> LocalMass(s, e - 1, n)]), NPoints(s))
(* load: integral of R_i times the field with coefficients src *)
LocalLoad(s, e, n, src) ==
  LET Q == QPoints(s, e, n)
      nf == Len(Q[1].f.g)
      c == TLCEval([q \in DOMAIN Q |-> Q40((Q[q].w \otimes Q[q].m) \otimes RSum([i \in 1..nf |-> Q[q].f.v[i] \otimes src[Q[q].f.g[i]]]))])
  IN [g |-> Q[1].f.g, k |-> TLCEval([i \in 1..nf |-> Q40(RSum([q \in DOMAIN Q |-> c[q] \otimes Q[q].f.v[i]]))])]
Load(s, n, src) == AssembleV(TLCEval([e \in 1..NElements(s) |-> LocalLoad(s, e - 1, n, src)]), NPoints(s))

(* ---- the boundary: direction d, side 0 or 1 ---- *)
OnSide(s, k, d, side) == Digits(s.n, k - 1)[d] = (IF side = 0 THEN 0 ELSE s.n[d] - 1)
SideIdx(s, d, side) == TLCEval(SelectSeq([k \in 1..NPoints(s) |-> k], LAMBDA k : OnSide(s, k, d, side)))
Without(q, d) == SubSeq(q, 1, d - 1) \o SubSeq(q, d + 1, Len(q))
SideSpline(s, d, side) == [kind |-> "n", deg |-> Without(s.deg, d), knots |-> Without(s.knots, d), n |-> Without(s.n, d),
                           h |-> LET ix == SideIdx(s, d, side) IN TLCEval([k \in DOMAIN ix |-> s.h[ix[k]]])]
OnBoundary(s, k) == \E d \in 1..Dim(s), side \in 0..1 : OnSide(s, k, d, side)
BoundaryIdx(s) == TLCEval(SelectSeq([k \in 1..NPoints(s) |-> k], LAMBDA k : OnBoundary(s, k)))
(* flux: over every side the integral of R_i times the field on that side, whose coefficients are c[d][side + 1] *)
Flux(s, n, c) ==
  LET part(d, side) == LET ix == SideIdx(s, d, side)
                           v  == Load(SideSpline(s, d, side), n, c[d][side + 1])
                       IN TLCEval([k \in 1..NPoints(s) |-> LET i == LocalOf(ix, k) IN IF i = 0 THEN R(0) ELSE v[i]])
      all == TLCEval([m \in 1..(2 * Dim(s)) |-> part(((m - 1) \div 2) + 1, (m - 1) % 2)])
  IN TLCEval([k \in 1..NPoints(s) |-> RSum([m \in DOMAIN all |-> all[m][k]])])

(* ---- vectors and matrices ---- *)
MAdd(a, b) == TLCEval([i \in DOMAIN a |-> TLCEval([j \in DOMAIN a[i] |-> a[i][j] \oplus b[i][j]])])
MScale(f, a) == TLCEval([i \in DOMAIN a |-> TLCEval([j \in DOMAIN a[i] |-> f \otimes a[i][j]])])
MApply(a, x) == TLCEval([i \in DOMAIN a |-> RDot(a[i], x)])
VPlus(a, b) == TLCEval([i \in DOMAIN a |-> a[i] \oplus b[i]])
MZero(n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> R(0)])])
VZero(n) == TLCEval([i \in 1..n |-> R(0)])
(* rows of boundary points become x_k = value *)
FixRows(s, a) == TLCEval([i \in DOMAIN a |-> IF OnBoundary(s, i) THEN TLCEval([j \in DOMAIN a |-> IF i = j THEN R(1) ELSE R(0)]) ELSE a[i]])
FixValues(s, b, vals) == LET ix == BoundaryIdx(s)
                         IN TLCEval([i \in DOMAIN b |-> LET k == LocalOf(ix, i) IN IF k = 0 THEN b[i] ELSE IF vals = <<>> THEN R(0) ELSE vals[k]])
MaxAbs(q) == LET f[i \in 0..Len(q)] == IF i = 0 THEN R(0) ELSE RMax(f[i - 1], RAbs(q[i])) IN f[Len(q)]
MaxAbsM(m) == LET f[i \in 0..Len(m)] == IF i = 0 THEN R(0) ELSE RMax(f[i - 1], MaxAbs(m[i])) IN f[Len(m)]
(* equal up to rounding, relative to the largest entry *)
Within(a, b, abs) == IsNum(a) /\ RAbs(a \ominus b) \preceq abs
VClose(a, b, tol) == /\ Len(a) = Len(b)
                     /\ \E m \in {tol \otimes MaxAbs(b)} : \A i \in DOMAIN b : Within(a[i], b[i], m)
MClose(a, b, tol) == /\ Len(a) = Len(b)
                     /\ \E m \in {tol \otimes MaxAbsM(b)} : \A i \in DOMAIN b : Len(a[i]) = Len(b[i]) /\ \A j \in DOMAIN b[i] : Within(a[i][j], b[i][j], m)
(* x solves a x = b: the residual is rounding *)
Solves(a, x, b, tol) == /\ Len(x) = Len(b)
                        /\ \A i \in DOMAIN x : IsNum(x[i])
                        /\ \E m \in {tol \otimes MaxAbs(x)} :
                             \A i \in DOMAIN b : RAbs(RDot(a[i], x) \ominus b[i]) \preceq ((tol \otimes RAbs(b[i])) \oplus (m \otimes RSum([j \in DOMAIN x |-> RAbs(a[i][j])])))

(* ---- steps ---- *)
PutS(y, sys) == systems' = (y :> sys) @@ systems /\ UNCHANGED <<geos, probs>>
NewGeometry(h, s) == geos' = (h :> s) @@ geos /\ UNCHANGED <<systems, probs>>
NewSystem(y, g) == PutS(y, [g |-> g, a |-> MZero(NPoints(geos[g])), b |-> VZero(NPoints(geos[g]))])
NewProblem(p, g, n) == probs' = (p :> [g |-> g, rule |-> n]) @@ probs /\ UNCHANGED <<geos, systems>>
(* expected results of assembling into a system *)
WithStiffness(y, s, n, kappa) == [systems[y] EXCEPT !.a = MAdd(@, MScale(kappa, Stiffness(s, n)))]
WithLoad(y, s, n, src)        == [systems[y] EXCEPT !.b = VPlus(@, Load(s, n, src))]
WithFlux(y, s, n, c)          == [systems[y] EXCEPT !.b = VPlus(@, Flux(s, n, c))]
WithFixed(y, s, vals)         == [systems[y] EXCEPT !.a = FixRows(s, @), !.b = FixValues(s, @, vals)]
(* implicit Euler: (A + M/dt) x = b + M/dt x_before *)
TimeStep(y, s, n, dt, prev) == LET M == TLCEval(MScale(R(1) \oslash dt, Mass(s, n)))
                               IN [systems[y] EXCEPT !.a = MAdd(@, M), !.b = VPlus(@, MApply(M, prev))]
(* -Laplace u = 1 with u = 0 on the boundary *)
SteadyMatrix(s, n) == FixRows(s, Stiffness(s, n))
UnitLoad(s, n) == Load(s, n, [k \in 1..NPoints(s) |-> R(1)])
IsSteady(s, n, x, tol) == Solves(SteadyMatrix(s, n), x, FixValues(s, UnitLoad(s, n), <<>>), tol)
(* du/dt - Laplace u = 1 from u = 0 with given values on the boundary: as many steps as fit into the time *)
Steps(dt, tend) == RFloor((tend \oslash dt) \oplus R("1/1000000000"))
IsUnsteady(s, n, dt, tend, vals, xs, tol) ==
  LET N == NPoints(s)
      M == TLCEval(MScale(R(1) \oslash dt, Mass(s, n)))
      A == FixRows(s, MAdd(Stiffness(s, n), M))
      F == UnitLoad(s, n)
  IN /\ Len(xs) = Steps(dt, tend) + 1
     /\ \A i \in 1..N : Len(xs[1]) = N /\ REq(xs[1][i], 0)
     /\ \A k \in 2..Len(xs) : Solves(A, xs[k], FixValues(s, VPlus(F, MApply(M, xs[k - 1])), vals), tol)
(* the geometry with the solution as one more coordinate *)
Lifted(s, x) == [s EXCEPT !.h = TLCEval([k \in DOMAIN s.h |->
                   SubSeq(s.h[k], 1, PDim(s)) \o <<Weight(s, k) \otimes x[k], Weight(s, k)>>])]
(* the solution on a lattice *)
AsEntry(s) == [kind |-> "n", dim |-> Dim(s), deg |-> s.deg, knots |-> s.knots, n |-> s.n,
               pts |-> TLCEval([k \in DOMAIN s.h |-> Project(s.h[k])]), w |-> TLCEval([k \in DOMAIN s.h |-> Weight(s, k)])]
ShowsSolution(data, s, x, scat) ==
  \E L \in {Lifted(s, x)} :
    /\ Len(data) = NAll(More(scat))
    /\ \A k \in DOMAIN data : \E v \in {Eval(L, Param(L, scat, Digits(More(scat), k - 1)))} :
         CloseTo(data[k], v[Len(v)], RMul("1/100000000", MaxAbs(x)), "51/10000000")
=============================================================================
