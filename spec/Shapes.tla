------------------------------- MODULE Shapes -------------------------------
(* Splines made of other splines or from a few numbers: translational and swept surfaces, squares, random splines; the
   elements of a spline and the projection of a point on it. All of them add to the store of SplineSys. *)
EXTENDS SplineSys

NewObject(g, post) == /\ store' = Put(store, g, post)
                      /\ ref' = Put(ref, g, post)
                      /\ slack' = Put(slack, g, R(0))

(* ---- translational surface: S(u, v) = T(u) + C(v) ---- *)
VAdd(a, b) == [i \in DOMAIN a |-> a[i] \oplus b[i]]
VSub(a, b) == [i \in DOMAIN a |-> a[i] \ominus b[i]]
VDot(a, b) == RDot(a, b)
VScale(f, a) == [i \in DOMAIN a |-> f \otimes a[i]]
VCross(a, b) == <<(a[2] \otimes b[3]) \ominus (a[3] \otimes b[2]),
                  (a[3] \otimes b[1]) \ominus (a[1] \otimes b[3]),
                  (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1])>>
Homogeneous(w, p) == Append([i \in DOMAIN p |-> w \otimes p[i]], w)
Translated(t, c) ==
  LET nt == t.n[1]
      nc == c.n[1]
  IN [kind |-> "n", deg |-> <<t.deg[1], c.deg[1]>>, knots |-> <<t.knots[1], c.knots[1]>>, n |-> <<nt, nc>>,
      h |-> TLCEval([k \in 1..(nt * nc) |->
              LET i == ((k - 1) % nt) + 1
                  j == ((k - 1) \div nt) + 1
              IN Homogeneous(Weight(t, i) \otimes Weight(c, j), VAdd(Project(t.h[i]), Project(c.h[j])))])]
SumLaw(s, t, c) ==
  LET pts == CoarseSamples(s)
  IN \A k \in DOMAIN pts : VNear(Eval(s, pts[k]), VAdd(Eval(t, <<pts[k][1]>>), Eval(c, <<pts[k][2]>>)), RMul(10, Tol))
Translate(g, t, c, post) ==
  /\ Holds(Close(post, Translated(store[t], store[c]), Tol))
  /\ Holds(SumLaw(post, store[t], store[c]))
  /\ NewObject(g, post)

(* ---- swept surface: n stations, uniform in the domain of the trajectory t; at each of them the section c, scaled, in the frame
   (tangent, normal x tangent, normal) of the trajectory. The normal is the binormal, or where the trajectory is straight
   the previous normal (first: the z axis) made orthogonal to the tangent. ---- *)
Station(t, n, i) == FirstKnot(t.knots[1]) \oplus (RDiv(i - 1, n - 1) \otimes (LastKnot(t.knots[1]) \ominus FirstKnot(t.knots[1])))
NormSq(a) == VDot(a, a)
Unit(a) == LET r == RSqrt(NormSq(a)) IN TLCEval([i \in DOMAIN a |-> RDecimals(a[i] \oslash r, 60)])      \* to 60 decimals
ZAxis == <<R(0), R(0), R(1)>>
(* straight up to rounding; the second derivative compared to the first *)
Straight(d1, d2) == NormSq(VCross(d1, d2)) \preceq RMul(Sq("1/1000000000000"), Sq(NormSq(d1)))
(* the size of the domain (its square: len2) says nothing about the shape of the curve *)
ClearlyCurved(d1, d2, len2) == /\ RMul("1/100000000", Sq(NormSq(d1))) \prec (NormSq(VCross(d1, d2)) \otimes len2)
                               /\ RMul(Sq("1/1000000000"), Sq(NormSq(d1))) \prec NormSq(VCross(d1, d2))
DomainSq(t) == LET d == LastKnot(t.knots[1]) \ominus FirstKnot(t.knots[1]) IN d \otimes d
Bent(d1, prev) == VSub(prev, VScale(VDot(prev, Unit(d1)), Unit(d1)))
NormalAt(d1, d2, prev) == IF Straight(d1, d2) THEN Unit(Bent(d1, prev)) ELSE Unit(VCross(d1, d2))
Frames(t, n) ==
  LET d1 == TLCEval([i \in 1..n |-> Deriv(t, <<Station(t, n, i)>>, <<1>>)])
      d2 == TLCEval([i \in 1..n |-> Deriv(t, <<Station(t, n, i)>>, <<2>>)])
      z[i \in 0..n] == IF i = 0 THEN ZAxis ELSE TLCEval(NormalAt(d1[i], d2[i], z[i - 1]))
  IN TLCEval([i \in 1..n |-> [at |-> Eval(t, <<Station(t, n, i)>>), w |-> EvalH(t, <<Station(t, n, i)>>)[4],
                              x |-> TLCEval(Unit(d1[i])), z |-> z[i], y |-> TLCEval(VCross(z[i], Unit(d1[i])))]])
Placed(fr, sc, p) == VAdd(fr.at, VAdd(VScale(R(sc[1]) \otimes p[1], fr.x), VAdd(VScale(R(sc[2]) \otimes p[2], fr.y), VScale(R(sc[3]) \otimes p[3], fr.z))))
(* knots by averaging the stations (The NURBS Book, equation 9.8) *)
AveragedKnots(v, p) == Repeat(v[1], p + 1)
                       \o [i \in 1..(Len(v) - 1 - p) |-> RSum([j \in 1..p |-> v[i + j]]) \oslash R(p)]
                       \o Repeat(v[Len(v)], p + 1)
Swept(t, c, n, scal) ==
  LET fr == Frames(t, n)
      pc == TLCEval([j \in 1..c.n[1] |-> Project(c.h[j])])
  IN [kind |-> "n", deg |-> <<t.deg[1], c.deg[1]>>,
      knots |-> <<TLCEval(AveragedKnots([i \in 1..n |-> Station(t, n, i)], t.deg[1])), c.knots[1]>>, n |-> <<n, c.n[1]>>,
      h |-> TLCEval([k \in 1..(n * c.n[1]) |->
              LET i == ((k - 1) % n) + 1
                  j == ((k - 1) \div n) + 1
              IN Homogeneous(fr[i].w \otimes Weight(c, j), Placed(fr[i], scal[i], pc[j]))])]
(* what a sweep is defined for: three coordinates, a regular trajectory, stations clear of kinks, at each station curved or straight
   beyond rounding, and no quarter turn of the normal between stations *)
ClearOfKnots(t, u) == LET dk == Distinct(t.knots[1])
                          near == RMul("1/1000000000", LastKnot(t.knots[1]) \ominus FirstKnot(t.knots[1]))
                      IN \A i \in 2..(Len(dk) - 1) : near \prec RAbs(dk[i] \ominus u)
Regular(t, c, n) ==
  /\ n >= t.deg[1] + 1 /\ n >= 2
  /\ PDim(t) = 3 /\ PDim(c) = 3
  /\ \A i \in 1..n : ClearOfKnots(t, Station(t, n, i))
  /\ LET d1 == TLCEval([i \in 1..n |-> Deriv(t, <<Station(t, n, i)>>, <<1>>)])
         d2 == TLCEval([i \in 1..n |-> Deriv(t, <<Station(t, n, i)>>, <<2>>)])
         len2 == DomainSq(t)
     IN /\ \A i \in 1..n : R("1/1000000") \prec (NormSq(d1[i]) \otimes len2)
        /\ \A i \in 1..n : \/ ClearlyCurved(d1[i], d2[i], len2)
                           \/ R("1/10000") \prec len2 /\ Straight(d1[i], d2[i])
        /\ Straight(d1[1], d2[1]) => RMul("1/100", NormSq(d1[1])) \prec (NormSq(d1[1]) \ominus (d1[1][3] \otimes d1[1][3]))
Curved(t, u, len2) == ClearlyCurved(Deriv(t, <<u>>, <<1>>), Deriv(t, <<u>>, <<2>>), len2)
(* no quarter turn between stations, nor a straight piece along the normal before it *)
NoQuarter(t, n) ==
  \E fr \in {Frames(t, n)} : \A i \in 2..n :
     /\ R("1/1000") \prec RAbs(VDot(fr[i].z, fr[i - 1].z))
     /\ \/ Curved(t, Station(t, n, i), DomainSq(t))
        \/ R("1/100") \prec NormSq(Bent(Deriv(t, <<Station(t, n, i)>>, <<1>>), fr[i - 1].z))
MaySweep(t, c, n) == Regular(t, c, n) /\ NoQuarter(t, n)
(* a quarter turn that no rounding can hide: before and after it the trajectory runs in planes of the axes *)
InPlane(t, u, z) ==
  LET k == Span(t.knots[1], u)
  IN \E j \in 1..3 : /\ \A i \in (k - t.deg[1])..k : REq(t.h[i + 1][j], R(0))
                     /\ \A m \in 1..3 : (m # j) => REq(z[m], R(0))
MustRefuse(t, c, n) ==
  /\ Regular(t, c, n)
  /\ \E fr \in {Frames(t, n)} : \E i \in 2..n :
        /\ REq(VDot(fr[i].z, fr[i - 1].z), R(0))
        /\ \A j \in {i - 1, i} : InPlane(t, Station(t, n, j), fr[j].z) /\ Curved(t, Station(t, n, j), DomainSq(t))
SweepRefused(t, c, n) == MustRefuse(store[t], store[c], n) /\ UNCHANGED vars
Sweep(g, t, c, n, scal, post) ==
  /\ Holds(Close(post, Swept(store[t], store[c], n, scal), RMul(10, Tol)))
  /\ NewObject(g, post)

(* ---- the square [-1, 1] x [-1, 1] over [0, 1] x [0, 1] ---- *)
SquareOf(p, k) ==
  LET m == k - p - 1
      U == Repeat(R(0), p + 1) \o [i \in 1..(k - 2 * p - 2) |-> RDiv(i, k - 2 * p - 1)] \o Repeat(R(1), p + 1)
      x(i) == RDiv(2 * i, m - 1) \ominus 1
  IN [kind |-> "b", deg |-> <<p, p>>, knots |-> <<U, U>>, n |-> <<m, m>>,
      h |-> TLCEval([q \in 1..(m * m) |-> <<x((q - 1) % m), x((q - 1) \div m), R(1)>>])]
Square(g, p, k, post) ==
  /\ Holds(Close(post, SquareOf(p, k), Tol))
  /\ NewObject(g, post)

(* ---- random splines: any of these ---- *)
UniformKnots(U, p, a, b) ==
  LET m == Len(U) - 2 * p - 2
  IN /\ m >= 0
     /\ CloseKnots(U, Repeat(a, p + 1) \o [i \in 1..m |-> a \oplus (RDiv(i, m + 1) \otimes (b \ominus a))] \o Repeat(b, p + 1), Tol)
     /\ REq(U[1], a) /\ REq(LastKnot(U), b)
RandomOk(kind, dim, a, b, maxdeg, pdim, s) ==
  /\ s.kind = kind /\ Dim(s) = dim /\ Consistent(s) /\ PDim(s) = pdim
  /\ \A d \in 1..dim : /\ s.deg[d] \in 1..maxdeg
                       /\ Len(s.knots[d]) \in (2 * s.deg[d] + 2)..(4 * s.deg[d])
                       /\ UniformKnots(s.knots[d], s.deg[d], a, b)
  /\ \A k \in DOMAIN s.h : /\ kind = "n" => RSub("1/10", Tol) \preceq Weight(s, k) /\ Weight(s, k) \preceq RAdd(2, Tol)
                           /\ \A i \in 1..pdim : RAbs(Project(s.h[k])[i]) \preceq RAdd(5, Tol)
Random(g, kind, dim, a, b, maxdeg, pdim, post) ==
  /\ Holds(RandomOk(kind, dim, a, b, maxdeg, pdim, post))
  /\ NewObject(g, post)

(* ---- elements: the non-empty knot spans of every direction, in order ---- *)
ElementsOf(s) == [d \in 1..Dim(s) |-> LET dk == Distinct(s.knots[d]) IN [i \in 1..(Len(dk) - 1) |-> <<dk[i], dk[i + 1]>>]]
SameElements(r, e) == /\ Len(r) = Len(e)
                      /\ \A d \in DOMAIN e : /\ Len(r[d]) = Len(e[d])
                                             /\ \A i \in DOMAIN e[d] : REq(r[d][i][1], e[d][i][1]) /\ REq(r[d][i][2], e[d][i][2])

(* ---- projection of a point p with foot f: p - S(f) is orthogonal to the spline in f (or f is the end of a curve and p lies
   beyond it). On tame splines (first derivatives nearly constant, p close compared to the curvature) the foot is the closest
   point, and the projection finds it within its tolerance. ---- *)
UnitDir(s, d) == [e \in 1..Dim(s) |-> IF e = d THEN 1 ELSE 0]
FirstDerivs(s, u) == TLCEval([d \in 1..Dim(s) |-> Deriv(s, u, UnitDir(s, d))])
SecondDerivs(s, u) == {Deriv(s, u, [e \in 1..Dim(s) |-> UnitDir(s, a)[e] + UnitDir(s, b)[e]]) : a, b \in 1..Dim(s)}
MiddleOf(s) == [d \in 1..Dim(s) |-> (FirstKnot(s.knots[d]) \oplus LastKnot(s.knots[d])) \oslash 2]
EndsOf(s, d) == <<FirstKnot(s.knots[d]), LastKnot(s.knots[d])>>
ProjectSamples(s) == TensorPoints([d \in 1..Dim(s) |-> SpanSamples(Distinct(s.knots[d]), s.deg[d]) \o EndsOf(s, d)], Dim(s))
Tame(s, pts) ==
  LET m == FirstDerivs(s, MiddleOf(s))
  IN /\ \A d \in 1..Dim(s) : R(0) \prec NormSq(m[d])
     /\ \A d, e \in 1..Dim(s) : d # e => RMul(25, Sq(VDot(m[d], m[e]))) \preceq RMul(4, NormSq(m[d]) \otimes NormSq(m[e]))     \* |cos| <= 0.4
     /\ \A k \in DOMAIN pts : \E f \in {FirstDerivs(s, pts[k])} :
          \A d \in 1..Dim(s) : RMul(25, NormSq(VSub(f[d], m[d]))) \preceq NormSq(m[d])                                         \* within 0.2
InDomainExactly(s, u) == \A d \in 1..Dim(s) : IsNum(u[d]) /\ InRange(s.knots[d], u[d])
Smooth1(s) == \A d \in 1..Dim(s) : LET dk == Distinct(s.knots[d])
                                   IN \A i \in 2..(Len(dk) - 1) : Mult(s.knots[d], dk[i]) < s.deg[d]
CloseEnough(s, pts, dist) ==       \* dist^2 * |S''|^2 <= (|S'|^2 / 10)^2
  /\ Smooth1(s)
  /\ LET m == FirstDerivs(s, MiddleOf(s))
         least == LET D == {NormSq(m[d]) : d \in 1..Dim(s)} IN CHOOSE x \in D : \A y \in D : x \preceq y
     IN \A k \in DOMAIN pts : \A w \in SecondDerivs(s, pts[k]) : (dist \otimes NormSq(w)) \preceq Sq(RMul("1/10", least))
IsFoot(s, p, tol, f) ==
  LET fd == FirstDerivs(s, f)
      v == VSub(p, Eval(s, f))
      along(d) == VDot(v, fd[d])
  IN /\ InDomainExactly(s, f)
     /\ \A d \in 1..Dim(s) : \/ RAbs(along(d)) \preceq RMul("1/10", tol \otimes NormSq(fd[d]))
                             \/ Dim(s) = 1 /\ REq(f[1], FirstKnot(s.knots[1])) /\ along(1) \prec R(0)
                             \/ Dim(s) = 1 /\ REq(f[1], LastKnot(s.knots[1])) /\ R(0) \prec along(1)
(* Splines that turn, traversed at a nearly constant speed: around the foot, as far as one step of the search grid (the
   elements of a curve, the scattering of a surface) reaches, the spline is nearly flat, and all that is not around the
   foot is clearly farther away from p. *)
BentCurve(s, p, f, dist) ==
  LET dk == Distinct(s.knots[1])
      hs == {dk[i + 1] \ominus dk[i] : i \in 1..(Len(dk) - 1)}
      h  == CHOOSE x \in hs : \A y \in hs : y \preceq x
      m2 == NormSq(FirstDerivs(s, MiddleOf(s))[1])
      mids == [i \in 1..(Len(dk) - 1) |-> (dk[i] \oplus dk[i + 1]) \oslash 2]
      xs == SpanSamples(dk, s.deg[1]) \o dk \o mids
      near(x) == RAbs(x \ominus f[1]) \preceq RMul("3/2", h)
      df == FirstDerivs(s, f)[1]
  IN /\ Smooth1(s)
     /\ R(0) \prec m2
     /\ \A y \in hs : h \preceq RMul(2, y)
     /\ \A i \in DOMAIN xs : \E d \in {FirstDerivs(s, <<xs[i]>>)[1]} : \E n \in {NormSq(d)} :
          /\ RMul("81/100", m2) \preceq n /\ n \preceq RMul("121/100", m2)
          /\ near(xs[i]) => NormSq(VSub(d, df)) \preceq RMul("2/5", m2)
          /\ ~ near(xs[i]) => (RMul(2, dist) \oplus (h \otimes h \otimes m2)) \prec DistSq(p, Eval(s, <<xs[i]>>))
          /\ \A w \in SecondDerivs(s, <<xs[i]>>) : (dist \otimes NormSq(w)) \preceq Sq(RMul("8/100", m2))
LatticePoints(s, n) == TensorPoints([d \in 1..2 |-> [i \in 1..n[d] |->
                          FirstKnot(s.knots[d]) \oplus ((LastKnot(s.knots[d]) \ominus FirstKnot(s.knots[d])) \otimes RDiv(i, n[d]))]], 2)
BentSurface(s, p, f, dist, n) ==
  LET h == [d \in 1..2 |-> (LastKnot(s.knots[d]) \ominus FirstKnot(s.knots[d])) \oslash n[d]]
      within(u, k) == \A d \in 1..2 : RAbs(u[d] \ominus f[d]) \preceq (R(k) \otimes h[d])
      lat == LatticePoints(s, n)
      corner == <<FirstKnot(s.knots[1]), FirstKnot(s.knots[2])>>
      df == FirstDerivs(s, f)
      least == LET D == {NormSq(df[d]) : d \in 1..2} IN CHOOSE x \in D : \A y \in D : x \preceq y
      ds == [i \in DOMAIN lat |-> DistSq(p, Eval(s, lat[i]))]
      ins == {ds[i] : i \in {k \in DOMAIN lat : within(lat[k], 1)}}
      best == CHOOSE x \in ins : \A y \in ins : x \preceq y
  IN /\ n[1] >= 5 /\ n[2] >= 5 /\ Smooth1(s)
     /\ \A d \in 1..2 : R(0) \prec NormSq(df[d])
     /\ RMul(25, Sq(VDot(df[1], df[2]))) \preceq RMul(4, NormSq(df[1]) \otimes NormSq(df[2]))
     /\ ins # {}
     /\ \A i \in DOMAIN lat : within(lat[i], 1) \/ RMul("6/5", best) \prec ds[i]
     /\ within(corner, 1) \/ RMul("6/5", best) \prec DistSq(p, Eval(s, corner))
     /\ \A i \in DOMAIN lat : within(lat[i], 2) =>
          /\ \E g \in {FirstDerivs(s, lat[i])} : \A d \in 1..2 : RMul(16, NormSq(VSub(g[d], df[d]))) \preceq NormSq(df[d])
          /\ \A w \in SecondDerivs(s, lat[i]) : (dist \otimes NormSq(w)) \preceq Sq(RMul("1/10", least))
(* the precondition under which something is promised beyond a parameter of the domain *)
Projectable(s, p, tol, f, n) ==
  LET pts == ProjectSamples(s)
      dist == DistSq(p, Eval(s, f))
  IN /\ IsFoot(s, p, tol, f)
     /\ \/ /\ Tame(s, pts)
           /\ dist \preceq Sq(RoundSlack(s)) \/ CloseEnough(s, pts, dist)
        \/ Dim(s) = 1 /\ BentCurve(s, p, f, dist)
        \/ Dim(s) = 2 /\ BentSurface(s, p, f, dist, n)
FootFound(s, tol, f, u) == \A d \in 1..Dim(s) : RAbs(u[d] \ominus f[d]) \preceq (RMul(3, tol) \oplus Tol)
=============================================================================
