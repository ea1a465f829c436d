----------------------------- MODULE Quadratic -----------------------------
(***************************************************************************)
(* Quadratic interpolation at a set of points: Lagrange functions,         *)
(* interpolant of the least Frobenius norm, updating formula.  Common to   *)
(* the specifications of NEWUOA and BOBYQA.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, F64

FNum(k, d) == FOf(k, d)
Half == FOf(1, 2)
Tenth == FOf(1, 10)
Two == FOf(2, 1)
Eps12 == FDiv(FOf(1, 1000000), FOf(1000000, 1))
Eps9 == FOf(1, 1000000000)
Eps6 == FOf(1, 1000000)
Eps4 == FOf(1, 10000)
Less(e) == FSub(F1, e)
More(e) == FAdd(F1, e)
Close(a, b, tol) == FLe(FAbs(FSub(a, b)), tol)
Sq(a) == FMul(a, a)
Mul3(a, b, c) == FMul(a, FMul(b, c))
At(x, y, rho) == \A i \in DOMAIN x : Close(x[i], y[i], FAdd(FMul(Eps6, rho), FMul(Eps12, FAbs(y[i]))))
(* Outcomes of a < b, a and b being known to tol. *)
Tests(a, b, tol) == (IF FLt(a, FAdd(b, tol)) THEN {TRUE} ELSE {}) \cup (IF FGe(a, FSub(b, tol)) THEN {FALSE} ELSE {})
-----------------------------------------------------------------------------
(* Linear combination c + a*x + b*y of vectors, moves of a point.          *)
Sub(x, y) == VForce(VSub(x, y))
Add(x, y) == VForce(VAdd(x, y))
Times(a, x) == VForce(VScale(a, x))
Lin(a, x, b, y) == VForce(VAxpy(a, x, VForce(VScale(b, y))))
Prod(A, x) == VForce(MMulV(A, x))
MAdd(A, B) == VForce([i \in 1 .. Len(A) |-> Add(A[i], B[i])])
MTimes(a, A) == VForce([i \in 1 .. Len(A) |-> Times(a, A[i])])
-----------------------------------------------------------------------------
(* Geometry of the points x, seen from o at the scale s: u holds their     *)
(* positions and h the inverse of the matrix of the interpolation problem. *)
Geo(x, o, s) ==
  LET m == Len(x)
      n == Len(o)
      u == VForce([k \in 1 .. m |-> VForce(VScale(FDiv(F1, s), VForce(VSub(x[k], o))))])
      row(k) == VForce([j \in 1 .. m |-> FMul(Half, Sq(VDot(u[k], u[j])))] \o <<F1>> \o u[k])
      tail(i) == VForce([j \in 1 .. m + n + 1 |-> IF j > m THEN F0 ELSE IF i = 0 THEN F1 ELSE u[j][i]])
  IN [u |-> u, s |-> s, n |-> n, m |-> m, h |-> MInverse(VForce([i \in 1 .. m + n + 1 |-> IF i <= m THEN row(i) ELSE tail(i - m - 1)]))]
Flat(geo) == geo.h = <<>>
(* at the position v (relative to o): values of the Lagrange functions and *)
(* coefficient beta of the updating formula                                *)
WVec(geo, v) == VForce([k \in 1 .. geo.m |-> FMul(Half, Sq(VDot(geo.u[k], v)))] \o <<F1>> \o v)
Lags(geo, d) == LET w == WVec(geo, Times(FDiv(F1, geo.s), d)) IN VForce([k \in 1 .. geo.m |-> VDot(geo.h[k], w)])
Beta(geo, d) == LET v == Times(FDiv(F1, geo.s), d)
                    w == WVec(geo, v)
                IN FSub(FMul(Half, Sq(VDot(v, v))), VDot(w, Prod(geo.h, w)))
Alpha(geo, k) == geo.h[k][k]
(* The inverse should be symmetric: rounding errors of beta at d, at most. *)
Rough(geo, d) ==
  LET w == WVec(geo, Times(FDiv(F1, geo.s), d))
      N == geo.m + geo.n + 1
      a == VForce([i \in 1 .. N |-> FAbs(w[i])])
  IN FMul(FOf(10, 1), VDot(a, VForce([i \in 1 .. N |-> VDot(a, VForce([j \in 1 .. N |-> FAbs(FSub(geo.h[i][j], geo.h[j][i]))]))])))
(* the quadratic with the given coefficients in the basis of the inverse   *)
Quad(geo, c) ==
  LET lam == SubSeq(c, 1, geo.m)
      col == VForce([i \in 1 .. geo.n |-> VForce([k \in 1 .. geo.m |-> geo.u[k][i]])])
      lc == VForce([i \in 1 .. geo.n |-> VForce(VMul(lam, col[i]))])
      s2 == Sq(geo.s)
  IN [g |-> VForce([i \in 1 .. geo.n |-> FDiv(c[geo.m + 1 + i], geo.s)]),
      H |-> VForce([i \in 1 .. geo.n |-> VForce([j \in 1 .. geo.n |-> FDiv(VDot(lc[i], col[j]), s2)])])]
LagQuad(geo, k) == Quad(geo, geo.h[k])
RECURSIVE CombTo(_, _, _)
CombTo(geo, f, k) == IF k = 0 THEN VZero(geo.m + geo.n + 1) ELSE VForce(VAxpy(f[k], geo.h[k], CombTo(geo, f, k - 1)))
(* the interpolant of the least Frobenius norm (derivatives at o) *)
Interpolant(geo, f) == Quad(geo, CombTo(geo, f, geo.m))
(* a quadratic is given by its derivatives at some point *)
Change(q, d) == FAdd(VDot(q.g, d), FMul(Half, VDot(d, Prod(q.H, d))))
Moved(q, d) == [q EXCEPT !.g = Add(q.g, Prod(q.H, d))]
Plus(q, a, p) == [g |-> VForce(VAxpy(a, p.g, q.g)), H |-> MAdd(q.H, MTimes(a, p.H))]
-----------------------------------------------------------------------------
Axis(n, i, s) == VForce([j \in 1 .. n |-> IF j = i THEN s ELSE F0])
First(f) == CHOOSE k \in DOMAIN f : \A j \in DOMAIN f : FLe(f[k], f[j]) /\ (j < k => FLt(f[k], f[j]))
Best(h) == h.x[h.k]
(* Reduction of the radius. *)
NextRho(rho, end) ==
  LET r == FDiv(rho, end)
      tol == FMul(Eps9, r)
  IN (IF FLe(r, FAdd(FOf(16, 1), tol)) THEN {end} ELSE {})
     \cup (IF FGt(r, FSub(FOf(16, 1), tol)) /\ FLe(r, FAdd(FOf(250, 1), tol)) THEN {FMul(FSqrt(r), end)} ELSE {})
     \cup (IF FGt(r, FSub(FOf(250, 1), tol)) THEN {FMul(Tenth, rho)} ELSE {})
Snap(delta, rho) == {IF b THEN rho ELSE delta : b \in Tests(delta, FMul(FOf(3, 2), rho), FMul(Eps9, rho))}
Demand(kind, h, k, d) == [kind |-> kind, h |-> h, k |-> k, d |-> d]
(* a gradient which is nothing but rounding errors has no direction *)
Noise(h) == FDiv(FAdd(FMul(Eps12, VNormInf(VForce([j \in 1 .. h.m |-> FSub(h.f[j], h.f[h.k])]))), Mul3(Eps12, FOf(1, 1000), FAbs(h.f[h.k]))), h.rho)
Vague(h, g) == IF FLe(VNorm2(g), Noise(h)) THEN ~(h.nf = h.m /\ VNorm2(g) = F0) ELSE FALSE
(* the k-th point becomes x *)
Replaced(h, k, x, f, diff) ==
  LET won == FLt(f, h.f[h.k])
      pts == [h.x EXCEPT ![k] = x]
      b == IF won THEN k ELSE h.k
      geo == Geo(pts, pts[b], h.delta)
      q == IF won THEN Moved(h.q, Sub(x, Best(h))) ELSE h.q
  IN IF Flat(geo) THEN [h EXCEPT !.next = "lost"]
     ELSE [h EXCEPT !.x = pts, !.f = [@ EXCEPT ![k] = f], !.k = b, !.q = Plus(q, diff, LagQuad(geo, k))]
=============================================================================
