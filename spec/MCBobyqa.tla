------------------------------ MODULE MCBobyqa ------------------------------
(***************************************************************************)
(* The machine of Bobyqa.tla closed with every function which answers from *)
(* a small set: all behaviours of the first Longest evaluations.  The      *)
(* answers are printed to be given to the implementation.                  *)
(***************************************************************************)
EXTENDS Bobyqa, TLC, Json
CONSTANTS N, NPT, Longest, Answers, Emit, Corner
VARIABLES h, asked, hist
mcvars == <<h, asked, hist>>
(* bounds: at the starting point, on one side, or away from it *)
Lower == VForce([i \in 1 .. N |-> IF Corner = "all" \/ (Corner = "one" /\ i = 1) THEN F0 ELSE FOf(-5, 2)])
Upper == VForce([i \in 1 .. N |-> IF Corner = "one" /\ i = 2 THEN FOf(5, 4) ELSE FOf(5, 2)])
Begins == Start(N, NPT, F1, Half, VZero(N), Lower, Upper)
MCInit == h = Begins /\ asked = <<>> /\ hist = <<>>
(* the point evaluated for a demand *)
Point(w) == CASE w.kind = "init" -> Add(w.h.base, w.d)
              [] w.kind = "alternative" -> Add(Best(w.h), Chosen(w.h, w.k, w.d[1]))
              [] OTHER -> Add(Best(w.h), w.d)
Open(w) == w.kind \notin {"stop", "lost", "failed"}
MCNext ==
  /\ Len(hist) < Longest
  /\ \E w \in Wants(h) : /\ Open(w) = TRUE
       /\ \E a \in Answers :
            LET x == Point(w) IN
            /\ h' \in Learn(w, x, FNum(a, 1))
            /\ asked' = <<w, x>>
            /\ hist' = Append(hist, a)
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<h, IF asked = <<>> THEN "" ELSE asked[1].kind, hist>>

Busy == h.next \in {"trust", "far"}
Size == FAdd(F1, VNormInf(h.f))
Radius == FGe(h.rho, h.end) /\ FLe(h.rho, F1) /\ FGe(h.delta, h.rho)
RadiusFalls == [][FLe(h'.rho, h.rho)]_mcvars
(* the model interpolates the values at all the points *)
Interpolates == Busy => \A k \in 1 .. NPT : Close(Change(h.q, Sub(h.x[k], Best(h))), FSub(h.f[k], h.f[h.k]), FMul(Eps6, Size))
Symmetric == Busy => \A i, j \in 1 .. N : Close(h.q.H[i][j], h.q.H[j][i], FMul(Eps9, Size))
(* the Lagrange functions are what they should be *)
Lagrange == Busy => LET geo == Geo(h.x, Best(h), h.delta) IN
  ~Flat(geo) /\ \A j \in 1 .. NPT : LET v == Lags(geo, Sub(h.x[j], Best(h))) IN \A k \in 1 .. NPT : Close(v[k], IF j = k THEN F1 ELSE F0, Eps6)
(* the reduction along the free part of the gradient, within the bounds    *)
Projected(g) ==
  LET p == Moves(g)
      v == VForce(VNeg(Free(g.q.g, Blocked(p, g.q.g))))
      vv == VDot(v, v)
      c == VDot(v, Prod(g.q.H, v))
      room(i) == IF FGt(v[i], F0) THEN FDiv(p.hi[i], v[i]) ELSE FDiv(p.lo[i], v[i])
      S == {FDiv(g.delta, FSqrt(vv))} \cup {room(i) : i \in {i \in 1 .. N : v[i] # F0}} \cup (IF FGt(c, F0) THEN {FDiv(vv, c)} ELSE {})
      a == CHOOSE a \in S : \A b \in S : FLe(a, b)
  IN IF vv = F0 THEN F0 ELSE Change(g.q, Times(a, v))
(* a trust step stays within delta, and never increases the model; no     *)
(* point leaves the bounds                                                 *)
StepFits == asked # <<>> /\ asked[1].kind = "trust" =>
  LET w == asked[1] IN
  /\ FLe(VNorm2(w.d), FMul(w.h.delta, More(Eps6)))
  /\ FLe(Change(w.h.q, w.d), FMul(Projected(w.h), Less(Eps6)))
Feasible == asked # <<>> => \A i \in 1 .. N : FLe(Lower[i], asked[2][i]) /\ FLe(asked[2][i], Upper[i])
(* an alternative step replaces the farthest point, and the denominator of *)
(* the updating formula is at least what it is at the end of every line    *)
AlternativeFits == asked # <<>> /\ asked[1].kind = "alternative" =>
  LET w == asked[1]
      d == Sub(asked[2], Best(w.h))
      e == Sub(w.h.x[w.k], Best(w.h))
  IN /\ FLe(VNorm2(d), FMul(w.d[1], More(Eps6)))
     /\ FGt(Denom(Geo(w.h.x, Best(w.h), w.d[1]), w.k, d), F0)
     /\ \A j \in 1 .. NPT : FLe(VNorm2(Sub(w.h.x[j], Best(w.h))), FMul(VNorm2(e), More(Eps6)))
(* the least value found is never dropped *)
LeastKept == Busy => \A k \in DOMAIN hist : FLe(h.f[h.k], FNum(hist[k], 1))
BestIsLeast == Busy => \A k \in 1 .. NPT : FLe(h.f[h.k], h.f[k])
Decided == Wants(h) # {}
LostIfVague == \A w \in Wants(h) : w.kind = "lost" => FLe(VNorm2(Free(w.h.q.g, Blocked(Moves(w.h), w.h.q.g))), FMul(Eps9, Size))
Out == Emit /\ Len(hist) = Longest => PrintT(ToJson(hist))
=============================================================================
