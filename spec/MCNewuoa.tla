------------------------------ MODULE MCNewuoa ------------------------------
(***************************************************************************)
(* The machine of Newuoa.tla closed with every function which answers from *)
(* a small set: all behaviours of the first Longest evaluations.  The      *)
(* answers are printed to be given to the implementation.                  *)
(***************************************************************************)
EXTENDS Newuoa, TLC, Json
CONSTANTS N, NPT, Longest, Answers, Emit
VARIABLES h, asked, hist
mcvars == <<h, asked, hist>>
Begin == Start(N, NPT, F1, Half, VZero(N))
MCInit == h = Begin /\ asked = <<>> /\ hist = <<>>
(* the point evaluated for a demand *)
Point(w) == CASE w.kind = "init" -> Add(w.h.base, w.d)
              [] w.kind = "model" -> LET r == w.d[1] IN Add(Best(w.h), Spread(LagQuad(Geo(w.h.x, Best(w.h), r), w.k), Sub(w.h.x[w.k], Best(w.h)), r))
              [] OTHER -> Add(Best(w.h), w.d)
Open(w) == w.kind \notin {"stop", "lost", "failed"}
MCNext ==
  /\ Len(hist) < Longest
  /\ \E w \in Wants(h) : /\ Open(w) = TRUE
       /\ \E a \in Answers :
            LET x == Point(w) IN
            /\ h' \in Learn(w, x, FNum(a, 1))
            /\ asked' = <<w, x>>
            /\ hist' = Append(hist, a)
MCSpec == MCInit /\ [][MCNext]_mcvars
View == <<h, IF asked = <<>> THEN "" ELSE asked[1].kind, hist>>

Busy == h.next \in {"trust", "far"}
Size == FAdd(F1, VNormInf(h.f))
Radius == FGe(h.rho, h.end) /\ FLe(h.rho, F1) /\ FGe(h.delta, h.rho)
RadiusFalls == [][FLe(h'.rho, h.rho)]_mcvars
(* the model interpolates the values at all the points *)
Interpolates == Busy => \A k \in 1 .. NPT : Close(Change(h.q, Sub(h.x[k], Best(h))), FSub(h.f[k], h.f[h.k]), FMul(Eps6, Size))
Symmetric == Busy => \A i, j \in 1 .. N : Close(h.q.H[i][j], h.q.H[j][i], FMul(Eps9, Size))
(* the Lagrange functions are what they should be *)
Lagrange == Busy => LET geo == Geo(h.x, Best(h), h.delta) IN
  ~Flat(geo) /\ \A j \in 1 .. NPT : LET v == Lags(geo, Sub(h.x[j], Best(h))) IN \A k \in 1 .. NPT : Close(v[k], IF j = k THEN F1 ELSE F0, Eps6)
(* a trust step stays within delta, and reduces the model at least as much *)
(* as the best step along the gradient                                     *)
Cauchy(q, delta) ==
  LET gg == VDot(q.g, q.g)
      c == VDot(q.g, Prod(q.H, q.g))
      far == FDiv(delta, FSqrt(gg))
      a == IF FGt(c, F0) THEN FMin(far, FDiv(gg, c)) ELSE far
  IN Change(q, VForce(VScale(FNeg(a), q.g)))
StepFits == asked # <<>> /\ asked[1].kind = "trust" =>
  LET w == asked[1] IN
  /\ FLe(VNorm2(w.d), FMul(w.h.delta, More(Eps6)))
  /\ FLe(Change(w.h.q, w.d), FMul(Cauchy(w.h.q, w.h.delta), Less(Eps6)))
(* a model step is at dstep of the best point, replaces the farthest, and  *)
(* its Lagrange function is at least what it is along the direction of the *)
(* point replaced                                                          *)
ModelFits == asked # <<>> /\ asked[1].kind = "model" =>
  LET w == asked[1]
      d == Sub(asked[2], Best(w.h))
      e == Sub(w.h.x[w.k], Best(w.h))
      q == LagQuad(Geo(w.h.x, Best(w.h), w.d[1]), w.k)
      s == FDiv(w.d[1], VNorm2(e))
      m == FMax(FAbs(Change(q, Times(s, e))), FAbs(Change(q, Times(FNeg(s), e))))
  IN /\ Close(VNorm2(d), w.d[1], FMul(Eps6, w.d[1]))
     /\ FGe(FAbs(Change(q, d)), FMul(m, Less(Eps6)))
     /\ \A j \in 1 .. NPT : FLe(VNorm2(Sub(w.h.x[j], Best(w.h))), FMul(VNorm2(e), More(Eps6)))
(* the least value found is never dropped *)
LeastKept == Busy => \A k \in DOMAIN hist : FLe(h.f[h.k], FNum(hist[k], 1))
BestIsLeast == Busy => \A k \in 1 .. NPT : FLe(h.f[h.k], h.f[k])
Decided == Wants(h) # {}
LostIfVague == \A w \in Wants(h) : w.kind = "lost" => FLe(VNorm2(w.h.q.g), FMul(Eps9, Size))
Out == Emit /\ Len(hist) = Longest => PrintT(ToJson(hist))
=============================================================================
