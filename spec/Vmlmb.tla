------------------------------- MODULE Vmlmb -------------------------------
(***************************************************************************)
(* Limited memory variable metric method with optional bounds (vmlmb.c).   *)
(*                                                                         *)
(* The optimizer is a record o; the client owns the variables x and calls  *)
(* the optimizer with the function value f and gradient g at x.  The       *)
(* search is along minus d: x = P(x0 - alpha d) with P the projection on   *)
(* the bounds.  o.pairs holds the last differences of variables and        *)
(* (projected) gradients, most recent first.                               *)
(*                                                                         *)
(* As in Nlcg.tla, `tau' and o.ed bound the rounding errors.               *)
(***************************************************************************)
EXTENDS LineSearch, Bounds

Eps(c) == IF c.float THEN "0x1p-23" ELSE "0x1p-52"
Tau(c) == IF c.float THEN "1e-5" ELSE "1e-13"
Rnd(c, v) == VNormalise([i \in DOMAIN v |-> IF c.float THEN FRnd32(v[i]) ELSE v[i]])
(* c: [mem, blmvm, save, bounded, open, lo, up, delta, eps, gatol, grtol, stpmin, stpmax, float] *)
Variant(c) == IF ~c.bounded THEN "LBFGS" ELSE IF c.blmvm THEN "BLMVM" ELSE "VMLMB"
DefaultSearch(c) == IF c.bounded THEN New("backtrack", <<"1e-4", "0.1">>) ELSE New("csrch", <<"1e-4", "0.9", "0x1p-52">>)
Memory(c, n) == IF c.mem > n THEN n ELSE c.mem

NewOpt(c, search) ==
  [c |-> c, task |-> "ERROR", status |-> "OPK_NOT_STARTED", evs |-> 0, its |-> 0, rss |-> 0,
   alpha |-> F0, gnorm |-> F0, ginit |-> F0, f0 |-> F0, dtg0 |-> F0, e0 |-> F0,
   x0 |-> <<>>, g0 |-> <<>>, d |-> <<>>, ed |-> F0, pairs |-> <<>>, ls |-> search]
Project(c, x) == VNormalise([i \in DOMAIN x |-> Clip(x[i], c.lo[i], c.up[i])])
IsFeasible(c, x) == \A i \in DOMAIN x : Feasible(x[i], c.lo[i], c.up[i])
StartOpt(o) == [o EXCEPT !.task = "COMPUTE_FG", !.status = "OPK_SUCCESS", !.evs = 0, !.its = 0, !.rss = 0, !.ls.mem = <<>>, !.pairs = <<>>]
Threshold(o, ginit) == Max3(F0, o.c.gatol, FMul(o.c.grtol, ginit))

(* Free variables at x: those which may move against the gradient (all of  *)
(* them when the bound set has no bounds at all: c.open).                  *)
Mask(c, x, g) == VNormalise([i \in DOMAIN x |-> IF c.bounded /\ ~c.open THEN Free(x[i], c.lo[i], c.up[i], g[i], -1) ELSE F1])
Projected(c, x, g) == VMul(Mask(c, x, g), g)
(* The gradient that makes the pairs. *)
PairGradient(c, x, g) == IF Variant(c) = "BLMVM" THEN Projected(c, x, g) ELSE g
WDot(w, u, v) == VDot(w, VMul(u, v))
WNorm(w, u) == FSqrt(WDot(w, u, u))

-----------------------------------------------------------------------------
(* Memory of the pairs.  At an iterate, the last step is added; when memory *)
(* is saved, the oldest pair of a full memory then makes room for the      *)
(* start of the next search.                                               *)
Push(o, x, g) ==
  LET s == Rnd(o.c, VSub(x, o.x0))
      y == Rnd(o.c, VSub(PairGradient(o.c, x, g), o.g0))
      q == <<[s |-> s, y |-> y]>> \o o.pairs
      m == Memory(o.c, Len(x))
  IN IF Len(q) > m THEN SubSeq(q, 1, m) ELSE q
Keep(o, q, n) == IF o.c.save /\ Len(q) = Memory(o.c, n) THEN SubSeq(q, 1, Len(q) - 1) ELSE q

(* The two loop recursion on the pairs of positive curvature (restricted   *)
(* to the free variables by the weights w, for VMLMB).  vague: the sign of *)
(* some curvature is not known for sure; e: a bound on the error of d.     *)
Curvatures(c, w, q) ==
  [k \in DOMAIN q |->
     LET sty == WDot(w, q[k].s, q[k].y)
         ns == WNorm(w, q[k].s)
         ny == WNorm(w, q[k].y)
         e == FMul(Tau(c), FMul(ns, ny))
     IN [sty |-> sty, use |-> FGt(sty, F0), ns |-> ns, ny |-> ny,
         rel |-> FDiv(e, FAbs(sty)), vague |-> ~FEq(FMul(ns, ny), F0) /\ FLe(FAbs(sty), FMul("16", e))]]
RECURSIVE Down(_, _, _, _, _, _)
RECURSIVE Up(_, _, _, _, _, _)
(* Error of the coefficient <u, d>/sty when d is known to within e. *)
CoefError(c, v, nu, a, d, e) == FAdd(FDiv(FMul(nu, FAdd(e, FMul(Tau(c), VNorm2(d)))), v.sty), FMul(FAbs(a), v.rel))
(* most recent pair first *)
Down(c, q, cv, w, k, r) ==
  IF k > Len(q) THEN r
  ELSE IF ~cv[k].use THEN Down(c, q, cv, w, k + 1, [r EXCEPT !.a = Append(@, F0), !.ea = Append(@, F0)])
  ELSE LET a == FDiv(WDot(w, r.d, q[k].s), cv[k].sty)
           ea == CoefError(c, cv[k], cv[k].ns, a, r.d, r.e)
           ny == VNorm2(q[k].y)
       IN Down(c, q, cv, w, k + 1,
               [a |-> Append(r.a, a), ea |-> Append(r.ea, ea), d |-> VSub(r.d, VScale(a, q[k].y)),
                e |-> FAdd(r.e, FMul(ny, FAdd(ea, FMul(Tau(c), FAbs(a)))))])
Up(c, q, cv, w, k, r) ==
  IF k = 0 THEN r
  ELSE IF ~cv[k].use THEN Up(c, q, cv, w, k - 1, r)
  ELSE LET b == FDiv(WDot(w, r.d, q[k].y), cv[k].sty)
           eb == CoefError(c, cv[k], cv[k].ny, b, r.d, r.e)
           ns == VNorm2(q[k].s)
       IN Up(c, q, cv, w, k - 1,
             [r EXCEPT !.d = VAdd(@, VScale(FSub(r.a[k], b), q[k].s)),
                       !.e = FAdd(@, FMul(ns, FAdd(FAdd(r.ea[k], eb), FMul(Tau(c), FAdd(FAbs(r.a[k]), FAbs(b))))))])
Recursion(o, x, g, q) ==
  LET c == o.c
      w == IF Variant(c) = "VMLMB" THEN Mask(c, x, g) ELSE [i \in DOMAIN x |-> F1]
      cv == VForce(Curvatures(c, w, q))
      usable == {k \in DOMAIN q : cv[k].use}
      k0 == CHOOSE k \in usable : \A j \in usable : k <= j
      gamma == FDiv(cv[k0].sty, WDot(w, q[k0].y, q[k0].y))
      down == Down(c, q, cv, w, 1, [d |-> g, a |-> <<>>, ea |-> <<>>, e |-> FMul(Eps(c), VNorm2(g))])
      up == Up(c, q, cv, w, Len(q),
               [down EXCEPT !.d = VScale(gamma, down.d),
                            !.e = FMul(gamma, FAdd(down.e, FMul(FAdd(cv[k0].rel, Tau(c)), VNorm2(down.d))))])
      dp == VMul(w, up.d)
  IN [ok |-> usable # {}, vague |-> \E k \in DOMAIN q : cv[k].vague,
      d |-> IF usable = {} THEN <<>>
            ELSE IF c.bounded THEN VNormalise([i \in DOMAIN x |-> ProjDir(x[i], c.lo[i], c.up[i], dp[i], -1)]) ELSE dp,
      ed |-> IF usable = {} THEN F0 ELSE FAdd(up.e, FMul(Tau(c), VNorm2(dp)))]
Slope(d, g) == FNeg(VDot(d, g))
SlopeError(o, d, ed, g) == FMul(FAdd(FMul(Tau(o.c), VNorm2(d)), ed), VNorm2(g))
(* (the norm of the projected gradient is used) *)
SlopeLimit(o, d) == IF FGt(o.c.eps, F0) THEN FNeg(FMul(o.c.eps, FMul(VNorm2(d), o.gnorm))) ELSE F0
Descends(o, d, g) == LET s == Slope(d, g) IN FLt(s, F0) /\ ~FGt(s, SlopeLimit(o, d))
SureDescends(o, d, ed, g) == FLt(FAdd(Slope(d, g), FMul("4", SlopeError(o, d, ed, g))), SlopeLimit(o, d))
SureFails(o, d, ed, g) == FGt(FSub(Slope(d, g), FMul("4", SlopeError(o, d, ed, g))), SlopeLimit(o, d))

InitialStep(o, x, g, f) ==
  LET gg == FMul(o.gnorm, o.gnorm)
      xn == IF o.c.bounded THEN WNorm(Mask(o.c, x, g), x) ELSE VNorm2(x)
  IN IF ~FEq(f, F0) THEN FMul("2", FAbs(FDiv(f, gg)))
     ELSE IF FGt(xn, F0) THEN FDiv(FMul(o.c.delta, xn), o.gnorm) ELSE FDiv(o.c.delta, o.gnorm)
(* The step beyond which the projection of the search does not move. *)
LastStep(c, x, d) == SMax([i \in DOMAIN x |-> Reach(x[i], c.lo[i], c.up[i], d[i], -1)])

-----------------------------------------------------------------------------
(* The exact algorithm. *)
Fail(o, x, status) == [o |-> [o EXCEPT !.task = "ERROR", !.status = status], x |-> x]
Along(o, alpha) == LET x == VSub(o.x0, VScale(alpha, o.d)) IN IF o.c.bounded THEN Project(o.c, x) ELSE x
Accept(o, x, g, its) ==
  LET gnorm == VNorm2(Projected(o.c, x, g))
      ginit == IF o.evs = 0 THEN gnorm ELSE o.ginit
  IN [o |-> [o EXCEPT !.evs = @ + 1, !.its = its, !.gnorm = gnorm, !.ginit = ginit, !.status = "OPK_SUCCESS",
                      !.task = IF FLe(gnorm, Threshold(o, ginit)) THEN "FINAL_X" ELSE "NEW_X"],
      x |-> x]
Evaluated(o, x, f, g) ==
  IF o.evs = 0 THEN Accept(o, x, g, o.its)
  ELSE LET dtg == IF o.c.bounded THEN FDiv(VDot(VSub(x, o.x0), g), o.alpha) ELSE Slope(o.d, g)
           r == Outcome(o.ls, f, dtg)
           p == [o EXCEPT !.ls = After(o.ls, r), !.alpha = r.stp]
       IN IF r.task = "SEARCH" THEN [o |-> [p EXCEPT !.evs = @ + 1], x |-> Along(p, r.stp)]
          ELSE IF r.task = "CONVERGENCE" \/ (r.task = "WARNING" /\ r.status = "OPK_ROUNDING_ERRORS_PREVENT_PROGRESS")
          THEN Accept(p, x, g, o.its + 1)
          ELSE Fail([p EXCEPT !.evs = @ + 1], x, r.status)
Search(o, x, f, g) ==
  LET q == IF o.its >= 1 THEN Push(o, x, g) ELSE o.pairs
      r == Recursion(o, x, g, q)
      qn == r.ok /\ Descends(o, r.d, g)
      d == IF qn THEN r.d ELSE Projected(o.c, x, g)
      dtg == IF qn THEN Slope(d, g) ELSE FNeg(FMul(o.gnorm, o.gnorm))
      a == IF qn THEN F1 ELSE InitialStep(o, x, g, f)
      last == IF o.c.bounded THEN LastStep(o.c, x, d) ELSE FInf
      alpha == Min2(a, last)
      ls == Start(o.ls, f, dtg, alpha, FMul(o.c.stpmin, a), Min2(FMul(o.c.stpmax, a), last))
      p == [o EXCEPT !.rss = @ + (IF ~qn /\ q # <<>> THEN 1 ELSE 0), !.d = d, !.alpha = alpha, !.f0 = f, !.dtg0 = dtg,
                     !.pairs = Keep(o, IF qn THEN q ELSE <<>>, Len(x)), !.x0 = x, !.g0 = PairGradient(o.c, x, g), !.ls = ls]
  IN IF FLe(last, F0) THEN Fail([p EXCEPT !.ls = o.ls, !.pairs = IF qn THEN q ELSE <<>>], x, "OPK_WOULD_BLOCK")
     ELSE IF ls.task = "SEARCH" THEN [o |-> [p EXCEPT !.task = "COMPUTE_FG", !.status = "OPK_SUCCESS"], x |-> Along(p, alpha)]
     ELSE Fail(p, x, ls.status)
Call(o, x, f, g) ==
  CASE o.task = "COMPUTE_FG" -> Evaluated(o, x, f, g)
    [] o.task \in {"NEW_X", "FINAL_X"} -> Search(o, x, f, g)
    [] OTHER -> [o |-> o, x |-> x]
=============================================================================
