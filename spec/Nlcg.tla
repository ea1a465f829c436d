-------------------------------- MODULE Nlcg --------------------------------
(***************************************************************************)
(* Nonlinear conjugate gradients (nlcg.c).                                 *)
(*                                                                         *)
(* The optimizer is a record o; the client owns the variables x, and calls *)
(* the optimizer with the function value f and gradient g at x.  The       *)
(* search is along minus d: x = x0 - alpha d.                              *)
(*                                                                         *)
(* Numbers computed by the library may be rounded differently from those   *)
(* of the specification: `tau' bounds the relative error of an inner       *)
(* product and o.ed is a bound on the error of the norm of d.  A decision  *)
(* of the method is only imposed when it does not depend on these errors.  *)
(***************************************************************************)
EXTENDS LineSearch

Eps(c) == IF c.float THEN "0x1p-23" ELSE "0x1p-52"
Tau(c) == IF c.float THEN "1e-5" ELSE "1e-13"
DefaultSearch == New("csrch", <<"1e-4", "0.1", "0x1p-52">>)

NewOpt(c, search) ==
  [c |-> c, task |-> "ERROR", status |-> "OPK_NOT_STARTED", evs |-> 0, its |-> 0, rss |-> 0,
   alpha |-> F0, beta |-> F0, gnorm |-> F0, ginit |-> F0, f0 |-> F0, dtg0 |-> F0, e0 |-> F0,
   x0 |-> <<>>, g0 |-> <<>>, d |-> <<>>, ed |-> F0, ls |-> search]
StartOpt(o) == [o EXCEPT !.task = "COMPUTE_FG", !.status = "OPK_SUCCESS", !.evs = 0, !.its = 0, !.rss = 0, !.ls.mem = <<>>]
Threshold(o, ginit) == Max3(F0, o.c.gatol, FMul(o.c.grtol, ginit))

-----------------------------------------------------------------------------
(* The update rules: beta = num/den, with bounds on the errors of both.    *)
FletcherReeves == 1
HestenesStiefel == 2
PolakRibierePolyak == 3
Fletcher == 4
LiuStorey == 5
DaiYuan == 6
PerryShanno == 7
HagerZhang == 8
Clamped(rule) == rule \notin {FletcherReeves, Fletcher, PerryShanno}

Ratio(o, g) ==
  LET rule == o.c.rule
      tau == Tau(o.c)
      y == VSub(g, o.g0)
      ng == VNorm2(g)  n0 == VNorm2(o.g0)  nd == VNorm2(o.d)  ny == FAdd(ng, n0)
      gg == FMul(ng, ng)
      gty == VDot(g, y)  dty == FNeg(VDot(o.d, y))  yty == VDot(y, y)  dtg == FNeg(VDot(o.d, g))
      egty == FMul(tau, FMul(ng, ny))
      egg == FMul(tau, gg)
      edty == FMul(FAdd(FMul(tau, nd), o.ed), ny)
      ratio == FDiv(dtg, dty)
      R(n, d, en, ed) == [num |-> n, den |-> d, enum |-> en, eden |-> ed]
  IN CASE rule = FletcherReeves -> R(gg, FMul(n0, n0), egg, FMul(tau, FMul(n0, n0)))
       [] rule = HestenesStiefel -> R(gty, dty, egty, edty)
       [] rule = PolakRibierePolyak -> R(gty, FMul(n0, n0), egty, FMul(tau, FMul(n0, n0)))
       [] rule = Fletcher -> R(FNeg(gg), o.dtg0, egg, o.e0)
       [] rule = LiuStorey -> R(FNeg(gty), o.dtg0, egty, o.e0)
       [] rule = DaiYuan -> R(gg, dty, egg, edty)
       [] rule \in {PerryShanno, HagerZhang} ->
            LET q == FMul("2", FMul(yty, ratio))
            IN R(FSub(gty, q), dty,
                 FAdd(egty, FAdd(FAbs(FMul("2", FMul(FMul(tau, FMul(ny, ny)), ratio))),
                                 FAbs(FDiv(FMul(FMul("2", FMul(ny, ny)), FMul(FAdd(FMul(tau, nd), o.ed), FAdd(ng, FMul(ny, FAbs(ratio))))), dty)))),
                 edty)
(* Zero, negative or uncertain numbers. *)
Vague(a, e) == FLe(FAbs(a), FMul("16", e))
BetaOf(o, r) ==
  IF FEq(r.den, F0) THEN F0
  ELSE LET b == FDiv(r.num, r.den)
       IN IF Clamped(o.c.rule) /\ o.c.powell /\ FLt(b, F0) THEN F0 ELSE b
BetaError(r) ==
  FMul("16", FDiv(FAdd(r.enum, FMul(FAbs(FDiv(r.num, r.den)), r.eden)), FAbs(r.den)))
(* The new direction with the value b of beta. *)
Conjugate(o, g, b) ==
  LET y == VSub(g, o.g0)
      nd == VNorm2(o.d)
      tau == Tau(o.c)
  IN IF o.c.rule # PerryShanno
     THEN [d |-> VAdd(g, VScale(b, o.d)),
           ed |-> FAdd(FMul(Eps(o.c), FMul("4", FAdd(VNorm2(g), FAbs(FMul(b, nd))))), FAbs(FMul(b, o.ed)))]
     ELSE LET yty == VDot(y, y)
              dty == FNeg(VDot(o.d, y))
              c1 == FDiv(dty, yty)
              c2 == FMul(b, c1)
              c3 == FDiv(VDot(o.d, g), yty)
              ny == FAdd(VNorm2(g), VNorm2(o.g0))
              e1 == FDiv(FMul(FAdd(FMul(tau, nd), o.ed), ny), yty)   \* error of c1 and c3
              k == FMul("16", FMul(ny, FDiv(ny, yty)))               \* (and of yty)
          IN [d |-> VAdd(VScale(c1, g), VAdd(VScale(c2, o.d), VScale(c3, y))),
              ed |-> FMul(FAdd("1", FMul(tau, k)),
                       FAdd(FMul("4", FMul(e1, FAdd(FAdd(VNorm2(g), VNorm2(y)), FAbs(FMul(b, nd))))),
                            FAdd(FAbs(FMul(c2, o.ed)),
                                 FMul(FMul(tau, k), FAdd(FAbs(FMul(c1, VNorm2(g))), FAdd(FAbs(FMul(c2, nd)), FAbs(FMul(c3, VNorm2(y)))))))))]
(* Is d (of error ed) a direction of sufficient descent? *)
Slope(d, g) == FNeg(VDot(d, g))
SlopeError(o, d, ed, g) == FMul(FAdd(FMul(Tau(o.c), VNorm2(d)), ed), VNorm2(g))
SlopeLimit(o, d, g) == IF FGt(o.c.eps, F0) THEN FNeg(FMul(o.c.eps, FMul(VNorm2(d), VNorm2(g)))) ELSE F0
Descends(o, d, g) == LET s == Slope(d, g) IN FLt(s, F0) /\ ~FGt(s, SlopeLimit(o, d, g))
SureDescends(o, d, ed, g) == LET s == Slope(d, g) e == FMul("4", SlopeError(o, d, ed, g)) IN FLt(FAdd(s, e), SlopeLimit(o, d, g))
SureFails(o, d, ed, g) == LET s == Slope(d, g) e == FMul("4", SlopeError(o, d, ed, g)) IN FGt(FSub(s, e), SlopeLimit(o, d, g))

(* The step along the steepest descent. *)
InitialStep(o, x, f, gnorm) ==
  LET gg == FMul(gnorm, gnorm)
      xn == VNorm2(x)
  IN IF o.c.fg /\ FLt(o.c.fmin, f) THEN FDiv(FMul("2", FSub(f, o.c.fmin)), gg)
     ELSE IF ~FEq(f, F0) THEN FMul("2", FAbs(FDiv(f, gg)))
     ELSE IF FGt(xn, F0) THEN FDiv(FMul(o.c.delta, xn), gnorm) ELSE FDiv(o.c.delta, gnorm)
(* and along a conjugate direction. *)
NextStep(o, dtg) == IF o.c.phua THEN FMul(o.alpha, FDiv(o.dtg0, dtg)) ELSE o.alpha

-----------------------------------------------------------------------------
(* The exact algorithm.  Each operator gives the optimizer and the         *)
(* variables after the call.                                               *)
Fail(o, x, status) == [o |-> [o EXCEPT !.task = "ERROR", !.status = status], x |-> x]
Along(o, alpha) == VSub(o.x0, VScale(alpha, o.d))
Accept(o, x, g, its) ==
  LET gnorm == VNorm2(g)
      ginit == IF o.evs = 0 THEN gnorm ELSE o.ginit
  IN [o |-> [o EXCEPT !.evs = @ + 1, !.its = its, !.gnorm = gnorm, !.ginit = ginit, !.status = "OPK_SUCCESS",
                      !.task = IF FLe(gnorm, Threshold(o, ginit)) THEN "FINAL_X" ELSE "NEW_X"],
      x |-> x]
Evaluated(o, x, f, g) ==
  IF o.evs = 0 THEN Accept(o, x, g, o.its)
  ELSE LET r == Outcome(o.ls, f, Slope(o.d, g))
           p == [o EXCEPT !.ls = After(o.ls, r), !.alpha = r.stp]
       IN IF r.task = "SEARCH" THEN [o |-> [p EXCEPT !.evs = @ + 1], x |-> Along(p, r.stp)]
          ELSE IF r.task = "CONVERGENCE" \/ (r.task = "WARNING" /\ r.status = "OPK_ROUNDING_ERRORS_PREVENT_PROGRESS")
          THEN Accept(p, x, g, o.its + 1)
          ELSE Fail([p EXCEPT !.evs = @ + 1], x, r.status)
Search(o, x, f, g) ==
  LET first == o.evs <= 1
      beta == IF first THEN F0 ELSE BetaOf(o, Ratio(o, g))
      dn == IF FEq(beta, F0) THEN <<>> ELSE Conjugate(o, g, beta).d
      cg == ~FEq(beta, F0) /\ Descends(o, dn, g)
      d == IF cg THEN dn ELSE g
      dtg == Slope(d, g)
      alpha == IF cg THEN NextStep(o, dtg) ELSE InitialStep(o, x, f, o.gnorm)
      ls == Start(o.ls, f, dtg, alpha, FMul(o.c.stpmin, alpha), FMul(o.c.stpmax, alpha))
      p == [o EXCEPT !.rss = @ + (IF cg \/ first THEN 0 ELSE 1), !.beta = IF cg THEN beta ELSE F0,
                     !.d = d, !.alpha = alpha, !.x0 = x, !.g0 = g, !.f0 = f, !.dtg0 = dtg, !.ls = ls]
  IN IF ls.task = "SEARCH" THEN [o |-> [p EXCEPT !.task = "COMPUTE_FG", !.status = "OPK_SUCCESS"], x |-> Along(p, alpha)]
     ELSE Fail(p, x, ls.status)
Call(o, x, f, g) ==
  CASE o.task = "COMPUTE_FG" -> Evaluated(o, x, f, g)
    [] o.task \in {"NEW_X", "FINAL_X"} -> Search(o, x, f, g)
    [] OTHER -> [o |-> o, x |-> x]
=============================================================================
