------------------------------ MODULE RevComm ------------------------------
(***************************************************************************)
(* What is common to the optimizers driven by reverse communication: the   *)
(* acceptance of an iterate by the line search, judged from what the       *)
(* client sees (variables, function values, gradients and steps), with a   *)
(* bound on the rounding errors.                                           *)
(***************************************************************************)
EXTENDS LineSearch

RECURSIVE AbsSumTo(_, _, _, _)
AbsSumTo(x, y, g, n) ==
  IF n = 0 THEN F0 ELSE FAdd(AbsSumTo(x, y, g, n - 1), FMul(FAdd(FAbs(x[n]), FAbs(y[n])), FAbs(g[n])))
(* Slope at the variables x reached from x0 by a step alpha, gradient g.   *)
SlopeAt(x, x0, g, alpha) == FDiv(VDot(VSub(x, x0), g), alpha)
SlopeErr(x, x0, g, alpha, eps) ==
  FDiv(FMul(FMul("16", FMul(FOf(Len(x), 1), eps)), AbsSumTo(x, x0, g, Len(x))), FAbs(alpha))

(* s: the search, with s.g0 known to within e0; f and gd (to within e) the *)
(* value and slope at the current step.                                    *)
DecSlack(s, e0) ==
  FAdd(FMul(FMul(Ftol(s), s.stp), e0),
       FMul("0x1p-48", FAdd(FAbs(Reference(s)), FAbs(FMul(FMul(Ftol(s), s.stp), s.g0)))))
CurvSlack(s, e0, e) == FAdd(e, FMul(s.p[2], FAdd(e0, FMul("0x1p-48", FAbs(s.g0)))))
MayConverge(s, f, gd, e0, e) ==
  /\ ~FGt(f, FAdd(FTest(s), DecSlack(s, e0)))
  /\ s.kind = "csrch" => ~FGt(FAbs(gd), FAdd(FNeg(FMul(s.p[2], s.g0)), CurvSlack(s, e0, e)))
MustConverge(s, f, gd, e0, e) ==
  /\ FLe(f, FSub(FTest(s), DecSlack(s, e0)))
  /\ s.kind = "csrch" => FLe(FAbs(gd), FSub(FNeg(FMul(s.p[2], s.g0)), CurvSlack(s, e0, e)))
(* More and Thuente's search gives up with the best step so far when it    *)
(* comes back to a step already tried (rounding errors).                   *)
GivesUp(s, tried) == s.kind = "csrch" /\ \E t \in tried : FEq(t, s.stp)

(* Statuses of a search which failed. *)
SearchFailures(s) == IF s.kind = "csrch" THEN (Warnings \ {"OPK_ROUNDING_ERRORS_PREVENT_PROGRESS"}) \cup Failures
                     ELSE {"OPK_STEP_EQ_STPMIN"}
(* (with bounds on the steps known up to the relative error r, or not: NaN) *)
IsBound(stp, b, r) == FIsNaN(b) \/ FClose(stp, b, r, F0)
FailsRight(s, status, stp, r) ==
  /\ status \in SearchFailures(s)
  /\ status = "OPK_STEP_EQ_STPMIN" => IsBound(stp, s.lo, r)
  /\ status = "OPK_STEP_EQ_STPMAX" => IsBound(stp, s.hi, r)
Inside(s, stp, r) == (FLe(s.lo, stp) \/ IsBound(stp, s.lo, r)) /\ (FLe(stp, s.hi) \/ IsBound(stp, s.hi, r))
=============================================================================
