---------------------------- MODULE LineSearch ----------------------------
(***************************************************************************)
(* Line searches (lnsrch.c).  The state of a line search is a record; a    *)
(* search is started with the value f0 and the slope g0 of the function at *)
(* step 0, a first step and bounds for the steps, then iterated with the   *)
(* value and slope at the step it asked for until it ends.                 *)
(*                                                                         *)
(* Three layers are specified:                                             *)
(*  - Protocol: what any line search may do;                               *)
(*  - Conv, AtMin, AtMax: when each method must stop;                      *)
(*  - Step: the trial steps of each method, with the intermediate state of *)
(*    the method of More and Thuente in the field cs.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, F64

Max2(a, b) == IF FGe(a, b) THEN a ELSE b
Min2(a, b) == IF FLe(a, b) THEN a ELSE b
Half == "0.5"

(* Creation: kind and parameters. *)
Positive(a) == FGt(a, F0)
ValidNew(kind, p) ==
  CASE kind = "backtrack" -> Positive(p[1]) /\ FLt(p[1], Half) /\ Positive(p[2]) /\ FLt(p[2], F1)
    [] kind = "nonmonotone" -> /\ p[1] >= 1 /\ Positive(p[2]) /\ Positive(p[3]) /\ FLt(p[3], p[4]) /\ FLt(p[4], F1)
                               /\ \A k \in 2 .. 4 : FFinite(p[k])
    [] kind = "csrch" -> \A k \in 1 .. 3 : FGe(p[k], F0)
(* Values of the parameters for which the documentation and usage differ. *)
OpenNew(kind, p) == kind = "backtrack" /\ FEq(p[1], Half)
New(kind, p) == [kind |-> kind, p |-> p, task |-> "ERROR", status |-> "OPK_NOT_STARTED", stp |-> F0, lo |-> F0, hi |-> F0,
                 f0 |-> F0, g0 |-> F0, mem |-> <<>>, cs |-> <<>>]

-----------------------------------------------------------------------------
StartStatus(g0, stp, lo, hi) ==
  IF FLt(lo, F0) THEN "OPK_STPMIN_LT_ZERO"
  ELSE IF FGt(lo, hi) THEN "OPK_STPMIN_GT_STPMAX"
  ELSE IF FLt(stp, lo) THEN "OPK_STEP_LT_STPMIN"
  ELSE IF FGt(stp, hi) THEN "OPK_STEP_GT_STPMAX"
  ELSE IF FGe(g0, F0) THEN "OPK_NOT_A_DESCENT"
  ELSE "OPK_SUCCESS"

(* The last m function values at the starts, most recent last. *)
Remember(s, f0) ==
  IF s.kind # "nonmonotone" THEN <<>>
  ELSE LET q == Append(s.mem, f0) IN IF Len(q) > s.p[1] THEN Tail(q) ELSE q
CStart(f0, g0, lo, hi) ==
  [stx |-> F0, fx |-> f0, gx |-> g0, sty |-> F0, fy |-> f0, gy |-> g0, stmin |-> lo, stmax |-> hi,
   width |-> FSub(hi, lo), width1 |-> FMul("2", FSub(hi, lo)), brackt |-> FALSE, stage |-> 1]
Start(s, f0, g0, stp, lo, hi) ==
  LET st == StartStatus(g0, stp, lo, hi)
  IN IF st = "OPK_SUCCESS"
     THEN [s EXCEPT !.task = "SEARCH", !.status = st, !.stp = FNorm(stp), !.lo = FNorm(lo), !.hi = FNorm(hi),
                    !.f0 = FNorm(f0), !.g0 = FNorm(g0), !.mem = Remember(s, FNorm(f0)),
                    !.cs = IF s.kind = "csrch" THEN CStart(FNorm(f0), FNorm(g0), FNorm(lo), FNorm(hi)) ELSE <<>>]
     ELSE [s EXCEPT !.task = "ERROR", !.status = st]

-----------------------------------------------------------------------------
(* Protocol. *)
Refusal(s, stp) ==
  IF s.task # "SEARCH" THEN "OPK_NOT_STARTED"
  ELSE IF ~FEq(stp, s.stp) THEN "OPK_STEP_CHANGED"
  ELSE "none"
Refuse(s, why) == [s EXCEPT !.task = "ERROR", !.status = why]
Warnings == {"OPK_STEP_EQ_STPMIN", "OPK_STEP_EQ_STPMAX", "OPK_XTOL_TEST_SATISFIED", "OPK_ROUNDING_ERRORS_PREVENT_PROGRESS"}
Failures == {"OPK_STEP_OUTSIDE_BRACKET", "OPK_NOT_A_DESCENT", "OPK_STPMIN_GT_STPMAX"}
Within(s, stp) == FLe(s.lo, stp) /\ FLe(stp, s.hi)
(* A search evaluated at s.stp may end or ask for another step. *)
Allowed(s, task, status, stp) ==
  /\ Within(s, stp)
  /\ CASE task = "SEARCH" -> status = "OPK_SUCCESS"
       [] task = "CONVERGENCE" -> status = "OPK_SUCCESS" /\ FEq(stp, s.stp)
       [] task = "WARNING" -> /\ status \in (IF s.kind = "csrch" THEN Warnings ELSE {"OPK_STEP_EQ_STPMIN"})
                              /\ status = "OPK_STEP_EQ_STPMIN" => FEq(stp, s.lo)
                              /\ status = "OPK_STEP_EQ_STPMAX" => FEq(stp, s.hi)
       [] task = "ERROR" -> s.kind = "csrch" /\ status \in Failures
       [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Stopping conditions. *)
RECURSIVE MaxOf(_, _)
MaxOf(q, n) == IF n = 1 THEN q[1] ELSE Max2(MaxOf(q, n - 1), q[n])
Reference(s) == IF s.kind = "nonmonotone" THEN MaxOf(s.mem, Len(s.mem)) ELSE s.f0
Ftol(s) == CASE s.kind = "nonmonotone" -> s.p[2] [] OTHER -> s.p[1]
FTest(s) == FAdd(Reference(s), IF s.kind = "csrch" THEN FMul(s.stp, FMul(Ftol(s), s.g0)) ELSE FMul(FMul(Ftol(s), s.stp), s.g0))
Decrease(s, f) == FLe(f, FTest(s))
Curvature(s, g) == FLe(FAbs(g), FNeg(FMul(s.p[2], s.g0)))
Conv(s, f, g) == Decrease(s, f) /\ (s.kind = "csrch" => Curvature(s, g))
GTest(s) == FMul(Ftol(s), s.g0)
(* The step is the smallest (largest) one and should be smaller (larger). *)
AtMin(s, f, g) ==
  IF s.kind = "csrch" THEN FEq(s.stp, s.lo) /\ (~Decrease(s, f) \/ FGe(g, GTest(s)))
  ELSE FLe(s.stp, s.lo) /\ ~Decrease(s, f)
AtMax(s, f, g) == s.kind = "csrch" /\ FEq(s.stp, s.hi) /\ Decrease(s, f) /\ FLe(g, GTest(s))
StopsRight(s, f, g, task, status) ==
  /\ (task = "CONVERGENCE") <=> Conv(s, f, g)
  /\ ~Conv(s, f, g) =>
       /\ AtMin(s, f, g) => task = "WARNING" /\ status = "OPK_STEP_EQ_STPMIN"
       /\ (AtMax(s, f, g) /\ ~AtMin(s, f, g)) => task = "WARNING" /\ status = "OPK_STEP_EQ_STPMAX"

-----------------------------------------------------------------------------
(* Trial steps of the backtracking searches. *)
Backtrack(s, f) ==
  LET amin == s.p[2]
      q == FNeg(FMul(s.stp, s.g0))
      r == FMul(FSub(f, FSub(s.f0, q)), "2")
      stp == IF FGe(amin, Half) \/ FLe(r, F0) THEN FMul(s.stp, Half)
             ELSE IF FLe(q, FMul(amin, r)) THEN FMul(s.stp, amin)
             ELSE FMul(s.stp, FDiv(q, r))
  IN Max2(stp, s.lo)
Nonmonotone(s, f) ==
  LET q == FMul(FMul(FNeg(s.g0), s.stp), s.stp)
      r == FMul(FSub(FSub(f, s.f0), FMul(s.stp, s.g0)), "2")
      quad == FGt(r, F0) /\ FLe(FMul(s.p[3], r), q) /\ FLe(q, FMul(FMul(s.p[4], s.stp), r))
      bisect == FMul(FAdd(s.stp, s.lo), Half)   \* (may be rounded to s.stp)
  IN Max2(IF quad THEN FDiv(q, r) ELSE IF FLt(bisect, s.stp) THEN bisect ELSE s.lo, s.lo)

(* The safeguarded step of More and Thuente.  c: the best endpoint stx, the  *)
(* other one sty, with values and slopes, and whether they bracket.        *)
Max3(a, b, c) == LET m == IF FGt(b, a) THEN b ELSE a IN IF FGt(c, m) THEN c ELSE m
Opposite(a, b) == FSgn(a) * FSgn(b) < 0
CStepStatus(c, stp, lo, hi) ==
  IF c.brackt /\ (IF FLt(c.stx, c.sty) THEN FLe(stp, c.stx) \/ FGe(stp, c.sty) ELSE FLe(stp, c.sty) \/ FGe(stp, c.stx))
  THEN "OPK_STEP_OUTSIDE_BRACKET"
  ELSE IF FGe(FMul(c.gx, FSub(stp, c.stx)), F0) THEN "OPK_NOT_A_DESCENT"
  ELSE IF FGt(lo, hi) THEN "OPK_STPMIN_GT_STPMAX" ELSE "OPK_SUCCESS"
(* Cubic interpolation: theta, and gamma of the sign of `neg'. *)
Theta(fa, fb, h, da, db) == FAdd(FAdd(FDiv(FMul("3", FSub(fa, fb)), h), da), db)
Gamma(theta, da, db, neg) ==
  LET s == Max3(FAbs(theta), FAbs(da), FAbs(db))
      t == FDiv(theta, s)
      d == FSub(FMul(t, t), FMul(FDiv(da, s), FDiv(db, s)))
      g == FMul(s, FSqrt(d))
  IN [disc |-> d, g |-> IF neg THEN FNeg(g) ELSE g]
Farther(a, b, from) == FGt(FAbs(FSub(a, from)), FAbs(FSub(b, from)))
CStepTrial(c, stp, f, g, lo, hi) ==
  LET stx == c.stx  fx == c.fx  dx == c.gx
      h == FSub(stp, stx)
      back == FLt(stp, stx)
      theta == Theta(fx, f, h, dx, g)
  IN IF FGt(f, fx) THEN
       LET gam == Gamma(theta, dx, g, back).g
           r == FDiv(FAdd(FSub(gam, dx), theta), FAdd(FAdd(FSub(gam, dx), gam), g))
           stpc == FAdd(stx, FMul(r, h))
           stpq == FAdd(stx, FMul(FDiv(FDiv(dx, FAdd(FDiv(FSub(fx, f), h), dx)), "2"), h))
       IN IF FLt(FAbs(FSub(stpc, stx)), FAbs(FSub(stpq, stx))) THEN stpc
          ELSE FAdd(stpc, FDiv(FSub(stpq, stpc), "2"))
     ELSE IF Opposite(g, dx) THEN
       LET gam == Gamma(theta, dx, g, FGt(stp, stx)).g
           r == FDiv(FAdd(FSub(gam, g), theta), FAdd(FAdd(FSub(gam, g), gam), dx))
           stpc == FAdd(stp, FMul(r, FSub(stx, stp)))
           stpq == FAdd(stp, FMul(FDiv(g, FSub(g, dx)), FSub(stx, stp)))
       IN IF Farther(stpc, stpq, stp) THEN stpc ELSE stpq
     ELSE IF FLt(FAbs(g), FAbs(dx)) THEN
       LET G0 == Gamma(theta, dx, g, FGt(stp, stx))
           gam == IF FGt(G0.disc, F0) THEN G0.g ELSE F0
           r == FDiv(FAdd(FSub(gam, g), theta), FAdd(FAdd(gam, FSub(dx, g)), gam))
           stpc == IF FLt(r, F0) /\ ~FEq(gam, F0) THEN FAdd(stp, FMul(r, FSub(stx, stp)))
                   ELSE IF FGt(stp, stx) THEN hi ELSE lo
           stpq == FAdd(stp, FMul(FDiv(g, FSub(g, dx)), FSub(stx, stp)))
           far == IF Farther(stpc, stpq, stp) THEN stpc ELSE stpq
           near == IF FLt(FAbs(FSub(stpc, stp)), FAbs(FSub(stpq, stp))) THEN stpc ELSE stpq
           lim == FAdd(stp, FMul("0.66", FSub(c.sty, stp)))
       IN IF c.brackt
          THEN IF FGt(stp, stx) THEN (IF FGt(near, lim) THEN lim ELSE near) ELSE (IF FLt(near, lim) THEN lim ELSE near)
          ELSE LET m == IF FGt(far, hi) THEN hi ELSE far IN IF FLt(m, lo) THEN lo ELSE m
     ELSE IF c.brackt THEN
       LET th == Theta(f, c.fy, FSub(c.sty, stp), c.gy, g)
           gam == Gamma(th, c.gy, g, FGt(stp, c.sty)).g
           r == FDiv(FAdd(FSub(gam, g), th), FAdd(FAdd(FSub(gam, g), gam), c.gy))
       IN FAdd(stp, FMul(r, FSub(c.sty, stp)))
     ELSE IF FGt(stp, stx) THEN hi ELSE lo
(* The interval after evaluation at stp. *)
CStepInterval(c, stp, f, g) ==
  IF FGt(f, c.fx) THEN [c EXCEPT !.sty = stp, !.fy = f, !.gy = g, !.brackt = TRUE]
  ELSE IF Opposite(g, c.gx)
       THEN [c EXCEPT !.sty = c.stx, !.fy = c.fx, !.gy = c.gx, !.stx = stp, !.fx = f, !.gx = g, !.brackt = TRUE]
       ELSE [c EXCEPT !.stx = stp, !.fx = f, !.gx = g]

(* One iteration of the search of More and Thuente. *)
Tilt(c, gt) ==  \* the auxiliary function subtracts the line of slope gt
  [c EXCEPT !.fx = FSub(c.fx, FMul(c.stx, gt)), !.fy = FSub(c.fy, FMul(c.sty, gt)), !.gx = FSub(c.gx, gt), !.gy = FSub(c.gy, gt)]
Untilt(c, gt) ==
  [c EXCEPT !.fx = FAdd(c.fx, FMul(c.stx, gt)), !.fy = FAdd(c.fy, FMul(c.sty, gt)), !.gx = FAdd(c.gx, gt), !.gy = FAdd(c.gy, gt)]
Csrch(s, f, g) ==
  LET c0 == s.cs
      stp == s.stp
      gt == GTest(s)
      xtol == s.p[3]
      c == [c0 EXCEPT !.stage = IF c0.stage = 1 /\ Decrease(s, f) /\ FGe(g, F0) THEN 2 ELSE c0.stage]
      tilt == c.stage = 1 /\ FLe(f, c.fx) /\ ~Decrease(s, f)
      e == IF tilt THEN Tilt(c, gt) ELSE c
      fe == IF tilt THEN FSub(f, FMul(stp, gt)) ELSE f
      ge == IF tilt THEN FSub(g, gt) ELSE g
      st == CStepStatus(e, stp, c.stmin, c.stmax)
  IN IF c0.brackt /\ FLe(FSub(c0.stmax, c0.stmin), FMul(xtol, c0.stmax))
     THEN [task |-> "WARNING", status |-> "OPK_XTOL_TEST_SATISFIED", stp |-> stp, cs |-> c0]
     ELSE IF c0.brackt /\ (FLe(stp, c0.stmin) \/ FGe(stp, c0.stmax))
     THEN [task |-> "WARNING", status |-> "OPK_ROUNDING_ERRORS_PREVENT_PROGRESS", stp |-> stp, cs |-> c0]
     ELSE IF st # "OPK_SUCCESS" THEN [task |-> "ERROR", status |-> st, stp |-> stp, cs |-> c]
     ELSE LET t1 == CStepTrial(e, stp, fe, ge, c.stmin, c.stmax)
              i1 == CStepInterval(e, stp, fe, ge)
              i == IF tilt THEN Untilt(i1, gt) ELSE i1
              w == FAbs(FSub(i.sty, i.stx))
              t2 == IF i.brackt /\ FGe(w, FMul("0.66", i.width1)) THEN FAdd(i.stx, FMul(Half, FSub(i.sty, i.stx))) ELSE t1
              j == IF i.brackt
                   THEN [i EXCEPT !.width1 = i.width, !.width = w, !.stmin = Min2(i.stx, i.sty), !.stmax = Max2(i.stx, i.sty)]
                   ELSE [i EXCEPT !.stmin = FAdd(t2, FMul(FSub(t2, i.stx), "1.1")), !.stmax = FAdd(t2, FMul(FSub(t2, i.stx), "4"))]
              t3 == Min2(Max2(t2, s.lo), s.hi)
              t4 == IF j.brackt /\ (FLe(t3, j.stmin) \/ FGe(t3, j.stmax) \/ FLe(FSub(j.stmax, j.stmin), FMul(xtol, j.stmax)))
                    THEN j.stx ELSE t3
          IN [task |-> "SEARCH", status |-> "OPK_SUCCESS", stp |-> t4, cs |-> j]

(* The outcome of an iteration. *)
Method(s, f, g) ==
  IF Conv(s, f, g) THEN [task |-> "CONVERGENCE", status |-> "OPK_SUCCESS", stp |-> s.stp, cs |-> s.cs]
  ELSE IF AtMin(s, f, g) THEN [task |-> "WARNING", status |-> "OPK_STEP_EQ_STPMIN", stp |-> s.lo, cs |-> s.cs]
  ELSE IF AtMax(s, f, g) THEN [task |-> "WARNING", status |-> "OPK_STEP_EQ_STPMAX", stp |-> s.hi, cs |-> s.cs]
  ELSE CASE s.kind = "csrch" -> Csrch(s, f, g)
         [] OTHER -> LET t == IF s.kind = "backtrack" THEN Backtrack(s, f) ELSE Nonmonotone(s, f)
                     IN [task |-> IF s.kind = "nonmonotone" /\ FLe(t, F0) THEN "WARNING" ELSE "SEARCH",
                         status |-> IF s.kind = "nonmonotone" /\ FLe(t, F0) THEN "OPK_STEP_EQ_STPMIN" ELSE "OPK_SUCCESS",
                         stp |-> t, cs |-> <<>>]
(* The bounds on the steps stop a search which wants to stay there. *)
Outcome(s, f, g) ==
  LET r == Method(s, f, g)
      search == r.task = "SEARCH"
      atmin == FLe(s.stp, s.lo)
      atmax == ~atmin /\ FGe(s.stp, s.hi)
  IN IF FLe(r.stp, s.lo)
     THEN [r EXCEPT !.stp = s.lo, !.task = IF search /\ atmin THEN "WARNING" ELSE r.task,
                    !.status = IF search /\ atmin THEN "OPK_STEP_EQ_STPMIN" ELSE r.status]
     ELSE IF FGe(r.stp, s.hi)
     THEN [r EXCEPT !.stp = s.hi, !.task = IF search /\ atmax THEN "WARNING" ELSE r.task,
                    !.status = IF search /\ atmax THEN "OPK_STEP_EQ_STPMAX" ELSE r.status]
     ELSE r
After(s, r) == [s EXCEPT !.task = r.task, !.status = r.status, !.stp = r.stp, !.cs = r.cs]
GetStep(s) == IF s.task = "SEARCH" THEN s.stp ELSE "-1"
=============================================================================
