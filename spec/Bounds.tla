------------------------------- MODULE Bounds -------------------------------
(* Bound constraints, component by component: no state here.              *)
EXTENDS Integers, Sequences, F64
(* Operations on one variable x between lo and up, moving along d. *)
Clip(x, lo, up) == IF FLt(x, lo) THEN lo ELSE IF FGt(x, up) THEN up ELSE x
Feasible(x, lo, up) == FLe(lo, x) /\ FLe(x, up)
(* Direction of the move of the variable: -1, 0 or 1. *)
Heading(d, orient) == IF orient > 0 THEN FSgn(d) ELSE -FSgn(d)
Blocked(x, lo, up, h) == (h < 0 /\ FLe(x, lo)) \/ (h > 0 /\ FGe(x, up))
ProjDir(x, lo, up, d, orient) == IF Blocked(x, lo, up, Heading(d, orient)) THEN F0 ELSE d
Free(x, lo, up, d, orient) ==
  LET h == Heading(d, orient) IN IF h = 0 \/ Blocked(x, lo, up, h) THEN F0 ELSE F1
(* Step at which the bound ahead is reached. *)
Reach(x, lo, up, d, orient) ==
  LET h == Heading(d, orient)
  IN IF h < 0 THEN FDiv(FSub(x, lo), FAbs(d))
     ELSE IF h > 0 THEN FDiv(FSub(up, x), FAbs(d))
     ELSE "nan"

RECURSIVE MinTo(_, _), MaxTo(_, _)
MinTo(r, n) == IF n = 0 THEN FInf ELSE IF FIsNaN(r[n]) THEN MinTo(r, n - 1) ELSE FMin(MinTo(r, n - 1), r[n])
MaxTo(r, n) == IF n = 0 THEN F0 ELSE IF FIsNaN(r[n]) THEN MaxTo(r, n - 1) ELSE FMax(MaxTo(r, n - 1), r[n])
(* The smallest step reaching a bound, the smallest positive one, and the  *)
(* step beyond which nothing moves any more.                               *)
SMin1(r) == MinTo(r, Len(r))
SMin2(r) == LET p == [i \in DOMAIN r |-> IF FGt(r[i], F0) THEN r[i] ELSE "nan"] IN MinTo(p, Len(p))
SMax(r) == MaxTo(r, Len(r))
=============================================================================
