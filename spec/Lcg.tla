-------------------------------- MODULE Lcg --------------------------------
(***************************************************************************)
(* Linear conjugate gradients with reverse communication (lcg.c): plain,   *)
(* preconditioned and in a trust region.                                   *)
(*                                                                         *)
(* cg.stage is what the client sees in `state'.  cg.first tells that the   *)
(* product requested is that of the starting point; cg.moved the number of *)
(* steps since the beginning; cg.pre that there is a preconditioner,       *)
(* cg.tr that there is a trust region.  What a call finds is an outcome:   *)
(* the sign of r'z, the sign of the curvature p'q along the direction, the *)
(* position of x with respect to the boundary.                             *)
(***************************************************************************)
EXTENDS Integers
VARIABLE cg
Start == 0
Restart == 1
NewX == 2
Precond == 3
AP == 4
Finish == 5
NonConvex == 6
Truncated == 7
Error == -1
Over == {Finish, NonConvex, Truncated}
Stages == (0 .. 7) \cup {Error}

LInit(pre, tr) == cg = [stage |-> Start, first |-> FALSE, moved |-> 0, pre |-> pre, tr |-> tr]
Goto(s) == cg' = [cg EXCEPT !.stage = s, !.first = FALSE]
(* The client sets the stage before it begins. *)
Begin(how) == how \in {Start, Restart} /\ cg' = [cg EXCEPT !.stage = how, !.first = FALSE, !.moved = 0]
(* START: from zero. *)
FromZero == cg.stage = Start /\ cg' = [cg EXCEPT !.stage = NewX, !.moved = 0, !.first = FALSE]
(* RESTART: from the given point, which may be too long. *)
FromX(inside) == /\ cg.stage = Restart
                 /\ IF ~cg.tr \/ inside THEN cg' = [cg EXCEPT !.stage = AP, !.first = TRUE, !.moved = 0]
                    ELSE cg' = [cg EXCEPT !.stage = Truncated, !.first = FALSE, !.moved = 0]
AskPrecond == cg.stage = NewX /\ cg.pre /\ Goto(Precond)
(* A direction from the residuals z; s is the sign of r'z. *)
Direction(s) ==
  /\ (cg.stage = NewX /\ ~cg.pre) \/ cg.stage = Precond
  /\ IF s > 0 THEN cg' = [cg EXCEPT !.stage = AP, !.first = FALSE]
     ELSE Goto(IF s = 0 THEN Finish ELSE NonConvex)
(* The residuals of the starting point. *)
Residuals == cg.stage = AP /\ cg.first /\ cg' = [cg EXCEPT !.stage = NewX, !.first = FALSE]
(* A step along the direction: curvature of sign s, and where it leads:    *)
(* "inside", "on" (the boundary), "outside", "nowhere" (a null step).      *)
Step(s, where) ==
  /\ cg.stage = AP /\ ~cg.first
  /\ IF ~cg.tr
     THEN IF s <= 0 THEN Goto(NonConvex)
          ELSE IF where = "nowhere" THEN Goto(Finish)
          ELSE cg' = [cg EXCEPT !.stage = NewX, !.moved = @ + 1]
     ELSE IF s > 0 /\ where = "nowhere" THEN Goto(Finish)
          ELSE IF s > 0 /\ where = "inside" THEN cg' = [cg EXCEPT !.stage = NewX, !.moved = @ + 1]
          ELSE cg' = [cg EXCEPT !.stage = Truncated, !.moved = @ + 1]
(* Nothing more is done when it is over; any other stage is an error.      *)
Nothing == cg.stage \in Over /\ (cg.stage = Truncated => cg.tr) /\ UNCHANGED cg
Wrong == (cg.stage \notin Stages \/ cg.stage = Error \/ (cg.stage = Truncated /\ ~cg.tr)) /\ Goto(Error)
(* A radius that is not positive. *)
BadRadius == cg.tr /\ Goto(Error)
-----------------------------------------------------------------------------
TypeOK == cg.stage \in Int /\ cg.first \in BOOLEAN /\ cg.moved \in Nat
AsksForProducts == cg.first => cg.stage = AP
NoPrecond == ~cg.pre => cg.stage # Precond
OnlyInRegion == cg.stage = Truncated /\ cg.moved > 0 => cg.tr
=============================================================================
