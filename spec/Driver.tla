------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* The simple driver (driver.c): a shell around a low level optimizer on   *)
(* arrays of the client.  `low' is what a low level optimizer of the same  *)
(* settings reports when it gets the same calls; `dead' tells that the     *)
(* client has given a missing array, which stops the run until it starts   *)
(* again.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
VARIABLES low, dead, alive
dvars == <<low, dead, alive>>

Types == {"NONE", "SCALAR_FLOAT", "SCALAR_DOUBLE", "STATIC_FLOAT", "STATIC_DOUBLE", "VOLATILE_FLOAT", "VOLATILE_DOUBLE", "VECTOR"}
(* Why a creation may be refused: the set of the errors. A vector cannot   *)
(* belong to the private space of the driver.                              *)
BoundErrors(t, addr) ==
  IF t \notin Types THEN {"EINVAL"}
  ELSE IF t # "NONE" /\ ~addr THEN {"EFAULT"}
  ELSE IF t = "NONE" /\ addr THEN {"EFAULT", "EINVAL"}
  ELSE IF t = "VECTOR" THEN {"EINVAL"} ELSE {}
Errors(c) ==
  BoundErrors(c.lt, c.la) \cup BoundErrors(c.ut, c.ua) \cup
  (IF \/ c.n < 1 \/ c.type \notin {"float", "double"} \/ c.alg \notin {"nlcg", "vmlmb"}
      \/ (c.alg = "nlcg" /\ (c.lt # "NONE" \/ c.ut # "NONE"))
      \/ c.opts = 2
   THEN {"EINVAL"} ELSE {})

DInit == low = [task |-> "none"] /\ dead = FALSE /\ alive = FALSE
Create(r) == alive' = TRUE /\ low' = r /\ dead' = FALSE
Start(r) == alive /\ low' = r /\ dead' = FALSE /\ UNCHANGED alive
(* A dead driver does not call its optimizer. *)
Iterate(r) == alive /\ ~dead /\ low' = r /\ UNCHANGED <<dead, alive>>
Refuse == alive /\ dead' = TRUE /\ UNCHANGED <<low, alive>>
DeadCall == alive /\ dead /\ UNCHANGED dvars
Destroy == alive' = FALSE /\ low' = [task |-> "none"] /\ dead' = FALSE

(* What the driver reports. *)
Reports(r, d) == IF d THEN [r EXCEPT !.task = "ERROR", !.status = "OPK_ILLEGAL_ADDRESS"] ELSE r
-----------------------------------------------------------------------------
DeadIsError == (alive /\ dead) => Reports(low, dead).task = "ERROR" /\ Reports(low, dead).status = "OPK_ILLEGAL_ADDRESS"
Transparent == (alive /\ ~dead) => Reports(low, dead) = low
=============================================================================
