------------------------------ MODULE MCDriver ------------------------------
(***************************************************************************)
(* A client of the driver: starts, answers in and out of turn, forgets     *)
(* arrays, moves them, starts again, destroys.  The low level optimizer is *)
(* reduced to its task and number of evaluations.                          *)
(***************************************************************************)
EXTENDS Driver, Json
CONSTANTS Depth, Emit
VARIABLES hist, done
mcvars == <<dvars, hist, done>>
R(t, s, e) == [task |-> t, status |-> s, evs |-> e]
MCInit == /\ hist = <<>> /\ done = FALSE /\ low = R("ERROR", "OPK_NOT_STARTED", 0) /\ dead = FALSE /\ alive = TRUE
Log(c) == hist' = Append(hist, c) /\ UNCHANGED done
Answers == IF low.task = "COMPUTE_FG" THEN {R("COMPUTE_FG", "OPK_SUCCESS", low.evs + 1), R("NEW_X", "OPK_SUCCESS", low.evs + 1), R("FINAL_X", "OPK_SUCCESS", low.evs + 1)}
           ELSE IF low.task \in {"NEW_X", "FINAL_X"} THEN {R("COMPUTE_FG", "OPK_SUCCESS", low.evs)} ELSE {low}
Slot == 0 .. 3
Do == \/ \E s \in Slot : Start(R("COMPUTE_FG", "OPK_SUCCESS", 0)) /\ Log(<<"start", s, 0>>)
      \/ ~dead /\ \E s, t \in Slot, k \in {1, 3, 12} : (\E r \in Answers : Iterate(r)) /\ Log(<<"iter", s, t, k>>)
      \/ dead /\ DeadCall /\ Log(<<"poisoned">>)
      \/ Refuse /\ \E k \in 0 .. 3 : Log(<<"null", k>>)
Stop == Len(hist) >= Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<dvars, hist>> /\ (Emit => PrintT(ToJson(hist)))
MCNext == (Len(hist) < Depth /\ Do) \/ Stop
MCSpec == MCInit /\ [][MCNext]_mcvars
OnlyStartRevives == [][dead /\ ~dead' => low'.evs = 0]_mcvars
=============================================================================
