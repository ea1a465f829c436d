-------------------------------- MODULE Dfo --------------------------------
(***************************************************************************)
(* Powell's derivative-free optimizers (cobyla.c, newuoa.c, bobyqa.c).     *)
(*                                                                         *)
(* A workspace serves one run at a time: it asks for evaluations, one by   *)
(* one, until the run ends.  The run is a function of its problem alone:   *)
(* its k-th evaluation is the k-th one of every other run of that problem, *)
(* whatever the way it is driven, whatever was done before with the        *)
(* workspace and whatever happens meanwhile with others.  ws[k] tells, for *)
(* each workspace, whether it exists, its problem, its status and the      *)
(* number of evaluations of its run; `asks' whether the run, if the client *)
(* pays for an evaluation, goes on.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT Slots
VARIABLE ws

Final == {"SUCCESS", "ROUNDING_ERRORS", "TOO_MANY_EVALUATIONS", "STEP_FAILED"}
Refused == {"BAD_ADDRESS", "CORRUPTED"}
Empty == [live |-> FALSE, prob |-> 0, budget |-> 0, status |-> "none", nev |-> 0]
DInit == ws = [k \in Slots |-> Empty]

(* A new workspace asks for the evaluation of the starting point. *)
Create(k, p, budget) ==
  /\ ~ws[k].live /\ budget >= 1
  /\ ws' = [ws EXCEPT ![k] = [live |-> TRUE, prob |-> p, budget |-> budget, status |-> "ITERATE", nev |-> 0]]
CreateFails(k) == ~ws[k].live /\ UNCHANGED ws
(* How a run continues after its n-th evaluation: `how' is what the        *)
(* algorithm wants, to go on or to stop; the budget has the last word.     *)
Verdict(how, n, budget) == IF how = "ITERATE" /\ n >= budget THEN "TOO_MANY_EVALUATIONS" ELSE how
Iterate(k, how) ==
  /\ ws[k].live /\ ws[k].status = "ITERATE" /\ how \in (Final \ {"TOO_MANY_EVALUATIONS"}) \cup {"ITERATE"}
  /\ ws' = [ws EXCEPT ![k].nev = @ + 1, ![k].status = Verdict(how, ws[k].nev + 1, ws[k].budget)]
(* Out of turn, or without the arrays: the run is lost until restarted. *)
OutOfTurn(k) == ws[k].live /\ ws[k].status # "ITERATE" /\ ws' = [ws EXCEPT ![k].status = "CORRUPTED"]
Missing(k) == ws[k].live /\ ws[k].status = "ITERATE" /\ ws' = [ws EXCEPT ![k].status = "BAD_ADDRESS"]
Restart(k) == ws[k].live /\ ws' = [ws EXCEPT ![k].nev = 0, ![k].status = "ITERATE"]
Delete(k) == ws' = [ws EXCEPT ![k] = Empty]
-----------------------------------------------------------------------------
InBudget == \A k \in Slots : ws[k].live => ws[k].nev <= ws[k].budget
StoppedByBudget == \A k \in Slots : ws[k].status = "TOO_MANY_EVALUATIONS" => ws[k].nev = ws[k].budget
Asking == \A k \in Slots : ws[k].status = "ITERATE" => ws[k].nev < ws[k].budget
(* Nobody but the client changes a workspace, and one at a time. *)
Alone == \A k, j \in Slots : k # j => (ws[k]' = ws[k] \/ ws[j]' = ws[j])
Isolated == [][Alone]_ws
-----------------------------------------------------------------------------
(* The rules for the radius of the trust region, on positive numbers given *)
(* with their arithmetic: radii only shrink, and never below the last one. *)
(* The radius r may be followed, possibly after several reductions between *)
(* two evaluations, by any of a chain that ends with the last radius.      *)
RECURSIVE Reachable(_, _, _, _)
Reachable(r, end, Rule(_, _), n) == {r} \cup (IF r = end \/ n = 0 THEN {} ELSE Reachable(Rule(r, end), end, Rule, n - 1))
=============================================================================
