---------------------------- MODULE TraceEffort ----------------------------
(* Recorded campaigns: the runs of one family between `open' and `close'.  *)
EXTENDS Effort, EffortTable, TraceBase
tvars == <<evars, l>>
TraceInit == EInit /\ l = 1
Reset == Is("reset") /\ fam' = "" /\ sums' = [g \in Groups |-> None] /\ UNCHANGED closed
Gives == {"SUCCESS", "ROUNDING_ERRORS", "TOO_MANY_EVALUATIONS", "STEP_FAILED"}
TOpen == Is("open") /\ Ev.family \in DOMAIN Table /\ Open(Ev.family)
TSolve == Is("effort") /\ Ev.status \in Gives /\ Solve(Ev.n, Ev.calls, Ev.miss, Ev.status # "SUCCESS")
TClose == Is("close") /\ (\A g \in Groups \ {1} : sums[g].runs = Ev.runs) /\ Close(Table[fam])
TraceNext == Reset \/ TOpen \/ TSolve \/ TClose
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
