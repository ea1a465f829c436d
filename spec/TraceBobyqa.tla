---------------------------- MODULE TraceBobyqa ----------------------------
(* Recorded runs of BOBYQA: the set of the states the machine may be in.   *)
EXTENDS Bobyqa, TraceBase
VARIABLES belief, seen, most
tvars == <<belief, seen, most, l>>
TraceInit == belief = {} /\ seen = [n |-> 0, x |-> <<>>, f |-> F0] /\ most = 0 /\ l = 1
TReset == Is("reset") /\ belief' = {} /\ seen' = [n |-> 0, x |-> <<>>, f |-> F0] /\ most' = 0
TStart == Is("start") /\ belief' = {Start(Ev.n, Ev.npt, Ev.rhobeg, Ev.rhoend, Ev.x, Ev.lo, Ev.hi)} /\ seen' = [n |-> 0, x |-> <<>>, f |-> F0] /\ most' = Ev.maxfun
All == UNION {Wants(h) : h \in belief}
(* too many possibilities (ties): nothing more is claimed *)
Kept(B) == IF Cardinality(B) > 6 THEN {[(CHOOSE h \in B : TRUE) EXCEPT !.next = "lost"]} ELSE B
TEval == /\ Is("eval") /\ seen.n < most
         /\ belief' = Kept(UNION {IF w.kind = "lost" \/ Asked(w, Ev.x) THEN Learn(w, Ev.x, Ev.f) ELSE {} : w \in All})
         /\ belief' # {}
         /\ seen' = IF seen.n = 0 \/ FLt(Ev.f, seen.f) THEN [n |-> seen.n + 1, x |-> VNormalise(Ev.x), f |-> FNorm(Ev.f)] ELSE [seen EXCEPT !.n = @ + 1]
         /\ UNCHANGED most
TStop == /\ Is("end") /\ belief' = {} /\ UNCHANGED <<seen, most>>
         /\ At(Ev.x, seen.x, Eps6)
         /\ CASE Ev.status = "SUCCESS" -> \E w \in All : w.kind = "lost" \/ (w.kind = "stop")
              [] Ev.status = "TOO_MANY_EVALUATIONS" -> seen.n = most /\ \E w \in All : w.kind = "lost" \/ (w.kind \notin {"stop", "failed"})
              [] Ev.status = "STEP_FAILED" -> \E w \in All : w.kind \in {"lost", "failed"}
              [] OTHER -> FALSE
TraceNext == TReset \/ TStart \/ TEval \/ TStop
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
