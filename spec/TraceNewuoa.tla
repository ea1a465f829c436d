---------------------------- MODULE TraceNewuoa ----------------------------
(* Recorded runs of NEWUOA: the set of the states the machine may be in.   *)
EXTENDS Newuoa, TraceBase
VARIABLES belief, seen, most
tvars == <<belief, seen, most, l>>
TraceInit == belief = {} /\ seen = [n |-> 0, x |-> <<>>, f |-> F0] /\ most = 0 /\ l = 1
TReset == Is("reset") /\ belief' = {} /\ seen' = [n |-> 0, x |-> <<>>, f |-> F0] /\ most' = 0
TStart == Is("start") /\ belief' = {Start(Ev.n, Ev.npt, Ev.rhobeg, Ev.rhoend, Ev.x)} /\ seen' = [n |-> 0, x |-> <<>>, f |-> F0] /\ most' = Ev.maxfun
All == UNION {Wants(h) : h \in belief}
(* the radius is not told by the version which calls the objective itself *)
Radius(w) == IF Ev.rho = "" THEN TRUE ELSE Close(w.h.rho, Ev.rho, FMul(Eps9, Ev.rho))
TEval == /\ Is("eval") /\ seen.n < most
         /\ belief' = UNION {IF w.kind = "lost" \/ (Radius(w) /\ Asked(w, Ev.x)) THEN Learn(w, Ev.x, Ev.f) ELSE {} : w \in All}
         /\ belief' # {}
         /\ seen' = IF seen.n = 0 \/ FLt(Ev.f, seen.f) THEN [n |-> seen.n + 1, x |-> VNormalise(Ev.x), f |-> FNorm(Ev.f)] ELSE [seen EXCEPT !.n = @ + 1]
         /\ UNCHANGED most
TStop == /\ Is("end") /\ belief' = {} /\ UNCHANGED <<seen, most>>
         /\ At(Ev.x, seen.x, Eps6)
         /\ CASE Ev.status = "SUCCESS" -> \E w \in All : w.kind = "lost" \/ (w.kind = "stop" /\ Radius(w))
              [] Ev.status = "TOO_MANY_EVALUATIONS" -> seen.n = most /\ \E w \in All : w.kind = "lost" \/ (w.kind \notin {"stop", "failed"} /\ Radius(w))
              [] Ev.status = "STEP_FAILED" -> \E w \in All : w.kind \in {"lost", "failed"}
              [] OTHER -> FALSE
TraceNext == TReset \/ TStart \/ TEval \/ TStop
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
