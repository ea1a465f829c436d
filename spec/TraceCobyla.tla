---------------------------- MODULE TraceCobyla ----------------------------
(* Recorded runs of COBYLA: the set of the states the machine may be in.   *)
EXTENDS Cobyla, TraceBase
VARIABLES belief, nev, most
tvars == <<belief, nev, most, l>>
TraceInit == belief = {} /\ nev = 0 /\ most = 0 /\ l = 1
TReset == Is("reset") /\ belief' = {} /\ nev' = 0 /\ most' = 0
TStart == Is("start") /\ belief' = {Start(Ev.n, Ev.m, Ev.rhobeg, Ev.rhoend, Ev.x)} /\ nev' = 0 /\ most' = Ev.maxfun
All == UNION {Wants(h) : h \in belief}
TEval == /\ Is("eval") /\ nev < most
         /\ belief' = UNION {IF w.kind = "lost" \/ (FEq(w.h.rho, Ev.rho) /\ Asked(w, Ev.x)) THEN Learn(w, Ev.x, Ev.c, Ev.f) ELSE {} : w \in All}
         /\ belief' # {} /\ nev' = nev + 1 /\ UNCHANGED most
TStop == /\ Is("end") /\ belief' = {} /\ UNCHANGED <<nev, most>>
         /\ CASE Ev.status = "SUCCESS" -> \E w \in All : w.kind = "lost" \/ (w.kind = "stop" /\ FEq(w.h.rho, Ev.rho) /\ At(Ev.x, Answer(w.h), w.h.rho))
              [] Ev.status = "TOO_MANY_EVALUATIONS" -> nev = most /\ \E w \in All : w.kind = "lost" \/ (w.kind # "stop" /\ FEq(w.h.rho, Ev.rho) /\ (w.kind = "first" \/ At(Ev.x, w.h.pole.x, w.h.rho)))
              [] Ev.status = "ROUNDING_ERRORS" -> \E w \in All : w.kind = "lost"
              [] OTHER -> FALSE
TraceNext == TReset \/ TStart \/ TEval \/ TStop
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
