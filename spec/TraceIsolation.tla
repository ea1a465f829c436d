-------------------------- MODULE TraceIsolation --------------------------
(* Recorded sessions: each event carries a digest of what its client saw.  *)
EXTENDS Isolation, TraceBase
tvars == <<ivars, l>>
TraceInit == IInit /\ l = 1
Reset == Is("reset") /\ ses' = [s \in Slots |-> Idle] /\ solo' = <<>>
TBegin == Is("begin") /\ Begin(Ev.s, Ev.cfg, Ev.v, Ev.d)
TStep == Is("step") /\ Step(Ev.s, Ev.d)
TAgain == Is("again") /\ Again(Ev.s, Ev.v, Ev.d)
TEnd == Is("end") /\ End(Ev.s)
TraceNext == Reset \/ TBegin \/ TStep \/ TAgain \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
