----------------------------- MODULE TraceDriver -----------------------------
(* Conformance of the driver, run beside a low level optimizer.            *)
EXTENDS Driver, TraceBase, F64
VARIABLE x      \* the variables of the client, as left by the last call
tvars == <<dvars, x, l>>
TraceInit == DInit /\ l = 1 /\ x = <<>>
Reset == Is("reset") /\ low' = [task |-> "none"] /\ dead' = FALSE /\ alive' = FALSE /\ x' = <<>>
NoX(r) == [k \in DOMAIN r \ {"x"} |-> r[k]]
Shown == NoX(Ev.drv) = Reports(low', dead')
TNew == /\ Is("new") /\ x' = <<>>
        /\ IF Errors(Ev) = {}
           THEN Ev.ok /\ Create(NoX(Ev.low)) /\ Shown /\ Ev.name /\ Ev.desc /\ Ev.lsrefs = 1
           ELSE ~Ev.ok /\ Ev.errno \in Errors(Ev) /\ Ev.live = 0 /\ Ev.lsrefs = 0 /\ Destroy
TStart == /\ Is("start") /\ Start(NoX(Ev.low)) /\ Shown
          /\ Ev.ret = Ev.low.task /\ Ev.drv.x = Ev.low.x /\ Ev.intact
          /\ x' = Ev.drv.x
TIter == /\ Is("iter") /\ Iterate(NoX(Ev.low)) /\ Shown
         /\ Ev.ret = Ev.low.task /\ Ev.drv.x = Ev.low.x /\ Ev.intact
         /\ x' = Ev.drv.x
TNull == /\ Is("null") /\ Refuse /\ Shown
         /\ Ev.ret = "ERROR" /\ Ev.intact /\ UNCHANGED x
TPoisoned == /\ Is("poisoned") /\ DeadCall /\ Shown
             /\ Ev.ret = "ERROR" /\ Ev.intact /\ UNCHANGED x
(* nothing remains *)
TEnd == Is("end") /\ Destroy /\ Ev.live = 0 /\ Ev.badfree = 0 /\ UNCHANGED x
TNothing == /\ Is("nothing") /\ Ev.start = "ERROR" /\ Ev.iter = "ERROR" /\ Ev.same
            /\ Ev.drv = [task |-> "ERROR", status |-> "OPK_ILLEGAL_ADDRESS", evs |-> 0, its |-> 0, rss |-> 0, step |-> Ev.drv.step, gnorm |-> "0"]
            /\ FEq(Ev.drv.step, "-1")
            /\ UNCHANGED <<dvars, x>>
TraceNext == Reset \/ TNew \/ TStart \/ TIter \/ TNull \/ TPoisoned \/ TEnd \/ TNothing
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
