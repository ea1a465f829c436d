-------------------------- MODULE TraceLineSearch --------------------------
(* Conformance of recorded line searches with LineSearch.tla.             *)
EXTENDS LineSearch, TraceBase
CONSTANT Aspect   \* "protocol", "stop" or "step"
VARIABLES ls, it
tvars == <<ls, it, l>>
None == [kind |-> "none"]
TraceInit == ls = None /\ it = 0 /\ l = 1
Reset == Is("reset") /\ ls' = None /\ it' = 0
TNew == /\ Is("new")
        /\ (Aspect = "protocol" /\ ~OpenNew(Ev.kind, Ev.p)) =>
             /\ Ev.ok = ValidNew(Ev.kind, Ev.p)
             /\ ~Ev.ok => Ev.errno = "EINVAL"
        /\ ls' = (IF Ev.ok THEN New(Ev.kind, Ev.p) ELSE None) /\ it' = 0
        /\ Ev.ok => /\ Ev.deriv = (Ev.kind = "csrch")
                    /\ Aspect = "protocol" => Ev.task = "ERROR" /\ Ev.status = "OPK_NOT_STARTED"
(* What the queries answer. *)
Consistent(t) ==
  /\ Ev.ret = t.task /\ Ev.task = t.task /\ Ev.status = t.status
  /\ FEq(Ev.step, GetStep(t))
  /\ Ev.err = (t.task = "ERROR") /\ Ev.warn = (t.task = "WARNING")
  /\ Ev.conv = (t.task = "CONVERGENCE") /\ Ev.fin = (t.task # "SEARCH")
TStart == /\ Is("start") /\ ls.kind # "none"
          /\ LET t == Start(ls, Ev.f0, Ev.g0, Ev.stp, Ev.lo, Ev.hi)
             IN /\ ls' = t
                /\ Aspect = "protocol" => Consistent(t)
          /\ it' = 0
Observed(t) == [t EXCEPT !.task = Ev.task, !.status = Ev.status, !.stp = FNorm(Ev.out)]
Near(a, b) == FClose(a, b, "1e-9", F0)
TIter ==
  /\ Is("iter") /\ ls.kind # "none"
  /\ it' = it + 1
  /\ LET why == Refusal(ls, Ev.stp)
     IN IF why # "none"
        THEN /\ Aspect = "protocol" => FEq(Ev.out, Ev.stp)
             /\ Aspect = "protocol" => Consistent(Refuse(ls, why))
             /\ ls' = Refuse(ls, why)
        ELSE LET r == Outcome(ls, Ev.f, Ev.g)
             IN /\ CASE Aspect = "protocol" -> /\ Allowed(ls, Ev.task, Ev.status, Ev.out)
                                               /\ Consistent(Observed(ls))
                     [] Aspect = "stop" -> StopsRight(ls, Ev.f, Ev.g, Ev.task, Ev.status)
                     [] Aspect = "step" -> /\ Ev.task = r.task /\ Ev.status = r.status
                                           /\ Near(Ev.out, r.stp)
                /\ ls' = IF Aspect = "step" /\ ls.kind = "csrch" THEN [Observed(ls) EXCEPT !.cs = r.cs] ELSE Observed(ls)
TNull == /\ Is("null") /\ UNCHANGED <<ls, it>>
         /\ Ev.start < 0 /\ Ev.iter < 0 /\ Ev.iter2 < 0 /\ Ev.task = "ERROR" /\ Ev.status = "OPK_ILLEGAL_ADDRESS" /\ FEq(Ev.step, "-1")
         /\ Ev.err /\ ~Ev.warn /\ ~Ev.conv /\ Ev.fin
(* A search that has been answered by an adversary until its end. *)
TEnd == Is("end") /\ UNCHANGED <<ls, it>> /\ (Aspect # "stop" => Ev.finished)
TStep ==
  /\ Is("cstep") /\ UNCHANGED <<ls, it>>
  /\ LET c == [stx |-> FNorm(Ev.a[1]), fx |-> FNorm(Ev.a[2]), gx |-> FNorm(Ev.a[3]), sty |-> FNorm(Ev.a[4]), fy |-> FNorm(Ev.a[5]), gy |-> FNorm(Ev.a[6]), brackt |-> Ev.brackt]
         stp == FNorm(Ev.a[7])
         st == CStepStatus(c, stp, Ev.lo, Ev.hi)
         d == CStepInterval(c, stp, FNorm(Ev.f), FNorm(Ev.g))
     IN /\ Ev.st = st
        /\ IF st # "OPK_SUCCESS" THEN Ev.b = Ev.a /\ Ev.brackt2 = Ev.brackt
           ELSE /\ Ev.brackt2 = d.brackt
                /\ \A k \in 1 .. 6 : FEq(Ev.b[k], <<d.stx, d.fx, d.gx, d.sty, d.fy, d.gy>>[k])
                /\ Near(Ev.b[7], CStepTrial(c, stp, FNorm(Ev.f), FNorm(Ev.g), Ev.lo, Ev.hi))
TraceNext == Reset \/ TNew \/ TStart \/ TIter \/ TNull \/ TEnd \/ TStep
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==========================================================================
