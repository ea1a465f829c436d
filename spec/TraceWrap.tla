----------------------------- MODULE TraceWrap -----------------------------
(* Conformance of recorded uses of wrapped vectors with Wrap.tla.          *)
EXTENDS Wrap, TraceBase
tvars == <<wvars, hist, l>>
(* calls: callbacks called during the call; mem: contents of all arrays;   *)
(* info: array, callback and datum of each living vector as reported;      *)
(* early: the vector still reported the registration being released.       *)
Observed(calls) ==
  /\ Ev.calls = calls /\ Ev.early = 0
  /\ \A m \in M : Ev.mem[m] = mem'[m]
  /\ Ev.guard = 1
  /\ \A v \in V : IF refs'[v] > 0 THEN Ev.info[v] = <<reg'[v].m, reg'[v].cb, reg'[v].cd>>
                                  ELSE Ev.info[v] = <<0, 0, 0>>
TraceInit == WInit /\ hist = <<>> /\ l = 1
Reset == /\ Is("reset")
         /\ reg' = [v \in V |-> None] /\ refs' = [v \in V |-> 0]
         /\ mem' = [m \in M |-> Zero] /\ owed' = [c \in (Cb \X Cd) |-> 0]
TWrap == Is("wrap") /\ Ev.ok = 1 /\ DoWrap(Ev.v, Ev.m, Ev.cb, Ev.cd) /\ Observed(WrapCalls)
TRewrap == Is("rewrap") /\ Ev.st = "OPK_SUCCESS" /\ DoRewrap(Ev.v, Ev.m, Ev.cb, Ev.cd)
           /\ Observed(RewrapCalls(Ev.v, Ev.cb, Ev.cd))
THold == Is("hold") /\ DoHold(Ev.v) /\ Observed(<<>>)
TDrop == Is("drop") /\ DoDrop(Ev.v) /\ Observed(DropCalls(Ev.v))
TFill == Is("fill") /\ DoFill(Ev.v, Ev.a) /\ Observed(<<>>)
TPoke == Is("poke") /\ DoPoke(Ev.v, Ev.k, Ev.a) /\ Observed(<<>>)
TCopy == Is("copy") /\ DoCopy(Ev.v, Ev.w) /\ Observed(<<>>)
TPeek == Is("peek") /\ Alive(Ev.v) /\ Ev.a = Contents(Ev.v)[Ev.k] /\ UNCHANGED wvars /\ Observed(<<>>)
(* refused: null address or vector of another kind *)
TBad == /\ Is("badwrap") /\ Ev.ok = 0 /\ UNCHANGED wvars /\ Observed(<<>>)
(* end: nothing is owed any more, each registration was released once *)
TEnd == Is("end") /\ (\A c \in Cb \X Cd : owed[c] = 0) /\ UNCHANGED wvars
TraceNext == (Reset \/ TWrap \/ TRewrap \/ THold \/ TDrop \/ TFill \/ TPoke \/ TCopy \/ TPeek \/ TBad \/ TEnd) /\ UNCHANGED hist
TraceSpec == TraceInit /\ [][TraceNext]_tvars
============================================================================
