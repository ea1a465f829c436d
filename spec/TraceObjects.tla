--------------------------- MODULE TraceObjects ---------------------------
(* Conformance of recorded calls with Objects.tla.  Each event carries the *)
(* reference counts reported by the library for every object the client    *)
(* can still name safely, and the objects whose memory was freed by the    *)
(* call.                                                                   *)
EXTENDS Objects, TraceBase
tvars == <<ovars, hist, l>>

(* What the library reported after the call agrees with the new state. *)
Observed ==
  /\ \A k \in 1 .. Len(Ev.refs) :
       LET o == Ev.refs[k][1] IN RefsIn(client', held', {p \in Id : kind'[p] \in Kinds}, o) = Ev.refs[k][2]
  /\ {Ev.refs[k][1] : k \in 1 .. Len(Ev.refs)} = {p \in Id : kind'[p] \in Kinds}
  /\ {Ev.freed[k] : k \in 1 .. Len(Ev.freed)} = {p \in Id : Live(p) /\ kind'[p] = "dead"}
  /\ Ev.badfree = 0
Seen(o) == LET k == CHOOSE k \in 1 .. Len(Ev.refs) : Ev.refs[k][1] = o IN Ev.refs[k][2]
(* Number of references taken on its space by an optimizer: whatever the   *)
(* library did, as long as the same number is released in the end.         *)
Hidden(s, before) == Seen(s) - before

TraceInit == ObjInit /\ hist = <<>> /\ l = 1
Reset == Is("reset") /\ kind' = [o \in Id |-> "none"] /\ space' = Zero
         /\ client' = Zero /\ held' = [o \in Id |-> Zero]
TNew == /\ \/ Is("space") /\ NewSpace(Ev.o)
           \/ Is("vector") /\ NewVector(Ev.o, Ev.s)
           \/ Is("wrapped") /\ NewWrapped(Ev.o, Ev.s)
           \/ Is("box") /\ Seen(Ev.s) > Refs(Ev.s) /\ Seen(Ev.s) - Refs(Ev.s) <= 3 /\
                NewBox(Ev.o, Ev.s, Ev.lo, Ev.up, Seen(Ev.s) - Refs(Ev.s))
           \/ Is("oper") /\ NewOper(Ev.o, Ev.s, Ev.t)
           \/ Is("lnsrch") /\ NewLnsrch(Ev.o)
           \/ Is("vmlmb") /\ Seen(Ev.s) > Refs(Ev.s) /\
                NewOpt(Ev.o, "vmlmb", Ev.s, Ev.ls, Ev.b, Hidden(Ev.s, Refs(Ev.s)))
           \/ Is("nlcg") /\ Seen(Ev.s) > Refs(Ev.s) /\
                NewOpt(Ev.o, "nlcg", Ev.s, Ev.ls, 0, Hidden(Ev.s, Refs(Ev.s)))
        /\ Observed
TRun == /\ Is("run")
        /\ LET s == space[Ev.o] IN 
             /\ Seen(s) + held[Ev.o][s] > Refs(s)
             /\ RunOpt(Ev.o, Ev.x, Seen(s) + held[Ev.o][s] - Refs(s))
        /\ Observed
(* holding or dropping NULL does nothing *)
TNull == Is("null") /\ Ev.ok = 1 /\ UNCHANGED ovars /\ Observed
THold == Is("hold") /\ Hold(Ev.o) /\ Observed
TDrop == Is("drop") /\ Drop(Ev.o) /\ Observed
(* end of a history: everything was dropped; no memory remains *)
TEnd == Is("end") /\ LiveSet = {} /\ Ev.live = 0 /\ Ev.badfree = 0 /\ UNCHANGED ovars
TraceNext == (Reset \/ TNew \/ TRun \/ TNull \/ THold \/ TDrop \/ TEnd) /\ UNCHANGED hist
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==========================================================================
