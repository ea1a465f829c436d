----------------------------- MODULE TraceAlloc -----------------------------
EXTENDS Alloc, TraceBase
VARIABLE base    \* references on the arguments before the construction
tvars == <<allvars, base, l>>
TraceInit == AInit(<<>>) /\ base = <<>> /\ l = 1
Reset == Is("reset") /\ args' = <<>> /\ blocks' = 0 /\ objs' = 0 /\ base' = <<>>
Before == /\ args = <<>> \/ Ev.before = args
          /\ objs = 0
TCreate ==
  /\ Is("create") /\ objs = 0 /\ Ev.badfree = 0
  /\ args # <<>> => Ev.before = args
  /\ IF Ev.failed = 0
     THEN /\ Ev.ok = 1 /\ Ev.newblocks >= 1
          /\ \A k \in DOMAIN Ev.before : Ev.after[k] >= Ev.before[k]
          /\ args' = Ev.after /\ blocks' = blocks + Ev.newblocks /\ objs' = 1
     ELSE /\ Ev.ok = 0 /\ Ev.enomem = 1 /\ Ev.newblocks = 0
          /\ Ev.after = Ev.before
          /\ args' = Ev.before /\ UNCHANGED <<blocks, objs>>
  /\ base' = Ev.before
TDestroy == Is("destroy") /\ Ev.newblocks = 0 /\ Ev.badfree = 0 /\ Ev.after = base /\ Destroyed(base) /\ UNCHANGED base
TraceNext == Reset \/ TCreate \/ TDestroy
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
