------------------------------ MODULE MCWrap ------------------------------
EXTENDS Wrap, Json
CONSTANTS MaxOps, MaxRefs, CbUsed, CdUsed
Log(op) == hist' = Append(hist, op)
MCInit == WInit /\ hist = <<>>
MCNext ==
  /\ Len(hist) < MaxOps
  /\ \E v \in V :
       \/ \E m \in M, cb \in CbUsed, cd \in CdUsed :
            \/ (\A u \in V : u < v => refs[u] > 0 \/ reg[u] # None) /\ DoWrap(v, m, cb, cd) /\ Log(<<"wrap", v, m, cb, cd>>)
            \/ DoRewrap(v, m, cb, cd) /\ Log(<<"rewrap", v, m, cb, cd>>)
       \/ refs[v] < MaxRefs /\ DoHold(v) /\ Log(<<"hold", v>>)
       \/ DoDrop(v) /\ Log(<<"drop", v>>)
       \/ DoFill(v, v) /\ Log(<<"fill", v, v>>)
MCSpec == MCInit /\ [][MCNext]_<<wvars, hist>>
View == <<reg, refs>>
EmitStep == PrintT(ToJson(hist'))
===========================================================================
