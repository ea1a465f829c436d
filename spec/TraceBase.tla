---------------------------- MODULE TraceBase ----------------------------
(* Reading a recorded trace (newline-delimited JSON, one event per line)  *)
(* and deciding whether it is a behaviour of the specification: l is the  *)
(* next line to be explained; the largest value it reaches is printed.    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].ev = e /\ l' = l + 1
ASSUME TLCSet(1, 0)
TraceTrack == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
TraceDone == PrintT(<<"MAXL", TLCGet(1), Len(Trace)>>)
==========================================================================
