----------------------------- MODULE Isolation -----------------------------
(***************************************************************************)
(* Non-interference between the sessions of the library.  A program is a   *)
(* configuration (what is created: line search, optimizer, context...) and *)
(* a starting point.  What the client of a session sees at its i-th step   *)
(* is a function of the program and i alone: solo[p] is the sequence of    *)
(* what has been seen of program p, whoever ran it: alone in its process,  *)
(* among other sessions, in a thread, for the first time or restarted.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT Slots
VARIABLES ses, solo
ivars == <<ses, solo>>
Idle == [live |-> FALSE, cfg |-> 0, prog |-> 0, at |-> 0]
IInit == ses = [s \in Slots |-> Idle] /\ solo = <<>>
Known(p) == IF p \in DOMAIN solo THEN solo[p] ELSE <<>>
(* i counts from 0, what is seen just after the creation (or the restart) *)
Agrees(p, i, d) == IF i < Len(Known(p)) THEN Known(p)[i + 1] = d ELSE i = Len(Known(p))
Learn(p, i, d) == IF i < Len(Known(p)) THEN solo ELSE (p :> Append(Known(p), d)) @@ solo
Begin(s, cfg, v, d) ==
  /\ ~ses[s].live /\ Agrees(<<cfg, v>>, 0, d)
  /\ ses' = [ses EXCEPT ![s] = [live |-> TRUE, cfg |-> cfg, prog |-> <<cfg, v>>, at |-> 0]] /\ solo' = Learn(<<cfg, v>>, 0, d)
Step(s, d) ==
  LET p == ses[s].prog i == ses[s].at + 1 IN
  /\ ses[s].live /\ Agrees(p, i, d) /\ ses' = [ses EXCEPT ![s].at = i] /\ solo' = Learn(p, i, d)
Again(s, v, d) ==
  LET p == <<ses[s].cfg, v>> IN
  /\ ses[s].live /\ Agrees(p, 0, d) /\ ses' = [ses EXCEPT ![s].prog = p, ![s].at = 0] /\ solo' = Learn(p, 0, d)
End(s) == ses[s].live /\ ses' = [ses EXCEPT ![s] = Idle] /\ UNCHANGED solo
=============================================================================
