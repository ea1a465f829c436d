---------------------------- MODULE MCIsolation ----------------------------
(***************************************************************************)
(* A small library with sessions that hold a register each, seen through   *)
(* Isolation, and clients doing anything in any order.  Without a leak all *)
(* they see agrees with the specification; with a register shared by the   *)
(* sessions, or one that survives a restart or an end, some history shows  *)
(* it.  The histories are printed to be replayed.                          *)
(***************************************************************************)
EXTENDS Isolation, Json
CONSTANTS Depth, Emit, Leak, Many
VARIABLES reg, glob, hist, done, ok
mcvars == <<ses, solo, reg, glob, hist, done, ok>>
Cfgs == {1, 2}
Vs == {0, 1, 2}
MCInit == IInit /\ reg = [s \in Slots |-> 0] /\ glob = 0 /\ hist = <<>> /\ done = FALSE /\ ok = TRUE
Out(r) == (5 * r + 3 + (IF Leak = "shared" THEN glob ELSE 0)) % 11
Fresh(cfg, v) == 4 * cfg + v
RECURSIVE After(_, _)
After(r, n) == IF n = 0 THEN r ELSE After(Out(r), n - 1)
Log(x) == hist' = Append(hist, x) /\ UNCHANGED done
Tell(s, r) == reg' = [reg EXCEPT ![s] = r] /\ glob' = r
(* the specification accepts or not; rejected, the history ends *)
Judge(A) == IF ENABLED A THEN A /\ ok' = TRUE ELSE ok' = FALSE /\ UNCHANGED ivars
DoBegin(s, c, v) == LET r == IF Leak = "kept" /\ reg[s] # 0 THEN reg[s] ELSE Fresh(c, v) IN
  ~ses[s].live /\ Tell(s, r) /\ Judge(Begin(s, c, v, r)) /\ Log(<<"begin", s, c, v>>)
DoStep(s) == LET r == Out(reg[s]) IN ses[s].live /\ Tell(s, r) /\ Judge(Step(s, r)) /\ Log(<<"step", s, 1>>)
DoAgain(s, v) == LET r == IF Leak = "stale" THEN (Fresh(ses[s].cfg, v) + ses[s].at) % 11 ELSE Fresh(ses[s].cfg, v) IN
  ses[s].live /\ Tell(s, r) /\ Judge(Again(s, v, r)) /\ Log(<<"again", s, v>>)
DoEnd(s) == End(s) /\ ok' = TRUE /\ Log(<<"end", s>>) /\ UNCHANGED <<reg, glob>>
(* several steps in a row, when only the histories matter *)
DoRun(s, n) == /\ Many /\ ses[s].live /\ Tell(s, After(reg[s], n)) /\ ok' = TRUE /\ Log(<<"step", s, n>>)
               /\ ses' = [ses EXCEPT ![s].at = @ + n] /\ UNCHANGED solo
Stop == Len(hist) >= Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<ses, solo, reg, glob, hist, ok>> /\ (Emit => PrintT(ToJson(hist)))
MCNext == \/ /\ ok /\ Len(hist) < Depth
             /\ \E s \in Slots : \/ \E c \in Cfgs, v \in Vs : DoBegin(s, c, v)
                                 \/ ~Many /\ DoStep(s)
                                 \/ \E v \in Vs : DoAgain(s, v)
                                 \/ DoEnd(s)
                                 \/ \E n \in {1, 3, 10, 30} : DoRun(s, n)
          \/ Stop
MCSpec == MCInit /\ [][MCNext]_mcvars
Silent == Leak = "none" => ok
Heard == IF ok THEN TRUE ELSE TLCSet(7, TRUE)
ASSUME TLCSet(7, FALSE)
Found == Leak # "none" => TLCGet(7)
(* what is known of a program is what it does alone *)
Solo == Leak = "none" /\ ~Many => \A p \in DOMAIN solo : \A i \in DOMAIN solo[p] : solo[p][i] = After(Fresh(p[1], p[2]), i - 1)
View == <<ses, solo, reg, glob, done, ok, Len(hist)>>
=============================================================================
