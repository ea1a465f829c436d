------------------------------- MODULE MCDfo -------------------------------
(***************************************************************************)
(* Clients of several workspaces: what they do is arbitrary, in turn or    *)
(* out of turn, interleaved in every way.  A problem is reduced to the     *)
(* number of evaluations its run takes and the way it ends.  The behaviours*)
(* are printed to be replayed.  Also: the radius rules, on integers.       *)
(***************************************************************************)
EXTENDS Dfo, Json
CONSTANTS Depth, Emit, Lengths, Budgets
VARIABLES hist, done
mcvars == <<ws, hist, done>>
MCInit == DInit /\ hist = <<>> /\ done = FALSE
Log(c) == hist' = Append(hist, c) /\ UNCHANGED done
How(k) == IF ws[k].nev + 1 >= ws[k].prob THEN "SUCCESS" ELSE "ITERATE"
(* several evaluations in a row *)
RECURSIVE Ahead(_, _)
Ahead(w, r) == IF r = 0 \/ w.status # "ITERATE" THEN w
               ELSE Ahead([w EXCEPT !.nev = @ + 1, !.status = Verdict(IF w.nev + 1 >= w.prob THEN "SUCCESS" ELSE "ITERATE", w.nev + 1, w.budget)], r - 1)
Do(k) == \/ \E p \in Lengths, b \in Budgets : Create(k, p, b) /\ Log(<<"create", k, b>>)
         \/ CreateFails(k) /\ Log(<<"createfail", k>>)
         \/ Iterate(k, How(k)) /\ Log(<<"iterate", k, 1>>)
         \/ \E r \in {2, 5, 1000} : /\ ws[k].live /\ ws[k].status = "ITERATE"
                                    /\ ws' = [ws EXCEPT ![k] = Ahead(ws[k], r)] /\ Log(<<"iterate", k, r>>)
         \/ OutOfTurn(k) /\ Log(<<"iterate", k, 1>>)
         \/ \E w \in {1, 2} : Missing(k) /\ Log(<<"wrong", k, w>>)
         \/ Restart(k) /\ Log(<<"restart", k>>)
         \/ ws[k].live /\ Delete(k) /\ Log(<<"delete", k>>)
Stop == Len(hist) >= Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<ws, hist>> /\ (Emit => PrintT(ToJson(hist)))
MCNext == (Len(hist) < Depth /\ \E k \in Slots : Do(k)) \/ Stop
MCSpec == MCInit /\ [][MCNext]_mcvars
\* the state of a workspace says it all: what was done before a creation or a restart leaves no trace
Fresh == \A k \in Slots : ws[k].live /\ ws[k].nev = 0 /\ ws[k].status = "ITERATE" =>
           ws[k] = [live |-> TRUE, prob |-> ws[k].prob, budget |-> ws[k].budget, status |-> "ITERATE", nev |-> 0]
View == <<ws, done, Len(hist)>>
(* The radii: integers in units of a thousandth of the last one. *)
HalfRule(r, e) == IF 2 * (r \div 2) <= 3 * e THEN e ELSE r \div 2
Isqrt(x) == CHOOSE s \in 0 .. 16000 : s * s <= x /\ (s + 1) * (s + 1) > x
TenthRule(r, e) == IF r <= 16 * e THEN e ELSE IF r <= 250 * e THEN Isqrt(r * e) ELSE r \div 10
Descends(Rule(_, _)) == \A r \in {1000, 1001, 1499, 1500, 1501, 2000, 3000, 3001, 16000, 16001, 100000, 250000, 250001, 999999} :
  LET S == Reachable(r, 1000, Rule, 30) IN 1000 \in S /\ \A s \in S : s >= 1000 /\ s <= r /\ (s > 1000 => Rule(s, 1000) < s)
ASSUME Descends(HalfRule)
ASSUME Descends(TenthRule)
=============================================================================
