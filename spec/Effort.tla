------------------------------- MODULE Effort -------------------------------
(***************************************************************************)
(* The economy of the derivative-free optimizers (cobyla.c, newuoa.c,      *)
(* bobyqa.c): a campaign solves many problems of one family and adds up    *)
(* what they cost (evaluations), what they miss (a measure of how far the  *)
(* solution, or how little way, is left) and how many runs give up.  The   *)
(* sums are kept for all the problems (group 1) and for each number of     *)
(* variables (groups 2 to 5).  A campaign may be closed only if, in each   *)
(* group, no sum exceeds what Powell's methods need on that family by more *)
(* than a small margin: Fair.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
VARIABLES fam, sums, closed
evars == <<fam, sums, closed>>
Groups == 1 .. 5
None == [runs |-> 0, calls |-> 0, miss |-> 0, fails |-> 0]
EInit == fam = "" /\ sums = [g \in Groups |-> None] /\ closed = 0
Open(f) == fam = "" /\ fam' = f /\ sums' = [g \in Groups |-> None] /\ UNCHANGED closed
Add(s, calls, miss, failed) == [runs |-> s.runs + 1, calls |-> s.calls + calls, miss |-> s.miss + miss, fails |-> s.fails + (IF failed THEN 1 ELSE 0)]
Both(s, t) == [runs |-> s.runs + t.runs, calls |-> s.calls + t.calls, miss |-> s.miss + t.miss, fails |-> s.fails + t.fails]
Solve(n, calls, miss, failed) ==
  /\ fam # "" /\ n \in Groups \ {1} /\ calls >= 1
  /\ sums' = [sums EXCEPT ![1] = Add(@, calls, miss, failed), ![n] = Add(@, calls, miss, failed)]
  /\ UNCHANGED <<fam, closed>>
(* The margin: five standard deviations of the sum, and at least a share of *)
(* the mean (4 %), of the unit (0.08) or of the runs (1 %, and 5).          *)
Max2(a, b) == IF a > b THEN a ELSE b
Root(k) == CHOOSE s \in 0 .. 1000 : s * s <= k /\ (s + 1) * (s + 1) > k
(* t: means and standard deviations for one run, in tenths (calls), hundredths (miss) and thousandths (fails) *)
CallsMost(t, runs) == t.calls[1] * runs + Max2((t.calls[1] * runs) \div 25, 5 * t.calls[2] * (Root(runs) + 1)) + runs
MissMost(t, runs)  == t.miss[1] * runs + Max2(8 * runs, 5 * t.miss[2] * (Root(runs) + 1))
FailsMost(t, runs) == t.fails[1] * runs + Max2(10 * runs, 5 * t.fails[2] * (Root(runs) + 1)) + 5000
FairGroup(s, t) ==
  /\ 10 * s.calls <= CallsMost(t, s.runs)
  /\ s.miss <= MissMost(t, s.runs)
  /\ 1000 * s.fails <= FailsMost(t, s.runs)
Fair(table) == \A g \in Groups : FairGroup(sums[g], table[g])
Close(table) == /\ fam # "" /\ Fair(table)
                /\ fam' = "" /\ closed' = closed + 1 /\ sums' = [g \in Groups |-> None]
=============================================================================
