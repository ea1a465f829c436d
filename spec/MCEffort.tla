------------------------------ MODULE MCEffort ------------------------------
(* Small campaigns: the first group is the sum of the others; a campaign in *)
(* which every run is as the table says may always be closed, whatever the  *)
(* order; one in which every run costs much more, misses much more or fails *)
(* never may, once it is long enough.                                       *)
EXTENDS Effort
CONSTANT Longest
VARIABLE kind
Ref == [calls |-> <<30, 10>>, miss |-> <<-20, 5>>, fails |-> <<0, 0>>]
Tab == [g \in Groups |-> Ref]
MCInit == EInit /\ kind \in {"asis", "better", "costly", "late", "failing", "mixed"}
One(n) == CASE kind = "asis"    -> \E c \in {2, 3, 4} : \* three on the average
                                     c = 2 + (sums[n].runs % 3) /\ Solve(n, c, -20, FALSE)
            [] kind = "better"  -> \E c \in 1 .. 3, m \in {-40, -20} : Solve(n, c, m, FALSE)
            [] kind = "costly"  -> Solve(n, 10, -20, FALSE)
            [] kind = "late"    -> Solve(n, 3, 40, FALSE)
            [] kind = "failing" -> Solve(n, 3, -20, TRUE)
            [] OTHER            -> \E c \in {1, 9}, m \in {-30, 20}, f \in BOOLEAN : Solve(n, c, m, f)
MCNext == /\ UNCHANGED kind /\ closed < 2
          /\ \/ Open("f")
             \/ sums[1].runs < (IF kind \in {"better", "mixed"} THEN 4 ELSE Longest) /\ \E n \in {2, 5} : One(n)
             \/ Close(Tab)
MCSpec == MCInit /\ [][MCNext]_<<evars, kind>>
RECURSIVE Total(_)
Total(S) == IF S = {} THEN None ELSE LET g == CHOOSE g \in S : TRUE IN Both(sums[g], Total(S \ {g}))
Whole == sums[1] = Total(Groups \ {1})
NeverWronged == fam # "" /\ kind \in {"asis", "better"} => Fair(Tab)
Long(k) == \E g \in Groups : sums[g].runs >= k
Detected == fam # "" => /\ (kind = "costly" /\ Long(3) => ~Fair(Tab))
                        /\ (kind = "late" /\ Long(3) => ~Fair(Tab))
                        /\ (kind = "failing" /\ Long(7) => ~Fair(Tab))
(* groups that are fair are fair together, but for the rounding of the root *)
Joined == \A g, h \in Groups : g # h /\ FairGroup(sums[g], Ref) /\ FairGroup(sums[h], Ref) =>
             10 * Both(sums[g], sums[h]).calls <= CallsMost(Ref, sums[g].runs) + CallsMost(Ref, sums[h].runs)
=============================================================================
