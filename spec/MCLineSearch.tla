--------------------------- MODULE MCLineSearch ---------------------------
(***************************************************************************)
(* A search against an adversary choosing the function value and slope at  *)
(* each step among classes placed around the thresholds of the method.     *)
(***************************************************************************)
EXTENDS LineSearch, Json
CONSTANTS Kinds, Depth, Starts, Emit
VARIABLES s, prev, hist, lens, n
mcvars == <<s, prev, hist, lens, n>>

Params == [backtrack |-> {<<"0.125", "0.0625">>, <<"0.25", "0.5">>, <<"0.0009765625", "0.25">>},
           nonmonotone |-> {<<2, "0.125", "0.125", "0.875">>, <<1, "0.0009765625", "0.25", "0.5">>},
           csrch |-> {<<"0.0009765625", "0.5", "0.0625">>, <<"0.25", "0.75", "0">>, <<"0.5", "0.125", "0.0625">>}]
Ranges == {<<"1", "0", "64">>, <<"1", "0.25", "2">>, <<"1", "1", "4">>, <<"2", "0.5", "2">>, <<"1", "1", "1">>, <<"0", "0", "8">>}
Vals == {"-3", "-0.25", "0", "0.25", "3"}

Small == CHOOSE g \in {"-0.25"} : TRUE
(* Values relative to the threshold of the sufficient decrease, to the best *)
(* value so far and to the value at step 0; slopes relative to g0.         *)
FChoices(t) ==
  {FTest(t), FAdd(FTest(t), "0.0625"), FAdd(FTest(t), "4"), FSub(FTest(t), "1")}
  \cup (IF t.kind = "csrch" THEN {t.cs.fx, FSub(t.cs.fx, "0.03125")} ELSE {t.f0})
GChoices(t) == IF t.kind = "csrch" THEN {FMul(t.g0, "2"), FMul(t.g0, "0.875"), FMul(t.g0, "0.25"), F0, FNeg(FMul(t.g0, "0.625")), FNeg(FMul(t.g0, "3"))} ELSE {t.g0}

MCInit == /\ \E k \in Kinds : \E p \in Params[k] : s = New(k, p) /\ hist = <<<<"new", k, p>>>>
          /\ lens = <<>> /\ n = 0 /\ prev = s
DoStart ==
  /\ s.task # "SEARCH" /\ n < Starts
  /\ n' = n + 1
  /\ \E r \in Ranges : \E f0 \in {"2", "5"} : \E g0 \in {"-1"} :
       /\ (n = 0 => f0 = "2")
       /\ s' = Start(s, f0, g0, r[1], r[2], r[3])
       /\ hist' = Append(hist, <<"start", f0, g0, r[1], r[2], r[3]>>)
  /\ lens' = <<>> /\ prev' = s'
DoIter ==
  /\ s.task = "SEARCH" /\ Len(lens) < Depth
  /\ \E f \in FChoices(s), g \in GChoices(s) :
       /\ s' = After(s, Outcome(s, f, g))
       /\ hist' = Append(hist, <<"iter", f, g>>)
       /\ lens' = Append(lens, s.stp)
  /\ prev' = s /\ UNCHANGED n
Finished == (s.task # "SEARCH" /\ n = Starts) \/ Len(lens) = Depth
(* (simulation) ends the behaviour *)
Stop == Emit /\ Finished /\ ~(Len(hist) > 0 /\ hist[Len(hist)] = <<"stop">>) /\ PrintT(ToJson(hist))
        /\ hist' = Append(hist, <<"stop">>) /\ UNCHANGED <<s, prev, lens, n>>
MCNext == DoStart \/ DoIter \/ Stop
MCSpec == MCInit /\ [][MCNext]_mcvars

(* Every concrete outcome is allowed by the protocol. *)
Refines == (prev.task = "SEARCH" /\ lens # <<>>) =>
                                   /\ Allowed(prev, s.task, s.status, s.stp)
                                   /\ s.task = "WARNING" => s.status \in Warnings
InBounds == s.task = "SEARCH" => Within(s, s.stp)
Shrinks == (s.kind # "csrch" /\ s.task = "SEARCH" /\ lens # <<>>) => FLt(s.stp, lens[Len(lens)])
(* Once bracketed, the step lies between the endpoints, and stx is the best *)
(* of the evaluated steps in the sense of the function or of its tilted    *)
(* version.                                                                *)
Bracket == (s.kind = "csrch" /\ s.task = "SEARCH" /\ s.cs.brackt) =>
  /\ FLe(s.cs.stmin, s.cs.stmax)
  /\ (FLe(s.lo, s.cs.stmin)) => (FLe(s.cs.stmin, s.stp) /\ FLe(s.stp, s.cs.stmax))
  /\ FLe(FMul(s.cs.gx, FSub(s.cs.sty, s.cs.stx)), F0)
=============================================================================
