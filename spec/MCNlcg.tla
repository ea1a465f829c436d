------------------------------- MODULE MCNlcg -------------------------------
(***************************************************************************)
(* A client answering the optimizer of Nlcg.tla with values around the     *)
(* thresholds of the line search and gradients of a small grid, calling    *)
(* out of turn and restarting the optimizer now and then.                  *)
(***************************************************************************)
EXTENDS Nlcg, Json
CONSTANTS Depth, Rules, Emit
VARIABLES o, x, f, g, hist, done
mcvars == <<o, x, f, g, hist, done>>

Searches == {<<"none", <<>>>>, <<"backtrack", <<"0.125", "0.25">>>>, <<"nonmonotone", <<2, "0.125", "0.125", "0.875">>>>,
             <<"csrch", <<"0.0009765625", "0.5", "0">>>>}
Configs == [rule : Rules, powell : BOOLEAN, phua : BOOLEAN, delta : {"0.0625"}, eps : {F0, "0.125"}, gatol : {F0, "0.25"},
            grtol : {F0}, stpmin : {"0x1p-60", "0.5"}, stpmax : {"4", "0x1p60"}, fg : {FALSE, TRUE}, fmin : {"-4"}, float : {FALSE}]
Grads == {<<"1", "0">>, <<"-0.5", "1">>, <<"0.5", "0.5">>, <<"-0.25", "-0.125">>, <<F0, F0>>, <<"2", "-1">>, <<F0, "0.125">>}
Starts == {<<F0, F0>>, <<"1", "-2">>, <<"0.25", "-0.5">>}
CNum(b) == IF b THEN "1" ELSE "0"
NewCmd(c, s) == <<"new", "nlcg", "double", "2", s[1]>> \o s[2] \o
                <<c.rule, CNum(c.powell), CNum(c.phua), c.delta, c.eps, c.gatol, c.grtol, c.stpmin, c.stpmax, CNum(c.fg), c.fmin>>
MCInit == /\ \E c \in Configs, s \in Searches :
               /\ o = NewOpt(c, IF s[1] = "none" THEN DefaultSearch ELSE New(s[1], s[2]))
               /\ hist = <<NewCmd(c, s)>>
          /\ x = <<F0, F0>> /\ f = F0 /\ g = <<F0, F0>> /\ done = FALSE
Slope0 == Slope(o.d, g)
FChoices == IF o.evs = 0 THEN {F0, "2", "-3"}
            ELSE {FTest(o.ls), FAdd(FTest(o.ls), "0.25"), FSub(FTest(o.ls), "1"), o.f0}
GChoices == IF o.evs = 0 THEN Grads ELSE Grads \cup {o.g0, VNeg(o.g0), VScale("0.25", o.g0)}
DoStart == /\ (o.task = "ERROR" \/ (Len(hist) > 5 /\ o.task = "NEW_X"))
           /\ \E x0 \in Starts : x' = x0 /\ hist' = Append(hist, <<"start">> \o x0)
           /\ o' = StartOpt(o) /\ UNCHANGED <<f, g, done>>
Answer(ff, gg) == LET r == Call(o, x, ff, gg) IN o' = r.o /\ x' = r.x /\ f' = ff /\ g' = gg /\ hist' = Append(hist, <<"ans", ff>> \o gg) /\ UNCHANGED done
DoFG == o.task = "COMPUTE_FG" /\ \E ff \in FChoices, gg \in GChoices : Answer(ff, gg)
DoNew == o.task \in {"NEW_X", "FINAL_X"} /\ Answer(f, g)
DoIdle == o.task = "ERROR" /\ Answer("1", <<"1", "1">>)
Over == Len(hist) > Depth
Stop == Over /\ ~done /\ done' = TRUE /\ UNCHANGED <<o, x, f, g, hist>> /\ (Emit => PrintT(ToJson(hist)))
MCNext == (~Over /\ (DoStart \/ DoFG \/ DoNew \/ DoIdle)) \/ Stop
MCSpec == MCInit /\ [][MCNext]_mcvars

Counters == 0 <= o.rss /\ o.rss <= o.its /\ (o.evs > 0 => o.its < o.evs) /\ (o.evs = 0 => o.its = 0)
Searching == (o.task = "COMPUTE_FG" /\ o.evs > 0)
Descending == Searching => FLt(o.dtg0, F0) /\ Within(o.ls, o.alpha) /\ VEq(x, Along(o, o.alpha)) /\ FEq(o.ls.stp, o.alpha)
Ends == (o.task = "FINAL_X") => FLe(VNorm2(g), Max3(F0, o.c.gatol, FMul(o.c.grtol, o.ginit)))
Goes == (o.task = "NEW_X") => FGt(VNorm2(g), o.c.gatol)

(* With exact line searches on a quadratic function the rules coincide:    *)
(* then g is orthogonal to the former gradient and direction.              *)
Orthogonal(u, v) == FEq(VDot(u, v), F0)
ASSUME \A g0 \in Grads \ {<<F0, F0>>} : \A u \in {<<FNeg(g0[2]), g0[1]>>, VScale("0.5", <<FNeg(g0[2]), g0[1]>>)} :
  LET Opt(rule) == [NewOpt([rule |-> rule, powell |-> TRUE, float |-> FALSE], DefaultSearch)
                    EXCEPT !.g0 = g0, !.d = g0, !.dtg0 = FNeg(VDot(g0, g0)), !.evs = 3]
      Beta(rule) == BetaOf(Opt(rule), Ratio(Opt(rule), u))
  IN /\ Orthogonal(u, g0)
     /\ \A rule \in 1 .. 8 : FClose(Beta(rule), FDiv(VDot(u, u), VDot(g0, g0)), "1e-14", F0)
=============================================================================
