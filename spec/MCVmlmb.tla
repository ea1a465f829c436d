------------------------------- MODULE MCVmlmb -------------------------------
(***************************************************************************)
(* A client answering the optimizer of Vmlmb.tla with values around the    *)
(* thresholds of the line search and gradients of a small grid, calling    *)
(* out of turn and restarting the optimizer now and then.                  *)
(***************************************************************************)
EXTENDS Vmlmb, Json
CONSTANTS Depth, Bounded, Emit
VARIABLES o, x, f, g, hist, done
mcvars == <<o, x, f, g, hist, done>>

Searches == {<<"none", <<>>>>, <<"backtrack", <<"0.125", "0.25">>>>, <<"nonmonotone", <<2, "0.125", "0.125", "0.875">>>>,
             <<"csrch", <<"0.0009765625", "0.5", "0">>>>}
(* bounds: commands and values *)
Boxes == IF Bounded
         THEN {[cmd |-> <<"1", "1", "-0.5", "1", "0.75">>, lo |-> <<"-0.5", "-0.5">>, up |-> <<"0.75", "0.75">>],
               [cmd |-> <<"1", "1", "0", "0">>, lo |-> <<F0, F0>>, up |-> <<FInf, FInf>>],
               [cmd |-> <<"1", "0", "2", "1", "0.5">>, lo |-> <<"-inf", "-inf">>, up |-> <<"1", "0.5">>],
               [cmd |-> <<"1", "2", "-1", "-inf", "2", "inf", "0">>, lo |-> <<"-1", "-inf">>, up |-> <<"inf", "0">>]}
         ELSE {[cmd |-> <<"0">>, lo |-> <<"-inf", "-inf">>, up |-> <<FInf, FInf>>]}
Configs == [mem : {1, 2, 5}, blmvm : BOOLEAN, save : BOOLEAN, bounded : {Bounded}, b : Boxes, delta : {"0.0625"}, eps : {F0, "0.125"},
            gatol : {F0, "0.25"}, grtol : {F0}, stpmin : {"0x1p-60", "0.5"}, stpmax : {"4", "0x1p60"}, float : {FALSE}]
Conf(c) == [mem |-> c.mem, blmvm |-> c.blmvm, save |-> c.save, bounded |-> c.bounded, open |-> FALSE, lo |-> c.b.lo, up |-> c.b.up, delta |-> c.delta,
            eps |-> c.eps, gatol |-> c.gatol, grtol |-> c.grtol, stpmin |-> c.stpmin, stpmax |-> c.stpmax, float |-> c.float]
Grads == {<<"1", "0">>, <<"-0.5", "1">>, <<"0.5", "0.5">>, <<"-0.25", "-0.125">>, <<F0, F0>>, <<"2", "-1">>, <<F0, "0.125">>}
Starts == {<<F0, F0>>, <<"1", "-2">>, <<"0.25", "-0.5">>}
CNum(b) == IF b THEN "1" ELSE "0"
NewCmd(c, s) == <<"new", "vmlmb", "double", "2", s[1]>> \o s[2] \o
                <<c.mem, CNum(c.blmvm), CNum(c.save), c.delta, c.eps, c.gatol, c.grtol, c.stpmin, c.stpmax>> \o c.b.cmd
MCInit == /\ \E c \in Configs, s \in Searches :
               /\ o = NewOpt(Conf(c), IF s[1] = "none" THEN DefaultSearch(c) ELSE New(s[1], s[2]))
               /\ hist = <<NewCmd(c, s)>>
          /\ x = <<F0, F0>> /\ f = F0 /\ g = <<F0, F0>> /\ done = FALSE
FChoices == IF o.evs = 0 THEN {F0, "2", "-3"}
            ELSE {FTest(o.ls), FAdd(FTest(o.ls), "0.25"), FSub(FTest(o.ls), "1"), o.f0}
GChoices == IF o.evs = 0 THEN Grads ELSE Grads \cup {VScale("0.25", o.g0), VNeg(o.g0), o.g0}
DoStart == /\ (o.task = "ERROR" \/ (Len(hist) > 5 /\ o.task = "NEW_X"))
           /\ \E x0 \in Starts : x' = (IF o.c.bounded THEN Project(o.c, x0) ELSE x0) /\ hist' = Append(hist, <<"start">> \o x0)
           /\ o' = StartOpt(o) /\ UNCHANGED <<f, g, done>>
Answer(ff, gg) == LET r == Call(o, x, ff, gg) IN o' = r.o /\ x' = r.x /\ f' = ff /\ g' = gg /\ hist' = Append(hist, <<"ans", ff>> \o gg) /\ UNCHANGED done
DoFG == o.task = "COMPUTE_FG" /\ \E ff \in FChoices, gg \in GChoices : Answer(ff, gg)
DoNew == o.task \in {"NEW_X", "FINAL_X"} /\ Answer(f, g)
DoIdle == o.task = "ERROR" /\ Answer("1", <<"1", "1">>)
Over == Len(hist) > Depth
Stop == Over /\ ~done /\ done' = TRUE /\ UNCHANGED <<o, x, f, g, hist>> /\ (Emit => PrintT(ToJson(hist)))
MCNext == (~Over /\ (DoStart \/ DoFG \/ DoNew \/ DoIdle)) \/ Stop
MCSpec == MCInit /\ [][MCNext]_mcvars

Counters == 0 <= o.rss /\ o.rss <= o.its /\ (o.evs > 0 => o.its < o.evs) /\ (o.evs = 0 => o.its = 0)
Started == o.status # "OPK_NOT_STARTED"
Searching == (o.task = "COMPUTE_FG" /\ o.evs > 0)
Descending == Searching => FLt(o.dtg0, F0) /\ Within(o.ls, o.alpha) /\ VEq(x, Along(o, o.alpha)) /\ FEq(o.ls.stp, o.alpha)
Ends == (o.task = "FINAL_X") => FLe(VNorm2(Projected(o.c, x, g)), Max3(F0, o.c.gatol, FMul(o.c.grtol, o.ginit)))
Goes == (o.task = "NEW_X") => FGt(VNorm2(Projected(o.c, x, g)), o.c.gatol)
InBounds == Started => IsFeasible(o.c, x)
Remembers == Len(o.pairs) <= Memory(o.c, Len(x)) /\ Len(o.pairs) <= o.its /\ (o.c.save /\ Searching => Len(o.pairs) < Memory(o.c, Len(x)))
(* A new point is feasible and really away from the former one. *)
Moves == Searching /\ o.c.bounded /\ o.c.stpmin = "0.5" /\ FLt(VNormInf(o.x0), "1e6") /\ FGt(VNormInf(o.d), "1e-6") => ~VEq(x, o.x0)

(* The recursion satisfies the secant equation of the most recent pair.    *)
Pair(s, y) == [s |-> s, y |-> y]
P1 == Pair(<<"1", "0.5">>, <<"2", "0.25">>)
P2 == Pair(<<"-0.5", "1">>, <<"0.25", "2">>)
P3 == Pair(<<"1", "1">>, <<"-2", "0.5">>)       \* negative curvature: not used
Free2 == [NewOpt([mem |-> 5, blmvm |-> FALSE, save |-> FALSE, bounded |-> FALSE, open |-> FALSE, float |-> FALSE, eps |-> F0], DefaultSearch([bounded |-> FALSE])) EXCEPT !.gnorm = F1]
ASSUME \A q \in {<<P1>>, <<P2>>, <<P1, P2>>, <<P2, P1>>, <<P1, P3, P2>>, <<P3, P2>>, <<P2, P1, P2>>} :
  LET k == IF q[1] = P3 THEN 2 ELSE 1
      r == Recursion(Free2, <<F0, F0>>, q[k].y, q)
  IN r.ok /\ VClose(r.d, q[k].s, "1e-14", "8") /\ FLt(r.ed, "1e-10")
ASSUME ~Recursion(Free2, <<F0, F0>>, <<F1, F1>>, <<P3>>).ok /\ ~Recursion(Free2, <<F0, F0>>, <<F1, F1>>, <<>>).ok
=============================================================================
