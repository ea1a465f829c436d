----------------------------- MODULE TraceSolve -----------------------------
(* Conformance of recorded runs of the driver with Solve.tla.              *)
EXTENDS F64, TraceBase
VARIABLES n
tvars == <<n, l>>
FPlus(a, b) == FAdd(a, b)
FMinus(a, b) == FSub(a, b)
FTimes(a, b) == FMul(a, b)
FLess(a, b) == FLt(a, b)
S == INSTANCE Solve WITH Plus <- FPlus, Minus <- FMinus, Times <- FTimes, Lt <- FLess, Zero <- "0", Half <- "0x1p-1"
Ok == "OPK_SUCCESS"
Problem == [a |-> VNormalise(Ev.a), c |-> VNormalise(Ev.c), lam |-> VNormalise(Ev.lam), lo |-> VNormalise(Ev.lo), up |-> VNormalise(Ev.up),
            k |-> FNorm(Ev.coup), q |-> FNorm(Ev.quart)]
Eps == IF Ev.float THEN "0x1p-23" ELSE "0x1p-52"
Memory == IF Ev.ls = 2 THEN Ev.m ELSE 1
Slack(w) == FMul("4e-15", FAbs(w))      (* at a few roundings, the search may not tell the values apart *)
TraceInit == n = 0 /\ l = 1
Reset == Is("reset") /\ UNCHANGED n
(* The norm of the projected gradient at the first point *)
Start(p) == VNormalise(S!Onto(p, VNormalise(Ev.x0)))
PGNorm2(p, x) == LET g == VNormalise(S!Gradient(p, x)) IN S!Norm2(VNormalise(S!Projected(p, x, g)))
(* the threshold of convergence, with the rounding errors of the norms *)
Threshold(p) == FMax(FNorm(Ev.gatol), FMul(FNorm(Ev.grtol), FSqrt(PGNorm2(p, Start(p)))))
(* rounding error of the gradient where it is computed *)
RECURSIVE SumAbs(_, _)
SumAbs(v, i) == IF i = 0 THEN "0" ELSE FAdd(SumAbs(v, i - 1), FAbs(v[i]))
Rounding(p, x) == FMul(FMul("16", Eps), FAdd(SumAbs(p.lam, Len(x)), FMul(FAdd(FAdd(FMax("1", SumAbs(p.a, Len(x))), FMul("4", p.k)), p.q), FMax("1", SumAbs(x, Len(x))))))
Bound(p, x) == FAdd(FMul("1.001", Threshold(p)), Rounding(p, x))
TSolve == /\ Is("solve") /\ Ev.ok /\ n' = n + 1
          /\ LET p == Problem  x == VNormalise(Ev.x)  fs == VNormalise(Ev.fs) IN
             /\ S!WellPosed(p)
             /\ Ev.task = "FINAL_X" /\ Ev.status = Ok                  (* it ends, by itself, successfully *)
             /\ Ev.nev = Ev.evs /\ Ev.its = Len(fs) - 1 /\ Ev.evs >= Ev.its + 1
             /\ Ev.feasible /\ S!Feasible(p, x)
             /\ S!Descending(fs, Memory, Slack)
             /\ LET e == Bound(p, x) IN FLe(PGNorm2(p, x), FMul(e, e)) /\ S!Certified(p, x, FMul(e, e))
TraceNext == Reset \/ TSolve
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
