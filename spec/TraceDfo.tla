------------------------------ MODULE TraceDfo ------------------------------
(***************************************************************************)
(* Conformance of recorded runs.  `Aspect' selects the guarantee: "same"   *)
(* (D01), "budget" (D02), "best" (D03), "bounds" (D04), "radius" (D05),    *)
(* "units" (D06), "args" (D07), "solved" (D08).                            *)
(*                                                                         *)
(* rec[k] completes ws[k] with what has been seen of the run: its settings *)
(* and everything that has been evaluated.  begun[k] is the line where the *)
(* last direct run of slot k begins: the line of its i-th evaluation       *)
(* follows from it, so that other runs are compared with it.               *)
(***************************************************************************)
EXTENDS Dfo, TraceBase, F64, FiniteSets
CONSTANT Aspect
VARIABLES rec, begun
tvars == <<ws, rec, begun, l>>
Nothing == [cfg |-> <<>>]
TraceInit == DInit /\ l = 1 /\ rec = [k \in Slots |-> Nothing] /\ begun = [k \in Slots |-> 0]
Reset == Is("reset") /\ ws' = [k \in Slots |-> Empty] /\ rec' = [k \in Slots |-> Nothing] /\ begun' = [k \in Slots |-> 0]
K == Ev.k
C(k) == rec[k].cfg

Has(a) == Aspect = a
Dist(x, y) == VNorm2(VSub(x, y))
(* the caller's variables in units of the problem *)
Unscale(c, x) == IF c.scl = <<>> THEN x ELSE VForce([i \in DOMAIN x |-> FDiv(x[i], c.scl[i])])
Rescale(c, x) == IF c.scl = <<>> THEN x ELSE VMul(c.scl, x)
Better(c, f, g) == IF c.maximize THEN FGt(f, g) ELSE FLt(f, g)
-----------------------------------------------------------------------------
(* Invalid problems: the possible refusals. *)
Positive(a) == FGt(a, F0) /\ FFinite(a)
BadRho(c) == ~(FGt(c.rhoend, F0) /\ FGe(c.rhobeg, c.rhoend))
BadNpt(c) == c.npt < c.n + 2 \/ 2 * c.npt > (c.n + 1) * (c.n + 2)
Tight(c) == \E i \in DOMAIN c.xl : FLt(FSub(Unscale(c, c.xu)[i], Unscale(c, c.xl)[i]), FAdd(c.rhobeg, c.rhobeg))
Refusals(c) ==
  (IF c.n < (IF c.solver = "cobyla" THEN 1 ELSE 2) THEN {"BAD_NVARS"} ELSE {}) \cup
  (IF c.solver = "cobyla" /\ c.m < 0 THEN {"BAD_NCONS"} ELSE {}) \cup
  (IF c.solver # "cobyla" /\ BadNpt(c) THEN {"BAD_NPT"} ELSE {}) \cup
  (IF BadRho(c) THEN {"BAD_RHO_RANGE"} ELSE {}) \cup
  (IF \E i \in DOMAIN c.scl : ~Positive(c.scl[i]) THEN {"BAD_SCALING"} ELSE {})
(* (the distance of the bounds is looked at in problems otherwise valid) *)
AllRefusals(c) == IF Refusals(c) = {} /\ c.solver = "bobyqa" /\ Tight(c) THEN {"TOO_CLOSE"} ELSE Refusals(c)
-----------------------------------------------------------------------------
(* The starting point of BOBYQA, moved away from the bounds. *)
Moved(c, i) ==
  LET x == Unscale(c, c.x0)[i] lo == Unscale(c, c.xl)[i] up == Unscale(c, c.xu)[i] rb == c.rhobeg
      dl == FSub(x, lo) du == FSub(up, x)
  IN IF FLe(dl, rb) THEN (IF FLe(dl, F0) THEN lo ELSE FAdd(lo, rb))
     ELSE IF FLe(du, rb) THEN (IF FLe(du, F0) THEN up ELSE FSub(up, rb)) ELSE x
Start(c) == IF c.solver = "bobyqa" THEN VForce([i \in 1 .. c.n |-> Moved(c, i)]) ELSE VNormalise(Unscale(c, c.x0))
Close(x, y, tol) == Len(x) = Len(y) /\ \A i \in DOMAIN x : FClose(x[i], y[i], tol, tol)
InBounds(c, x) == \A i \in 1 .. c.n : FLe(c.xl[i], x[i]) /\ FLe(x[i], c.xu[i])
-----------------------------------------------------------------------------
(* Radii. *)
Half(r, e) == LET h == FMul("0.5", r) IN IF FLe(h, FMul("1.5", e)) THEN FNorm(e) ELSE h
Tenth(r, e) == LET q == FDiv(r, e) IN IF FLe(q, "16") THEN FNorm(e) ELSE IF FLe(q, "250") THEN FMul(FSqrt(q), e) ELSE FMul("0.1", r)
Next(c, r) == IF c.solver = "cobyla" THEN Half(r, c.rhoend) ELSE Tenth(r, c.rhoend)
RECURSIVE After(_, _, _)
After(c, r, n) == {r} \cup (IF FEq(r, c.rhoend) \/ n = 0 THEN {} ELSE After(c, Next(c, r), n - 1))
Follows(c, r, s) == \E t \in After(c, FNorm(r), 60) : FClose(s, t, "1e-9", F0)
(* the radii that were printed, with 4 digits at least: each follows the    *)
(* other by the rule, applied once                                          *)
RECURSIVE Chain(_, _, _)
Chain(c, r, s) == IF s = <<>> THEN TRUE
                  ELSE LET t == Next(c, r) IN FClose(Head(s), t, "1e-3", F0) /\ Chain(c, t, Tail(s))
Printed(c, rhos) == IF c.solver = "cobyla"
                    THEN rhos # <<>> /\ FClose(rhos[1], c.rhobeg, "1e-3", F0) /\ Chain(c, FNorm(c.rhobeg), Tail(rhos))
                    ELSE Chain(c, FNorm(c.rhobeg), rhos)
Lowest(c, rhos) == LET n == Len(rhos) IN IF n = 0 THEN c.rhobeg ELSE rhos[n]
(* The i-th evaluation explores x0 along an axis.                          *)
Axis(c, d, j, h) == \A i \in 1 .. c.n : IF i = j THEN FClose(d[i], h, "1e-9", "1e-12") ELSE FClose(d[i], F0, F0, "1e-12")
FirstPoints(c) == IF c.solver = "cobyla" THEN c.n + 1 ELSE c.npt
Side(c, i, up) == LET s == Start(c) IN IF up THEN FEq(s[i], Unscale(c, c.xu)[i]) ELSE FEq(s[i], Unscale(c, c.xl)[i])
(* The two displacements along axis j: on both sides of the starting point, *)
(* unless a bound forbids it.                                               *)
Disp1(c, j) == IF c.solver = "bobyqa" /\ Side(c, j, TRUE) THEN FNeg(c.rhobeg) ELSE c.rhobeg
Disp2(c, j) == IF c.solver = "bobyqa" /\ Side(c, j, FALSE) THEN FMin(FAdd(c.rhobeg, c.rhobeg), FSub(Unscale(c, c.xu)[j], Start(c)[j]))
               ELSE IF c.solver = "bobyqa" /\ Side(c, j, TRUE) THEN FMax(FNeg(FAdd(c.rhobeg, c.rhobeg)), FSub(Unscale(c, c.xl)[j], Start(c)[j]))
               ELSE FNeg(c.rhobeg)
Explores(k, i, x) ==
  LET c == C(k) u == Unscale(c, x) IN
  IF i = 1 THEN Close(u, Start(c), "1e-12")
  ELSE IF c.solver = "cobyla"
  THEN \* about the best vertex so far, one axis after the other
       \E p \in rec[k].poles : Axis(c, VSub(u, p), i - 1, c.rhobeg)
  ELSE LET d == VSub(u, Start(c)) IN
       IF i <= c.n + 1 THEN Axis(c, d, i - 1, Disp1(c, i - 1))
       ELSE IF i <= 2 * c.n + 1 THEN Axis(c, d, i - c.n - 1, Disp2(c, i - c.n - 1))
       ELSE \* then two variables at a time
            LET D == {j \in 1 .. c.n : ~FClose(d[j], F0, F0, "1e-12")} IN
            /\ Cardinality(D) = 2
            /\ \A j \in D : FClose(d[j], Disp1(c, j), "1e-9", F0) \/ FClose(d[j], Disp2(c, j), "1e-9", F0)
(* Later ones are at a distance of the best point that is ruled by the     *)
(* radius: `near' is the set of points that may be the best one.           *)
Ranged(c, d, lo, hi) == FGe(d, FMul(lo, "0.9999")) /\ FLe(d, FMul(hi, "1.0001"))
(* `last' tells that the run ends with this evaluation. *)
StepOK(k, rlo, rhi, x, last) ==
  LET c == C(k) u == Unscale(c, x) IN
  IF c.solver = "cobyla" THEN \E p \in rec[k].poles : Ranged(c, Dist(u, p), FMul("0.5", rlo), rhi)
  ELSE \E p \in rec[k].poles : /\ FLe(Dist(u, p), FMul("1.00001", rec[k].reach))
                               /\ last \/ FGe(Dist(u, p), FMul("0.49999", rlo))
-----------------------------------------------------------------------------
(* What is remembered of an evaluation. *)
Fresh(cfg, how) == [cfg |-> cfg, how |-> how, poles |-> {}, best |-> "none", bestx |-> {}, pts |-> <<>>, vals |-> <<>>, cvs |-> <<>>,
                    rho |-> F0, feasible |-> TRUE, reach |-> cfg.rhobeg, line |-> l]
KeepAll == Has("best") \/ Has("radius")
Seen(k, x, f, cv) ==
  LET r == rec[k] c == r.cfg u == Unscale(c, x)
      first == ws[k].nev = 0
      better == first \/ Better(c, f, r.best)
      tie == ~first /\ FEq(f, r.best)
      flat == c.solver # "cobyla" \/ (r.feasible /\ FEq(cv, F0))
  IN [r EXCEPT !.best = IF better THEN f ELSE @,
               !.bestx = IF KeepAll THEN (IF better THEN {x} ELSE IF tie THEN @ \cup {x} ELSE @) ELSE @,
               !.feasible = flat,
               !.poles = IF ~Has("radius") THEN {}
                         ELSE IF c.solver # "cobyla" THEN (IF better THEN {u} ELSE @)
                         ELSE IF flat \/ ws[k].nev < c.n THEN (IF better THEN {u} ELSE IF tie THEN @ \cup {u} ELSE @)
                         ELSE {Unscale(c, r.pts[i]) : i \in DOMAIN r.pts} \cup {u},
               !.reach = IF Has("radius") /\ c.solver # "cobyla" /\ ws[k].nev >= c.npt
                         THEN FMax(@, FMul("2", Dist(u, CHOOSE p \in r.poles : TRUE))) ELSE @,
               !.pts = IF KeepAll /\ c.solver = "cobyla" THEN Append(@, x) ELSE @,
               !.vals = IF KeepAll /\ c.solver = "cobyla" THEN Append(@, f) ELSE @,
               !.cvs = IF KeepAll /\ c.solver = "cobyla" THEN Append(@, cv) ELSE @]
(* Comparison with the run this one repeats: c.of and c.rel.               *)
RefLine(k) == begun[C(k).of]
Twin(k) == C(k).rel # "none"
RefEv(k, i) == Trace[RefLine(k) + i]
SameX(k, x, y) ==
  LET c == C(k) rc == C(c.of) IN
  IF c.rel \in {"scaled", "scaledopposite"} THEN VEq(Rescale(rc, x), y) ELSE VEq(x, y)
SameF(k, f, g) == IF C(k).rel \in {"opposite", "scaledopposite"} THEN FEq(f, FNeg(g)) ELSE FEq(f, g)
(* the i-th evaluation of the run of slot k *)
SameEval(k, i, x, f, cv) ==
  Twin(k) => LET e == RefEv(k, i) IN e.ev = "eval" /\ SameX(k, x, e.x) /\ SameF(k, f, e.f) /\ FEq(cv, e.cv)
(* the run of slot k is over after n evaluations *)
SameEnd(k, n, status, x, f, cv) ==
  Twin(k) => LET e == RefEv(k, n + 1) IN
    IF C(k).rel = "budget"
    THEN IF e.ev = "eval" THEN status = "TOO_MANY_EVALUATIONS" /\ n = C(k).maxfun
         ELSE e.status = status /\ SameX(k, x, e.x) /\ (f # "none" => SameF(k, f, e.f)) /\ (cv # "none" => FEq(cv, e.cv))
    ELSE e.ev = "end" /\ e.status = status /\ SameX(k, x, e.x) /\ (f # "none" => SameF(k, f, e.f)) /\ (cv # "none" => FEq(cv, e.cv))
Compared == Has("same") \/ Has("units") \/ Has("budget")
-----------------------------------------------------------------------------
(* Direct runs.                                                            *)
TBegin == /\ Is("begin") /\ begun' = [begun EXCEPT ![K] = l]
          /\ rec' = [rec EXCEPT ![K] = Fresh(Ev, "direct")]
          /\ ws' = [ws EXCEPT ![K] = [live |-> TRUE, prob |-> K, budget |-> IF Ev.maxfun < 1 THEN 1 ELSE Ev.maxfun, status |-> "ITERATE", nev |-> 0]]
TEval == /\ Is("eval") /\ ws[K].live /\ ws[K].status = "ITERATE"
         /\ Has("args") => AllRefusals(C(K)) = {}
         \* paid for by the budget: the verdict is only known at the end
         /\ Has("budget") => ws[K].nev < ws[K].budget
         /\ ws' = [ws EXCEPT ![K].nev = @ + 1]
         /\ Compared => SameEval(K, ws[K].nev + 1, Ev.x, Ev.f, Ev.cv)
         /\ (Has("bounds") /\ C(K).solver = "bobyqa") =>
               InBounds(C(K), Ev.x) /\ (ws[K].nev = 0 => Close(Ev.x, Rescale(C(K), Start(C(K))), "1e-14"))
         /\ (Has("radius") /\ ws[K].nev < FirstPoints(C(K))) => Explores(K, ws[K].nev + 1, Ev.x)
         /\ (Has("radius") /\ ws[K].nev >= (IF C(K).solver = "cobyla" THEN C(K).n + 1 ELSE C(K).npt)) => StepOK(K, C(K).rhoend, C(K).rhobeg, Ev.x, TRUE)
         /\ rec' = [rec EXCEPT ![K] = Seen(K, Ev.x, Ev.f, Ev.cv)]
         /\ UNCHANGED begun
Invalid == {"BAD_NVARS", "BAD_NCONS", "BAD_NPT", "BAD_RHO_RANGE", "BAD_SCALING", "TOO_CLOSE"}
Known == {"SUCCESS", "ROUNDING_ERRORS", "TOO_MANY_EVALUATIONS", "STEP_FAILED"} \cup Invalid
(* The best of what was evaluated. *)
BestX(r, x) == \E b \in r.bestx : Close(x, b, "1e-13")
EvaluatedAt(r, x, f, cv) == \E i \in DOMAIN r.pts : Close(r.pts[i], x, "1e-13") /\ FEq(r.vals[i], f) /\ (cv # "none" => FEq(r.cvs[i], cv))
LastIs(r, x) == Close(r.pts[Len(r.pts)], x, "1e-13")
(* f and cv are "none" when they are not reported *)
EndsBest(r, status, x, f, cv) ==
  IF r.cfg.solver = "cobyla"
  THEN /\ EvaluatedAt(r, x, f, cv)
       /\ r.feasible => \/ FEq(f, r.best)
                        \/ status = "SUCCESS" /\ LastIs(r, x)
  ELSE BestX(r, x) /\ (f # "none" => FEq(f, r.best))
MissBy(k, x) == Dist(Unscale(C(k), x), C(k).sol)
Allowed(c) == FMul(c.rhoend, IF c.solver = "cobyla" THEN "8" ELSE IF c.solver = "newuoa" THEN "2" ELSE "4")
TEnd == /\ Is("end") /\ ws[K].live /\ ws[K].status = "ITERATE" /\ Ev.status \in Known
        /\ LET c == C(K) n == ws[K].nev valid == Ev.status \notin Invalid IN
           /\ Has("args") => IF AllRefusals(c) = {} THEN valid /\ n >= 1
                             ELSE Ev.status \in AllRefusals(c) /\ n = 0 /\ Ev.out = 0 /\ VEq(Ev.x, c.x0)
           /\ Has("args") => Ev.intact /\ Ev.live = 0
           /\ Has("budget") => /\ (Ev.status = "TOO_MANY_EVALUATIONS" => n = ws[K].budget)
                               /\ n = Ev.calls /\ (c.solver = "cobyla" /\ valid => Ev.nevals = n)
                               /\ (c.iprint = 0 => Ev.out = 0)
           /\ (Compared /\ valid) => SameEnd(K, n, Ev.status, Ev.x, IF c.solver = "bobyqa" /\ Ev.status # "SUCCESS" THEN "none" ELSE Ev.f, Ev.cv)
           /\ (Has("best") /\ valid) => EndsBest(rec[K], Ev.status, Ev.x, IF c.solver = "bobyqa" /\ Ev.status # "SUCCESS" THEN "none" ELSE Ev.f, Ev.cv)
           /\ (Has("bounds") /\ valid /\ c.solver = "bobyqa") => InBounds(c, Ev.x)
           /\ (Has("units") /\ Ev.status = "TOO_CLOSE") => VEq(Ev.x, c.x0)
           /\ (Has("radius") /\ valid /\ c.iprint = 2) => /\ (n > c.n => Printed(c, Ev.rhos))
                                                          /\ (Ev.status = "SUCCESS" => FClose(Lowest(c, Ev.rhos), c.rhoend, "1e-3", F0))
           /\ (Has("solved") /\ c.feas) => Ev.status = "SUCCESS" /\ FLe(Ev.cv, FMul("2", c.rhoend))
           /\ (Has("solved") /\ c.sol # <<>>) =>
                 /\ Ev.status = "SUCCESS"
                 /\ FLe(MissBy(K, Ev.x), Allowed(c))
                 /\ FLe(Ev.cv, FMul("2", c.rhoend))
        /\ ws' = [ws EXCEPT ![K] = Empty] /\ UNCHANGED <<rec, begun>>
-----------------------------------------------------------------------------
(* Workspaces.                                                             *)
Reports(k) == Ev.status = ws'[k].status /\ Ev.nevals = ws'[k].nev
MustFail(c) == \/ Refusals([c EXCEPT !.scl = <<>>]) # {} \/ c.maxfun < 1
TCreate == /\ Is("create")
           /\ IF Ev.ok THEN /\ ~MustFail(Ev) /\ ~Ev.failed
                            /\ Create(K, K, Ev.maxfun) /\ Ev.status = "ITERATE" /\ Ev.nevals = 0
                            /\ (Has("radius") \/ Has("args")) => FEq(Ev.rho, F0)
                            /\ rec' = [rec EXCEPT ![K] = Fresh(Ev, "workspace")]
              ELSE /\ IF MustFail(Ev) THEN Ev.errno = "EINVAL" ELSE Ev.failed /\ Ev.errno = "ENOMEM"
                   /\ CreateFails(K) /\ UNCHANGED rec
           /\ (Ev.iprint = 0 => Ev.out = 0)
           /\ UNCHANGED begun
(* A radius is that of the rule and only reaches the end of the chain at   *)
(* the end.                                                                *)
RhoOK(k) == LET c == C(k) IN
  IF ws[k].nev = 0 THEN Follows(c, c.rhobeg, Ev.rho) ELSE Follows(c, rec[k].rho, Ev.rho)
TIterate == /\ Is("iterate") /\ ws[K].live
            /\ IF ws[K].status # "ITERATE"
               THEN /\ OutOfTurn(K) /\ Ev.ret = "CORRUPTED" /\ Reports(K) /\ VEq(Ev.x, Ev.next) /\ UNCHANGED rec
               ELSE /\ Ev.ret \in Final \cup {"ITERATE"}
                    /\ (Ev.ret = "TOO_MANY_EVALUATIONS") => ws[K].nev + 1 = ws[K].budget
                    /\ (Ev.ret = "ITERATE") => ws[K].nev + 1 < ws[K].budget
                    /\ ws' = [ws EXCEPT ![K].nev = @ + 1, ![K].status = Ev.ret]
                    /\ Reports(K)
                    /\ (Has("budget") /\ C(K).iprint = 0) => Ev.out = 0
                    /\ Compared => /\ SameEval(K, ws[K].nev + 1, Ev.x, Ev.f, Ev.cv)
                                   /\ IF Ev.ret = "ITERATE" THEN Twin(K) => (RefEv(K, ws[K].nev + 2).ev = "eval" /\ SameX(K, Ev.next, RefEv(K, ws[K].nev + 2).x))
                                      ELSE SameEnd(K, ws[K].nev + 1, Ev.ret, Ev.next, IF C(K).solver = "cobyla" THEN Ev.lastf ELSE "none", "none")
                                   /\ (C(K).solver = "cobyla" /\ Ev.ret = "ITERATE") => (Ev.lastf = Ev.f \/ FEq(Ev.lastf, Ev.f))
                    /\ LET r == Seen(K, Ev.x, Ev.f, Ev.cv) IN
                       /\ rec' = [rec EXCEPT ![K] = [r EXCEPT !.rho = Ev.rho]]
                       /\ (Has("best") /\ Ev.ret # "ITERATE") => EndsBest(r, Ev.ret, Ev.next, IF C(K).solver = "cobyla" THEN Ev.lastf ELSE "none", "none")
                    /\ Has("radius") => /\ RhoOK(K)
                                        /\ (Ev.ret = "SUCCESS") => FEq(Ev.rho, C(K).rhoend)
                                        /\ (ws[K].nev < FirstPoints(C(K))) => Explores(K, ws[K].nev + 1, Ev.x)
                                        /\ (ws[K].nev >= (IF C(K).solver = "cobyla" THEN C(K).n + 1 ELSE C(K).npt)) => StepOK(K, rec[K].rho, rec[K].rho, Ev.x, Ev.ret # "ITERATE")
            /\ UNCHANGED begun
Lost == ws' = [ws EXCEPT ![K].status = Ev.status] /\ Ev.status \in {"BAD_ADDRESS", "CORRUPTED"}
TWrong == /\ Is("wrong") /\ ws[K].live
          /\ IF ws[K].status = "ITERATE" THEN Missing(K) ELSE Lost
          /\ Ev.ret = Ev.status /\ Reports(K) /\ VEq(Ev.x, Ev.next) /\ UNCHANGED <<rec, begun>>
TRestart == /\ Is("restart") /\ Restart(K) /\ Ev.ret = "ITERATE" /\ Reports(K)
            /\ (Has("same") \/ Has("radius")) => FEq(Ev.rho, F0)
            /\ rec' = [rec EXCEPT ![K] = Fresh(@.cfg, "workspace")] /\ UNCHANGED begun
TDelete == Is("delete") /\ Delete(K) /\ Ev.badfree = 0 /\ UNCHANGED <<rec, begun>>
(* Missing workspaces, messages, memory. *)
TNull == /\ Is("null") /\ \A i \in 1 .. 3 : Ev.ret[i] = "BAD_ADDRESS"
         /\ \A i \in 1 .. 5 : Ev.errno[i] = "EFAULT"
         /\ Ev.nevals = -1 /\ FEq(Ev.rho, "-1") /\ FEq(Ev.lastf, "-1") /\ Ev.same
         /\ UNCHANGED <<ws, rec, begun>>
TReasons == /\ Is("reasons")
            /\ \A i, j \in DOMAIN Ev.list : /\ Ev.list[i][2] # "" /\ Ev.list[i][2] # "(null)"
                                            /\ (i # j /\ Ev.list[i][1] # "?") => Ev.list[i][2] # Ev.list[j][2]
            /\ UNCHANGED <<ws, rec, begun>>
TLeaks == Is("leaks") /\ Ev.live = 0 /\ Ev.badfree = 0 /\ UNCHANGED <<ws, rec, begun>>
Rest == TWrong \/ TRestart \/ TDelete \/ TNull \/ TReasons \/ TLeaks
TraceNext == Rest \/ Reset \/ TBegin \/ TEval \/ TEnd \/ TCreate \/ TIterate
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
