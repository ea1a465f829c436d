----------------------------- MODULE TraceVmlmb -----------------------------
(* Conformance of recorded runs of VMLMB with Vmlmb.tla.                   *)
(* Aspects: "contract" (protocol, counters, acceptance of iterates),       *)
(* "feasible" (bounds) and "memory" (pairs, directions and first steps).   *)
EXTENDS Vmlmb, RevComm, TraceBase
CONSTANT Aspect
VARIABLES o, cl   \* the optimizer; what the client remembers
tvars == <<o, cl, l>>
None == [task |-> "none"]
NoClient == [tried |-> {}, known |-> FALSE]
TraceInit == o = None /\ cl = NoClient /\ l = 1
Reset == Is("reset") /\ o' = None /\ cl' = NoClient

Contract == Aspect = "contract"
Bounding == Aspect = "feasible"
Remembering == Aspect = "memory"
Ok == "OPK_SUCCESS"
Config == [mem |-> Ev.mem, blmvm |-> Ev.blmvm, save |-> Ev.save, bounded |-> Ev.bounded, open |-> Ev.open, lo |-> VNormalise(Ev.lo), up |-> VNormalise(Ev.up),
           delta |-> FNorm(Ev.delta), eps |-> FNorm(Ev.eps), gatol |-> FNorm(Ev.gatol), grtol |-> FNorm(Ev.grtol),
           stpmin |-> FNorm(Ev.stpmin), stpmax |-> FNorm(Ev.stpmax), float |-> Ev.float]
TNew == /\ Is("new") /\ Ev.alg = "vmlmb" /\ Ev.ok
        /\ LET c == Config IN o' = NewOpt(c, IF Ev.ls.kind = "none" THEN DefaultSearch(c) ELSE New(Ev.ls.kind, Ev.ls.p))
        /\ cl' = NoClient
        /\ Contract => Ev.task = "ERROR" /\ Ev.status = "OPK_NOT_STARTED" /\ Ev.method = Variant(Config)
        /\ Remembering => Ev.mp = 0
Counts(p) == Ev.evs = p.evs /\ Ev.its = p.its /\ Ev.rss = p.rss
Answer(p) == Ev.ret = p.task /\ Ev.task = p.task /\ Ev.status = p.status
X == VNormalise(Ev.x)
G == VNormalise(Ev.g)
X2 == VNormalise(Ev.x2)
R == IF o.c.float THEN "1e-4" ELSE "1e-10"
Feasible2 == (Bounding /\ o.c.bounded) => IsFeasible(o.c, X2)
(* The memory announced. *)
Announced == [j \in 1 .. Len(Ev.s) |-> [s |-> VNormalise(Ev.s[j]), y |-> VNormalise(Ev.y[j])]]
SamePair(p, q, tol, stol) ==
  /\ Len(p.s) = Len(q.s) /\ Len(p.y) = Len(q.y)
  /\ \A i \in DOMAIN q.s : FLe(FAbs(FSub(p.s[i], q.s[i])), stol[i]) /\ FLe(FAbs(FSub(p.y[i], q.y[i])), tol[i])
SameMemory(q) == /\ Ev.mp = Len(q) /\ Len(Ev.s) = Len(q) /\ ~Ev.more
                 /\ \A j \in DOMAIN q : VEq(Ev.s[j], q[j].s) /\ VEq(Ev.y[j], q[j].y)
(* The first pair of q is new: it is known to the rounding errors. *)
NewMemory(q) == /\ Ev.mp = Len(q) /\ Len(Ev.s) = Len(q) /\ ~Ev.more
                /\ \A j \in DOMAIN q :
                     IF j > 1 THEN VEq(Ev.s[j], q[j].s) /\ VEq(Ev.y[j], q[j].y)
                     ELSE LET e == FMul("2", Eps(o.c))
                              gp == PairGradient(o.c, X, G)
                          IN SamePair(Announced[1], q[1],
                                      [i \in DOMAIN X |-> FMul(e, FAdd(FAbs(gp[i]), FAbs(o.g0[i])))],
                                      [i \in DOMAIN X |-> FMul(e, FAdd(FAbs(X[i]), FAbs(o.x0[i])))])
Same == Remembering => SameMemory(o.pairs)

TStart == /\ Is("start") /\ o.task # "none"
          /\ LET p == [StartOpt(o) EXCEPT !.alpha = FNorm(Ev.alpha)]
             IN o' = p /\ (Contract => Counts(p) /\ Answer(p))
          /\ cl' = NoClient
          /\ Bounding \/ ~o.c.bounded => VEq(Ev.x2, IF o.c.bounded THEN Project(o.c, Ev.x) ELSE Ev.x)
          /\ Feasible2
          /\ Remembering => Ev.mp = 0
(* Calls out of turn. *)
TIdle == /\ Is("iter") /\ o.task = "ERROR"
         /\ UNCHANGED <<o, cl>>
         /\ Contract => Counts(o) /\ Answer(o) /\ VEq(Ev.x2, Ev.x) /\ Ev.gsame /\ FEq(Ev.alpha, o.alpha)
         /\ Same

(* The gradient and the decision at an accepted iterate. *)
AcceptRight(its) ==
  LET ginit == IF o.evs = 0 THEN FNorm(Ev.gnorm) ELSE o.ginit
  IN /\ Ev.task = (IF FLe(Ev.gnorm, Threshold(o, ginit)) THEN "FINAL_X" ELSE "NEW_X")
     /\ FClose(Ev.gnorm, VNorm2(Projected(o.c, X, G)), R, F0)
     /\ Ev.ret = Ev.task /\ Ev.status = Ok /\ VEq(Ev.x2, Ev.x)
     /\ Ev.evs = o.evs + 1 /\ Ev.its = its /\ Ev.rss = o.rss
     /\ FEq(Ev.alpha, o.alpha)
Accepted(its) ==
  [o EXCEPT !.evs = @ + 1, !.its = its, !.gnorm = FNorm(Ev.gnorm), !.task = Ev.task, !.status = Ok,
            !.ginit = IF o.evs = 0 THEN FNorm(Ev.gnorm) ELSE @]
Gd == SlopeAt(X, o.x0, G, o.alpha)
Ed == SlopeErr(X, o.x0, G, o.alpha, Eps(o.c))
(* x is the point of the search along d from x0, to the rounding errors    *)
Near(x, x0, d, ed, alpha) ==
  \A i \in DOMAIN x : FGt(FAbs(FMul(alpha, d[i])), "1e30") \/
    LET t == FSub(x0[i], FMul(alpha, d[i]))
        u == IF o.c.bounded THEN Clip(t, o.c.lo[i], o.c.up[i]) ELSE t
    IN FLe(FAbs(FSub(x[i], u)), FAdd(FMul("2", FMul(alpha, ed)), FMul(FMul("4", Eps(o.c)), FAdd(FAbs(x0[i]), FAbs(FMul(alpha, d[i]))))))
TFirst == /\ Is("iter") /\ o.task = "COMPUTE_FG" /\ o.evs = 0
          /\ o' = Accepted(o.its) /\ cl' = cl
          /\ Contract => AcceptRight(o.its) /\ Ev.gsame
          /\ Feasible2 /\ Same
TTrial ==
  /\ Is("iter") /\ o.task = "COMPUTE_FG" /\ o.evs > 0
  /\ LET s == [o.ls EXCEPT !.stp = o.alpha]
         accept == Ev.task \in {"NEW_X", "FINAL_X"}
         p == [o EXCEPT !.evs = @ + 1, !.alpha = FNorm(Ev.alpha), !.task = Ev.task, !.status = Ev.status]
     IN /\ o' = (IF accept THEN Accepted(o.its + 1) ELSE p)
        /\ cl' = [cl EXCEPT !.tried = @ \cup {o.alpha}]
        /\ Same /\ Feasible2
        /\ CASE Contract ->
                /\ Ev.gsame
                /\ IF accept
                   THEN (MayConverge(s, Ev.f, Gd, o.e0, Ed) \/ GivesUp(s, cl.tried)) /\ AcceptRight(o.its + 1)
                   ELSE /\ ~MustConverge(s, Ev.f, Gd, o.e0, Ed)
                        /\ Counts(p) /\ Ev.ret = Ev.task
                        /\ \/ Ev.task = "COMPUTE_FG" /\ Ev.status = Ok /\ Inside(s, Ev.alpha, R)
                           \/ Ev.task = "ERROR" /\ FailsRight(s, Ev.status, Ev.alpha, R) /\ VEq(Ev.x2, Ev.x)
             [] Bounding -> Ev.task = "ERROR" => ~MustConverge(s, Ev.f, Gd, o.e0, Ed)
             [] OTHER -> Ev.task = "COMPUTE_FG" => Near(X2, o.x0, o.d, o.ed, Ev.alpha)

-----------------------------------------------------------------------------
(* A new direction: steepest descent (Sd) or from the memory (Qn).         *)
Q == IF o.its >= 1 THEN Push(o, X, G) ELSE o.pairs
Sd == Projected(o.c, X, G)
(* Is the step beyond which nothing moves known for sure? *)
SureLast(d, ed) == \A i \in DOMAIN d : FEq(d[i], F0) \/ FEq(ed, F0) \/ FGt(FAbs(d[i]), FMul("1e3", ed))
RelD(d, ed) == IF FEq(ed, F0) THEN F0 ELSE FDiv(ed, FMul("1e-3", VNorm2(d)))
(* Is the first step the one of the specification? *)
Steps(d, ed, a) ==
  LET last == IF o.c.bounded THEN LastStep(o.c, X, d) ELSE FInf
      rel == IF FEq(ed, F0) THEN R ELSE FAdd(R, "2e-3")
  IN [sure |-> SureLast(d, ed), a |-> a, last |-> last, alpha |-> Min2(a, last),
      right |-> FClose(Ev.alpha, Min2(a, last), rel, F0)]
Steepest == [d |-> Sd, ed |-> F0, st |-> Steps(Sd, F0, InitialStep(o, X, G, FNorm(Ev.f)))]
NextSearch(d, ed, st, q) ==
  LET alpha == FNorm(Ev.alpha)
      started == Ev.task = "COMPUTE_FG"
      known == started /\ Near(X2, X, d, ed, alpha)     \* the direction is the one expected
      clipped == {i \in DOMAIN X : o.c.bounded /\ (FEq(X2[i], o.c.lo[i]) \/ FEq(X2[i], o.c.up[i]))}
      seen == [i \in DOMAIN X |-> FDiv(FSub(X[i], X2[i]), alpha)]
      dtg == IF known THEN Slope(d, G) ELSE IF clipped = {} /\ started THEN Slope(seen, G) ELSE F0
      e0 == IF known THEN FAdd(SlopeError(o, d, ed, G), FMul(R, FAbs(Slope(d, G))))
            ELSE IF clipped = {} /\ started THEN SlopeErr(X2, X, G, alpha, Eps(o.c)) ELSE FInf
      sure == known /\ st.sure /\ st.right
  IN [o EXCEPT !.task = Ev.task, !.status = Ev.status, !.rss = Ev.rss, !.alpha = alpha,
               !.x0 = X, !.g0 = PairGradient(o.c, X, G), !.d = d, !.ed = ed, !.f0 = FNorm(Ev.f), !.dtg0 = dtg, !.e0 = e0,
               !.pairs = Announced,
               !.ls = IF started
                      THEN [o.ls EXCEPT !.task = "SEARCH", !.stp = alpha, !.f0 = FNorm(Ev.f), !.g0 = dtg, !.mem = Remember(o.ls, FNorm(Ev.f)),
                                        !.lo = IF sure THEN FMul(o.c.stpmin, st.a) ELSE "nan",
                                        !.hi = IF sure THEN Min2(FMul(o.c.stpmax, st.a), st.last) ELSE "nan"]
                      ELSE o.ls]
(* The search may be impossible: nowhere to go, or steps not allowed.      *)
MayFail(st) ==
  LET s == StartStatus("-1", IF st.sure THEN st.alpha ELSE Ev.alpha, FMul(o.c.stpmin, st.a), Min2(FMul(o.c.stpmax, st.a), st.last))
  IN (IF s # Ok THEN {s} ELSE {}) \cup
     (IF o.c.bounded /\ (FEq(o.gnorm, F0) \/ FLe(st.last, F0)) THEN {"OPK_WOULD_BLOCK"} ELSE {}) \cup
     (IF FEq(o.gnorm, F0) \/ ~FFinite(o.gnorm) \/ ~FFinite(Ev.alpha) THEN {"OPK_NOT_A_DESCENT", "OPK_STPMIN_GT_STPMAX"} ELSE {})
TSearch ==
  /\ Is("iter") /\ o.task \in {"NEW_X", "FINAL_X"}
  /\ Feasible2
  /\ LET q == Q
         qn == o.its >= 1 /\ Ev.rss = o.rss      \* what the library announces
         r == Recursion(o, X, G, q)
         new == IF qn /\ r.ok THEN [d |-> r.d, ed |-> r.ed, st |-> Steps(r.d, r.ed, F1)] ELSE Steepest
         p == NextSearch(new.d, new.ed, new.st, q)
         started == Ev.task = "COMPUTE_FG"
         alpha == FNorm(Ev.alpha)
     IN /\ o' = p /\ cl' = [cl EXCEPT !.tried = {F0}]
        /\ CASE Contract ->
                /\ Ev.gsame /\ Ev.ret = Ev.task /\ Ev.evs = o.evs /\ Ev.its = o.its
                /\ Ev.rss \in {o.rss, o.rss + 1} /\ (o.its = 0 => Ev.rss = o.rss)
                \* restarts are counted
                /\ (started /\ o.its >= 1 /\ r.ok /\ ~r.vague) =>
                      LET isqn == Near(X2, X, r.d, r.ed, alpha)
                          issd == Near(X2, X, Sd, F0, alpha)
                      IN (isqn /\ ~issd => Ev.rss = o.rss) /\ (issd /\ ~isqn => Ev.rss = o.rss + 1)
                /\ (started /\ o.its >= 1 /\ ~r.ok /\ ~r.vague) => Ev.rss = o.rss + 1
                /\ IF started
                   THEN Ev.status = Ok /\ FGt(alpha, F0) /\ (FLt(p.dtg0, p.e0) \/ FEq(p.e0, FInf))
                   ELSE Ev.task = "ERROR" /\ Ev.status \in MayFail(new.st) /\ VEq(Ev.x2, Ev.x)
             [] Bounding -> Ev.task = "ERROR" => Ev.status \in MayFail(new.st)
             [] OTHER ->
                \* the choice of the direction
                /\ qn => (r.ok \/ r.vague) /\ (r.ok /\ ~r.vague => ~SureFails(o, r.d, r.ed, G))
                /\ (o.its >= 1 /\ ~qn) => ~(r.ok /\ ~r.vague /\ SureDescends(o, r.d, r.ed, G))
                \* the memory
                /\ (Ev.status = "OPK_WOULD_BLOCK" \/ NewMemory(Keep(o, IF qn THEN q ELSE <<>>, Len(X))))
                \* the direction and the first step
                /\ (started /\ (qn => r.ok /\ ~r.vague)) =>
                      /\ Near(X2, X, new.d, new.ed, alpha)
                      /\ IF new.st.sure THEN new.st.right ELSE FLe(alpha, FMul(new.st.a, FAdd(F1, R)))
TraceNext == Reset \/ TNew \/ TStart \/ TIdle \/ TFirst \/ TTrial \/ TSearch
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
