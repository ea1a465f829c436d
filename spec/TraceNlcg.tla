----------------------------- MODULE TraceNlcg -----------------------------
(* Conformance of recorded runs of NLCG with Nlcg.tla.                    *)
(* Aspect "contract" only judges the protocol, counters and acceptance of  *)
(* iterates, "direction" the search directions and first steps.            *)
EXTENDS Nlcg, RevComm, TraceBase
CONSTANT Aspect
VARIABLES o, cl   \* the optimizer; what the client remembers
tvars == <<o, cl, l>>
None == [task |-> "none"]
NoClient == [f |-> F0, g |-> <<>>, tried |-> {}]
TraceInit == o = None /\ cl = NoClient /\ l = 1
Reset == Is("reset") /\ o' = None /\ cl' = NoClient

Config == [rule |-> Ev.rule, powell |-> Ev.powell, phua |-> Ev.phua, delta |-> FNorm(Ev.delta), eps |-> FNorm(Ev.eps),
           gatol |-> FNorm(Ev.gatol), grtol |-> FNorm(Ev.grtol), stpmin |-> FNorm(Ev.stpmin), stpmax |-> FNorm(Ev.stpmax),
           fg |-> Ev.fg, fmin |-> FNorm(Ev.fmin), float |-> Ev.float]
Given == IF Ev.ls.kind = "none" THEN DefaultSearch ELSE New(Ev.ls.kind, Ev.ls.p)
TNew == /\ Is("new") /\ Ev.alg = "nlcg" /\ Ev.ok
        /\ o' = NewOpt(Config, Given) /\ cl' = NoClient
        /\ Aspect = "contract" => Ev.task = "ERROR" /\ Ev.status = "OPK_NOT_STARTED"
Contract == Aspect = "contract"
Counts(p) == Ev.evs = p.evs /\ Ev.its = p.its /\ Ev.rss = p.rss
Answer(p) == Ev.ret = p.task /\ Ev.task = p.task /\ Ev.status = p.status
TStart == /\ Is("start") /\ o.task # "none"
          /\ LET p == [StartOpt(o) EXCEPT !.alpha = FNorm(Ev.alpha), !.beta = FNorm(Ev.beta)]
             IN o' = p /\ (Contract => Counts(p) /\ Answer(p) /\ VEq(Ev.x2, Ev.x))
          /\ cl' = NoClient

X == VNormalise(Ev.x)
G == VNormalise(Ev.g)
X2 == VNormalise(Ev.x2)
Ok == "OPK_SUCCESS"
R == IF o.c.float THEN "1e-4" ELSE "1e-10"
n == Len(X)

(* Calls out of turn. *)
TIdle == /\ Is("iter") /\ o.task = "ERROR"
         /\ UNCHANGED <<o, cl>>
         /\ Contract => Counts(o) /\ Answer(o) /\ VEq(Ev.x2, Ev.x) /\ Ev.gsame /\ FEq(Ev.alpha, o.alpha) /\ FEq(Ev.beta, o.beta)

(* The gradient and the decision at an accepted iterate. *)
AcceptRight(its) ==
  LET ginit == IF o.evs = 0 THEN FNorm(Ev.gnorm) ELSE o.ginit
  IN /\ Ev.task = (IF FLe(Ev.gnorm, Threshold(o, ginit)) THEN "FINAL_X" ELSE "NEW_X")
     /\ FClose(Ev.gnorm, VNorm2(G), R, F0)
     /\ Ev.ret = Ev.task /\ Ev.status = Ok /\ VEq(Ev.x2, Ev.x)
     /\ Ev.evs = o.evs + 1 /\ Ev.its = its /\ Ev.rss = o.rss
     /\ FEq(Ev.beta, o.beta) /\ FEq(Ev.alpha, o.alpha)
Accepted(its) ==
  [o EXCEPT !.evs = @ + 1, !.its = its, !.gnorm = FNorm(Ev.gnorm), !.task = Ev.task, !.status = Ok,
            !.ginit = IF o.evs = 0 THEN FNorm(Ev.gnorm) ELSE @]
Gd == SlopeAt(X, o.x0, G, o.alpha)
Ed == SlopeErr(X, o.x0, G, o.alpha, Eps(o.c))
Near(x, p, alpha) ==   \* x is p.x0 - alpha p.d to the rounding errors
  \A i \in DOMAIN x : FGt(FAbs(FMul(alpha, p.d[i])), "1e30") \/
    FLe(FAbs(FSub(x[i], FSub(p.x0[i], FMul(alpha, p.d[i])))),
        FAdd(FMul("2", FMul(alpha, p.ed)), FMul(FMul("4", Eps(o.c)), FAdd(FAbs(p.x0[i]), FAbs(FMul(alpha, p.d[i]))))))
TFirst == /\ Is("iter") /\ o.task = "COMPUTE_FG" /\ o.evs = 0
          /\ o' = Accepted(o.its) /\ cl' = [cl EXCEPT !.f = FNorm(Ev.f), !.g = G]
          /\ Contract => AcceptRight(o.its) /\ Ev.gsame
TTrial ==
  /\ Is("iter") /\ o.task = "COMPUTE_FG" /\ o.evs > 0
  /\ LET s == [o.ls EXCEPT !.stp = o.alpha]
         accept == Ev.task \in {"NEW_X", "FINAL_X"}
         p == [o EXCEPT !.evs = @ + 1, !.alpha = FNorm(Ev.alpha), !.task = Ev.task, !.status = Ev.status]
     IN /\ o' = (IF accept THEN Accepted(o.its + 1) ELSE p)
        /\ cl' = [cl EXCEPT !.f = FNorm(Ev.f), !.g = G, !.tried = @ \cup {o.alpha}]
        /\ IF Contract
           THEN /\ Ev.gsame
                /\ IF accept
                   THEN (MayConverge(s, Ev.f, Gd, o.e0, Ed) \/ GivesUp(s, cl.tried)) /\ AcceptRight(o.its + 1)
                   ELSE /\ ~MustConverge(s, Ev.f, Gd, o.e0, Ed)
                        /\ Counts(p) /\ Ev.ret = Ev.task
                        /\ \/ Ev.task = "COMPUTE_FG" /\ Ev.status = Ok /\ Inside(s, Ev.alpha, "0x1p-50")
                           \/ Ev.task = "ERROR" /\ FailsRight(s, Ev.status, Ev.alpha, "0x1p-50") /\ VEq(Ev.x2, Ev.x)
           ELSE Ev.task = "COMPUTE_FG" => Near(X2, o, Ev.alpha)

(* A new direction. *)
First == o.evs <= 1
Bends == ~FEq(Ev.beta, F0)      \* the direction is not the gradient
NewSearch(d, ed) ==
  LET alpha == FNorm(Ev.alpha)
      dtg == IF Contract THEN SlopeAt(X2, X, G, alpha) ELSE Slope(d, G)
      e0 == IF Contract THEN SlopeErr(X2, X, G, alpha, Eps(o.c)) ELSE SlopeError(o, d, ed, G)
      started == Ev.task = "COMPUTE_FG"
  IN [o EXCEPT !.task = Ev.task, !.status = Ev.status, !.rss = Ev.rss, !.alpha = alpha, !.beta = FNorm(Ev.beta),
               !.x0 = X, !.g0 = G, !.d = d, !.ed = ed, !.f0 = FNorm(Ev.f), !.dtg0 = dtg, !.e0 = e0,
               !.ls = IF started
                      THEN [o.ls EXCEPT !.task = "SEARCH", !.stp = alpha, !.f0 = FNorm(Ev.f), !.g0 = dtg, !.mem = Remember(o.ls, FNorm(Ev.f)),
                                        !.lo = FMul(o.c.stpmin, alpha), !.hi = FMul(o.c.stpmax, alpha)]
                      ELSE o.ls]
(* The steps allowed do not include the first one, or the slope is null.   *)
StartFailure == LET st == StartStatus("-1", Ev.alpha, FMul(o.c.stpmin, Ev.alpha), FMul(o.c.stpmax, Ev.alpha))
                IN IF st # Ok THEN {st}
                   ELSE IF FEq(o.gnorm, F0) \/ ~FFinite(o.gnorm) \/ ~FFinite(Ev.alpha) THEN {"OPK_NOT_A_DESCENT", "OPK_STPMIN_GT_STPMAX"} ELSE {}
TSearch ==
  /\ Is("iter") /\ o.task \in {"NEW_X", "FINAL_X"}
  /\ IF Contract
     THEN LET p == NewSearch(<<>>, F0)
          IN /\ o' = p /\ cl' = [cl EXCEPT !.tried = {F0}]
             /\ Ev.gsame /\ Ev.ret = Ev.task /\ Ev.evs = o.evs /\ Ev.its = o.its
             /\ Ev.rss = o.rss + (IF First \/ Bends THEN 0 ELSE 1)
             /\ IF Ev.task = "COMPUTE_FG"
                THEN /\ Ev.status = Ok
                     /\ StartStatus("-1", Ev.alpha, p.ls.lo, p.ls.hi) = Ok
                     \* the function decreases along the direction (a search given
                     \* up because of rounding errors may leave a null step)
                     /\ \/ FGt(Ev.alpha, F0) /\ FLt(p.dtg0, p.e0)
                        \/ FEq(Ev.alpha, F0) /\ FEq(o.alpha, F0) /\ ~First /\ VEq(Ev.x2, Ev.x)
                ELSE Ev.task = "ERROR" /\ Ev.status \in StartFailure /\ VEq(Ev.x2, Ev.x)
     ELSE LET r == Ratio(o, G)
              sd == Conjugate(o, G, FNorm(Ev.beta))
              dtg == Slope(sd.d, G)
              q == NewSearch(IF Bends THEN sd.d ELSE G, IF Bends THEN sd.ed ELSE F0)
              vague == Vague(r.den, r.eden) \/ ~FFinite(r.den) \/ ~FFinite(r.num)
              b == BetaOf(o, r)
              exact == Conjugate(o, G, b)
              sure == ~vague /\ ~Vague(r.num, r.enum)     \* the update is well defined
          IN /\ o' = q /\ cl' = [cl EXCEPT !.tried = {F0}]
             /\ IF Bends
                THEN /\ ~First /\ Ev.rss = o.rss
                     /\ ~vague => /\ FLe(FAbs(FSub(Ev.beta, b)), BetaError(r)) \/ (Vague(r.num, r.enum) /\ FLe(FAbs(FSub(Ev.beta, FDiv(r.num, r.den))), BetaError(r)))
                                  /\ ~SureFails(o, sd.d, sd.ed, G)
                     /\ LET e == FDiv(SlopeError(o, sd.d, sd.ed, G), FAbs(dtg))
                            e1 == FDiv(o.e0, FAbs(o.dtg0))
                        IN (FLt(e, "1e-3") /\ FLt(e1, "1e-3")) =>
                             FClose(Ev.alpha, NextStep(o, dtg), FAdd(R, FMul("4", FAdd(e, e1))), F0)
                ELSE /\ Ev.rss = o.rss + (IF First THEN 0 ELSE 1)
                     \* a restart has a reason
                     /\ (~First /\ sure /\ ~FEq(b, F0)) => ~SureDescends(o, exact.d, exact.ed, G)
                     /\ FClose(Ev.alpha, InitialStep(o, X, FNorm(Ev.f), o.gnorm), R, F0)
             /\ Ev.task = "COMPUTE_FG" => Near(X2, q, Ev.alpha)
TraceNext == Reset \/ TNew \/ TStart \/ TIdle \/ TFirst \/ TTrial \/ TSearch
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==========================================================================
