----------------------------- MODULE TraceFmin -----------------------------
(***************************************************************************)
(* Conformance of recorded searches: every point which is tried is one the *)
(* bracket allows, at the golden section of it (unless the function is     *)
(* declared smooth), the search ends when it must and not before, and what *)
(* it returns is the final bracket.  The versions with a context and with  *)
(* reverse communication try the same points as the plain one.             *)
(***************************************************************************)
EXTENDS TraceBase, F64
INSTANCE Fmin WITH Lt <- FLt, Inf <- FInf
VARIABLES s, cfg, first, done, pend
tvars == <<s, cfg, first, done, pend, l>>
NoFirst == [key |-> <<>>, done |-> <<>>, st |-> 0]
None == [ph |-> "none"]
TraceInit == l = 1 /\ s = None /\ cfg = None /\ first = NoFirst /\ done = <<>> /\ pend = "0"
Alpha == "0x1.8722191a02d61p-2"                   \* (3 - sqrt 5)/2
Gamma == "0x1.9e3779b97f4a8p+0"                   \* (1 + sqrt 5)/2
Eps == "0x1p-52"
Denorm == "0x1p-1074"
F(k) == FOf(k, 1)
Near(x, y, size) == FLe(FAbs(FSub(x, y)), FAdd(FMul(FMul("8", Eps), size), FMul("2", Denorm)))
Size(t) == FMax(FAbs(t.u), FMax(FAbs(t.v), FAbs(t.w)))
IsGolden(t, x) ==
  CASE t.ph = "in" -> Near(x, FAdd(FMul(Alpha, FSub(t.w, t.u)), t.u), FMax(FAbs(t.u), FAbs(t.w)))
    [] t.ph = "out" -> Near(x, FAdd(FMul(Gamma, FSub(t.w, t.v)), t.w), FMul("4", Size(t)))
    [] t.ph = "go" -> Near(x, FAdd(FMul(Alpha, FSub(t.w, t.v)), t.v), Size(t))
    [] OTHER -> TRUE
(* The tolerance in the order of points: two numbers next to each other    *)
(* have nothing in between.                                                *)
Allowed(t, x) ==
  CASE t.ph \in {"a", "b"} -> CanAsk(t, x)
    [] t.ph = "in" -> CanAsk(t, x) \/ (Near(t.u, t.w, FMax(FAbs(t.u), FAbs(t.w))) /\ x \in {t.u, t.w})
    [] t.ph = "out" -> CanAsk(t, x)
    [] OTHER -> CanAsk(t, x) \/ (Near(t.w, t.v, Size(t)) /\ x \in {t.u, t.v, t.w})
(* (there may be nothing between two bounds) *)
Within(t, x) == Inside(t, x) \/ (Near(t.a, t.b, FMax(FAbs(t.a), FAbs(t.b))) /\ (t.ba \/ t.bb) /\ FLe(Lower(t.a, t.b), x) /\ FLe(x, Upper(t.a, t.b)))
Smooth(fl) == (fl \div 4) % 2 = 1
Uncertainty(t) == FAbs(FSub(t.w, t.v))
Full(t) == FMax(Uncertainty(t), FAbs(FSub(t.v, t.u)))
MustEnd(t) == t.ph = "go" /\ ~Smooth(cfg.flags) /\ FLe(Uncertainty(t), FMul(FMul(cfg.prec, FSub(F1, FMul("4", Eps))), Size(t)))
MayEnd(t) == t.ph = "go" /\ FLe(IF Smooth(cfg.flags) THEN FMin(Uncertainty(t), FAbs(FSub(t.v, t.u))) ELSE Uncertainty(t),
                                FAdd(FMul(FAdd(cfg.prec, FMul("8", Eps)), Size(t)), FMul("4", Denorm)))
MayTry(t, x) == Allowed(t, x) /\ (Smooth(cfg.flags) \/ IsGolden(t, x)) /\ (t.ph = "go" => (~MustEnd(t)))
Norm(t) == [t EXCEPT !.u = FNorm(@), !.v = FNorm(@), !.w = FNorm(@), !.fu = FNorm(@), !.fv = FNorm(@), !.fw = FNorm(@)]
BA(fl) == fl % 2 = 1
BB(fl) == (fl \div 2) % 2 = 1
Prec(p) == IF FLt(p, F0) THEN "0x1p-26" ELSE FNorm(p)
-----------------------------------------------------------------------------
Reset == Is("reset") /\ s' = None /\ cfg' = None /\ first' = NoFirst /\ done' = <<>> /\ pend' = "0"
TFunc == Is("func") /\ cfg' = [ph |-> "none", kind |-> Ev.kind, c |-> FNorm(Ev.c)] /\ s' = None /\ first' = NoFirst /\ done' = <<>> /\ UNCHANGED pend
TMin == /\ Is("min")
        /\ cfg' = [ph |-> IF FEq(Ev.a, Ev.b) THEN "bad" ELSE "min", flags |-> Ev.flags, max |-> Ev.max, prec |-> Prec(Ev.prec), kind |-> cfg.kind, c |-> cfg.c, api |-> Ev.api]
        /\ s' = Begin(FNorm(Ev.a), FNorm(Ev.b), BA(Ev.flags), BB(Ev.flags)) /\ done' = <<>> /\ UNCHANGED <<first, pend>>
TEval == /\ Is("eval") /\ cfg.ph = "min"
         /\ LET x == FNorm(Ev.x) fx == FNorm(Ev.f) IN
            /\ MayTry(s, x) /\ Within(s, x) /\ ~Exhausted(s, cfg.max)
            /\ \E t \in After(s, x, fx) : s' = t
            /\ done' = Append(done, <<x, fx>>)
         /\ UNCHANGED <<cfg, first, pend>>
(* The best of all the points *)
RECURSIVE LeastTo(_, _)
LeastTo(d, n) == IF n = 0 THEN FInf ELSE FMin(LeastTo(d, n - 1), d[n][2])
Least == LeastTo(done, Len(done))
BestIsThere == FEq(Least, FMin(s.fv, FMin(s.fu, s.fw)))
(* x minimum, lower and upper ends, and their values *)
IsBracket(o) == /\ FEq(o[1], s.v) /\ FEq(o[4], s.fv)
                /\ FEq(o[2], Lower(s.u, s.w)) /\ FEq(o[3], Upper(s.u, s.w))
                /\ FEq(o[5], IF FLt(s.w, s.u) THEN s.fw ELSE s.fu) /\ FEq(o[6], IF FLt(s.w, s.u) THEN s.fu ELSE s.fw)
(* functions with one minimum, at c: it is in the bracket *)
Unimodal == cfg.kind \in {0, 1, 2, 3, 4, 15}
Holds(o) == LET e == FAdd(FMul(FMul("8", Eps), FMax(FAbs(cfg.c), Size(s))), "1e-160") lo == FSub(o[2], e) hi == FAdd(o[3], e) IN
            \/ (FLe(lo, cfg.c) \/ FEq(o[5], o[4])) /\ (FLe(cfg.c, hi) \/ FEq(o[6], o[4]))   \* (rounding makes functions flat)
            \/ (s.ba /\ ~Inside([s EXCEPT !.bb = FALSE], cfg.c)) \/ (s.bb /\ ~Inside([s EXCEPT !.ba = FALSE], cfg.c))
CloseTo(o) == \* how far the minimum can be
  LET a == FAbs(FSub(o[1], cfg.c)) IN
  cfg.kind \in {1, 3, 4, 15} /\ Inside(s, cfg.c) /\ ~FEq(o[5], o[4]) /\ ~FEq(o[6], o[4]) => FLe(a, FAdd(FAdd(Full(s), FMul(FMul("16", Eps), FMax(FAbs(cfg.c), Size(s)))), "1e-160")   (* (values underflow) *))
SameAsFirst == first.key = <<>> \/ first.key # <<s.a, s.b, cfg.flags, cfg.max, cfg.prec>> \/ (first.done = done /\ first.st = Ev.st)
TEnd == /\ Is("end") /\ Ev.intact
        /\ IF cfg.ph = "bad" THEN Ev.st = -1 /\ Ev.einval /\ Ev.untouched
           ELSE /\ Ev.n = s.n /\ BestIsThere /\ IsBracket(Ev.out)
                /\ \/ Ev.st = 0 /\ MayEnd(s) /\ (Unimodal => Holds(Ev.out)) /\ CloseTo(Ev.out)
                   \/ Ev.st = 1 /\ s.ph = "go" /\ Exhausted(s, cfg.max) /\ ~MustEnd(s)
                   \/ Ev.st = 2 /\ s.ph = "out" /\ Exhausted(s, cfg.max)
                /\ s.ph = "go" => FEq(Least, s.fv)
        /\ (SameAsFirst \/ cfg.ph = "bad")
        /\ first' = (IF cfg.ph = "bad" THEN first ELSE [key |-> <<s.a, s.b, cfg.flags, cfg.max, cfg.prec>>, done |-> done, st |-> Ev.st])
        /\ cfg' = [cfg EXCEPT !.ph = "none"] /\ UNCHANGED <<s, done, pend>>
-----------------------------------------------------------------------------
(* Reverse communication: cfg has the status st of the context. *)
RC == cfg.ph = "rc"
TNew == Is("new") /\ Ev.ok /\ Ev.st = -1 /\ FEq(Ev.prec, "0x1p-26") /\ s' = None
        /\ cfg' = [ph |-> "rc", st |-> -1, flags |-> 0, prec |-> "0x1p-26", kind |-> cfg.kind, c |-> cfg.c, begun |-> FALSE] /\ done' = <<>> /\ pend' = "0" /\ UNCHANGED first
Flags3 == Ev.flags % 8
TStart == /\ Is("start") /\ RC
          /\ IF FEq(Ev.a, Ev.b) THEN Ev.ret = 1 /\ Ev.st = cfg.st /\ UNCHANGED <<s, cfg, done>>
             ELSE /\ Ev.ret = 0 /\ Ev.st = 0 /\ Ev.got = Flags3 /\ done' = <<>>
                  /\ s' = Begin(FNorm(Ev.a), FNorm(Ev.b), BA(Ev.flags), BB(Ev.flags)) /\ cfg' = [cfg EXCEPT !.st = 0, !.flags = Flags3, !.begun = TRUE]
          /\ UNCHANGED <<first, pend>>
TPrec == /\ Is("prec") /\ RC
         /\ IF FLt(Ev.v, F0) THEN Ev.ret = 1 /\ UNCHANGED cfg ELSE Ev.ret = 0 /\ cfg' = [cfg EXCEPT !.prec = FNorm(Ev.v)]
         /\ FEq(Ev.got, cfg'.prec) /\ UNCHANGED <<s, first, done, pend>>
SamePoint == (Ev.ret = 1 /\ first.key # <<>> /\ SubSeq(first.key, 1, 3) = <<s'.a, s'.b, cfg.flags>> /\ s'.n + 1 <= Len(first.done)) => first.done[s'.n + 1][1] = FNorm(Ev.x)
(* what the context asks next in the state t *)
Asks(t) == \/ Ev.ret = 1 /\ MayTry(t, FNorm(Ev.x)) /\ Within(t, FNorm(Ev.x)) /\ pend' = FNorm(Ev.x)
           \/ Ev.ret = 3 /\ MayEnd(t) /\ FEq(t.fv, LeastTo(done', Len(done'))) /\ UNCHANGED pend
TNext == /\ Is("next") /\ RC /\ Ev.ret = Ev.st /\ cfg' = [cfg EXCEPT !.st = Ev.st] /\ UNCHANGED first
         /\ IF Ev.how = 2 \/ cfg.st = -1 \/ (cfg.st \in {1, 3} /\ ~FEq(Ev.x0, pend))
            THEN Ev.ret = -1 /\ FEq(Ev.x, Ev.x0) /\ UNCHANGED <<s, done, pend>>
            ELSE CASE cfg.st = 0 -> s' = s /\ done' = done /\ Asks(s)
                   [] cfg.st = 3 -> s' = s /\ done' = done /\ Asks(s)
                   [] cfg.st = 1 -> \E t \in After(s, pend, FNorm(Ev.f)) : s' = t /\ done' = Append(done, <<pend, FNorm(Ev.f)>>) /\ Asks(t) /\ SamePoint
TStatus == Is("status") /\ RC /\ Ev.st = cfg.st /\ UNCHANGED <<s, cfg, first, done, pend>>
TInitial == /\ Is("initial") /\ RC /\ UNCHANGED <<s, cfg, first, done, pend>> /\ Ev.ret2 = Ev.ret
            /\ IF cfg.st < 0 THEN Ev.ret = 1 ELSE Ev.ret = 0 /\ FEq(Ev.a, s.a) /\ FEq(Ev.b, s.b) /\ Ev.flags = cfg.flags
TFinal == /\ Is("final") /\ RC /\ UNCHANGED <<s, cfg, first, done, pend>> /\ Ev.ret2 = Ev.ret
          /\ IF cfg.st < 0 THEN Ev.ret = 1 ELSE Ev.ret = 0 /\ Ev.n = s.n /\ (s.ph = "go" => IsBracket(Ev.out))
TNoContext == Is("nocontext") /\ Ev.ok /\ UNCHANGED <<s, cfg, first, done, pend>>
TraceNext == Reset \/ TFunc \/ TMin \/ TEval \/ TEnd \/ TNew \/ TStart \/ TPrec \/ TNext \/ TStatus \/ TInitial \/ TFinal \/ TNoContext
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
