----------------------------- MODULE TraceBox -----------------------------
(* Conformance of recorded operations on bound sets with Box.tla.          *)
EXTENDS Box, TraceBase
tvars == <<bvars, l>>
Contents == /\ DOMAIN vec' = DOMAIN Ev.vecs
            /\ \A v \in DOMAIN vec' : VEq(vec'[v], Ev.vecs[v])
            /\ Ev.guard = 1
Stay == UNCHANGED <<box, prec>>
TraceInit == AlgInit /\ box = <<>> /\ prec = <<>> /\ l = 1
Reset == Is("reset") /\ vec' = <<>> /\ own' = <<>> /\ box' = <<>> /\ prec' = <<>> /\ UNCHANGED <<handler, called>>
TLoad == /\ Is("load") /\ Load([v \in DOMAIN Ev.vecs |-> VNormalise(Ev.vecs[v])], Ev.own)
         /\ prec' = Ev.prec /\ UNCHANGED box
TNewBox ==
  /\ Is("box")
  /\ LET st == BoxStatus(Ev.s, Ev.lt, Ev.la, Ev.lv, Ev.ut, Ev.ua, Ev.uv)
     IN IF st = "ok" THEN /\ Ev.st = "ok"
                          /\ NewBox(Ev.b, Ev.s, Ev.lt, Ev.lv, Ev.ut, Ev.uv)
        ELSE /\ Ev.st # "ok" /\ Ev.errno = st
             /\ UNCHANGED bvars
  /\ Contents
  \* references taken by the call on the space and the vectors
  /\ Ev.st # "ok" => \A k \in DOMAIN Ev.refs : Ev.refs[k] = 0
  /\ Ev.st = "ok" => /\ \A v \in DOMAIN vec : Ev.refs[v] = (IF Ev.lt = "VECTOR" /\ Ev.lv = v THEN 1 ELSE 0) + (IF Ev.ut = "VECTOR" /\ Ev.uv = v THEN 1 ELSE 0)
\* what a set can do
TCan == /\ Is("can") /\ UNCHANGED bvars /\ Contents
        /\ Ev.can = (IF Ev.b = 0 THEN <<0, 0, 0, 0>> ELSE <<1, 1, 1, 1>>)
Target(d, st, value) ==
  /\ Ev.st = st
  /\ IF st = "OPK_SUCCESS" THEN Set(d, value) ELSE Keep
  /\ Stay
TProjVar == Is("projvar") /\ LET st == OpStatus(Ev.b, {Ev.dst, Ev.x})
                             IN Target(Ev.dst, st, IF st = "OPK_SUCCESS" THEN ProjVarValue(Ev.x, Ev.b) ELSE <<>>) /\ Contents
TProjDir == Is("projdir") /\ LET st == OpStatus(Ev.b, {Ev.dst, Ev.x, Ev.d})
                             IN Target(Ev.dst, st, IF st = "OPK_SUCCESS" THEN ProjDirValue(Ev.x, Ev.b, Ev.d, Ev.o) ELSE <<>>) /\ Contents
(* Without any bound, whether a variable which does not move is free is    *)
(* left open.                                                              *)
TFree == /\ Is("freevar")
         /\ LET st == OpStatus(Ev.b, {Ev.dst, Ev.x, Ev.d})
            IN /\ Ev.st = st /\ Stay
               /\ IF st # "OPK_SUCCESS" THEN Keep
                  ELSE LET f == FreeValue(Ev.x, Ev.b, Ev.d, Ev.o)
                           g == [i \in DOMAIN f |-> IF Absent(Ev.b) /\ FEq(vec[Ev.d][i], F0) THEN FNorm(Ev.vecs[Ev.dst][i]) ELSE f[i]]
                       IN Set(Ev.dst, g) /\ \A i \in DOMAIN g : g[i] \in {F0, FNorm(F1)}
         /\ Contents
Huge == IF prec[box[Ev.b].s] = "float" THEN "0x1.fffffep+127" ELSE "0x1.fffffffffffffp+1023"
Rtol == IF prec[box[Ev.b].s] = "float" THEN "4e-7" ELSE "1e-15"
Agree(got, s) == IF FGe(s, Huge) THEN FGe(got, Huge) ELSE FClose(got, s, Rtol, F0)
TLimits == /\ Is("steplim") /\ UNCHANGED bvars /\ Contents
           /\ LET st == OpStatus(Ev.b, {Ev.x, Ev.d})
              IN /\ Ev.st = st
                 /\ IF st # "OPK_SUCCESS" THEN \A k \in 1 .. 3 : Ev.s[k] = Ev.s0
                    ELSE LET r == Reaches(Ev.x, Ev.b, Ev.d, Ev.o)
                             still == \A i \in DOMAIN r : FIsNaN(r[i])
                         IN /\ IF Ev.ask[1] = 1 THEN Agree(Ev.s[1], SMin1(r)) ELSE Ev.s[1] = Ev.s0
                            /\ IF Ev.ask[2] = 1 THEN Agree(Ev.s[2], SMin2(r)) ELSE Ev.s[2] = Ev.s0
                            /\ IF Ev.ask[3] = 1
                               THEN Agree(Ev.s[3], SMax(r)) \/ (still /\ Absent(Ev.b))
                               ELSE Ev.s[3] = Ev.s0
(* the client changes the contents of a vector; or an array it had given *)
TFill == Is("fill") /\ Set(Ev.v, VNormalise(Ev.value)) /\ Stay /\ Contents
TScribble == Is("scribble") /\ UNCHANGED bvars /\ Contents
TraceNext == Reset \/ TLoad \/ TNewBox \/ TCan \/ TProjVar \/ TProjDir \/ TFree \/ TLimits \/ TFill \/ TScribble
TraceSpec == TraceInit /\ [][TraceNext]_tvars
==========================================================================
