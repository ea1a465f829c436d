----------------------------- MODULE MCOptions -----------------------------
(***************************************************************************)
(* Option sets: valid ones where up to two fields take any value of a grid *)
(* around the limits; buffers and texts of all sizes.                      *)
(***************************************************************************)
EXTENDS Options, Util, Json, FiniteSets
CONSTANTS Emit
VARIABLES c
Vals == {"-inf", "inf", "nan", "-1", "0", "0x1p-1074", "-0x1p-1074", "0x1.fffffffffffffp-1", "1", "0x1.0000000000001p0", "2", "0x1p1000"}
FieldVals == [delta |-> Vals, eps |-> Vals, gatol |-> Vals, grtol |-> Vals, stpmin |-> Vals, stpmax |-> Vals, fmin |-> Vals,
              flags |-> {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 255, 256, 512, 768, 256 + 9} \cup {r + b : r \in 1 .. 8, b \in {256, 512, 768}},
              fg |-> {0, 1}, mem |-> {-1, 0, 1, 2, 5, 1000000000}, blmvm |-> {0, 1}, box |-> {0, 1, 2}, n |-> {0, 1, 3, 7}]
Nlcg == <<"n", "delta", "eps", "gatol", "grtol", "stpmin", "stpmax", "flags", "fg", "fmin">>
Vmlmb == <<"n", "delta", "eps", "gatol", "grtol", "stpmin", "stpmax", "mem", "blmvm", "box">>
Base == [n |-> 3, delta |-> "0.5", eps |-> "0.125", gatol |-> "0", grtol |-> "0.25", stpmin |-> "0x1p-30", stpmax |-> "0x1p30",
         flags |-> 0, fg |-> 0, fmin |-> "0", mem |-> 5, blmvm |-> 0, box |-> 0]
Init == c = [kind |-> "none"]
Next == /\ c.kind = "none"
        /\ \E alg \in {"nlcg", "vmlmb"} :
             LET fs == IF alg = "nlcg" THEN Nlcg ELSE Vmlmb IN
             \E j, k \in DOMAIN fs : j <= k /\ \E u \in FieldVals[fs[j]], v \in FieldVals[fs[k]] :
               c' = [kind |-> alg, o |-> [Base EXCEPT ![fs[j]] = u, ![fs[k]] = v]]
MCSpec == Init /\ [][Next]_c
Args(fs, o) == [k \in DOMAIN fs |-> o[fs[k]]]
EmitCase == c.kind # "none" /\ Emit => PrintT(ToJson(<<c.kind>> \o Args(IF c.kind = "nlcg" THEN Nlcg ELSE Vmlmb, c.o)))
(* Any field out of its range makes the set invalid, whatever the others. *)
Bad(o) == \E f \in {"delta", "eps", "gatol", "grtol", "stpmin", "stpmax"} : ~FFinite(o[f]) \/ FLt(o[f], F0)
Sound == CASE c.kind = "nlcg" -> Bad(c.o) => ~ValidNlcg(c.o)
           [] c.kind = "vmlmb" -> Bad(c.o) => ~ValidVmlmb(c.o)
           [] OTHER -> ValidNlcg(DefaultNlcg) /\ ValidVmlmb(DefaultVmlmb)
(* The descriptions identify the options. *)
ASSUME \A f, g \in FieldVals.flags : (Rule(f) \in 1 .. 8 /\ Rule(g) \in 1 .. 8 /\ NlcgText(f) = NlcgText(g)) => f = g
ASSUME \A n \in 0 .. 6 : \A s \in 1 .. 9 : Len(Written(SubSeq("abcdef", 1, n), s)) < s
=============================================================================
