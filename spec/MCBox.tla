------------------------------- MODULE MCBox -------------------------------
(***************************************************************************)
(* On a grid of integers, the definitions of Box.tla mean what they should *)
(* for one variable: projections are the closest feasible points,          *)
(* directions keep exactly what leaves room to move, and the limits of the *)
(* steps separate feasible, partially blocked and blocked moves.  Each     *)
(* case is also emitted, to be replayed in the library.                    *)
(***************************************************************************)
EXTENDS Box, Json
CONSTANTS R, Emit
VARIABLE pick
Grid == -R .. R
F(k) == FOf(k, 1)
Bounds == {<<"-inf", "inf">>} \cup {<<F(a), "inf">> : a \in Grid} \cup {<<"-inf", F(a)>> : a \in Grid}
          \cup {<<F(a), F(b)>> : a \in Grid, b \in Grid}
OKBounds == {b \in Bounds : FLe(b[1], b[2])}
Steps == {FOf(k, 12) : k \in 0 .. 24 * R}
Move(x, d, o, s) == IF o > 0 THEN FAdd(x, FMul(s, d)) ELSE FSub(x, FMul(s, d))
Cases == [b : OKBounds, x : {F(k) : k \in Grid}, d : {F(k) : k \in -3 .. 3}, o : {-1, 1}]
MCInit == AlgInit /\ box = <<>> /\ prec = <<>> /\ pick \in Cases
MCNext == UNCHANGED <<bvars, pick>>
MCSpec == MCInit /\ [][MCNext]_<<bvars, pick>>
EmitCase == Emit => PrintT(ToJson(<<pick.b[1], pick.b[2], pick.x, pick.d, pick.o>>))

lo == pick.b[1]
up == pick.b[2]
Closest ==
  LET p == Clip(pick.x, lo, up)
  IN /\ Feasible(p, lo, up) /\ Clip(p, lo, up) = p
     /\ Feasible(pick.x, lo, up) => p = pick.x
     /\ \A y \in {F(k) : k \in Grid} : Feasible(y, lo, up) => FLe(FAbs(FSub(p, pick.x)), FAbs(FSub(y, pick.x)))
RoomToMove ==
  Feasible(pick.x, lo, up) =>
    LET eps == "0x1p-20"
        moved == Move(pick.x, pick.d, pick.o, eps)
        pd == ProjDir(pick.x, lo, up, pick.d, pick.o)
        fr == Free(pick.x, lo, up, pick.d, pick.o)
    IN /\ pd = (IF Feasible(moved, lo, up) THEN pick.d ELSE F0)
       /\ Feasible(Move(pick.x, pd, pick.o, eps), lo, up)
       /\ FEq(fr, IF Feasible(moved, lo, up) /\ ~FEq(pick.d, F0) THEN F1 ELSE F0)
Limits ==
  (Feasible(pick.x, lo, up) /\ ~FEq(pick.d, F0)) =>
    LET r == Reach(pick.x, lo, up, pick.d, pick.o)
        Tiny(s) == FLe(FAbs(FSub(s, r)), "1e-9")
    IN \A s \in Steps : Tiny(s) \/
         LET y == Move(pick.x, pick.d, pick.o, s)
         IN /\ FLt(s, r) => Feasible(y, lo, up)
            /\ FGt(s, r) => ~Feasible(y, lo, up) /\ Clip(y, lo, up) = Clip(Move(pick.x, pick.d, pick.o, FMul("4.0", s)), lo, up)
=============================================================================
