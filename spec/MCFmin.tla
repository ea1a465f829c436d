------------------------------- MODULE MCFmin -------------------------------
(***************************************************************************)
(* All searches on a grid of integers, for all functions with few values   *)
(* (chosen as they are asked), from any interval, with any bounds: at any  *)
(* time the best point so far is in the bracket, it is the middle of it    *)
(* once there is a bracket, bounds are never passed nor reached, and the   *)
(* bracket shrinks.  Another specification makes histories of calls of the *)
(* version with reverse communication, to be replayed.                     *)
(***************************************************************************)
EXTENDS Fmin, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Top, Depth, Emit
ILt(p, q) == p < q
VARIABLES s, f, x, hist
vars == <<s, f, x, hist>>
Values == 0 .. Top - 1
Grid == -N .. N
NoX == N + 1
MCInit == /\ \E a, b \in -2 .. 2, ba, bb \in BOOLEAN : a # b /\ s = Begin(a, b, ba, bb)
          /\ f = <<>> /\ x = NoX /\ hist = <<>>
Ask == \E p \in Grid : CanAsk(s, p) /\ x' = p /\ UNCHANGED hist
       /\ \E v \in (IF p \in DOMAIN f THEN {f[p]} ELSE Values) : f' = (p :> v) @@ f /\ s' \in After(s, p, v)
MCSpec == MCInit /\ [][Ask]_vars
SoundInv == Sound(s)
InsideInv == x # NoX => Inside(s, x)
Best == CHOOSE v \in {f[p] : p \in DOMAIN f} : \A p \in DOMAIN f : v <= f[p]
BestIs(v) == \A p \in DOMAIN f : v <= f[p]
BestInv == /\ s.ph = "go" => BestIs(s.fv)
           /\ s.ph = "out" => BestIs(s.fw)
           /\ s.ph = "go" => f[s.v] = s.fv
           /\ \A e \in {"u", "w"} : s.ph \in {"go", "out"} /\ s[e] \in DOMAIN f => s["f" \o e] = f[s[e]]
(* on a function which decreases and then increases, the minimum is in the bracket *)
Unimodal == \A p, q, r \in DOMAIN f : p < q /\ q < r => ~(f[p] < f[q] /\ f[q] > f[r])
Width(t) == Upper(t.u, t.w) - Lower(t.u, t.w)
Shrinks == [][(s.ph = "go" => s'.ph = "go" /\ Width(s') < Width(s) /\ Lower(s'.u, s'.w) >= Lower(s.u, s.w) /\ Upper(s'.u, s'.w) <= Upper(s.u, s.w))]_vars
(* a point left out of the bracket is never better than the middle, and is *)
(* on the other side of a point at least as good                           *)
LeftOut == s.ph = "go" => \A p \in DOMAIN f : (p < Lower(s.u, s.w) \/ p > Upper(s.u, s.w)) => f[p] >= s.fv
Few == s.ph \in {"a", "b"} => s.n <= 1
FewIn == s.ph = "in" => s.n = (IF s.ba THEN 0 ELSE 1) + (IF s.bb THEN 0 ELSE 1)
-----------------------------------------------------------------------------
(* Histories of the version with reverse communication. *)
R(S) == RandomElement(S)
EInit == s = <<>> /\ f = <<>> /\ x = NoX /\ hist = <<>>
Op(r) == CASE r = 1 -> <<"start", R(0 .. 3)>> [] r = 2 -> <<"same", 0>> [] r = 3 -> <<"prec", R({-3, -2, 2, 3, 4, 6, 8, 10, 12, 17})>>
           [] r \in 4 .. 6 -> <<"next", R(1 .. 4)>> [] r \in 7 .. 9 -> <<"next", R(20 .. 90)>> [] r = 10 -> <<"changed", 0>> [] r = 11 -> <<"null", 0>>
           [] r = 12 -> <<"initial", 0>> [] r \in 13 .. 14 -> <<"final", 0>> [] r = 15 -> <<"status", 0>> [] OTHER -> <<"next", 100>>
EDo == Len(hist) < Depth /\ hist' = Append(hist, IF Len(hist) = 1 THEN <<"start", R(0 .. 3)>> ELSE IF R(1 .. 12) = 1 THEN Op(R(10 .. 11)) ELSE Op(R({1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 14, 15, 16}))) /\ UNCHANGED <<s, f, x>>
EEnd == Len(hist) = Depth /\ x = NoX /\ x' = 0 /\ (Emit => PrintT(ToJson(hist))) /\ UNCHANGED <<s, f, hist>>
ESpec == EInit /\ [][EDo \/ EEnd]_vars
=============================================================================
